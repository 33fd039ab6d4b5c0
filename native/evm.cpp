// Z04, Z05: the circuit of the EVM arithmetic operations.  The real circuit is built and filled in with unknown words (dump:
// obligations), with numbers (search), and with cells given from outside (replay).
#include "evm.hpp"
// how an operation is placed: alone, between others, last
static std::vector<step> placed(const std::string &op, int where, vf::val a, vf::val b, std::size_t &at, std::size_t &start) {
    step x{op, a, b};
    start = where == 1 ? 4 : 1;
    if (where == 0) { at = 0; return {x}; }
    if (where == 1) { at = 1; return {{"MUL", V(wide_of("ffff0000000000000000000000000000000001234567")), V(wide_of("98765432100000000000000000000000000000000000001"))}, x, {"DIV", V(wide_of("fffffffffffffffffffffffffffffffffffffffffff")), V(wide_of("1234500000"))}}; }
    at = 2; return {{"DIV", V(wide_of("123456789abcdef")), V(0)}, {"ISZERO", V(0), V(0)}, x, {op, V(7), V(wide_of("100000000000000000000"))}};
}
static std::string js_val(const vf::val &v) { return v.n >= 0 ? "\"n" + std::to_string(v.n) + "\"" : "\"" + text(v.v) + "\""; }
struct shower : boost::static_visitor<void> {
    std::ostream &o;
    shower(std::ostream &o) : o(o) { }
    void show(const expr &e) { boost::apply_visitor(*this, e.get_expr()); }
    void operator()(const nil::crypto3::math::term<var> &t) { o << "[\"t\"," << js_val(t.get_coeff().data.v); for (auto &v : t.get_vars()) o << ",[" << (int)v.type << "," << v.index << "," << v.rotation << "," << (v.relative ? 1 : 0) << "]"; o << "]"; }
    void operator()(const nil::crypto3::math::pow_operation<var> &p) { o << "[\"p\"," << p.get_power() << ","; show(p.get_expr()); o << "]"; }
    void operator()(const nil::crypto3::math::binary_arithmetic_operation<var> &b) { o << "[\"" << "+-*"[(int)b.get_op()] << "\","; show(b.get_expr_left()); o << ","; show(b.get_expr_right()); o << "]"; }
};
static void show_cells(std::ostream &o, run &r) {
    o << "[";
    bool first = true;
    for (std::size_t t = 0; t < 4; t++) {
        std::size_t n = t == var::witness ? r.as.witnesses_amount() : t == var::public_input ? r.as.public_inputs_amount() : t == var::constant ? r.as.constants_amount() : r.as.selectors_amount();
        for (std::size_t i = 0; i < n; i++) for (std::size_t k = 0; k < r.as.rows_amount(); k++) { auto v = r.as.cell(t, i, k).data.v; if (v.n < 0 && v.v == 0) continue; o << (first ? "" : ",") << "[" << t << "," << i << "," << k << "," << js_val(v) << "]"; first = false; }
    }
    o << "]";
}
static std::vector<std::pair<wide, wide>> samples() {
    std::mt19937_64 g(20);
    std::vector<std::pair<wide, wide>> r;
    auto w = [&](int n) { wide x = 0; for (int i = 0; i < n; i++) x = (x << 16) + 1 + g() % 65535; return x; };
    for (int i = 0; i < 6; i++) r.push_back({w(16), w(16)});
    for (int i = 0; i < 4; i++) r.push_back({w(16), w(3 + 3 * i)});
    r.push_back({w(16), w(1)}); r.push_back({w(16), 1}); r.push_back({w(16), w(2)});
    r.push_back({0, w(16)}); r.push_back({0, 0}); r.push_back({w(16), 0});
    return r;
}
// operands whose quotients and remainders compare in different ways, part by part: a division is followed along their paths
static const std::vector<std::pair<wide, wide>> &patterns() {
    static std::vector<std::pair<wide, wide>> r;
    if (r.empty()) {
        std::mt19937_64 g(7);
        auto w = [&](int n) { wide x = 0; for (int i = 0; i < n; i++) x = (x << 16) + 1 + g() % 65535; return x; };
        r = {{w(16), 0}, {0, 0}, {0, w(16)}, {w(16), 1}, {W256 - 1, W256 - 1}, {w(3), w(16)}};
        for (int i = 0; i < 6; i++) {                      // the remainder is like the divisor in its upper parts, down to part k
            int k = std::vector<int>{0, 1, 4, 8, 12, 15}[i];
            wide b = w(15) << 16 * (i & 1), q = b;
            q = (q >> 16 * (k + 1) << 16 * (k + 1)) + (((b >> 16 * k & wide(0xffff)) != 0 ? (b >> 16 * k & wide(0xffff)) - 1 : wide(0)) << 16 * k);
            for (int j = 0; j < k; j++) q += (j % 3 == 0 ? (b >> 16 * j & wide(0xffff)) : wide(g() % 65536)) << 16 * j;
            r.push_back({q < b ? q + b * (i % 3) % (W256 - q) / b * b : q, b});
        }
        for (int i = 0; i < 4; i++) r.push_back({w(16), w(2 + 4 * i)});
    }
    return r;
}
static void dump(const std::string &op, int where) {
    std::ostringstream o;
    std::size_t at, start;
    o << "{\"op\":\"" << op << "\",\"where\":" << where << ",\"prime\":\"" << text(vf::P) << "\"";
    {
        run r(placed(op, where, V(wide_of("1234")), V(wide_of("77")), at, start), start);
        o << ",\"first\":" << r.rows[at].first << ",\"height\":" << r.rows[at].second << ",\"rows\":" << r.as.rows_amount() << ",\"cols\":[";
        auto &c = r.z->get_opcode_cols(); for (std::size_t i = 0; i < c.size(); i++) o << (i ? "," : "") << c[i];
        o << "],\"gates\":[";
        bool first = true;
        for (auto &g : r.bp.gates()) { o << (first ? "" : ",") << "[" << g.selector_index << ",["; first = false; for (std::size_t i = 0; i < g.constraints.size(); i++) { if (i) o << ","; shower(o).show(g.constraints[i]); } o << "]]"; }
        o << "]";
    }
    o << ",\"samples\":[";
    bool first = true;
    for (auto &s : samples()) { run r(placed(op, where, V(s.first), V(s.second), at, start), start); o << (first ? "" : ",") << "[\"" << text(s.first) << "\",\"" << text(s.second) << "\",\"" << text(meaning(op, s.first, s.second)) << "\","; show_cells(o, r); o << "]"; first = false; }
    o << "],\"paths\":[";
    std::ostringstream paths;
    try {
        std::vector<bool> script;
        std::size_t n = 0;
        for (;;) {
            vf::formulas f; f.script = script; f.limit = 20; vf::F = &f;
            f.nodes.push_back({'x', 0, 0, 0}); f.nodes.push_back({'x', 1, 0, 0});
            f.at = {0, 0};
            if (op == "DIV") { f.sampled = true; f.limit = 200; f.at = {patterns()[n].first, patterns()[n].second}; }
            run r(placed(op, where, vf::val{0, 0}, vf::val{0, 1}, at, start), start);
            if (n++) paths << ",";
            paths << "{\"nodes\":[";
            for (std::size_t i = 0; i < f.nodes.size(); i++) { auto &x = f.nodes[i]; paths << (i ? "," : "") << "[\"" << x.op << "\"," << x.a << "," << x.b << ",\"" << text(x.v) << "\"]"; }
            paths << "],\"asked\":[";
            for (std::size_t i = 0; i < f.asked.size(); i++) { auto &x = f.asked[i]; paths << (i ? "," : "") << "[\"" << x.rel << "\"," << x.a << "," << x.b << "," << (x.yes ? "true" : "false") << "]"; }
            paths << "],\"cells\":";
            show_cells(paths, r);
            paths << "}";
            if (f.sampled) { if (n < patterns().size()) continue; break; }
            script.clear(); for (auto &x : f.asked) script.push_back(x.yes);
            while (!script.empty() && script.back()) script.pop_back();
            if (script.empty()) break;
            script.back() = true;
            if (n > 300) throw vf::unsupported("more than 300 paths");
        }
        o << paths.str() << "]";
    } catch (const vf::unsupported &x) { o << "],\"unsupported\":\"" << x.what() << "\""; }
    vf::F = nullptr;
    std::cout << o.str() << "}" << std::endl;
}
// what is wrong with filling in this operation
static std::string fill(const std::string &op, int where, wide a, wide b) {
    std::size_t at, start;
    try {
        run r(placed(op, where, V(a), V(b), at, start), start);
        auto e = r.broken();
        if (!e.empty()) return e;
        wide m = meaning(op, a, b);
        std::multiset<std::string> have;
        for (std::size_t k = 0; k < r.rows[at].second; k++) for (auto c : r.z->get_opcode_cols()) have.insert(text(r.as.cell(var::witness, c, r.rows[at].first + k).data.v.v));
        for (int i = 0; i < 16; i++) if (!have.count(text(m >> (16 * i) & wide(0xffff)))) return "the result is not filled in";
    } catch (const vf::unsupported &x) { return x.what(); }
    return "";
}
static std::string sequence(std::uint64_t seed) {
    std::mt19937_64 g(seed);
    auto w = [&]() -> wide { wide x = 0; switch (g() % 6) { case 0: return g() % 3; case 1: return W256 - 1 - g() % 3; case 2: return wide(1) << (g() % 256); case 3: return (wide(1) << (g() % 256)) - 1; } for (int j = 0; j < 16; j++) x = (x << 16) + (g() % 3 == 0 ? 0xffff : g() % 3 == 0 ? 0 : g() % 65536); return x >> (g() % 4 ? 0 : g() % 256); };
    std::vector<step> s;
    for (int i = 0, n = 1 + g() % 4; i < n; i++) s.push_back({OPS[g() % 5].name, V(w()), V(w())});
    if (g() % 4 == 0 && s.size() > 1) { s[1].a = s[0].a; s[1].b = s[0].a; }
    std::string what; for (auto &x : s) what += (what.empty() ? "" : ", ") + x.op + " " + text(x.a.v) + (op_of(x.op).words == 2 ? " " + text(x.b.v) : "");
    try {
        run r(s, 1 + g() % 3);
        auto e = r.broken();
        return e.empty() ? "" : what + ": " + e;
    } catch (const vf::unsupported &x) { return x.what(); }
}
// cells given from outside: sound:OP:where:row.col=value,...:a cells:b cells:result cells
static std::string forge(const std::vector<std::string> &f) {
    std::size_t at, start;
    std::string op = f[1];
    run r(placed(op, std::stoi(f[2]), V(wide_of("1234")), V(wide_of("77")), at, start), start);
    for (auto &c : cut(f[3], ',')) { auto e = cut(c, '='); auto p = cut(e[0], '.'); r.as.witness(std::stoul(p[1]), std::stoul(p[0])) = num(vf::field_number::of(vf::known(wide_of(e[1]) % vf::P))); }
    auto get = [&](const std::string &l) { wide x = 0; auto c = cut(l, ','); for (std::size_t i = c.size(); i-- > 0;) { auto p = cut(c[i], '.'); x = (x << 16) + r.as.cell(var::witness, std::stoul(p[1]), std::stoul(p[0])).data.v.v; } return x; };
    std::size_t lo = r.rows[at].first, hi = lo + r.rows[at].second;
    for (auto &g : r.bp.gates()) for (std::size_t k = lo; k < hi; k++) {
        if (r.as.cell(var::selector, g.selector_index, k) == num(0)) continue;
        for (auto &c : g.constraints) if (!(c.evaluate(k, r.as) == num(0))) return "";
    }
    wide a = get(f[4]), b = f[5] == "-" ? wide(0) : get(f[5]), got = get(f[6]);
    return got == meaning(op, a, b) ? "" : op + " of " + text(a) + (f[5] == "-" ? "" : " and " + text(b)) + " is accepted to be " + text(got);
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    if (mode == "dump") { dump(argv[2], std::atoi(argv[3])); return 0; }
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP}) signal(n, died);
    auto one = [](const std::string &c) { auto f = cut(c, ':'); return f[0] == "sound" ? forge(f) : f[0] == "fill" ? fill(f[1], std::stoi(f[2]), wide_of(f[3]), wide_of(f[4])) : sequence(std::stoull(f[1])); };
    if (mode == "replay") { for (int i = 3; i < argc; i++) { cur = argv[i]; auto e = one(argv[i]); if (!e.empty()) { printf("FAIL %s %s :: %s\n", argv[2], argv[i], e.c_str()); return 1; } } return 0; }
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    int n = std::strcmp(argv[4], "thorough") ? 60 : 1500, fails = 0; unsigned long tried = 0;
    auto go = [&](const std::string &c) { cur = c; auto e = one(c); tried++; if (!e.empty() && fails++ < 5) printf("FAIL %s %s :: %s\n", argv[2], c.c_str(), e.c_str()); fflush(stdout); };
    std::vector<wide> special = {0, 1, 2, 65535, 65536, W256 - 1, wide(1) << 255, (wide(1) << 128) - 1, wide(1) << 64};
    bool div = !std::strcmp(argv[2], "Z05");
    for (auto &o : OPS) for (auto a : special) for (auto b : special) { if ((o.words == 1 && b != 0) || div != !std::strcmp(o.name, "DIV")) continue; if (fails < 5) go("fill:" + std::string(o.name) + ":0:" + text(a) + ":" + text(b)); }
    if (div) {
        std::mt19937_64 g(seed + 5);
        auto w = [&]() -> wide { wide x = 0; for (int j = 0, k = 1 + g() % 16; j < k; j++) x = (x << 16) + (g() % 4 == 0 ? 0xffff : g() % 4 == 0 ? g() % 2 : g() % 65536); return x; };
        for (int i = 0; i < 5 * n && fails < 5; i++) {
            wide a = w(), b = w(), c = w();
            switch (g() % 4) { case 0: a = (b * c + b - 1) % W256; break; case 1: a = b * c % W256; break; case 2: a = (b + W256 - g() % 3) % W256; break; }
            go("fill:DIV:" + std::to_string(g() % 3) + ":" + text(a) + ":" + text(b));
        }
    }
    for (int i = 0; i < n && fails < 5; i++) go("seq:" + std::to_string(seed * 1000000 + i));
    printf("TRIED %lu NONTRIVIAL %lu\n", tried, tried);
    return fails ? 1 : 0;
}
