// K01: gates share selectors; K02: the satisfiability checker.  The real circuit, gate-id and checker code is run with
// polynomials (dump: obligations) and with numbers (search, replay).
#include "gadgets.hpp"
#include <nil/blueprint/utils/satisfiability_check.hpp>
using namespace vf;
struct quiet { std::streambuf *b; std::ostringstream o; quiet() : b(std::cout.rdbuf(o.rdbuf())) { } ~quiet() { std::cout.rdbuf(b); } };
template<typename F> using cons_of = nil::crypto3::zk::snark::plonk_constraint<F>;
template<typename F> using lookup_of = nil::crypto3::zk::snark::plonk_lookup_constraint<F>;

struct ref { int type, col, rot; };
struct mono { long k; std::vector<ref> vars; };
typedef std::vector<mono> formula;
template<typename F> cons_of<F> expr(const formula &f) {
    typedef var_of<F> var;
    cons_of<F> r;
    bool first = true;
    for (auto &m : f) {
        nil::crypto3::math::expression<var> t(typename F::value_type(m.k));
        for (auto &v : m.vars) t = t * var(v.col, v.rot, true, (typename var::column_type)v.type);
        if (first) r = cons_of<F>(t); else r = cons_of<F>(nil::crypto3::math::expression<var>(r) + t);
        first = false;
    }
    return r;
}
enum { WIT, PUB, CON, SEL };
typedef std::array<int, 3> place;                          // type, column, row

#ifdef VF_K02
struct lookup { std::string table; std::vector<formula> in; };
struct scenario {
    std::string name;
    int rows, w, p, c;
    std::vector<std::vector<formula>> gates;
    std::vector<std::vector<lookup>> lookups;
    std::vector<std::vector<int>> gsel, lsel;              // what a selector is on each row: 0, 1, or 2 for an unknown
    std::vector<std::pair<place, place>> copies;
    std::vector<std::vector<long>> table;                  // columns of "fixed"
    std::map<std::string, std::vector<std::size_t>> sub;
    std::vector<std::vector<formula>> dynamic;             // options of "made"
    std::vector<int> dsel;
    bool part = false;
    std::set<std::uint32_t> ug, ul, uc, ur;
    bool extra = false;                                    // more selectors than rows in some column
};
template<typename F> struct fixed_table : nil::crypto3::zk::snark::lookup_table_definition<F> {
    const scenario &s;
    fixed_table(const scenario &s) : nil::crypto3::zk::snark::lookup_table_definition<F>("fixed"), s(s) { for (auto &x : s.sub) { this->subtables[x.first].column_indices = x.second; this->subtables[x.first].end = s.table[0].size() - 1; } }
    void generate() override { for (auto &c : s.table) { this->_table.push_back({}); for (long v : c) this->_table.back().push_back(typename F::value_type(v)); } }
    std::size_t get_columns_number() override { return s.table.size(); }
    std::size_t get_rows_number() override { return s.table[0].size(); }
};
// the values of a scenario in the order they are drawn
inline std::size_t amount(const scenario &s) {
    std::size_t n = (s.w + s.p + s.c) * s.rows;
    for (auto &l : {&s.gsel, &s.lsel}) for (auto &c : *l) for (int x : c) n += x == 2;
    for (int x : s.dsel) n += x == 2;
    return n;
}
template<typename T> struct cells {
    const scenario &s;
    std::map<place, T> at;
    std::vector<std::vector<T>> gs, ls;
    std::vector<T> ds;
    cells(const scenario &s, const std::vector<T> &v) : s(s) {
        std::size_t k = 0;
        for (int r = 0; r < s.rows; r++) { for (int i = 0; i < s.w; i++) at[{WIT, i, r}] = v[k++]; for (int i = 0; i < s.p; i++) at[{PUB, i, r}] = v[k++]; for (int i = 0; i < s.c; i++) at[{CON, i, r}] = v[k++]; }
        auto sel = [&](const std::vector<int> &c) { std::vector<T> o; for (int x : c) o.push_back(x == 2 ? v[k++] : T(x)); return o; };
        for (auto &c : s.gsel) gs.push_back(sel(c));
        for (auto &c : s.lsel) ls.push_back(sel(c));
        ds = sel(s.dsel);
    }
    T value(const formula &f, int row) const { T r(0); for (auto &m : f) { T t(m.k); for (auto &v : m.vars) t = t * at.at({v.type, v.col, row + v.rot}); r = r + t; } return r; }
    // what must hold, as clauses of equations and inequations
    clauses<T> promise() const {
        clauses<T> c;
        auto uses = [&](const std::set<std::uint32_t> &u, std::size_t i) { return !s.part || u.count(i); };
        for (std::size_t g = 0; g < s.gates.size(); g++) if (uses(s.ug, g))
            for (std::size_t r = 0; r < s.gsel[g].size(); r++) if (uses(s.ur, r) && s.gsel[g][r] != 0)
                for (auto &f : s.gates[g]) { std::vector<std::pair<T, bool>> d = {{value(f, r), true}}; if (s.gsel[g][r] == 2) d.push_back({gs[g][r], true}); c.any(d); }
        for (std::size_t g = 0; g < s.lookups.size(); g++) if (uses(s.ul, g))
            for (std::size_t r = 0; r < s.lsel[g].size(); r++) if (uses(s.ur, r) && s.lsel[g][r] != 0)
                for (auto &l : s.lookups[g]) {
                    std::vector<std::vector<std::pair<T, bool>>> rows;     // each: all of these equations
                    if (l.table == "made") {
                        for (std::size_t q = 0; q < s.dsel.size(); q++) if (s.dsel[q] != 0)
                            for (auto &o : s.dynamic) {
                                std::vector<std::pair<T, bool>> row; if (s.dsel[q] == 2) row.push_back({ds[q], false});
                                for (std::size_t i = 0; i < o.size(); i++) row.push_back({value(l.in[i], r) - value(o[i], q), true});
                                rows.push_back(row);
                            }
                    } else {
                        auto &cols = s.sub.at(l.table.substr(l.table.find('/') + 1));
                        for (std::size_t q = 0; q < s.table[0].size(); q++) { std::vector<std::pair<T, bool>> row; for (std::size_t i = 0; i < cols.size(); i++) row.push_back({value(l.in[i], r) - T(s.table[cols[i]][q]), true}); rows.push_back(row); }
                    }
                    std::vector<std::size_t> pick(rows.size(), 0);         // one equation of each row
                    while (true) {
                        std::vector<std::pair<T, bool>> d; if (s.lsel[g][r] == 2) d.push_back({ls[g][r], true});
                        for (std::size_t q = 0; q < rows.size(); q++) d.push_back(rows[q][pick[q]]);
                        c.any(d);
                        std::size_t q = 0;
                        while (q < rows.size() && ++pick[q] == rows[q].size()) pick[q++] = 0;
                        if (q == rows.size()) break;
                    }
                }
        for (std::size_t i = 0; i < s.copies.size(); i++) if (uses(s.uc, i)) c.zero(at.at(s.copies[i].first) - at.at(s.copies[i].second));
        return c;
    }
};
template<typename F> bool ask(const scenario &s, const cells<typename F::value_type> &v) {
    typedef var_of<F> var;
    circuit<arith<F>> bp;
    if (!s.table.empty()) bp.register_lookup_table(std::make_shared<fixed_table<F>>(s));
    std::size_t tables = 0;
    for (auto &x : s.sub) { bp.reserve_table("fixed/" + x.first); tables++; }
    if (!s.dynamic.empty()) { bp.reserve_dynamic_table("made"); tables++; }
    std::vector<std::size_t> gi, li;
    for (auto &g : s.gates) { std::vector<cons_of<F>> k; for (auto &f : g) k.push_back(expr<F>(f)); gi.push_back(bp.add_gate(k)); }
    for (auto &g : s.lookups) {
        std::vector<lookup_of<F>> k;
        for (auto &l : g) { lookup_of<F> x; x.table_id = bp.get_reserved_indices().at(l.table); for (auto &f : l.in) x.lookup_input.push_back(expr<F>(f)); k.push_back(x); }
        li.push_back(bp.add_lookup_gate(k));
    }
    std::size_t tag = s.dynamic.empty() ? 0 : bp.get_dynamic_lookup_table_selector();
    assignment<arith<F>> as(s.w, s.p, s.c, bp.get_next_selector_index());
    for (auto &c : v.at) { if (c.first[0] == WIT) as.witness(c.first[1], c.first[2]) = c.second; if (c.first[0] == PUB) as.public_input(c.first[1], c.first[2]) = c.second; if (c.first[0] == CON) as.constant(c.first[1], c.first[2]) = c.second; }
    auto fill = [&](std::size_t i, const std::vector<typename F::value_type> &c) { for (std::size_t r = 0; r < c.size(); r++) { as.enable_selector(i, r); as.selector(i, r) = c[r]; } };
    for (std::size_t g = 0; g < gi.size(); g++) fill(gi[g], v.gs[g]);
    for (std::size_t g = 0; g < li.size(); g++) fill(li[g], v.ls[g]);
    if (!s.dynamic.empty()) {
        fill(tag, v.ds);
        std::size_t id = bp.get_reserved_indices().at("made");
        for (std::size_t i = 1; i <= tables; i++) {
            nil::crypto3::zk::snark::plonk_lookup_table<F> t(s.dynamic[0].size(), tag);
            if (i == id) for (auto &o : s.dynamic) { std::vector<cons_of<F>> k; for (auto &f : o) k.push_back(expr<F>(f)); t.append_option(k); }
            bp.add_lookup_table(t);
        }
    }
    auto cell = [&](const place &p) { return var(p[1], p[2], false, (typename var::column_type)p[0]); };
    for (auto &c : s.copies) bp.add_copy_constraint({cell(c.first), cell(c.second)});
    quiet hush;
    if (W) W->ordered = true;
    return s.part ? is_satisfied<F>(bp, as, s.ug, s.ul, s.uc, s.ur) : is_satisfied<F>(bp, as);
}
std::vector<scenario> scenarios() {
    ref a{WIT, 0, 0}, b{WIT, 1, 0}, d{WIT, 2, 0}, k{CON, 0, 0};
    formula mul = {{1, {a, b}}, {-1, {d}}}, eqc = {{1, {a}}, {-1, {k}}}, bit = {{1, {b, b}}, {-1, {b}}}, step = {{1, {{WIT, 0, 1}}}, {-1, {a}}, {-1, {{WIT, 0, -1}}}}, one = {{1, {a}}, {-1, {}}};
    formula fa = {{1, {a}}}, fb = {{1, {b}}}, fab = {{1, {a}}, {2, {b}}}, fd = {{1, {d}}};
    std::vector<scenario> r;
    auto add = [&](scenario s) { r.push_back(s); };
    { scenario s{"one gate", 3, 3, 0, 1}; s.gates = {{mul, eqc}}; s.gsel = {{2, 2, 2}}; add(s); }
    { scenario s{"two gates", 2, 3, 0, 1}; s.gates = {{mul, bit}, {eqc}}; s.gsel = {{2, 2}, {2, 2}}; add(s); }
    { scenario s{"neighbouring rows", 4, 1, 0, 0}; s.gates = {{step}}; s.gsel = {{0, 2, 2, 0}}; add(s); }
    { scenario s{"many gates", 6, 3, 0, 1}; s.gates = {{mul, bit, eqc}, {bit, one}, {eqc}, {one, mul}}; s.gsel = std::vector<std::vector<int>>(4, {1, 1, 1, 1, 1, 1}); s.gsel[1] = {0, 1, 0, 1, 0, 1}; s.gsel[3] = {0, 0, 0, 0, 0, 1}; add(s); }
    { scenario s{"short selector", 4, 2, 0, 0}; s.gates = {{bit}, {one}}; s.gsel = {{2}, {0, 2}}; add(s); }
    { scenario s{"long selector", 2, 2, 0, 0}; s.gates = {{formula{{1, {}}}}, {one}}; s.gsel = {{0, 0, 0, 2}, {2, 2}}; add(s); }
    { scenario s{"copies", 3, 2, 1, 1}; s.copies = {{{WIT, 0, 0}, {WIT, 1, 2}}, {{PUB, 0, 1}, {WIT, 0, 1}}, {{CON, 0, 0}, {WIT, 1, 0}}, {{WIT, 0, 2}, {PUB, 0, 2}}, {{WIT, 1, 1}, {CON, 0, 2}}, {{WIT, 0, 0}, {WIT, 0, 2}}}; add(s); }
    { scenario s{"copies after gates", 2, 2, 1, 0}; s.gates = {{bit}}; s.gsel = {{2, 2}}; s.copies = {{{PUB, 0, 0}, {WIT, 1, 1}}, {{WIT, 0, 0}, {WIT, 0, 1}}}; add(s); }
    std::vector<std::vector<long>> t = {{1, 3, 1, 0}, {2, 4, 5, 7}, {9, 9, 8, 9}};
    std::map<std::string, std::vector<std::size_t>> sub = {{"full", {0, 1}}, {"back", {1, 0}}, {"last", {2}}, {"wide", {2, 0}}};
    for (auto &n : {"full", "back", "wide"}) { scenario s{std::string("lookup of a pair, ") + n, 2, 2, 0, 0}; s.table = t; s.sub = sub; s.lookups = {{{std::string("fixed/") + n, {fa, fb}}}}; s.lsel = {{2, 2}}; add(s); }
    { scenario s{"lookup of one", 2, 2, 0, 0}; s.table = t; s.sub = sub; s.lookups = {{{"fixed/last", {fab}}}}; s.lsel = {{2, 1}}; add(s); }
    { scenario s{"two lookups", 1, 3, 0, 0}; s.table = t; s.sub = sub; s.lookups = {{{"fixed/full", {fa, fb}}, {"fixed/last", {fd}}}}; s.lsel = {{2}}; add(s); }
    { scenario s{"two lookup gates", 2, 3, 0, 0}; s.table = {{1, 2}, {3, 3}}; s.sub = {{"full", {0, 1}}, {"one", {1}}}; s.lookups = {{{"fixed/full", {fa, fb}}}, {{"fixed/one", {fd}}}}; s.lsel = {{1, 0}, {0, 1}}; add(s); }
    { scenario s{"gate, lookup and copy", 2, 2, 1, 0}; s.table = t; s.sub = {{"last", {2}}}; s.gates = {{bit}}; s.gsel = {{1, 0}}; s.lookups = {{{"fixed/last", {fa}}}}; s.lsel = {{0, 1}}; s.copies = {{{PUB, 0, 0}, {WIT, 0, 1}}}; add(s); }
    { scenario s{"table made of the assignment", 3, 2, 0, 0}; s.dynamic = {{fa}}; s.dsel = {2, 2, 0}; s.lookups = {{{"made", {fb}}}}; s.lsel = {{0, 0, 2}}; add(s); }
    { scenario s{"table with two options", 2, 3, 0, 0}; s.dynamic = {{fa}, {fb}}; s.dsel = {1, 0}; s.lookups = {{{"made", {fd}}}}; s.lsel = {{0, 1}}; add(s); }
    { scenario s{"two lookups in a made table", 3, 2, 0, 0}; s.dynamic = {{fa}}; s.dsel = {2, 0, 1}; s.lookups = {{{"made", {fb}}}}; s.lsel = {{0, 1, 1}}; add(s); }
    { scenario s{"made table and fixed table", 2, 2, 0, 0}; s.table = {{5, 6}}; s.sub = {{"one", {0}}}; s.dynamic = {{fa}}; s.dsel = {2, 0}; s.lookups = {{{"made", {fb}}}, {{"fixed/one", {fb}}}}; s.lsel = {{0, 2}, {2, 0}}; add(s); }
    { scenario s{"chosen parts", 3, 2, 1, 0}; s.table = t; s.sub = {{"last", {2}}}; s.gates = {{bit}, {one}, {eqc}}; s.c = 1; s.gsel = {{2, 2, 2}, {2, 2, 2}, {1, 1, 1}}; s.lookups = {{{"fixed/last", {fa}}}, {{"fixed/last", {fb}}}}; s.lsel = {{1, 1, 1}, {2, 1, 1}}; s.copies = {{{PUB, 0, 0}, {WIT, 0, 1}}, {{PUB, 0, 1}, {WIT, 0, 2}}};
      s.part = true; s.ug = {1}; s.ul = {1}; s.uc = {0}; s.ur = {0, 2}; add(s); }
    return r;
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    auto all = scenarios();
    if (mode == "dump") {
        std::cout << "[";
        for (std::size_t i = 0; i < all.size(); i++) {
            auto &s = all[i];
            std::cout << (i ? ",\n" : "") << "{\"gadget\":" << js(s.name) << ",\"index\":" << i;
            try {
                std::ostringstream o;
                std::vector<bool> script; bool first = true; std::size_t n = 0;
                o << ",\"paths\":[";
                while (true) {
                    if (++n > 3000) throw unsupported("too many cases");
                    world w; w.script = script; W = &w;
                    auto x = unknowns("x", amount(s));
                    cells<sym> c(s, x);
                    bool yes = ask<sf>(s, c);
                    auto asked = w.asked;
                    auto p = c.promise();
                    o << (first ? "" : ",\n") << "{\"names\":" << js(w.names, [](const std::string &s) { return js(s); }) << ",\"asked\":" << js(asked, [](const std::pair<poly, bool> &a) { return "[" + js(a.first) + (a.second ? ",true]" : ",false]"); })
                      << ",\"yes\":" << (yes ? "true" : "false") << ",\"promise\":" << js(p) << "}";
                    first = false;
                    script.clear(); for (auto &a : asked) script.push_back(a.second);
                    while (!script.empty() && !script.back()) script.pop_back();
                    W = nullptr;
                    if (script.empty()) break;
                    script.back() = false;
                }
                std::cout << o.str() << "]";
            } catch (const std::exception &x) { std::cout << ",\"unsupported\":" << js(x.what()); }
            std::cout << "}";
        }
        std::cout << "]\n";
        return 0;
    }
    auto check = [&](const scenario &s, const std::vector<num> &x) -> std::string {
        prime = large; W = nullptr;
        cells<num> c(s, x);
        bool want = holds(c.promise()), got;
        try { got = ask<fp>(s, c); } catch (const std::exception &e) { return std::string("the checker ends with: ") + e.what(); }
        if (want == got) return "";
        return got ? "accepted although a constraint does not hold" : "refused although every constraint holds";
    };
    if (mode == "replay") {
        auto a = cut(argv[3], '/');
        auto &s = all.at(std::stoul(a[0]));
        std::vector<num> x; for (auto &v : cut(a[1], ',')) x.push_back(num(std::stoull(v)));
        x.resize(amount(s));
        std::string why = check(s, x);
        if (!why.empty()) { std::cout << "FAIL K02 " << argv[3] << " :: " << s.name << ": " << why << std::endl; return 1; }
        return 0;
    }
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(n, died);
    std::mt19937_64 g(std::strtoull(argv[3], nullptr, 10));
    bool thorough = !std::strcmp(argv[4], "thorough");
    std::uint64_t tried = 0, yes = 0; int fails = 0;
    for (std::size_t i = 0; i < all.size(); i++)
        for (int n = 0; n < (thorough ? 20000 : 3000); n++) {
            std::vector<num> x; int style = g() % 4;
            for (std::size_t j = 0; j < amount(all[i]); j++) x.push_back(style == 0 ? num(g() % 2) : style == 1 ? num(g() % 10) : style == 2 && j ? x[g() % x.size()] : g() % 3 ? num(g() % 3) : num(large - g() % 3));
            cur = std::to_string(i) + "/" + list(x);
            std::string why = check(all[i], x);
            tried++;
            { cells<num> c(all[i], x); yes += holds(c.promise()); }
            if (!why.empty()) { std::cout << "FAIL K02 " << cur << " :: " << all[i].name << ": " << why << std::endl; fails++; break; }
        }
    std::cout << "TRIED " << tried << " NONTRIVIAL " << yes << std::endl;
    return fails ? 1 : 0;
}
#endif

#ifdef VF_K01
struct step { int kind; std::vector<int> parts; std::vector<int> tables; };       // 0..2 gate (vector, single, list), 3..5 lookup gate, 6 dynamic selector, 7 / 8 gate on a given selector
typedef std::vector<step> history;
// formulas that are different polynomials, none of them zero
inline formula pool(int i) {
    static const int types[] = {WIT, CON, SEL};
    int kind = i % 6, k = i / 6;
    ref a{types[k % 3], k / 3 % 14, k / 42 % 3 - 1}, z{WIT, 0, 0};
    switch (kind) {
        case 0: return {{1, {a}}};
        case 1: return {{1, {a}}, {-1, {}}};
        case 2: return {{2, {a}}, {-1, {}}};
        case 3: return {{1, {a, a}}, {1, {z}}};
        case 4: return {{1, {a, z}}, {-1, {{CON, 20, 1}}}};
        default: return {{1, {a, a, z}}, {3, {{SEL, 21, -1}}}};
    }
}
const int pool_size = 6 * 126;
template<typename T> struct unknown_table {                // a value for every cell
    std::map<place, T> &at;
    std::size_t rows_amount() const { return 0; }
    T cell(int type, std::size_t i, long row) const { auto it = at.find({type, (int)i, (int)row}); if (it == at.end()) it = at.emplace(place{type, (int)i, (int)row}, T::drawn(1000003 * (type + 1) + 7919 * i + row + 50)).first; return it->second; }
    T value(const formula &f) const { T r(0); for (auto &m : f) { T t(m.k); for (auto &v : m.vars) t = t * cell(v.type, v.col, 7 + v.rot); r = r + t; } return r; }
};
// the empty string when each step does what it should
template<typename F> std::vector<std::string> follow(const history &h) {
    typedef typename F::value_type T;
    std::vector<std::string> out;
    std::map<place, T> at;
    unknown_table<T> t{at};
    circuit<arith<F>> bp;
    std::map<std::vector<int>, std::size_t> gates;
    std::map<std::vector<std::vector<int>>, std::size_t> lookups;
    std::size_t next = 0, ng = 0, nl = 0;
    for (auto &s : h) {
        std::string bad;
        std::vector<cons_of<F>> c; for (int i : s.parts) c.push_back(expr<F>(pool(i)));
        std::vector<lookup_of<F>> l;
        std::vector<std::vector<int>> lk;
        for (std::size_t i = 0; i < s.tables.size(); i++) {        // each lookup takes the parts in turn
            lookup_of<F> x; x.table_id = s.tables[i]; std::vector<int> k = {s.tables[i]};
            for (std::size_t j = i; j < s.parts.size(); j += s.tables.size()) { x.lookup_input.push_back(c[j]); k.push_back(s.parts[j]); }
            l.push_back(x); lk.push_back(k);
        }
        auto key = s.parts; std::sort(key.begin(), key.end());
        auto lkey = lk; std::sort(lkey.begin(), lkey.end());
        std::size_t got = 0, want = next;
        bool grows = true, lookup = false;
        if (s.kind <= 2) {
            got = s.kind == 0 ? bp.add_gate(c) : s.kind == 1 ? bp.add_gate(c[0]) : c.size() == 1 ? bp.add_gate({c[0]}) : c.size() == 2 ? bp.add_gate({c[0], c[1]}) : bp.add_gate({c[0], c[1], c[2]});
            auto it = gates.find(key);
            if (it == gates.end()) { gates[key] = next; next++; ng++; } else { want = it->second; grows = false; }
        } else if (s.kind <= 5) {
            lookup = true;
            got = s.kind == 3 ? bp.add_lookup_gate(l) : s.kind == 4 ? bp.add_lookup_gate(l[0]) : l.size() == 1 ? bp.add_lookup_gate({l[0]}) : bp.add_lookup_gate({l[0], l[1]});
            auto it = lookups.find(lkey);
            if (it == lookups.end()) { lookups[lkey] = next; next++; nl++; } else { want = it->second; grows = false; }
        } else if (s.kind == 6) { got = bp.get_dynamic_lookup_table_selector(); next++; grows = false; }
        else { want = next ? s.tables.empty() ? 0 : s.tables[0] % next : 0; got = bp.add_gate(want, c); ng++; }
        if (got != want) bad = "selector " + std::to_string(got) + " instead of " + std::to_string(want);
        if (bad.empty() && bp.get_next_selector_index() != next) bad = "the next selector is " + std::to_string(bp.get_next_selector_index()) + " instead of " + std::to_string(next);
        if (bad.empty() && (bp.gates().size() != ng || bp.num_gates() != ng || bp.lookup_gates().size() != nl || bp.num_lookup_gates() != nl)) bad = grows ? "the gate is not recorded once" : "the circuit changes its size";
        if (bad.empty() && grows && !lookup) {
            auto &g = bp.gates().back();
            if (g.selector_index != want) bad = "recorded under selector " + std::to_string(g.selector_index);
            else if (g.constraints.size() != c.size()) bad = "not all constraints are recorded";
            else for (std::size_t i = 0; i < c.size(); i++) if (g.constraints[i].evaluate(7, t) != t.value(pool(s.parts[i]))) bad = "constraint " + std::to_string(i) + " is recorded changed";
        }
        if (bad.empty() && grows && lookup) {
            auto &g = bp.lookup_gates().back();
            if (g.tag_index != want) bad = "recorded under selector " + std::to_string(g.tag_index);
            else if (g.constraints.size() != lk.size()) bad = "not all lookups are recorded";
            else for (std::size_t i = 0; i < lk.size(); i++) {
                if (g.constraints[i].table_id != (std::size_t)lk[i][0] || g.constraints[i].lookup_input.size() + 1 != lk[i].size()) { bad = "lookup " + std::to_string(i) + " is recorded changed"; break; }
                for (std::size_t j = 1; j < lk[i].size(); j++) if (g.constraints[i].lookup_input[j - 1].evaluate(7, t) != t.value(pool(lk[i][j]))) bad = "lookup " + std::to_string(i) + " is recorded changed";
            }
        }
        out.push_back(bad);
        if (!bad.empty()) break;
    }
    return out;
}
inline history random_history(std::uint64_t seed) {
    std::mt19937_64 g(seed);
    history h;
    int n = 10 + g() % 40, width = 2 + g() % 8, base = g() % (pool_size - 12);
    for (int i = 0; i < n; i++) {
        step s; s.kind = g() % 20 < 11 ? g() % 3 : g() % 10 < 8 ? 3 + g() % 3 : 6 + g() % 2;
        int parts = s.kind == 1 ? 1 : s.kind == 2 ? 1 + g() % 3 : g() % 12 == 0 ? 15 + g() % 12 : 1 + g() % 4;
        if (s.kind >= 3 && s.kind <= 5) { int t = s.kind == 4 ? 1 : 1 + g() % 2; for (int j = 0; j < t; j++) s.tables.push_back(1 + g() % 3); parts = std::max(parts, t); }
        if (s.kind == 7) s.tables.push_back(g() % 50);
        std::set<int> used;
        for (int j = 0; j < parts; j++) { int x = base + (parts > 8 ? j : (int)(g() % width)); while (!used.insert(x % pool_size).second) x++; s.parts.push_back(x % pool_size); }
        if (parts > 8) std::shuffle(s.parts.begin(), s.parts.end(), g);
        if (!h.empty() && g() % 3 == 0) { s = h[g() % h.size()]; if (s.kind < 3) { std::shuffle(s.parts.begin(), s.parts.end(), g); s.kind = s.parts.size() == 1 ? g() % 3 : s.parts.size() <= 3 ? 2 * (g() % 2) : 0; } else if (s.kind <= 5) s.kind = s.tables.size() == 1 ? 3 + g() % 3 : g() % 2 ? 3 : 5; }
        h.push_back(s);
    }
    return h;
}
inline std::vector<std::pair<std::string, history>> histories() {
    std::vector<std::pair<std::string, history>> r;
    { history h; for (int i = 0; i < pool_size; i++) h.push_back({i % 3, {i}, {}}); for (int i = pool_size - 1; i >= 0; i -= 5) h.push_back({(i + 1) % 3, {i}, {}}); r.push_back({"single constraints", h}); }
    { history h; for (int i = 0; i < 24; i++) for (int j = 0; j < 24; j++) if (i != j) h.push_back({(i + j) % 2 * 2, {i, j}, {}}); r.push_back({"pairs in both orders", h}); }
    { history h; for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) for (int k = 0; k < 8; k++) if (i != j && j != k && i != k) h.push_back({(i + j) % 2 * 2, {i, j, k}, {}}); r.push_back({"triples in all orders", h}); }
    { history h; for (int n = 1; n <= 45; n++) for (int last : {0, 3, 7}) { step s{0, {}, {}}; for (int i = 0; i < n - 1; i++) s.parts.push_back(i); s.parts.push_back(100 + last); h.push_back(s); std::reverse(s.parts.begin(), s.parts.end()); h.push_back(s); } r.push_back({"gates with many constraints", h}); }
    { history h; for (int n = 1; n <= 30; n++) { step s{0, {}, {}}; for (int i = 0; i < n; i++) s.parts.push_back(i); h.push_back(s); } for (int n = 30; n >= 1; n--) { step s{0, {}, {}}; for (int i = n - 1; i >= 0; i--) s.parts.push_back(i); h.push_back(s); } r.push_back({"gates that extend one another", h}); }
    { history h; for (int t = 1; t <= 30; t++) for (int i = 0; i < 30; i++) h.push_back({3 + (t + i) % 3, {i}, {t}}); for (int t = 30; t >= 1; t -= 3) for (int i = 0; i < 30; i += 4) h.push_back({3 + (t + i + 1) % 3, {i}, {t}}); r.push_back({"lookups of one value", h}); }
    { history h; for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) if (i != j) h.push_back({3 + (i + j) % 3, {i, j}, {2}}); r.push_back({"lookups of two values, in both orders", h}); }
    { history h; for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) if (i != j) for (int t = 1; t < 4; t++) for (int u = 1; u < 4; u++) h.push_back({3 + (i + t) % 2 * 2, {i, j}, {t, u}}); r.push_back({"two lookups in a gate, in both orders", h}); }
    { history h; for (int n = 1; n <= 40; n++) for (int last : {60, 66}) { step s{3, {}, {1}}; for (int i = 0; i < n; i++) s.parts.push_back(i); s.parts.push_back(last); h.push_back(s); } r.push_back({"lookups of many values", h}); }
    for (int kind : {0, 3}) { history h; for (int n : {3, 12, 25, 50}) for (int i = 0; i < n; i++) { step s{kind, {}, {}}; if (kind) s.tables = {1}; for (int j = 0; j < n; j++) s.parts.push_back(6 * j + (i == j)); h.push_back(s); } r.push_back({kind ? "lookups of values with one sum" : "gates whose constraints have one sum", h}); }
    { history h; for (int n : {3, 25, 45}) for (int i = 0; i < n; i++) { step s{3, {}, {}}; for (int j = 0; j < n; j++) { s.parts.push_back(6 * j + (i == j)); s.tables.push_back(1); } h.push_back(s); } r.push_back({"gates of lookups with one sum", h}); }
    { history h; for (int i = 0; i < 60; i++) { h.push_back({i % 3, {i % 23}, {}}); h.push_back({3 + i % 3, {i % 19}, {1 + i % 2}}); if (i % 4 == 0) h.push_back({6, {}, {}}); if (i % 5 == 0) h.push_back({7, {i, i + 1}, {i}}); } r.push_back({"gates, lookups and dynamic tables in turn", h}); }
    for (int i = 1; i <= 60; i++) r.push_back({"mixed history " + std::to_string(i), random_history(i)});
    return r;
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    if (mode == "dump") {
        world w; w.formal = true; w.limit = 1000000; W = &w;
        auto all = histories();
        std::cout << "[";
        for (std::size_t i = 0; i < all.size(); i++) {
            std::cout << (i ? ",\n" : "") << "{\"gadget\":" << js(all[i].first);
            try {
                auto r = follow<sf>(all[i].second);
                std::ostringstream o;
                o << ",\"facts\":[";
                for (std::size_t k = 0; k < r.size(); k++) o << (k ? "," : "") << "{\"name\":\"step " << k << ": selector, size and recorded constraints\",\"ok\":" << (r[k].empty() ? "true" : "false") << ",\"why\":" << js(r[k]) << ",\"case\":\"listed/" << i << "\"}";
                std::cout << o.str() << "]";
            } catch (const std::exception &x) { std::cout << ",\"unsupported\":" << js(x.what()); }
            std::cout << "}";
        }
        std::cout << "]\n";
        return 0;
    }
    prime = large;
    auto check = [](const history &h) -> std::string { try { auto r = follow<fp>(h); return r.back().empty() ? "" : "step " + std::to_string(r.size() - 1) + ": " + r.back(); } catch (const std::exception &e) { return e.what(); } };
    if (mode == "replay") {
        auto a = cut(argv[3], '/');
        std::string why = check(a[0] == "listed" ? histories().at(std::stoul(a[1])).second : random_history(std::stoull(a[1])));
        if (!why.empty()) { std::cout << "FAIL K01 " << argv[3] << " :: " << why << std::endl; return 1; }
        return 0;
    }
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(n, died);
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10), tried = 0, steps = 0;
    bool thorough = !std::strcmp(argv[4], "thorough");
    int fails = 0;
    auto all = histories();
    for (std::size_t i = 0; i < all.size() && fails < 5; i++) { cur = "listed/" + std::to_string(i); auto why = check(all[i].second); tried++; steps += all[i].second.size(); if (!why.empty()) { std::cout << "FAIL K01 " << cur << " :: " << all[i].first << ": " << why << std::endl; fails++; } }
    for (int i = 0; i < (thorough ? 20000 : 2000) && fails < 5; i++) { std::uint64_t k = seed * 1000000 + i; cur = "random/" + std::to_string(k); auto h = random_history(k); auto why = check(h); tried++; steps += h.size(); if (!why.empty()) { std::cout << "FAIL K01 " << cur << " :: " << why << std::endl; fails++; } }
    std::cout << "TRIED " << tried << " NONTRIVIAL " << steps << std::endl;
    return fails ? 1 : 0;
}
#endif
