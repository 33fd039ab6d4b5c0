// Native oracle of Z01 and Z02: the opcode tables against the EVM instruction table.
// search <prop> <seed> <tier> | replay <prop> <mnemonic or number>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>
using namespace nil::blueprint;
struct row { const char *name; zkevm_opcode op; std::size_t byte; };
static const row rows[] = {
#define EVM(n, b) {#n, zkevm_opcode::n, b},
#include "evm_opcodes.inc"
#undef EVM
};
static const std::size_t N = sizeof rows / sizeof *rows;
static std::string cur;
static long tried = 0, nontriv = 0;
static bool bad = false;
static void died(int s) { printf("AT %s\n", cur.c_str()); fflush(stdout); _exit(100 + s % 100); }
static void fail(const char *prop, const std::string &why) { if (!bad) printf("FAIL %s %s :: %s\n", prop, cur.c_str(), why.c_str()); bad = true; }
static std::string streamed(zkevm_opcode o) { std::ostringstream s; s << ">"; s << o; s << "<"; return s.str(); }
static void one(const std::string &prop, const row &r) {
    bad = false; cur = r.name; tried++; nontriv++; alarm(10);
    if (prop == "Z01") {
        auto &i = opcodes_info::instance();
        if (i.get_opcode_value(r.op) != r.byte) fail("Z01", "byte is " + std::to_string(i.get_opcode_value(r.op)));
        if (i.get_opcode_from_value(r.byte) != r.op) fail("Z01", "byte leads to opcode number " + std::to_string((int)i.get_opcode_from_value(r.byte)));
        if (i.get_opcodes_amount() != N) fail("Z01", "number of opcodes is " + std::to_string(i.get_opcodes_amount()));
        for (auto &q : rows) if (q.op == r.op && q.byte != r.byte) fail("Z01", std::string("same opcode as ") + q.name);
    } else {
        if (opcode_to_string(r.op) != r.name) fail("Z02", "string is " + opcode_to_string(r.op));
        if (streamed(r.op) != ">" + std::string(r.name) + "<") fail("Z02", "stream output is " + streamed(r.op));
    }
    alarm(0);
}
static void number(const std::string &prop, unsigned v) {
    for (auto &r : rows) if ((unsigned)r.op == v) { one(prop, r); return; }
    bad = false; cur = std::to_string(v); tried++;
    if (prop != "Z02") return;
    zkevm_opcode o; memcpy(&o, &v, sizeof o);
    if (opcode_to_string(o) != "unknown") fail("Z02", "a value that is no opcode has the string " + opcode_to_string(o));
    std::string s = streamed(o);
    for (auto &r : rows) if (s.find(r.name) != std::string::npos) fail("Z02", "a value that is no opcode prints " + s);
}
int main(int c, char **v) {
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGTRAP, SIGALRM, SIGBUS}) signal(s, died);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (c < 4) return 2;
    std::string mode = v[1], prop = v[2];
    bool any = false;
    if (mode == "replay") {
        for (auto &r : rows) if (!strcmp(r.name, v[3])) { one(prop, r); return bad; }
        number(prop, strtoul(v[3], nullptr, 10)); return bad;
    }
    for (auto &r : rows) { one(prop, r); any |= bad; }
    std::mt19937_64 g(strtoull(v[3], nullptr, 10));
    for (unsigned k = 0; k < 1000; k++) { number(prop, k); any |= bad; }
    for (unsigned k = 0; k < 1000; k++) { number(prop, (unsigned)g()); any |= bad; number(prop, -1u - k); any |= bad; }
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, nontriv);
    return any;
}
