// Native side of sym.h: reads "name value" lines, in call order.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
static std::vector<std::pair<std::string, unsigned long long>> vals; static size_t pos = 0; static unsigned long long args[16];
static unsigned long long next(const char* name, unsigned long long dflt) {
    if (pos >= vals.size()) { return dflt; }
    auto& v = vals[pos++]; std::string n = v.first; auto h = n.find('#'); if (h != std::string::npos) n = n.substr(0, h);
    if (n != name) { printf("REPLAY-DIVERGED expected %s got %s\n", n.c_str(), name); fflush(stdout); _Exit(43); }
    return v.second;
}
extern "C" {
uint64_t sym_uint(const char* name, uint32_t, uint64_t lo, uint64_t) { return next(name, lo); }
uint32_t sym_choice(const char* name, uint32_t) { return (uint32_t)next(name, 0); }
uint64_t sym_fork(uint64_t v) { return v; }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _Exit(44); } }
void sym_assert(bool c, const char* m) { if (!c) { printf("REPLAY-ASSERT-FAIL %s\n", m); fflush(stdout); _Exit(42); } }
void sym_reach(const char*) {}
void sym_observe(const char* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void sym_note(const char* s) { printf("NOTE %s\n", s); }
uint64_t sym_arg(uint32_t i) { return args[i & 15]; }
uint32_t sym_engine() { return 0; }
int model_exact_numbers;
uint32_t sym_is_symbolic(uint64_t) { return 0; }
void sym_debug(const char* s, uint64_t v) { fprintf(stderr, "DEBUG %s %llu\n", s, (unsigned long long)v); }
uint64_t sym_bound(uint64_t v, uint64_t lo, uint64_t hi) { return v; }
uint64_t sym_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
}
#define H(n) extern "C" void n();
#include "entries.inc"
#undef H
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 3) return 2; const char* e = argv[1];
    if (FILE* f = fopen(argv[2], "r")) { char n[512]; unsigned long long v; while (fscanf(f, "%511s %llu", n, &v) == 2) vals.push_back({n, v}); fclose(f); }
    for (int i = 3; i < argc && i < 19; ++i) args[i - 3] = strtoull(argv[i], nullptr, 0);
    try {
#define H(n) if (!strcmp(e, #n)) { n(); printf("REPLAY-OK\n"); fflush(stdout); _Exit(0); }
#include "entries.inc"
#undef H
    } catch (std::exception& x) { printf("REPLAY-UNCAUGHT %s\n", x.what()); fflush(stdout); _Exit(45); }
    catch (...) { printf("REPLAY-UNCAUGHT\n"); fflush(stdout); _Exit(45); }
    return 2;
}
