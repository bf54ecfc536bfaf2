// native implementation of the harness API: replays one concrete input vector on the real code
#include "../harness/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::string> vals; static size_t cur = 0;
static std::string nextv() {
    if (cur >= vals.size()) { printf("INPUT-EXHAUSTED\n"); fflush(stdout); _exit(44); }
    return vals[cur++];
}
static uint64_t nu() { return strtoull(nextv().c_str(), nullptr, 0); }
static double nd() { return strtod(nextv().c_str(), nullptr); }
static double tol() { static double t = getenv("SYM_TOL") ? atof(getenv("SYM_TOL")) : 1e-6; return t; }
static bool exact() { static bool t = getenv("SYM_EXACT") != nullptr; return t; }
extern "C" {
uint64_t sym_u64(const char*) { return nu(); }
int64_t  sym_i64(const char*) { return (int64_t) nu(); }
uint32_t sym_u32(const char*) { return (uint32_t) nu(); }
int32_t  sym_i32(const char*) { return (int32_t) nu(); }
uint16_t sym_u16(const char*) { return (uint16_t) nu(); }
uint8_t  sym_u8 (const char*) { return (uint8_t) nu(); }
bool     sym_bool(const char*) { return nu() & 1; }
int64_t  sym_range(int64_t lo, int64_t hi, const char*) { int64_t v = (int64_t) nu(); if (v < lo || v > hi) { printf("ASSUME-FAIL range\n"); fflush(stdout); _exit(45); } return v; }
uint64_t sym_choose(uint64_t n, const char*) { uint64_t v = nu(); if (v >= n) { printf("ASSUME-FAIL choose\n"); fflush(stdout); _exit(45);} return v; }
int64_t  sym_concretize(int64_t v) { return v; }
static bool bits(std::string& s) { return s.size() > 1 && s[0] == 'b'; }
double   sym_f64(const char*) { std::string s = nextv(); if (bits(s)) { uint64_t b = strtoull(s.c_str() + 1, nullptr, 0); double d; memcpy(&d, &b, 8); return d; } return strtod(s.c_str(), nullptr); }
float    sym_f32(const char*) { std::string s = nextv(); if (bits(s)) { uint32_t b = strtoul(s.c_str() + 1, nullptr, 0); float d; memcpy(&d, &b, 4); return d; } return (float) strtod(s.c_str(), nullptr); }
void     sym_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(45); } }
static void fail(const char* m) { printf("CHECK-FAIL %s\n", m); fflush(stdout); _exit(42); }
void     sym_check(bool c, const char* m) { if (!c) fail(m); }
void     sym_check_eq(double a, double b, const char* m) {
    if (a == b) return;
    if (exact() || !(std::fabs(a - b) <= tol() * (1 + std::fabs(a) + std::fabs(b)))) { printf("values %.17g vs %.17g\n", a, b); fail(m); } }
void     sym_check_le(double a, double b, const char* m) {
    if (a <= b) return;
    if (exact() || !(a - b <= tol() * (1 + std::fabs(a) + std::fabs(b)))) { printf("values %.17g > %.17g\n", a, b); fail(m); } }
void     sym_check_eqf(float a, float b, const char* m) { if (!(a == b)) { printf("values %.9g vs %.9g\n", a, b); fail(m); } }
void     sym_reach(const char* l) { printf("REACH %s\n", l); }
int64_t  sym_live() { return 0; }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r"); if (!f) return 2;
    char buf[512];
    while (fgets(buf, sizeof buf, f)) { char* p = strtok(buf, " \t\n"); if (!p || *p == '#') continue; char* v = strtok(nullptr, " \t\n"); if (v) vals.push_back(v); }
    fclose(f);
    void* h = dlopen(nullptr, RTLD_NOW);
    auto fn = (void(*)()) dlsym(h, argv[1]);
    if (!fn) { printf("no such harness %s\n", argv[1]); return 2; }
    try { fn(); } catch (...) { printf("CHECK-FAIL uncaught exception\n"); fflush(stdout); _exit(42); }
    printf("OK\n");
    return 0;
}
