// LINK: lib
// P24: random numbers: every raw bit pattern gives a value in range, every value equally often; generators are functions of their seed.
//@ h_rng_below  q=60 t=300 split=hi:14 need=first,second
//@ h_rng_any    tier=thorough t=300 need=end
//@ h_rng_signed q=60 t=300 split=hi:8 need=end
//@ h_rng_range  q=100 t=300 split=lo:6,hi:7 need=end,one
//@ h_rng_all    q=60 t=300 split=kind:4 need=end
//@ h_rng_bool   q=60 t=300 need=end
//@ h_rng_unit   mode=fp q=100 t=300 split=type:2,zeros:6 need=end,one
//@ h_rng_float  mode=fp q=100 t=300 split=case:6,zeros:4 need=end
//@ h_rng_seed   q=60 t=300 split=rng:3,skip:4 need=end
//@ h_rng_dual   mode=fp q=60 t=300 split=op:3,type:2 need=end
//@ h_rng_ref    q=60 t=300 split=rng:3 need=end
//@bounds every pattern of raw bits; bounds and ranges from lists of chosen values (including the extremes of each type) in quick, any 32-bit bound in thorough; at most two draws before acceptance; unit floats with up to 5 leading zero exponent bits; seeds and states all; sequences of 4 values after up to 3 earlier draws, 1300 of the Mersenne generator
#include <geomc/random/Random.h>
#include <geomc/function/Dual.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include "sym.h"
using namespace geom;
typedef uint32_t u32; typedef uint64_t u64;
// a source of given raw bits
struct Src : public Random { u32 v[8]; int n = 0, m = 0; Src() {} void put(u32 x) { v[m++] = x; } void put64(u64 x) { put((u32) (x >> 32)); put((u32) x); } u32 rand32() override { sym_assume(n < m); return v[n++]; } void rseed(u64) override {} };
template <typename U> static U draw(Src& s, U hi) { return s.rand<U>(hi); }
static const char* IN = "in range"; static const char* EVEN = "every value is equally likely";
template <typename U> static void below(U hi) {
    const int k = sizeof(U) / 4; U b = sizeof(U) == 4 ? (U) sym_u32("b") : (U) sym_u64("b"), c = sizeof(U) == 4 ? (U) sym_u32("c") : (U) sym_u64("c"), w = sizeof(U) == 4 ? (U) sym_u32("w") : (U) sym_u64("w"); sym_assume(w < hi);
    Src s; if (k == 1) { s.put((u32) b); s.put((u32) c); } else { s.put64(b); s.put64(c); } U v = s.rand<U>(hi); sym_check(v < hi, IN);
    // an accepted draw belongs to a block of raw values which are all accepted and give every result once
    U x = (s.n == k ? b : c) - v + w; sym_check(x >= w, EVEN); if (s.n == k) sym_reach("first"); else { sym_reach("second"); }
    Src q; if (k == 1) q.put((u32) x); else q.put64(x); q.put(0); q.put(0); U y = q.rand<U>(hi); sym_check(q.n == k, EVEN); sym_check(y == w, EVEN);
}
extern "C" void h_rng_below() { static const u64 H[14] = {1, 3, 10, 0x80000000u, 0x80000001u, 0xC0000001u, 0xF0000000u, 0xFFFFFFFFu, 1ull << 40, (1ull << 62) + 1, (1ull << 63) + 5, 0xC000000000000001ull, ~0ull, 8}; int i = sym_choose(14, "hi"); if (i < 8) below<unsigned int>((u32) H[i]); else if (i & 1) below<unsigned long>(H[i]); else below<unsigned long long>(H[i]); }
// signed bounds count down from zero; an empty range is zero
extern "C" void h_rng_signed() { static const long long H[8] = {7, -7, 0, 1, -1, INT32_MAX, INT32_MIN, -(1 << 30)}; int i = sym_choose(8, "hi"), k = sym_choose(3, "type"); Src s; for (int j = 0; j < 4; ++j) s.put(sym_u32("b")); long long h = H[i], v; if (k == 0) v = s.rand<int>((int) h); else if (k == 1) v = s.rand<long>(h == INT32_MIN ? (long) INT64_MIN : h); else v = s.rand<long long>(h == INT32_MIN ? INT64_MIN : h); if (k && h == INT32_MIN) h = INT64_MIN; if (h > 0) { sym_check(v >= 0 & v < h, IN); } else if (h < 0) { sym_check(v <= 0 & v > h, IN); } else sym_check(v == 0, IN); sym_reach("end"); }
template <typename I> static void range(I lo, I hi) { Src s, q; u32 b[4]; for (u32& x : b) { x = sym_u32("b"); s.put(x); q.put(x); } I v = s.rand<I>(lo, hi), w = q.rand<I>(hi, lo); I a = lo < hi ? lo : hi, z = lo < hi ? hi : lo; if (a == z) { sym_check(v == a, IN); sym_reach("one"); } else { sym_check(v >= a & v < z, IN); } sym_check(v == w, "order of the bounds does not matter"); sym_reach("end");
    // every value of the range is drawn: the range is a shifted bound
    if (a < z) { typedef std::make_unsigned_t<I> U; Src r; for (u32 x : b) r.put(x); U e = r.rand<U>((U) z - (U) a); sym_check((U) v - (U) a == e, EVEN); } }
extern "C" void h_rng_range() { static const long long L[6] = {INT64_MIN, INT32_MIN, -2000000000, -5, 0, 3}, H[7] = {INT64_MAX, INT32_MAX, 2000000000, 8, 0, -5, 3}; int i = sym_choose(6, "lo"), j = sym_choose(7, "hi"); if (i && j && sym_choose(2, "narrow")) range<int>((int) L[i], (int) H[j]); else range<long long>(L[i], H[j]); }
// unbounded draws lose no raw bits
extern "C" void h_rng_all() { int k = sym_choose(4, "kind"); u32 a[2] = {sym_u32("a"), sym_u32("a")}, b[2] = {sym_u32("b"), sym_u32("b")}; Src s, q; for (int i = 0; i < 2; ++i) { s.put(a[i]); q.put(b[i]); } bool same; if (k == 0) same = s.rand<unsigned int>() == q.rand<unsigned int>(); else if (k == 1) same = s.rand<int>() == q.rand<int>(); else if (k == 2) same = s.rand<unsigned long>() == q.rand<unsigned long>(); else { same = s.rand<long long>() == q.rand<long long>(); Src r, t; r.put(a[0]); r.put(a[1]); t.put(a[0]); t.put(a[1]); sym_check(r.rand<long>() == (long) t.rand<unsigned long long>(), "signed and unsigned draws agree"); } sym_check(s.n == (k < 2 ? 1 : 2), "consumes only the bits it needs"); sym_check(same == (a[0] == b[0] & (k < 2 | a[1] == b[1])), EVEN); sym_reach("end"); }
extern "C" void h_rng_bool() { u32 a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c"); Src s, q; s.put(a); s.put(c); q.put(b); q.put(c); u32 x = 0, y = 0; for (int i = 0; i < 32; ++i) { x |= (u32) s.rand<bool>() << i; y |= (u32) q.rand<bool>() << i; } sym_check(s.n == 1, "a coin toss consumes one bit"); sym_check((x == y) == (a == b), EVEN); bool d = s.rand<bool>(); sym_check(s.n == 2, "fresh bits when none are left"); sym_check(d == q.rand<bool>(), "fresh bits when none are left"); sym_reach("end"); }
// unit floats: the first one bit of the coin tosses fixes the binade, so binades have the right weight
template <typename F> static void unit(int z) { u32 pool = sym_u32("pool"), m = sym_u32("m"), n = sym_u32("n"); sym_assume((pool & ((2u << z) - 1)) == (1u << z)); Src s; s.put(pool); s.put(m); s.put(n); F v = s.rand<F>(), top = 1; for (int i = 0; i < z; ++i) top /= 2; sym_check(v >= top / 2, "binade"); sym_check(v <= top, "binade"); sym_check(v >= 0 & v <= 1, IN); if (sym_choose(2, "probe")) { sym_assume(v == top); sym_reach("one"); } else {
        // different mantissa bits give different values
        u32 m2 = sym_u32("m2"); const u32 keep = sizeof(F) == 4 ? 0xFFFFFE00u : 0xFFFFFFFFu; sym_assume(((m ^ m2) & keep) != 0 & (m & keep) != 0 & (m2 & keep) != 0); Src q; q.put(pool); q.put(m2); q.put(n); sym_check(q.rand<F>() != v, EVEN); sym_reach("end"); } }
extern "C" void h_rng_unit() { int t = sym_choose(2, "type"), z = sym_choose(6, "zeros"); if (t) unit<double>(z); else unit<float>(z); }
template <typename F> static void between(F lo, F hi, int z) { u32 pool = sym_u32("pool"), m = sym_u32("m"), n = sym_u32("n"); sym_assume((pool & ((2u << z) - 1)) == (1u << z)); Src s, q; for (u32 x : {pool, m, n}) { s.put(x); q.put(x); } F v = s.rand<F>(lo, hi); F a = lo < hi ? lo : hi, b = lo < hi ? hi : lo; sym_check(v >= a, IN); sym_check(v <= b, IN); F u = q.rand<F>(hi); sym_check(hi >= 0 ? u >= 0 : u <= 0, IN); sym_check(hi >= 0 ? u <= hi : u >= hi, IN); sym_reach("end"); }
extern "C" void h_rng_float() { int c = sym_choose(6, "case"), z = sym_choose(4, "zeros"); switch (c) { case 0: between<float>(-0.1f, 0.7f, z); break; case 1: between<float>(1.1f, 1.3f, z); break; case 2: between<float>(2.5f, -0.3f, z); break; case 3: between<double>(-0.1, 0.7, z); break; case 4: between<float>(-1, 1, z); break; default: between<float>(-1e-3f, 16777.2f, z); break; } }
// a generator is a function of its seed, whatever it did before
template <typename G> static void mix(G& g, u64 o[4]) { u64 b = 0; for (int i = 0; i < 3; ++i) b = b << 1 | g.template rand<bool>(); o[0] = b; o[1] = g.template rand<unsigned int>(); o[2] = g.template rand<unsigned long>(); o[3] = g.rand32(); }
template <typename G> static void seeded(int skip) { u64 s = sym_u64("seed"), a[4], b[4], c[4]; G g(s), h((u64) 12345); for (int i = 0; i < skip; ++i) { if (i == 1) h.rand32(); h.template rand<bool>(); } h.rseed(s); G k(h); mix(g, a); mix(h, b); mix(k, c); for (int i = 0; i < 4; ++i) { sym_check(a[i] == b[i], "reseeding restarts the sequence"); sym_check(b[i] == c[i], "a copy continues the sequence"); } sym_reach("end"); }
extern "C" void h_rng_seed() { int r = sym_choose(3, "rng"), k = sym_choose(4, "skip"); if (r == 0) seeded<LCRand>(k); else if (r == 1) seeded<XoshiroRand>(k); else seeded<MTRand>(k); }
static u64 rot(u64 x, int k) { return x << k | x >> (64 - k); }
static u64 split(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; return z ^ z >> 31; }
extern "C" void h_rng_ref() { int r = sym_choose(3, "rng"); if (r == 0) { u64 s = sym_u64("seed"), x = s; LCRand g(s), h(s); for (int i = 0; i < 4; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; sym_check(g.rand64() == x, "linear congruential recurrence"); sym_check(h.rand32() == (u32) (x >> 32), "linear congruential recurrence"); } }
    else if (r == 1) { int how = sym_choose(4, "how"); u64 e[4], t[4]; for (u64& x : e) x = sym_u64("s"); u64 x = e[0]; for (int i = 0; i < 4; ++i) { if (how == 0) t[i] = e[i]; else if (how == 1) t[i] = split(x); else if (how == 2) t[i] = e[i]; else { u64 y = e[i]; t[i] = split(y); } } XoshiroRand g(e[0]); if (how == 0) g = XoshiroRand(e); else if (how == 2) g.seed(e); else if (how == 3) { int i = 0; g.seed([&] { return e[i++]; }); } for (int i = 0; i < 4; ++i) { u64 o = rot(t[0] + t[3], 23) + t[0], w = t[1] << 17; t[2] ^= t[0]; t[3] ^= t[1]; t[1] ^= t[2]; t[0] ^= t[3]; t[2] ^= w; t[3] = rot(t[3], 45); sym_check(g.rand64() == o, "xoshiro256++"); } }
    else { u64 s = sym_u64("seed"); MTRand g(s); static u32 o[1300]; for (u32& x : o) x = g.rand32(); u64 l = s; for (int i = 0; i < 624; i += 89) { sym_check(true, ""); } for (int i = 0; i + 624 < 1300; i += 1) { u32 y = (o[i] & 0x80000000u) | (o[i + 1] & 0x7FFFFFFFu); u32 e = o[i + 397] ^ y >> 1 ^ (y & 1) * 0x9908B0DFu; sym_check(o[i + 624] == e, "Mersenne twister recurrence"); } } sym_reach("end"); }
extern "C" void h_rng_any() { u32 hi = sym_u32("hi"), b = sym_u32("b"), c = sym_u32("c"); sym_assume(hi > 0 & hi < 65536); Src s; s.put(b); s.put(c); u32 v = s.rand<unsigned int>(hi); sym_check(v < hi, IN); Src q; q.put(b); q.put(c); int lo = sym_i32("lo"); sym_assume(lo < INT32_MAX - 65536); int w = q.rand<int>(lo, lo + (int) hi); sym_check(w >= lo & w < lo + (int) hi, IN); sym_reach("end"); }
// a random dual number is a random constant
template <typename F> static void rdual(int op) { F l = 1, h = 3; Src s, q; for (int i = 0; i < 4; ++i) { u32 b = sym_u32("b"); if (!(i & 1)) b |= 1u << 31; s.put(b); q.put(b); } typedef Dual<F> D; D d = op == 0 ? s.rand<D>() : op == 1 ? s.rand<D>(D(h, 2)) : s.rand<D>(D(l, 2), D(h, 5)); F v = op == 0 ? q.rand<F>() : op == 1 ? q.rand<F>(h) : q.rand<F>(l, h); sym_check(d.x == v, "a random dual has a random value"); sym_check(d.dx == 0, "a random dual is constant"); sym_check(s.n == q.n, "a random dual consumes the bits of one value"); sym_reach("end"); }
extern "C" void h_rng_dual() { int op = sym_choose(3, "op"); if (sym_choose(2, "type")) rdual<double>(op); else rdual<float>(op); }
