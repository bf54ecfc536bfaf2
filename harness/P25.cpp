// P25: random points of regions: always inside, and a volume-preserving image of the uniform draws.
//@ h_smp_ball  mode=real q=60 t=200 split=n:2,op:4 need=end,retry
//@ h_smp_shell mode=real q=60 t=200 split=n:2 need=end
//@ h_smp_box   mode=real q=60 t=200 split=op:5 need=end
//@ h_smp_cap   mode=real q=60 t=200 split=op:3,d:5 need=end
//@ h_smp_disk  mode=real q=60 t=200 split=d:5 need=end
//@ h_smp_arc   mode=real q=60 t=200 need=end
//@ h_smp_perm  mode=real q=60 t=200 split=n:3 need=same,different
//@ h_smp_shape mode=real q=60 t=200 split=op:4 need=end
//@bounds two and three dimensions; all draws, radii, angles up to a half turn, boxes and simplex vertices; up to two rejections; five chosen axes for caps and disks (every axis in thorough); permutations of up to 4 things
//@assume exact real arithmetic; uniform draws lie in their range (decided separately), exponential draws are positive
#include "shape.h"
#include <geomc/random/RandomTools.h>
#include <geomc/random/SampleGeometry.h>
static T U[16]; static int nu = 0, mu = 16; static const unsigned long* Q = nullptr; static int nq = 0;
static T unif() { sym_assume(nu < mu); T u = sym_f64("u"); sym_assume((u >= 0) & (u <= 1)); return U[nu++] = u; }
namespace geom { Random::Random() {} Random::~Random() {}
template <> double Random::rand<double>() { return unif(); } template <> double Random::rand<double>(double h) { return unif() * h; } template <> double Random::rand<double>(double l, double h) { return l + unif() * (h - l); } template <> unsigned long Random::rand<unsigned long>(unsigned long) { return Q[nq++]; }
Random* getRandom() { return nullptr; } }
struct Rng : public Random { uint32_t rand32() override { return 0; } void rseed(uint64_t) override {} };
static const char* IN = "inside the region"; static const char* EVEN = "uniformly distributed";
// the point of the cube that was accepted
template <index_t N> static V<N> cube(int first) { V<N> p; for (int i = 0; i < N; ++i) p[i] = 2 * U[first + i] - 1; return p; }
template <index_t N> static void along(const V<N>& v, const V<N>& p) { for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) sym_check_eq(v[i] * p[j], v[j] * p[i], EVEN); sym_check_le(0, dot(v, p), EVEN); }
template <index_t N> static void ball(int op) { Rng g; Sampler<T> s(&g); mu = 2 * N; T r = sym_f64("r"); sym_assume(r >= 0); V<N> v = op == 0 ? s.unit<N>() : op == 1 ? s.unit<N>(r) : op == 2 ? (N == 2 && sym_choose(2, "disk") ? s.disk().template resized<N>() : s.solidball<N>()) : N == 2 && sym_choose(2, "disk") ? s.disk(r).template resized<N>() : s.solidball<N>(r); V<N> p = cube<N>(nu - N); sym_check(dot(p, p) <= 1, IN); if (op == 0) r = 1; if (op < 2) { sym_check_eq(dot(v, v), r * r, IN); along(v, p); } else same(v, op == 2 ? p : p * r, EVEN); if (nu > N) { V<N> f = cube<N>(0); T m = dot(f, f); sym_check(op < 2 ? bool((m >= 1) | (m == 0)) : m >= 1, EVEN); } sym_reach(nu > N ? "retry" : "end"); }
extern "C" void h_smp_ball() { int n = sym_choose(2, "n"), op = sym_choose(4, "op"); if (n) ball<3>(op); else ball<2>(op); }
template <index_t N> static void shell() { Rng g; Sampler<T> s(&g); mu = N + 1; T a = sym_f64("a"), b = sym_f64("b"); sym_assume((a >= 0) & (b > a)); V<N> v = s.shell<N>(a, b); T m = dot(v, v), u = U[0]; sym_check_le(a * a, m, IN); sym_check_le(m, b * b, IN); if (N == 2) sym_check_eq(m, a * a + u * (b * b - a * a), EVEN); else { T c = a * a * a + u * (b * b * b - a * a * a); sym_check_eq(m * m * m, c * c, EVEN); } along(v, cube<N>(1)); sym_reach("end"); }
extern "C" void h_smp_shell() { if (sym_choose(2, "n")) shell<3>(); else shell<2>(); }
extern "C" void h_smp_box() { int op = sym_choose(5, "op"); Rng g; Sampler<T> s(&g); V<3> l = vec<3>("l"), h = vec<3>("h"), v; for (int i = 0; i < 3; ++i) sym_assume(l[i] <= h[i]); int n = 3; switch (op) { case 0: v = s.box<3>(); l = V<3>((T) 0); h = V<3>((T) 1); break; case 1: v = s.box<3>(l, h); break; case 2: v = s.box(Rect<T,3>(l, h)); break; case 3: v = s.box(l.x, l.y, l.z, h.x, h.y, h.z); break; default: { V<2> w = s.box(l.x, l.y, h.x, h.y); v = V<3>(w, 0); n = 2; } } for (int i = 0; i < n; ++i) { sym_check_le(l[i], v[i], IN); sym_check_le(v[i], h[i], IN); }
    // each coordinate is an independent draw (arguments may be evaluated in any order)
    sym_check(nu == n, EVEN); for (int i = 0; i < n; ++i) { bool any = false; for (int j = 0; j < n; ++j) any |= v[i] == l[i] + U[j] * (h[i] - l[i]); sym_check(any, EVEN); } sym_reach("end"); }
static V<3> axis() { int d = sym_choose(5, "d"); static const T D[5][3] = {{0, 0, 1}, {0, 0, -2}, {3, 0, 4}, {1, 2, -2}, {-2, 0, 0}};
    if (THOROUGH && d == 2) return dir<3>("d");
    return V<3>(D[d][0], D[d][1], D[d][2]); }
extern "C" void h_smp_cap() { int op = sym_choose(3, "op"); Rng g; Sampler<T> s(&g); T a = sym_f64("a"); sym_assume((a >= 0) & (a <= M_PI)); T c = std::cos(a); V<3> d(0, 0, 1), v; T lo = sym_f64("lo"), hi = sym_f64("hi"); int k = 0; if (op == 0) { v = s.cap(a); } else d = axis(); if (op == 1) v = s.cap(d, a); if (op == 2) { sym_assume((lo >= 0) & (hi > lo)); v = s.solidcap(d, a, lo, hi); k = 1; } T m = dot(v, v), l2 = dot(d, d); T h = c + U[k] * (1 - c), e = dot(v, d);
    if (op < 2) { sym_check_eq(m, 1, IN); sym_check_eq(e * e, h * h * l2, EVEN); sym_check_le(0, e * h, EVEN); } else { T q = lo * lo * lo + U[0] * (hi * hi * hi - lo * lo * lo); sym_check_eq(m * m * m, q * q, EVEN); sym_check_eq(e * e, h * h * l2 * m, EVEN); sym_check_le(0, e * h, EVEN); }
    if (op == 0) { T th = 2 * M_PI * U[1]; sym_check_eq(v.x * std::sin(th), v.y * std::cos(th), EVEN); sym_check_le(0, v.x * std::cos(th), EVEN); } sym_reach("end"); }
extern "C" void h_smp_disk() { Rng g; Sampler<T> s(&g); V<3> d = axis(); T r = sym_f64("r"); sym_assume(r >= 0); mu = 2; V<3> v = s.oriented_disk(d, r); V<2> p = cube<2>(0); sym_check_eq(dot(v, d), 0, IN); sym_check_eq(dot(v, v), r * r * dot(p, p), EVEN); sym_reach("end"); }
extern "C" void h_smp_arc() { Rng g; Sampler<T> s(&g); T a = sym_f64("a"), b = sym_f64("b"), lo = sym_f64("lo"), hi = sym_f64("hi"); sym_assume((a <= b) & (lo >= 0) & (hi > lo)); bool solid = sym_choose(2, "solid"); V<2> v = solid ? s.solidarc(a, b, lo, hi) : s.arc(a, b); T th = a + U[0] * (b - a), m = dot(v, v); sym_check_eq(m, solid ? lo * lo + U[1] * (hi * hi - lo * lo) : 1, EVEN); sym_check_eq(v.x * std::sin(th), v.y * std::cos(th), EVEN); sym_check_le(0, v.x * std::cos(th) + v.y * std::sin(th), EVEN); sym_reach("end"); }
// different draws give different arrangements, so all arrangements are equally likely
extern "C" void h_smp_perm() { unsigned long n = 2 + sym_choose(3, "n"), q[2][4]; int o[2][4]; Rng g; bool eq = true, is = true; for (int k = 0; k < 2; ++k) { for (unsigned long i = 0; i < n; ++i) q[k][i] = sym_choose(n - i, "q"); std::vector<int> v(n); for (unsigned long i = 0; i < n; ++i) v[i] = o[k][i] = i; Q = q[k]; nq = 0; permute(o[k], (size_t) n, g); nq = 0; permute(v, g); unsigned seen = 0; for (unsigned long i = 0; i < n; ++i) { sym_check(v[i] == o[k][i], "both forms agree"); seen |= 1u << o[k][i]; } sym_check(seen == (1u << n) - 1, "an arrangement of the same things"); } for (unsigned long i = 0; i < n; ++i) { eq &= q[0][i] == q[1][i]; is &= o[0][i] == o[1][i]; } sym_check(eq == is, EVEN); sym_reach(eq ? "same" : "different"); }
struct Gen { typedef uint32_t result_type; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return ~0u; } uint32_t operator()() { return 0; } };
static T E[4]; static int ne = 0;
namespace std { template <> template <> double exponential_distribution<double>::operator()<Gen>(Gen&, const param_type&) { T e = sym_f64("e"); sym_assume(e > 0); return E[ne++] = e; } template <> template <> double uniform_real_distribution<double>::operator()<Gen>(Gen&, const param_type& p) { return p.a() + unif() * (p.b() - p.a()); } template <> template <> double normal_distribution<double>::operator()<Gen>(Gen&, const param_type&) { return E[ne++] = sym_f64("e"); } }
extern "C" void h_smp_shape() { int op = sym_choose(4, "op"); Gen g; if (op == 0) { V<2> l = vec<2>("l"), h = vec<2>("h"); sym_assume((l.x <= h.x) & (l.y <= h.y)); SampleShape<Rect<T,2>> s(Rect<T,2>(l, h)); V<2> v = s(g); sym_check(s.param() == Rect<T,2>(l, h), "keeps its shape"); for (int i = 0; i < 2; ++i) sym_check_eq(v[i], l[i] + U[i] * (h[i] - l[i]), EVEN); }
    else if (op == 1) { V<2> c = vec<2>("c"); T r = sym_f64("r"); sym_assume(r > 0); SampleShape<Sphere<T,2>> s(Sphere<T,2>(c, r)); V<2> v = s(g) - c, e(E[0], E[1]); sym_assume((e.x != 0) | (e.y != 0)); sym_check_eq(dot(v, v), r * r * U[0], EVEN); along(v, e); }
    else if (op == 2) { V<2> p[3] = {vec<2>("p"), vec<2>("p"), vec<2>("p")}; int n = 1 + sym_choose(3, "n"); SampleShape<Simplex<T,2>> s(Simplex<T,2>(p, n)); if (sym_choose(2, "again")) { SampleShape<Simplex<T,2>> t(Simplex<T,2>(p, 1)); t.param(s.param()); s = t; } V<2> v = s(g); sym_check(ne == n, EVEN); T w = 0; V<2> q((T) 0); for (int i = 0; i < n; ++i) { w += E[i]; q += E[i] * p[i]; } same(v * w, q, EVEN); }
    else { SampleShape<Sphere<T,3>> s(Sphere<T,3>(V<3>(1, 2, 3), 2)); V<3> v = s(g) - V<3>(1, 2, 3); T m = dot(v, v); V<3> e(E[0], E[1], E[2]); sym_assume((e.x != 0) | (e.y != 0) | (e.z != 0)); sym_check_eq(m * m * m, 64 * U[0] * U[0], EVEN); along(v, e); } sym_reach("end"); }
