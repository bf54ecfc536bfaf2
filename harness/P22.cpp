// P22: overlap tests between convex shapes.
// LINK: GeomException
//@ h_gjk_tri  mode=real q=60 t=200 split=k:4,+swap:2 need=yes,no
//@ h_gjk_tet  mode=real q=45 t=200 split=k:2,oct:8,+more:2 need=yes,no
//@ h_gjk_flat mode=real q=60 t=200 split=w:5 need=yes,no
//@ h_gjk_warm mode=real q=60 t=200 split=first:4 need=yes,no
//@ h_gjk_any  mode=real q=60 t=200 need=yes,no
//@ h_gjk_member mode=real q=60 t=200 split=w:4 need=yes,no
//@ h_gjk_ball mode=real q=60 t=200 need=yes,no
//@ h_sat4     mode=real q=60 t=200 split=w:3 need=yes,no
//@ h_sat2     mode=real q=60 t=200 split=w:4 need=yes,no
//@ h_sat3     mode=real q=60 t=200 split=w:3 need=yes,no
//@ h_sat_both mode=real q=60 t=200 split=w:2 need=yes,no
//@bounds polygons and polyhedra of 1 to 8 fixed vertices at every relative offset in the plane and space; boxes under fixed affine maps at every offset and, in the plane, of every size; two consecutive tests on one tester
//@assume exact real arithmetic
#include "shape.h"
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Intersect.h>
// a hull of fixed points, moved
template <index_t N> struct Hull : public Convex<T,N,Hull<N>> { V<N> p[8], f[12], e[18]; index_t n = 0, nf = 0, ne = 0; V<N> off = V<N>((T) 0); V<N> convex_support(V<N> d) const { index_t b = 0; T m = dot(p[0], d); for (index_t i = 1; i < n; ++i) { T x = dot(p[i], d); if (x > m) { m = x; b = i; } } return p[b] + off; } };
template <index_t N> static Hull<N> hull(std::initializer_list<V<N>> l) { Hull<N> h; for (auto& v : l) h.p[h.n++] = v; return h; }
// the offset between two fixed hulls keeps them in touch along d
static const char* MEET = "overlap is only reported when the shapes meet"; static const char* APART = "the shapes are reported apart only when they are";
template <index_t N> static void span(const Hull<N>& h, V<N> d, T& lo, T& hi) { lo = hi = dot(h.p[0], d); for (index_t i = 1; i < h.n; ++i) { T k = dot(h.p[i], d); lo = k < lo ? k : lo; hi = k > hi ? k : hi; } }
template <index_t N> static void meet(const Hull<N>& a, const Hull<N>& b, V<N> d, bool claim) { T l, h, m, n, o = dot(a.off - b.off, d); span(a, d, l, h); span(b, d, m, n); if (claim) { sym_check(o + l <= n, MEET); sym_check(m <= o + h, MEET); } else { sym_assume(o + l <= n); sym_assume(m <= o + h); } }
// separated by the axis d, which may depend on the offset
template <index_t N> static void parts(const Hull<N>& a, const Hull<N>& b, V<N> d) { T s = dot(a.p[0] - b.p[0] + a.off - b.off, d); for (index_t i = 0; i < a.n; ++i) for (index_t j = 0; j < b.n; ++j) sym_check(s * dot(a.p[i] - b.p[j] + a.off - b.off, d) > 0, "reported axis separates the shapes"); }
static void axes(const Hull<2>& a, const Hull<2>& b, bool claim) { for (int s = 0; s < 2; ++s) { auto& h = s ? b : a; for (index_t i = 0; i < h.n; ++i) { V<2> e = h.p[(i + 1) % h.n] - h.p[i]; if (h.n > 1) meet<2>(a, b, V<2>(-e.y, e.x), claim); if (h.n == 2) meet<2>(a, b, e, claim); } } if (a.n == 1 && b.n == 1) { meet<2>(a, b, V<2>(1, 0), claim); meet<2>(a, b, V<2>(0, 1), claim); } }
static void axes(const Hull<3>& a, const Hull<3>& b, bool claim) { for (int s = 0; s < 2; ++s) { auto& h = s ? b : a; for (index_t i = 0; i < h.nf; ++i) meet<3>(a, b, h.f[i], claim); } for (index_t i = 0; i < a.ne; ++i) for (index_t j = 0; j < b.ne; ++j) meet<3>(a, b, a.e[i] ^ b.e[j], claim); }
// the answer r, judged without knowing how it was found
template <index_t N> static void judge(bool r, const Hull<N>& a, const Hull<N>& b) { if (r) { sym_reach("yes"); axes(a, b, true); } else { sym_reach("no"); if (sym_choose(2, "dispute")) { axes(a, b, false); sym_check(false, APART); } } }
template <index_t N> static void run(Intersector<T,N>& g, const Hull<N>& a, const Hull<N>& b) { if (g.intersects(as_any_convex(a), as_any_convex(b))) { axes(a, b, true); sym_reach("yes"); } else { sym_reach("no"); if (N == 2 || THOROUGH) parts<N>(a, b, g.separation_axis); if (sym_choose(2, "dispute")) { axes(a, b, false); sym_check(false, APART); } } }
static Hull<2> poly(index_t k) { switch (k) { case 0: return hull<2>({V<2>(0, 0), V<2>(3, 1), V<2>(1, 4)}); case 1: return hull<2>({V<2>(1, 1), V<2>(-2, 2), V<2>(-1, -3), V<2>(2, -1)}); case 2: return hull<2>({V<2>(0, 0), V<2>(2, 0), V<2>(2, 2), V<2>(0, 2)}); case 3: return hull<2>({V<2>(5, 0), V<2>(0, 1), V<2>(-5, 0)}); case 4: return hull<2>({V<2>(1, 2), V<2>(4, 3)}); case 5: return hull<2>({V<2>(2, 1)}); default: return hull<2>({V<2>(-1, 0), V<2>(1, 0), V<2>(2, 2), V<2>(0, 4), V<2>(-2, 2)}); } }
extern "C" void h_gjk_tri() { index_t k = sym_choose(4, "k"); static const index_t A[4] = {0, 1, 2, 3}, B[4] = {3, 0, 2, 6}; Hull<2> a = poly(A[k]), b = poly(B[k]); a.off = vec<2>("o"); Intersector<T,2> g; if (THOROUGH && sym_choose(2, "swap")) run(g, b, a); else run(g, a, b); }
// face normals and edge directions of a solid hull, parallel ones once
static bool along(V<3> a, V<3> b) { V<3> c = a ^ b; return c.x == 0 && c.y == 0 && c.z == 0; }
static Hull<3> faced(Hull<3> h) { for (index_t i = 0; i < h.n; ++i) for (index_t j = i + 1; j < h.n; ++j) { bool edge = h.n <= 3, one = false; V<3> g; for (index_t k = 0; k < h.n; ++k) if (k != i && k != j) { V<3> n = (h.p[j] - h.p[i]) ^ (h.p[k] - h.p[i]); if (n.x == 0 && n.y == 0 && n.z == 0) continue; T lo, hi, z = dot(h.p[i], n); span(h, n, lo, hi); if (lo < z && z < hi) continue; edge |= one && !along(g, n); one = true; g = n; bool dup = false; for (index_t m = 0; m < h.nf; ++m) dup |= along(h.f[m], n); if (!dup && h.nf < 12) h.f[h.nf++] = n; } bool dup = false; for (index_t m = 0; m < h.ne; ++m) dup |= along(h.e[m], h.p[j] - h.p[i]); if (edge && !dup && h.ne < 18) h.e[h.ne++] = h.p[j] - h.p[i]; } if (h.n == 3) for (int i = 0; i < 3; ++i) h.f[h.nf++] = (h.p[(i + 1) % 3] - h.p[i]) ^ h.f[0]; return h; }
static Hull<3> solid0(index_t k) { switch (k) { case 0: return hull<3>({V<3>(0, 0, 0), V<3>(3, 0, 1), V<3>(0, 2, 0), V<3>(1, 1, 4)}); case 1: return hull<3>({V<3>(1, 1, 1), V<3>(-1, -1, 1), V<3>(-1, 1, -1), V<3>(1, -1, -1)}); case 2: return hull<3>({V<3>(0, 0, 0), V<3>(2, 0, 0), V<3>(0, 2, 0), V<3>(2, 2, 0), V<3>(0, 0, 2), V<3>(2, 0, 2), V<3>(0, 2, 2), V<3>(2, 2, 2)}); case 3: return hull<3>({V<3>(1, 0, 0), V<3>(-1, 0, 0), V<3>(0, 2, 0), V<3>(0, -2, 0), V<3>(0, 0, 3), V<3>(0, 0, -3)}); case 4: return hull<3>({V<3>(0, 1, 2), V<3>(3, 1, 0), V<3>(1, -2, 1)}); case 5: return hull<3>({V<3>(1, 1, -1), V<3>(2, -1, 3)}); default: return hull<3>({V<3>(1, 2, 3)}); } }
static Hull<3> solid(index_t k) { return faced(solid0(k)); }
extern "C" void h_gjk_tet() { index_t k = sym_choose(2, "k"), q = sym_choose(8, "oct"); if (THOROUGH) k += 2 * sym_choose(2, "more"); static const index_t A[4] = {0, 3, 0, 2}, B[4] = {1, 6, 5, 2}; Hull<3> a = solid(A[k]), b = solid(B[k]); a.off = vec<3>("o"); sym_assume((q & 1 ? a.off.x >= 0 : a.off.x < 0) & (q & 2 ? a.off.z >= 0 : a.off.z < 0) & (q & 4 ? a.off.y >= 0 : a.off.y < 0)); Intersector<T,3> g; run(g, a, b); }
extern "C" void h_gjk_flat() { index_t w = sym_choose(5, "w"); Intersector<T,2> g; switch (w) { case 0: { Hull<2> a = poly(4), b = poly(0); a.off = vec<2>("o"); run(g, a, b); } break; case 1: { Hull<2> a = poly(5), b = poly(1); a.off = vec<2>("o"); run(g, a, b); } break; case 2: { Hull<2> a = poly(5), b = poly(5); a.off = vec<2>("o"); run(g, a, b); } break; case 3: { Hull<2> a = poly(4), b = hull<2>({V<2>(0, 0), V<2>(-1, 3)}); a.off = vec<2>("o"); run(g, a, b); } break; default: { Hull<2> a = poly(4), b = poly(5); a.off = vec<2>("o"); run(g, a, b); } } }
// one tester, two consecutive tests: the first leaves its state behind
extern "C" void h_gjk_warm() { index_t k = sym_choose(4, "first"); Intersector<T,2> g; Hull<2> a = poly(0), b = poly(2); a.off = k == 0 ? V<2>(0, 0) : k == 1 ? V<2>(9, -4) : k == 2 ? V<2>(2, 2) : V<2>(-3, -1); g.intersects(as_any_convex(a), as_any_convex(b)); if (sym_choose(2, "part")) { Intersector<T,2> h = g; Sphere<T,2> s(V<2>(0, 0), 1), t(V<2>(3, 0), 1); sym_check(!h.intersects(as_any_convex(s), as_any_convex(t)), "distant balls are apart"); sym_check(!g.intersects(as_any_convex(t), as_any_convex(s)), "distant balls are apart"); return; } Hull<2> c = poly(0), d = poly(2); c.off = vec<2>("o"); if (k & 1) { Intersector<T,2> h; { Intersector<T,2> f = g; h = f; } run(h, c, d); } else run(g, c, d); }
// whatever support points the shapes report, "apart" is only answered with a direction that proves it
template <int M> struct Odd : public Convex<T,2,Odd<M>> { static inline V<2> d[8]; static inline V<2> p[8]; static inline int n; V<2> convex_support(V<2> x) const { int i = n++; d[i % 8] = x; p[i % 8] = i < 2 + THOROUGH ? vec<2>("s") : V<2>(0, 0); return p[i % 8]; } };
extern "C" void h_gjk_any() { Odd<0>::n = Odd<1>::n = 0; Odd<0> a; Hull<2> b = poly(2); Intersector<T,2> g; g.max_iterations = 2 + THOROUGH; bool r = g.intersects(as_any_convex(a), as_any_convex(b)); if (!r) { int i = Odd<0>::n - 1; sym_assume(i < 8); V<2> d = Odd<0>::d[i]; sym_check(dot(Odd<0>::p[i], d) < dot(b.convex_support(-d), d), "apart only with a proof"); sym_check_eq(d.x * g.separation_axis.y - d.y * g.separation_axis.x, 0, "reported axis is the proof"); } sym_reach(r ? "yes" : "no"); }
extern "C" void h_gjk_member() {
    index_t w = sym_choose(4, "w"); V<2> o = vec<2>("o"); bool r; if (w == 0) { Hull<2> a = poly(0), b = poly(2); Simplex<T,2> s{a.p[0] + o, a.p[1] + o, a.p[2] + o}; a.off = o; Rect<T,2> q(V<2>(0, 0), V<2>(2, 2)); r = s.intersects(q); judge(r, a, b); } else if (w == 1) { Hull<2> a = poly(0), b = poly(3); Simplex<T,2> s{a.p[0] + o, a.p[1] + o, a.p[2] + o}; Simplex<T,2> q{b.p[0], b.p[1], b.p[2]}; a.off = o; r = q.intersects(s); judge(r, a, b); }
    else { V<3> z(o.x, o.y, THOROUGH ? sym_f64("z") : w == 2 ? 1 : 0); Hull<3> a = faced(w == 2 ? hull<3>({V<3>(1, 0, -1), V<3>(3, 0, -1), V<3>(1, 1, -1), V<3>(3, 1, -1), V<3>(1, 0, 1), V<3>(3, 0, 1), V<3>(1, 1, 1), V<3>(3, 1, 1)}) : hull<3>({V<3>(-1, 0, 1), V<3>(2, 0, 1), V<3>(-1, 1, 1), V<3>(2, 1, 1), V<3>(-2, 0, 2), V<3>(4, 0, 2), V<3>(-2, 2, 2), V<3>(4, 2, 2)})), b = solid(0); b.off = z; Simplex<T,3> t{b.p[0] + z, b.p[1] + z, b.p[2] + z, b.p[3] + z}; if (w == 2) r = Extruded<Rect<T,2>>(Rect<T,2>(V<2>(1, 0), V<2>(3, 1)), Rect<T,1>(-1, 1)).intersects(t); else r = Frustum<Rect<T,2>>(Rect<T,2>(V<2>(-1, 0), V<2>(2, 1)), Rect<T,1>(1, 2)).intersects(t); judge(r, a, b); }
}
extern "C" void h_gjk_ball() { T x = sym_f64("x"), r = sym_f64("r"), s = sym_f64("s"); sym_assume((r > 0) & (s > 0)); Intersector<T,2> g; bool h = g.intersects(as_any_convex(Sphere<T,2>(V<2>(0, 1), r)), as_any_convex(Sphere<T,2>(V<2>(x, 1), s))); T d = x < 0 ? -x : x; sym_check(h == (d <= r + s), "balls on a line overlap exactly within the sum of their radii"); sym_reach(h ? "yes" : "no"); }
static AffineTransform<T,2> xf2(index_t w) { V<2> a = w == 0 ? V<2>(1, 0) : w == 1 ? V<2>(3, 4) / 5 : w == 2 ? V<2>(2, 1) : V<2>(0, -2), b = w == 0 ? V<2>(0, 1) : w == 1 ? V<2>(-4, 3) / 5 : w == 2 ? V<2>(1, -3) : V<2>(1, 1); return transformation(SimpleMatrix<T,2,2>({a.x, b.x, a.y, b.y})); }
static AffineTransform<T,3> xf3(index_t w) { if (w == 0) return scale(V<3>(1, 2, -1)); if (w == 1) return transformation(SimpleMatrix<T,3,3>({2, -1, 2, 2, 2, -1, -1, 2, 2})); return transformation(SimpleMatrix<T,3,3>({1, 1, 0, 0, 2, 1, 1, 0, 1})); }
template <index_t N> static Hull<N> corners(const Rect<T,N>& r, const AffineTransform<T,N>& xf) { Hull<N> h; h.n = 1 << N; for (index_t i = 0; i < h.n; ++i) { V<N> p; for (index_t j = 0; j < N; ++j) p[j] = (N == 2 ? i ^ i >> 1 : i) >> j & 1 ? r.hi[j] : r.lo[j]; V<N> q((T) 0); for (index_t j = 0; j < N; ++j) for (index_t k = 0; k < N; ++k) q[j] += xf.mat(j, k) * p[k]; h.p[i] = q; } if constexpr (N == 3) return faced(h); else return h; }
// four dimensions: boxes turned onto other axes, overlapping exactly when all four ranges do
extern "C" void h_sat4() { index_t w = sym_choose(3, "w"); T m[16] = {0, -1, 0, 0, 2, 0, 0, 0, 0, 0, 0, 1, 0, 0, -3, 0}; AffineTransform<T,4> x = transformation(SimpleMatrix<T,4,4>(m)); V<4> o(sym_f64("x"), w == 1 ? sym_f64("y") : T(0), w == 2 ? sym_f64("z") : T(1), T(-1)); if (THOROUGH) o.w = sym_f64("w"); Rect<T,4> r(V<4>(-1, 0, -2, 0), V<4>(1, 2, 2, 1)), q(V<4>(0, -1, 1, -2), V<4>(3, 2, 2, 4)), k(V<4>(-2, -2, 0, -6), V<4>(0, 2, 1, 6)); Oriented<Rect<T,4>> b(r, translation(o) * x); bool want = true; for (index_t i = 0; i < 4; ++i) { T lo = k.lo[i] + o[i], hi = k.hi[i] + o[i]; want &= (lo <= q.hi[i]) & (hi >= q.lo[i]); sym_assume((lo != q.hi[i]) & (hi != q.lo[i])); } bool h = b.intersects(q); sym_check(h == want, "boxes overlap exactly when they share a point"); sym_reach(h ? "yes" : "no"); }
extern "C" void h_sat2() { index_t w = sym_choose(4, "w"); AffineTransform<T,2> x = xf2(w); V<2> o = vec<2>("o"); T k = 1, l = 1; if (THOROUGH) { k = sym_f64("k"), l = sym_f64("l"); sym_assume((k >= 0) & (l >= -1)); } Rect<T,2> r(V<2>(-1, 0), V<2>(k, 2)), q(V<2>(0, -1), V<2>(3, l)); Oriented<Rect<T,2>> b(r, translation(o) * x); Hull<2> ha = corners<2>(r, x), hb = corners<2>(q, AffineTransform<T,2>()); ha.off = o; bool h = b.intersects(q); judge(h, ha, hb); sym_check(q.intersects(b) == h, "boxes overlap exactly when they share a point"); }
extern "C" void h_sat3() { index_t w = sym_choose(3, "w"); AffineTransform<T,3> x = xf3(w); V<3> o = vec<3>("o"); if (!THOROUGH && w == 1) o.z = T(1) / 2; Rect<T,3> r(V<3>(-1, 0, -2), V<3>(1, 2, 2)), q(V<3>(0, -1, 1), V<3>(3, 2, 2)); Oriented<Rect<T,3>> b(r, translation(o) * x); Hull<3> ha = corners<3>(r, x), hb = corners<3>(q, AffineTransform<T,3>()); ha.off = o; bool h = b.intersects(q); judge(h, ha, hb); }
extern "C" void h_sat_both() { index_t w = sym_choose(2, "w"); if (w == 0) { AffineTransform<T,2> x = xf2(1), y = xf2(2); V<2> o = vec<2>("o"); Rect<T,2> r(V<2>(-1, 0), V<2>(2, 2)), q(V<2>(0, -1), V<2>(3, 1)); const Oriented<Rect<T,2>> a(r, translation(o) * x), b(q, y); Hull<2> ha = corners<2>(r, x), hb = corners<2>(q, y); ha.off = o; bool h = a.intersects(b); judge(h, ha, hb); sym_check(b.intersects(a) == h, "boxes overlap exactly when they share a point"); }
    else { AffineTransform<T,3> x = xf3(1), y = xf3(2); V<3> o = vec<3>("o"); if (!THOROUGH && w == 1) o.z = T(1) / 2; Rect<T,3> r(V<3>(-1, 0, -2), V<3>(1, 2, 2)), q(V<3>(0, -1, 1), V<3>(3, 2, 2)); const Oriented<Rect<T,3>> a(r, translation(o) * x), b(q, y); Hull<3> ha = corners<3>(r, x), hb = corners<3>(q, y); ha.off = o; bool h = a.intersects(b); judge(h, ha, hb); } }
