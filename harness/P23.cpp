// P23: rasters: discrete access, edge behaviour, interpolation, domains.
//@ h_rst_edge  mode=real q=60 t=200 split=max:6,mode:3 need=in,below,above
//@ h_rst_disc  mode=real q=60 t=200 split=mode:4 need=in,out
//@ h_rst_one   mode=real q=60 t=200 split=mode:4,k:7 need=linear,cubic,nearest
//@ h_rst_two   mode=real q=60 t=200 split=mode:4,x:4 need=linear,nearest
//@ h_rst_cube  mode=real q=60 t=200 split=mode:4 need=end
//@ h_rst_three mode=real q=60 t=200 need=end
//@ h_rst_set   mode=real q=60 t=200 split=w:3 need=end
//@ h_rst_shape mode=real q=60 t=200 need=end
//@bounds grids of 1 to 7 samples in one, 3x2 in two and 2x2x2 in three dimensions, all sample values; discrete coordinates to 2^40 (wrapped ones to 4096) in one and a margin of 3 in two dimensions; interpolated points anywhere within a margin of two cells; all domains of positive size
//@assume exact real arithmetic
#include "shape.h"
#include <geomc/function/Raster.h>
typedef Vec<index_t,2> G2;
static const EdgeBehavior E[4] = {EDGE_CLAMP, EDGE_PERIODIC, EDGE_MIRROR, EDGE_CONSTANT};
// oracle: where a coordinate lands, -1 if nowhere
static index_t land(int m, index_t c, index_t n) { if (m == 0) { while (c < 0) ++c; while (c >= n) --c; return c; } if (m == 1) { while (c < 0) c += n; while (c >= n) c -= n; return c; } if (m == 2) { if (n == 1) return 0; while (c < 0 || c >= n) c = c < 0 ? -c : 2 * (n - 1) - c; return c; } return c >= 0 && c < n ? c : -1; }
template <typename R, typename C> static auto disc(const R& r, int m, const C& c) { switch (m) { case 0: return r.template sample_discrete<EDGE_CLAMP>(c); case 1: return r.template sample_discrete<EDGE_PERIODIC>(c); case 2: return r.template sample_discrete<EDGE_MIRROR>(c); default: return r.template sample_discrete<EDGE_CONSTANT>(c); } }
template <Interpolation I, typename R, typename C> static auto samp(const R& r, int m, const C& c) { switch (m) { case 0: return r.template sample<EDGE_CLAMP,I>(c); case 1: return r.template sample<EDGE_PERIODIC,I>(c); case 2: return r.template sample<EDGE_MIRROR,I>(c); default: return r.template sample<EDGE_CONSTANT,I>(c); } }
static const char* DYN = "static and dynamic sampling agree";
// any coordinate at all, on a line whose samples are their own index
extern "C" void h_rst_edge() { index_t n = 1 + sym_choose(6, "max"), m = sym_choose(3, "mode"); T d[6] = {0, 1, 2, 3, 4, 5}; Raster<T,T,1,1> r(n, d); int64_t lim = m == 0 ? (int64_t) 1 << 40 : 1 << 12; index_t c = sym_i64("c"); sym_assume((c > -lim) & (c < lim)); T v = disc(r, m, c); sym_check(r.sample_discrete(c, E[m]) == v, DYN); int k = (int) v; sym_check((k >= 0) & (k < n), "lands on a sample"); sym_check(!((c >= 0) & (c < n)) | (c == k), "inside coordinates are unchanged"); if (m == 0) { sym_check(!(c < 0) | (k == 0), "clamped below"); sym_check(!(c >= n) | (k == n - 1), "clamped above"); } else if (m == 1) sym_check((c - k) % n == 0, "periodic"); else if (n > 1) { index_t p = 2 * (n - 1); sym_check(((c - k) % p == 0) | ((c + k) % p == 0), "mirrored"); } sym_reach("in"); if (sym_choose(2, "probe")) { sym_assume(c < 0); sym_reach("below"); } else { sym_assume(c >= n); sym_reach("above"); } }
extern "C" void h_rst_disc() { index_t m = sym_choose(4, "mode"), x = (index_t) sym_choose(9, "x") - 3, y = (index_t) sym_choose(8, "y") - 3; T d[12], a[2] = {sym_f64("a"), sym_f64("a")}; for (auto& e : d) e = sym_f64("v"); Raster<T,T,2,2> r(G2(3, 2), d); V<2> z = r.sample_discrete(G2(-1, 0), EDGE_CONSTANT); same(z, V<2>((T) 0), "zero outside by default"); r.setAbyss(V<2>(a[0], a[1])); index_t i = land(m, x, 3), j = land(m, y, 2); V<2> v = disc(r, m, G2(x, y)), w = r.sample_discrete(G2(x, y), E[m]); bool in = i >= 0 && j >= 0; same(v, w, DYN); for (int c = 0; c < 2; ++c) sym_check_eq(v[c], in ? d[(j * 3 + i) * 2 + c] : a[c], "discrete sample"); sym_check(r.contains_gridpt(G2(x, y)) == (x >= 0 && x < 3 && y >= 0 && y < 2), "grid point test"); sym_reach(in ? "in" : "out"); }
static T at(int m, const T* d, index_t n, index_t c, T a) { index_t i = land(m, c, n); return i < 0 ? a : d[i]; }
// the cubic through two samples with central-difference slopes
static T hermite(T p, T q, T r, T s, T t) { T u = (r - p) / 2, v = (s - q) / 2, t2 = t * t, t3 = t2 * t; return q * (2 * t3 - 3 * t2 + 1) + u * (t3 - 2 * t2 + t) + r * (3 * t2 - 2 * t3) + v * (t3 - t2); }
extern "C" void h_rst_one() {
    index_t m = sym_choose(4, "mode"), k = (index_t) sym_choose(7, "k") - 2, n = 4; T d[4], s = sym_f64("s"), a = sym_f64("a"), lo = sym_f64("lo"), w = sym_f64("w"); for (auto& e : d) e = sym_f64("v"); sym_assume((s >= 0) & (s < 1) & (w > 0)); bool unit = sym_choose(2, "unit"); T p = unit ? k + s : lo + (k + s) / (n - 1) * w; Raster<T,T,1,1> u(n, d), z(n, d, Rect<T,1>(lo, lo + w)); Raster<T,T,1,1>& r = unit ? u : z; r.setAbyss(a);
    T e[4]; for (int i = 0; i < 4; ++i) e[i] = at(m, d, n, k - 1 + i, a); switch (sym_choose(3, "interp")) { case 0: { T v = samp<INTERP_LINEAR>(r, m, p); sym_check_eq(v, e[1] * (1 - s) + e[2] * s, "linear interpolation"); sym_check_eq(r.sample(p, E[m], INTERP_LINEAR), v, DYN); sym_reach("linear"); } break; case 1: { T v = samp<INTERP_CUBIC>(r, m, p); sym_check_eq(v, hermite(e[0], e[1], e[2], e[3], s), "cubic interpolation"); sym_check_eq(r.sample(p, E[m], INTERP_CUBIC), v, DYN); sym_reach("cubic"); } break;
    default: { bool up = sym_choose(2, "up"); sym_assume(up ? s > 0.5 : s < 0.5); T v = samp<INTERP_NEAREST>(r, m, p); sym_check_eq(v, up ? e[2] : e[1], "nearest sample"); sym_check_eq(r.sample(p, E[m], INTERP_NEAREST), v, DYN); sym_reach("nearest"); } break; }
}
extern "C" void h_rst_two() {
    index_t m = sym_choose(4, "mode"), k = (index_t) sym_choose(4, "x") - 1, l = (index_t) sym_choose(3, "y") - 1; T d[12], s = sym_f64("s"), t = sym_f64("t"), a[2] = {sym_f64("a"), sym_f64("a")}, w = sym_f64("w"), h = sym_f64("h"); for (auto& e : d) e = sym_f64("v"); sym_assume((s >= 0) & (s < 1) & (t >= 0) & (t < 1) & (w > 0) & (h > 0)); V<2> lo(1, -2), p = lo + V<2>((k + s) / 2 * w, (l + t) * h); Raster<T,T,2,2> r(G2(3, 2), d, Rect<T,2>(lo, lo + V<2>(w, h))); r.setAbyss(V<2>(a[0], a[1]));
    V<2> e[2][2]; for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { index_t x = land(m, k + i, 3), y = land(m, l + j, 2); for (int c = 0; c < 2; ++c) e[j][i][c] = x < 0 || y < 0 ? a[c] : d[(y * 3 + x) * 2 + c]; }
    if (sym_choose(2, "interp")) { V<2> v = samp<INTERP_LINEAR>(r, m, p); same(v, (e[0][0] * (1 - s) + e[0][1] * s) * (1 - t) + (e[1][0] * (1 - s) + e[1][1] * s) * t, "linear interpolation"); same(r.sample(p, E[m], INTERP_LINEAR), v, DYN); sym_reach("linear"); } else { bool i = sym_choose(2, "up"), j = sym_choose(2, "up"); sym_assume((i ? s > 0.5 : s < 0.5) & (j ? t > 0.5 : t < 0.5)); V<2> v = samp<INTERP_NEAREST>(r, m, p); same(v, e[j][i], "nearest sample"); same(r.sample(p, E[m], INTERP_NEAREST), v, DYN); sym_reach("nearest"); }
}
extern "C" void h_rst_cube() { index_t m = sym_choose(4, "mode"), k = sym_choose(2, "x"), l = (index_t) sym_choose(2, "y") - 1; T d[6], s = sym_f64("s"), t = sym_f64("t"), a = sym_f64("a"); for (auto& e : d) e = sym_f64("v"); sym_assume((s >= 0) & (s < 1) & (t >= 0) & (t < 1)); Raster<T,T,2,1> r(G2(3, 2), d); r.setAbyss(a); T q[4]; for (int j = 0; j < 4; ++j) { T e[4]; for (int i = 0; i < 4; ++i) { index_t x = land(m, k - 1 + i, 3), y = land(m, l - 1 + j, 2); e[i] = x < 0 || y < 0 ? a : d[y * 3 + x]; } q[j] = hermite(e[0], e[1], e[2], e[3], s); } V<2> p(k + s, l + t); T v = samp<INTERP_CUBIC>(r, m, p); sym_check_eq(v, hermite(q[0], q[1], q[2], q[3], t), "cubic interpolation"); sym_check_eq(r.sample(p, E[m], INTERP_CUBIC), v, DYN); sym_reach("end"); }
extern "C" void h_rst_three() { T d[8]; for (auto& e : d) e = sym_f64("v"); T s[3] = {sym_f64("s"), sym_f64("t"), sym_f64("u")}; for (T x : s) sym_assume((x >= 0) & (x < 1)); Raster<T,T,3,1> r(Vec<index_t,3>(2, 2, 2), d); T v = 0; for (int i = 0; i < 8; ++i) v += d[i] * (i & 1 ? s[0] : 1 - s[0]) * (i & 2 ? s[1] : 1 - s[1]) * (i & 4 ? s[2] : 1 - s[2]); V<3> p(s[0], s[1], s[2]); sym_check_eq((r.sample<EDGE_CLAMP,INTERP_LINEAR>(p)), v, "linear interpolation"); sym_check_eq(r.sample(p), v, DYN); sym_reach("end"); }
extern "C" void h_rst_set() {
    index_t w = sym_choose(3, "w"); if (w == 0) { Raster<T,T,2,2> r(G2(3, 2)); index_t x = (index_t) sym_choose(5, "x") - 1, y = (index_t) sym_choose(4, "y") - 1; V<2> v = vec<2>("v"); r.set(G2(x, y), v); for (index_t i = 0; i < 3; ++i) for (index_t j = 0; j < 2; ++j) { V<2> g = r.sample_discrete<EDGE_CONSTANT>(G2(i, j)); same(g, i == x && j == y ? v : V<2>((T) 0), "only the named sample is set"); } }
    else if (w == 1) { Raster<T,T,1,1> r(5, Rect<T,1>(0, 1)); index_t x = (index_t) sym_choose(8, "x") - 1; T v = sym_f64("v"); r.set(x, v); for (index_t i = 0; i < 5; ++i) sym_check_eq(r.sample_discrete(i, EDGE_CLAMP), i == x ? v : 0, "only the named sample is set"); sym_check_eq(r.sample_discrete(-3, EDGE_CONSTANT), 0, "zero outside by default"); }
    else { T d[6]; for (auto& e : d) e = sym_f64("v"); Raster<T,T,2,1> r(G2(3, 2), d); index_t x = (index_t) sym_choose(4, "x") - 1, y = (index_t) sym_choose(3, "y") - 1, m = sym_choose(3, "mode"); T o[6], q[6]; Rect<index_t,2> g(G2(x, y), G2(x + 2, y + 1)); if (m == 0) r.copy<EDGE_CLAMP>(o, g); else if (m == 1) r.copy<EDGE_PERIODIC>(o, g); else r.copy<EDGE_MIRROR>(o, g); r.copy(q, g, E[m]); for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { sym_check_eq(o[j * 3 + i], d[land(m, y + j, 2) * 3 + land(m, x + i, 3)], "copied region, first dimension consecutive"); sym_check_eq(o[j * 3 + i], q[j * 3 + i], DYN); } } sym_reach("end");
}
extern "C" void h_rst_shape() { T lo = sym_f64("lo"), w = sym_f64("w"); sym_assume(w > 0); Raster<T,T,2,3> r(G2(3, 2)); sym_check(r.dataExtents() == G2(3, 2), "extents"); sym_check((r.inputDimension() == 2) & (r.outputDimension() == 3), "dimensions"); sym_check(r.samplecount() == 6, "number of grid points"); Rect<T,2> m = r.domain(); sym_check((m.lo == V<2>(0, 0)) & (m.hi == V<2>(2, 1)), "domain"); Raster<T,T,1,1> q(5, Rect<T,1>(lo, lo + w)); sym_check_eq(q.domain().lo, lo, "domain"); sym_check_eq(q.domain().hi, lo + w, "domain"); sym_check(q.dataExtents() == 5, "extents"); sym_check(q.samplecount() == 5, "number of grid points"); sym_reach("end"); }
