// P20: shapes wrapped by dilation, orientation and projection to a point.
//@ h_dil      mode=real q=60 t=200 need=in,out
//@ h_dil_make mode=real q=60 t=200 need=end
//@ h_dil_tri  mode=real q=100 t=300 split=part:3 need=side,inside,corner
//@ h_round    mode=real q=60 t=200 need=end
//@ h_ori      mode=real q=60 t=200 split=w:3 need=in,out
//@ h_ori_dir  mode=real q=60 t=200 split=w:5 need=end
//@ h_ori_ray  mode=real q=60 t=200 need=hit,miss
//@ h_ori_alg  mode=real q=60 t=200 split=w:6 need=end
//@ h_ori_vol  mode=real q=60 t=200 need=end
//@ h_fru      mode=real q=60 t=200 split=w:3 need=in,out
//@ h_fru_dir  mode=real q=60 t=200 split=w:3 need=end
//@ h_fru_ray  mode=real q=60 t=200 split=w:3,c:6 need=hit,miss
//@ h_fru2     mode=real q=60 t=200 split=part:3,w:3 need=in,out,end
//@ h_fru_cone mode=real q=60 t=200 split=w:3 need=in,out
//@ h_defaults mode=real q=60 t=200 need=end
//@bounds all real boxes, discs, heights, dilations, transforms (any invertible matrix in the plane, diagonal-plus-shear in space), points, directions and rays of the listed shapes
//@assume exact real arithmetic; dilations are not negative; directions not zero; projected points not on the undilated surface
#include "shape.h"
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Frustum.h>
static T nonneg(const char* n) { T r = sym_f64(n); sym_assume(r >= 0); return r; }
static T param() { T t = sym_f64("t"); sym_assume((t > -1e9) & (t < 1e9)); return t; }
static T lesser(T a, T b) { return a < b ? a : b; }
template <index_t N> Rect<T,N> box() { V<N> lo = vec<N>("lo"), hi = vec<N>("hi"); for (index_t i = 0; i < N; ++i) sym_assume(lo[i] <= hi[i]); return Rect<T,N>(lo, hi); }
// a dilated box: the set of points within a distance of it
extern "C" void h_dil() {
    Rect<T,2> b = box<2>(); T r = nonneg("r"), d2 = 0, e = 0; V<2> p = vec<2>("p"), q; for (index_t i = 0; i < 2; ++i) { q[i] = p[i] < b.lo[i] ? b.lo[i] : p[i] > b.hi[i] ? b.hi[i] : p[i]; d2 += (p[i] - q[i]) * (p[i] - q[i]); } Dilated<Rect<T,2>> s(b, r); bool in = d2 <= r * r; sym_check(s.contains(p) == in, "contains exactly the points within the dilation distance");
    T D = s.sdf(p); if (d2 > 0) { sym_check_eq((D + r) * (D + r), d2, "outside distance"); sym_check(D + r >= 0, "outside distance"); V<2> m = s.project(p), n = s.normal(p); same((m - q) * (D + r), (p - q) * r, "nearest point of the dilated surface"); same(n * (D + r), p - q, "normal points away from the box"); }
    else { for (index_t i = 0; i < 2; ++i) { T x = lesser(p[i] - b.lo[i], b.hi[i] - p[i]); e = i ? lesser(e, x) : x; } sym_check_eq(D, -e - r, "inside distance"); sym_assume(e > 0); V<2> m = s.project(p); sym_check_eq(dot(m - p, m - p), (e + r) * (e + r), "nearest point of the dilated surface"); }
    Rect<T,2> k = s.bounds(); same(k.lo, b.lo - V<2>(r), "bounds"); same(k.hi, b.hi + V<2>(r), "bounds"); sym_reach(in ? "in" : "out");
}
// a dilated triangle (sides 3, 4, 5): beyond a side, beyond the long side, inside, beyond a corner
extern "C" void h_dil_tri() {
    Dilated<Simplex<T,2>> s(Simplex<T,2>{V<2>(0, 0), V<2>(4, 0), V<2>(0, 3)}, nonneg("r")); const T r = s.dilation; index_t part = sym_choose(3, "part"); T x = sym_f64("x"), y = sym_f64("y");
    if (part == 0) { bool left = sym_bool("left"); sym_assume(x > 0); sym_assume(y > 0); sym_assume(y < 1); T w = left ? 1 : 5; const V<2> n = left ? V<2>(-1, 0) : V<2>(3, 4), q(left ? T(0) : 4 - 4 * y, 3 * y), p = q + n * x; T k = w * x; sym_check_eq(s.sdf(p), k - r, "outside distance"); sym_check(s.contains(p) == (k <= r), "contains exactly the points within the dilation distance"); same(s.project(p) * w, q * w + n * r, "nearest point of the dilated surface"); same(s.normal(p) * w, n, "normal points away from the shape"); sym_reach("side"); }
    else if (part == 1) { T g = (12 - 3 * x - 4 * y) / 5; sym_assume(x > 0); sym_assume(x < y); sym_assume(x < g); const V<2> p(x, y); sym_check_eq(s.sdf(p), -x - r, "inside distance"); sym_check(s.contains(p), "contains the inside"); same(s.project(p), V<2>(-r, y), "nearest point of the dilated surface"); same(s.normal(p), V<2>(-1, 0), "normal points away from the shape"); sym_reach("inside"); }
    else { sym_assume(x > 0); sym_assume(y >= 0); const V<2> p(-x, -y); T d2 = x * x + y * y, D = s.sdf(p) + r; sym_check(D >= 0, "outside distance"); sym_check_eq(D * D, d2, "outside distance"); sym_check(s.contains(p) == (d2 <= r * r), "contains exactly the points within the dilation distance"); same(s.project(p) * D, p * r, "nearest point of the dilated surface"); same(s.normal(p) * D, p, "normal points away from the shape"); sym_reach("corner"); }
}
extern "C" void h_dil_make() {
    Rect<T,2> b = box<2>(); T r = sym_f64("r"), q = nonneg("q"), m = sym_f64("m"); V<2> d = anydir<2>("d"), v = V<2>(d.x > 0 ? b.hi.x : b.lo.x, d.y > 0 ? b.hi.y : b.lo.y); T l = nonneg("l"); sym_assume(l > 0); V<2> s = Dilated<Rect<T,2>>(b, q).convex_support(d * l); sym_check_eq(dot(d, s), dot(d, v) + q, "support point is furthest"); V<2> e = s - d * q; sym_check(inbox(b, e), "support point is on the surface");
    Dilated<Rect<T,2>> z(b), k; sym_check_eq(z.dilation, 0, "wrapping does not dilate"); sym_check_eq(k.dilation, 0, "wrapping does not dilate"); sym_check((z == Dilated<Rect<T,2>>(b, 0)), "equality"); sym_check((z == Dilated<Rect<T,2>>(b, q)) == (q == 0), "equality"); auto x = dilate(b, r); sym_check_eq(x.dilation, r > 0 ? r : 0, "dilation is not negative"); sym_check(x.shape == b, "dilation keeps the shape"); auto y = dilate(Dilated<Rect<T,2>>(b, q), r); sym_check_eq(y.dilation, q + r > 0 ? q + r : 0, "dilations add"); sym_check(y.shape == b, "dilation keeps the shape");
    Sphere<T,2> o = dilate(Sphere<T,2>(b.lo, q), r); sym_check_eq(o.r, q + r > 0 ? q + r : 0, "dilated sphere"); same(o.center, b.lo, "dilated sphere"); Plane<T,2> h(V<2>(1, 0), m), g = dilate(h, r); sym_check_eq(g.distance(b.lo), h.distance(b.lo) - r, "dilated half space"); static_assert(shape_traits<Dilated<Rect<T,2>>>::is_convex); sym_reach("end");
}
extern "C" void h_round() { Rect<T,2> b = box<2>(); T r = nonneg("r"), x = lesser(b.hi.x - b.lo.x, b.hi.y - b.lo.y) / 2; auto s = roundrect(b, r); sym_check_eq(s.dilation, lesser(r, x), "corner radius is clamped to what fits"); Rect<T,2> k = s.bounds(); same(k.lo, b.lo, "rounded box keeps its extent"); same(k.hi, b.hi, "rounded box keeps its extent"); sym_check(!s.shape.is_empty(), "corner radius is clamped to what fits"); sym_reach("end"); }
// orientation: w picks the shape; the transform is any invertible affine map of the plane
static AffineTransform<T,2> xf2() { T a = sym_f64("a"), b = sym_f64("b"), c = sym_f64("c"); sym_assume(a != 0); sym_assume(c != 0); return translation(vec<2>("t")) * transformation(SimpleMatrix<T,2,2>({a, b, 0, c})) * transformation(SimpleMatrix<T,2,2>({0, 1, -1, 0})); }
template <typename S, typename F> void ori_in(S s, F f) { auto x = xf2(); V<2> p = vec<2>("p"); Oriented<S> o(s, x); bool in = f(p); sym_check(o.contains(x * p) == in, "contains the images of its points"); sym_check((x * s).contains(x * p) == in, "contains the images of its points"); Oriented<S> i(s); sym_check(i.contains(p) == in, "no transform"); sym_check((s / x).contains(p / x) == in, "inverse transform"); sym_reach(in ? "in" : "out"); }
extern "C" void h_ori() { switch (sym_choose(3, "w")) { case 0: { Rect<T,2> b = box<2>(); ori_in(b, [=](V<2> p) { return inbox(b, p); }); } break; case 1: { V<2> c = vec<2>("c"); T r = nonneg("r"); ori_in(Sphere<T,2>(c, r), [=](V<2> p) { return dot(p - c, p - c) <= r * r; }); } break; default: { Rect<T,2> b = box<2>(); ori_in(Frustum<Rect<T,1>>(Rect<T,1>(-1, 1), 1, 2), [=](V<2> p) { return (p.y >= 1) & (p.y <= 2) & (p.x <= p.y) & (p.x >= -p.y); }); } } }
extern "C" void h_ori_dir() { // boxes and discs: the support point is the image of the furthest body point
    auto x = xf2(); index_t w = sym_choose(5, "w"); if (w == 0) { Rect<T,2> b = box<2>(); V<2> d = vec<2>("d"), c[4] = {b.lo, b.hi, V<2>(b.lo.x, b.hi.y), V<2>(b.hi.x, b.lo.y)}; Oriented<Rect<T,2>> o(b, x); V<2> s = o.convex_support(d), q = s / x; sym_check(inbox(b, q), "support point is on the shape"); for (V<2> k : c) sym_check(dot(d, x * k) <= dot(d, s), "support point is furthest"); Oriented<Rect<T,2>> u = o.oriented_bounds(); sym_check(u == o, "box is its own oriented box"); }
    else if (w == 1) { Rect<T,2> b = box<2>(); V<2> c[4] = {b.lo, b.hi, V<2>(b.lo.x, b.hi.y), V<2>(b.hi.x, b.lo.y)}; Rect<T,2> k = Oriented<Rect<T,2>>(b, x).bounds(); for (index_t i = 0; i < 2; ++i) { bool l = false, h = false; for (V<2> e : c) { V<2> g = x * e; sym_check((k.lo[i] <= g[i]) & (g[i] <= k.hi[i]), "bounds enclose the box"); l |= k.lo[i] == g[i]; h |= k.hi[i] == g[i]; } sym_check(l & h, "bounds are tight"); } }
    else if (w == 3) { V<2> c = vec<2>("c"), d = vec<2>("d"), n(x.mat(0,0) * d.x + x.mat(1,0) * d.y, x.mat(0,1) * d.x + x.mat(1,1) * d.y); sym_assume(dot(d, d) > 0); T r = nonneg("r"); V<2> q = Oriented<Sphere<T,2>>(Sphere<T,2>(c, r), x).convex_support(d) / x - c; T k = dot(q, n); sym_check_eq(dot(q, q), r * r, "support point is on the shape"); sym_check(k >= 0, "support point is furthest"); sym_check_eq(k * k, r * r * dot(n, n), "support point is furthest"); }
    else if (w == 4) { V<2> c[3] = {V<2>(1, 2), V<2>(5, 1), vec<2>("c")}, d = vec<2>("d"); Oriented<Simplex<T,2>> o(Simplex<T,2>{c[0], c[1], c[2]}, x); V<2> s = o.convex_support(d); bool on = false; for (V<2> e : c) { V<2> g = x * e; on |= (g.x == s.x) & (g.y == s.y); sym_check(dot(d, g) <= dot(d, s), "support point is furthest"); } sym_check(on, "support point is a corner"); Rect<T,2> k = o.bounds(); for (index_t i = 0; i < 2; ++i) { bool l = false, h = false; for (V<2> e : c) { V<2> g = x * e; sym_check((k.lo[i] <= g[i]) & (g[i] <= k.hi[i]), "bounds enclose the triangle"); l |= k.lo[i] == g[i]; h |= k.hi[i] == g[i]; } sym_check(l & h, "bounds are tight"); } }
    else { V<2> c = vec<2>("c"); T r = nonneg("r"); Oriented<Sphere<T,2>> o(Sphere<T,2>(c, r), x); Rect<T,2> k = o.bounds(); V<2> m = x * c; T n0 = x.mat(0,0) * x.mat(0,0) + x.mat(0,1) * x.mat(0,1), n1 = x.mat(1,0) * x.mat(1,0) + x.mat(1,1) * x.mat(1,1), e = k.hi.x - m.x, f = k.hi.y - m.y; sym_check_eq(e * e, r * r * n0, "bounds of an ellipse"); sym_check_eq(f * f, r * r * n1, "bounds of an ellipse"); sym_check((e >= 0) & (f >= 0), "bounds of an ellipse"); same(k.lo, m * 2 - k.hi, "bounds of an ellipse"); V<2> v = vec<2>("v"); Oriented<Rect<T,2>> u = o.oriented_bounds(); sym_check(u.contains(x * v) == inbox(Sphere<T,2>(c, r).bounds(), v), "oriented box"); }
    sym_reach("end");
}
extern "C" void h_ori_ray() { auto x = xf2(); T t = param(), u = sym_f64("u"); V<2> p(u, 1), d(1, 2), q = p + d * t; Rect<T,2> b(V<2>(-1, 0), V<2>(3, 4)); Ray<T,2> r = x * Ray<T,2>(p, d); bool in = inbox(b, q), di = dot(q, q) <= 9; sym_check(Oriented<Rect<T,2>>(b, x).intersect(r).contains(t) == in, "ray interval of an oriented box"); sym_check(Oriented<Sphere<T,2>>(Sphere<T,2>(3), x).intersect(r).contains(t) == di, "ray interval of an oriented disc"); sym_reach(in ? "hit" : "miss"); }
extern "C" void h_ori_alg() { // composing transforms of an oriented shape
    auto x = xf2(); AffineTransform<T,2> y = translation(V<2>(sym_f64("m"), 2)) * transformation(SimpleMatrix<T,2,2>({2, 3, 5, 7})); V<2> c(1, 2), p = vec<2>("p"); Sphere<T,2> s(c, 2); Oriented<Sphere<T,2>> o(s, x), r; bool in = dot(p - c, p - c) <= 4; V<2> q;
    switch (sym_choose(6, "w")) { case 0: r = y * o; q = y * (x * p); break; case 1: r = o; r *= y; q = y * (x * p); break; case 2: r = o / y; q = (x * p) / y; break; case 3: r = o; r /= y; q = (x * p) / y; break; case 4: { Rect<T,2> b(V<2>(0, 1), V<2>(2, 3)); Oriented<Rect<T,2>> k = y * (x * b); sym_check(k.contains(y * (x * p)) == inbox(b, p), "transforms compose"); r = o; q = x * p; } break; default: sym_check(o == Oriented<Sphere<T,2>>(s, x), "equality"); sym_check(!(o == Oriented<Sphere<T,2>>(s, y * x)), "equality"); r = o; q = x * p; }
    sym_check(r.contains(q) == in, "transforms compose"); sym_reach("end");
}
extern "C" void h_ori_vol() { auto x = xf2(); Rect<T,2> b = box<2>(); T k = x.mat(0,0) * x.mat(1,1) - x.mat(0,1) * x.mat(1,0); V<2> d = b.hi - b.lo; T v = d.x * d.y * k; sym_check_eq(Oriented<Rect<T,2>>(b, x).volume(), v < 0 ? -v : v, "volume of the image"); sym_reach("end"); }
// frustum of a box or disc: heights above, below, and across the tip
struct Fr { T z0, h, lo, hi; };
static Fr fr(index_t w) { Fr f; T h = sym_f64("h"), g = sym_f64("g"); sym_assume(h <= g); if (w == 0) sym_assume(h >= 0); else if (w == 1) sym_assume(g <= 0); else sym_assume((h < 0) & (g > 0)); f.lo = w == 2 ? 0 : h; f.hi = g; f.z0 = h; f.h = g; return f; }
extern "C" void h_fru() {
    Fr f = fr(sym_choose(3, "w")); T bl = sym_f64("bl"), bh = sym_f64("bh"); sym_assume(bl <= bh); Rect<T,2> b(V<2>(bl, -1), V<2>(bh, 2)); V<3> p = vec<3>("p"); T z = p.z; Frustum<Rect<T,2>> u(b, f.h, f.z0), v = frustum(b, f.z0, f.h); bool in = (f.lo <= z) & (z <= f.hi); V<2> q(p.x, p.y); if (z > 0) in &= inbox(Rect<T,2>(b.lo * z, b.hi * z), q); else if (z < 0) in &= inbox(Rect<T,2>(b.hi * z, b.lo * z), q); else in &= (q.x == 0) & (q.y == 0);
    sym_check(u.contains(p) == in, "contains the scaled cross section at each height"); sym_check(u == v, "heights in either order"); Rect<T,3> k = u.bounds(); if (in) sym_check(inbox(k, p), "bounds enclose it"); sym_check_eq(k.lo.z, f.lo, "bounds"); sym_check_eq(k.hi.z, f.hi, "bounds"); T a = f.lo * b.lo.x, c = f.hi * b.lo.x, d = f.lo * b.hi.x, e = f.hi * b.hi.x; sym_check((k.lo.x == a) | (k.lo.x == c) | (k.lo.x == d) | (k.lo.x == e), "bounds are tight"); sym_check((k.hi.x == a) | (k.hi.x == c) | (k.hi.x == d) | (k.hi.x == e), "bounds are tight"); sym_reach(in ? "in" : "out");
}
extern "C" void h_fru_dir() {
    Fr f = fr(sym_choose(3, "w")); Rect<T,2> b = box<2>(); V<3> d = vec<3>("d"); V<2> c[4] = {b.lo, b.hi, V<2>(b.lo.x, b.hi.y), V<2>(b.hi.x, b.lo.y)}; Frustum<Rect<T,2>> u(b, f.z0, f.h); V<3> s = u.convex_support(d); T v = dot(d, s); for (V<2> k : c) { V<3> e(k, 1); sym_check(dot(d, e) * f.lo <= v, "support point is furthest"); sym_check(dot(d, e) * f.hi <= v, "support point is furthest"); } bool on = false; for (V<2> k : c) { V<3> e(k, 1), x = s - e * f.lo, y = s - e * f.hi; on |= (x.x == 0) & (x.y == 0) & (x.z == 0); on |= (y.x == 0) & (y.y == 0) & (y.z == 0); } sym_check(on, "support point is a corner"); sym_reach("end");
}
extern "C" void h_fru_ray() { // c: oblique, upright, level, through the tip, along a side, in the tip's plane
    Fr f = fr(sym_choose(3, "w")); T t = param(), a = sym_f64("a"); V<3> o, d; switch (sym_choose(6, "c")) { case 0: o = V<3>(a, 1, 2); d = V<3>(1, 2, THOROUGH ? sym_f64("dz") : 4); break; case 1: o = V<3>(a, 1, 3); d = V<3>(0, 0, -2); break; case 2: o = V<3>(a, 1, sym_f64("z")); d = V<3>(2, 1, 0); break; case 3: d = V<3>(a, 1, 2); o = d * sym_f64("k"); break; case 4: o = V<3>(a, 0, 1); d = V<3>(2, 1, 1); break; default: o = V<3>(a, 1, 0); d = V<3>(3, 2, 0); break; }
    Rect<T,2> b(V<2>(-1, -1), V<2>(2, 3)); Rect<T,1> i = Frustum<Rect<T,2>>(b, f.z0, f.h).intersect(Ray<T,3>(o, d)); V<3> p = o + d * t; T z = p.z; bool in = (f.lo <= z) & (z <= f.hi) & (((z >= 0) & (p.x >= -z) & (p.x <= 2 * z) & (p.y >= -z) & (p.y <= 3 * z)) | ((z <= 0) & (p.x <= -z) & (p.x >= 2 * z) & (p.y <= -z) & (p.y >= 3 * z))); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss");
}

extern "C" void h_fru2() { // a trapezoid in the plane
    index_t part = sym_choose(3, "part"); Fr f = fr(sym_choose(3, "w")); T l = sym_f64("l"), r = sym_f64("r"); sym_assume(l <= r); Frustum<Rect<T,1>> u(Rect<T,1>(l, r), f.z0, f.h); V<2> c[4] = {V<2>(l, 1) * f.lo, V<2>(l, 1) * f.hi, V<2>(r, 1) * f.lo, V<2>(r, 1) * f.hi};
    if (part == 0) { V<2> p = vec<2>("p"); T z = p.y; bool in = (f.lo <= z) & (z <= f.hi) & (((z >= 0) & (p.x >= l * z) & (p.x <= r * z)) | ((z <= 0) & (p.x <= l * z) & (p.x >= r * z))); sym_check(u.contains(p) == in, "contains the scaled cross section at each height"); Rect<T,1> h = u.clipped_height(); sym_check((h.lo == f.lo) & (h.hi == f.hi), "heights short of the tip"); sym_reach(in ? "in" : "out"); return; }
    bool on = false, lo = false, hi = false; if (part == 1) { V<2> d = vec<2>("d"), s = u.convex_support(d); for (V<2> e : c) { sym_check_le(dot(d, e), dot(d, s), "support point is furthest"); on |= (e.x == s.x) & (e.y == s.y); } sym_check(on, "support point is a corner"); sym_reach("end"); return; }
    Rect<T,2> k = u.bounds(); sym_check((k.lo.y == f.lo) & (k.hi.y == f.hi), "bounds"); for (V<2> e : c) { lo |= k.lo.x == e.x; hi |= k.hi.x == e.x; sym_check((k.lo.x <= e.x) & (e.x <= k.hi.x), "bounds enclose it"); } sym_check(lo & hi, "bounds are tight"); sym_reach("end");
}
extern "C" void h_fru_cone() { // a cone over a disc
    Fr f = fr(sym_choose(3, "w")); V<2> c(1, sym_f64("c")); T r = nonneg("r"); Frustum<Sphere<T,2>> u(Sphere<T,2>(c, r), f.z0, f.h); V<3> p = vec<3>("p"); T z = p.z; V<2> q = V<2>(p.x, p.y) - c * z; bool in = (f.lo <= z) & (z <= f.hi) & (dot(q, q) <= r * r * z * z); sym_check(u.contains(p) == in, "contains the scaled cross section at each height");
    V<3> d(V<2>(3, 4) * sym_f64("k"), sym_f64("m")), s = u.convex_support(d); if (in) sym_check_le(dot(d, p), dot(d, s), "support point is furthest"); V<2> e = V<2>(s.x, s.y) - c * s.z; sym_check((s.z == f.lo) | (s.z == f.hi), "support point is on a rim"); sym_check_eq(dot(e, e), r * r * s.z * s.z, "support point is on a rim"); sym_reach(in ? "in" : "out");
}
extern "C" void h_defaults() { // default-constructed wrappers: unit disc upright, pyramid over it, no dilation, empty box
    V<2> p = vec<2>("p"); V<3> q = vec<3>("q"); bool in = dot(p, p) <= 1; Oriented<Sphere<T,2>> o; sym_check(o.contains(p) == in, "default oriented disc"); Dilated<Sphere<T,2>> d; sym_check(d.contains(p) == in, "default dilation"); Frustum<Sphere<T,2>> f; sym_check(f.contains(q) == ((q.z >= 0) & (q.z <= 1) & (q.x * q.x + q.y * q.y <= q.z * q.z)), "default cone"); Oriented<Rect<T,2>> b; sym_check(!b.contains(p), "default oriented box is empty"); sym_reach("end");
}
