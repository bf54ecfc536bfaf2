//@ h_sphere     mode=real q=60 t=200 split=n:2 need=end
//@ h_sphere_in  mode=real q=60 t=200 split=n:2 need=in,out
//@ h_sphere_sph mode=real q=60 t=200 split=n:2 need=in,out
//@ h_sphere_box mode=real q=60 t=200 need=in,out
//@ h_sphere_box3 mode=real t=300 tier=thorough need=in,out
//@ h_sphere_ray mode=real q=60 t=200 split=n:2 need=hit
//@ h_sphere_miss mode=real q=60 t=200 split=n:2 need=hit,miss
//@ h_sphere_1d  mode=real q=60 t=200 need=end
//@ h_capsule    mode=real q=60 t=200 split=n:2 need=low,high,mid
//@ h_capsule_s  mode=real q=60 t=200 split=n:2 need=in,out
//@ h_capsule_d  mode=real q=60 t=200 split=n:2 need=end
//@ h_plane      mode=real q=60 t=200 split=n:2 need=end
//@ h_plane_make mode=real q=60 t=200 split=w:5 need=end
//@ h_plane_xf   mode=real q=60 t=200 split=w:4 need=end
//@ h_plane_cut  mode=real q=60 t=200 split=w:4 need=end
//@ h_user       mode=real q=60 t=200 split=n:2 need=in,out
//@ h_four       mode=real q=60 t=200 split=w:8 need=end
//@bounds all real centres, radii, endpoints, points, directions and rays in two and three dimensions (one dimension for spheres; four dimensions with two symbolic components)
//@assume exact real arithmetic; radii are not negative, axes and directions not zero, points not equidistant from the whole surface
#include "shape.h"
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Oriented.h>
// in four dimensions two components of vectors are symbolic
static int Vecs; template <index_t N> V<N> vecq(const char* n) { if (N < 4) return vec<N>(n); static const int C[6] = {1, -2, 3, 0, 5, -1}; V<N> v; for (index_t i = 0; i < N; ++i) v[i] = i % 2 ? sym_f64(n) : T(C[Vecs++ % 6]); return v; }
template <index_t N> V<N> dirq(const char* n) { if (N < 4) return dir<N>(n); V<2> d = dir<2>(n); V<N> v; for (index_t i = 0; i < N; ++i) v[i] = (i < 2 ? d.x + d.y : d.x - d.y) / 2; return v; }
template <index_t N> V<N> anydirq(const char* n) { V<N> v = dirq<N>(n); return sym_choose(2, "flip") ? -v : v; }
#define vec vecq
#define dir dirq
#define anydir anydirq
// p = c + k*u for a unit u: every point with rational distance from c
template <index_t N> struct Polar { V<N> c, u, p; T k; Polar() { c = vec<N>("c"); u = dir<N>("u"); k = sym_f64("k"); sym_assume(k > 0); p = c + u * k; } };
static T radius(const char* n) { T r = sym_f64(n); sym_assume(r >= 0); return r; }
template <index_t N> void sphere() {
    V<N> c = vec<N>("c"), p = vec<N>("p"), v = p - c; T r = radius("r"), l2 = dot(v, v); sym_assume(l2 > 0); Sphere<T,N> s(c, r); T d = s.sdf(p); sym_check_eq((d + r) * (d + r), l2, "signed distance"); sym_check(d + r >= 0, "signed distance");
    V<N> m = s.project(p), n = s.normal(p), k = s.convex_support(v); T l = d + r; same((m - c) * l, v * r, "projection is the nearest surface point"); same(n * l, v, "normal points away from the centre"); unit(n, "normals are unit length"); same(k, m, "support point is the furthest surface point");
    Rect<T,N> b = s.bounds(); for (index_t i = 0; i < N; ++i) { sym_check_eq(b.lo[i], c[i] - r, "bounds"); sym_check_eq(b.hi[i], c[i] + r, "bounds"); }
    Sphere<T,N> o(r), z; sym_check_eq(dot(o.center, o.center), 0, "at the origin"); sym_check_eq(o.r, r, "radius"); sym_check_eq(z.r, 1, "unit sphere"); sym_check((s == Sphere<T,N>(p, r)) == (l2 == 0), "equality"); T q = radius("q"); sym_check((s == Sphere<T,N>(c, q)) == (q == r), "equality"); sym_reach("end");
}
extern "C" void h_sphere() { if (sym_choose(2, "n")) sphere<3>(); else sphere<2>(); }
template <index_t N> void sphere_in() { V<N> c = vec<N>("c"), p = vec<N>("p"), v = p - c; T r = radius("r"); Sphere<T,N> s(c, r); bool in = dot(v, v) <= r * r; sym_check(s.contains(p) == in, "contains a point exactly up to its radius"); sym_reach(in ? "in" : "out"); if (dot(v, v) > 0) sym_check((s.sdf(p) <= 0) == in, "signed distance is positive exactly outside"); same(s.clip(p), in ? p : s.project(p), "clipped point"); }
extern "C" void h_sphere_in() { if (sym_choose(2, "n")) sphere_in<3>(); else sphere_in<2>(); }
template <index_t N> void sphere_sph() { V<N> c = vec<N>("c"), p = vec<N>("p"), v = p - c; T r = radius("r"), q = radius("q"); Sphere<T,N> s(c, r), t(p, q); bool in = dot(v, v) <= (r + q) * (r + q); sym_check(s.intersects(t) == in, "spheres meet exactly when their radii reach"); sym_check(t.intersects(s) == in, "symmetric"); sym_reach(in ? "in" : "out"); }
extern "C" void h_sphere_sph() { if (sym_choose(2, "n")) sphere_sph<3>(); else sphere_sph<2>(); }
template <index_t N> void sphere_box() { V<N> c = vec<N>("c"), lo = vec<N>("lo"), hi = vec<N>("hi"); T r = radius("r"), d2 = 0; for (index_t i = 0; i < N; ++i) { sym_assume(lo[i] <= hi[i]); T x = c[i] < lo[i] ? lo[i] - c[i] : c[i] > hi[i] ? c[i] - hi[i] : 0; d2 += x * x; } Sphere<T,N> s(c, r); Rect<T,N> b(lo, hi); bool in = d2 <= r * r; sym_check(s.intersects(b) == in, "sphere meets a box exactly when its nearest point is in reach"); sym_check(b.intersects(s) == in, "symmetric"); sym_reach(in ? "in" : "out"); }
extern "C" void h_sphere_box() { sphere_box<2>(); }
extern "C" void h_sphere_box3() { sphere_box<3>(); }
template <index_t N> void sphere_ray() { // both interval ends are the two roots: product and sum
    V<N> c = vec<N>("c"), o = vec<N>("o"), d = vec<N>("d"); if (N == 4 || (N == 3 && !THOROUGH)) { c = V<N>((T)2); d[1] = 1; d[N-1] = 3; o[0] = -1; } T r = radius("r"), a = dot(d, d), b = dot(d, c - o), k = dot(c - o, c - o) - r * r; sym_assume(a > 0); sym_assume(b * b - a * k > 0); Rect<T,1> h = Sphere<T,N>(c, r).intersect(Ray<T,N>(o, d)); sym_check_eq(a * (h.lo + h.hi), 2 * b, "interval ends where the ray crosses the surface"); sym_check_eq(a * h.lo * h.hi, k, "interval ends where the ray crosses the surface"); sym_check(h.lo <= h.hi, "interval is not empty"); sym_reach("hit");
}
extern "C" void h_sphere_ray() { if (sym_choose(2, "n")) sphere_ray<3>(); else sphere_ray<2>(); }
template <index_t N> void sphere_miss() { V<N> c = vec<N>("c"), o = vec<N>("o"), d = vec<N>("d"); T r = radius("r"), a = dot(d, d), b = dot(d, c - o), k = dot(c - o, c - o) - r * r; sym_assume(a > 0); Rect<T,1> h = Sphere<T,N>(c, r).intersect(Ray<T,N>(o, d)); bool miss = b * b - a * k < 0; sym_check(h.is_empty() == miss, "a ray misses exactly when it passes outside"); sym_reach(miss ? "miss" : "hit"); }
extern "C" void h_sphere_miss() { if (sym_choose(2, "n")) sphere_miss<3>(); else sphere_miss<2>(); }
extern "C" void h_sphere_1d() { T c = sym_f64("c"), p = sym_f64("p"), r = radius("r"); Sphere<T,1> s(c, r); bool in = (c - r <= p) & (p <= c + r); sym_check(s.contains(p) == in, "interval contains"); sym_check((s.sdf(p) <= 0) == in, "interval distance"); Rect<T,1> b = s.bounds(); sym_check_eq(b.lo, c - r, "interval bounds"); sym_check_eq(b.hi, c + r, "interval bounds"); T m = s.project(p); sym_check_eq((m - c) * (m - c), r * r, "projected to an end"); sym_check((m - c) * (p - c) >= 0, "projected to the nearer end"); sym_reach("end"); }
// capsule: closed form through the nearest axis point
template <index_t N> void capsule() {
    V<N> a = vec<N>("a"), x = vec<N>("x"), p = vec<N>("p"), b = a + x; T r = radius("r"), x2 = dot(x, x), f = dot(p - a, x); sym_assume(x2 > 0); Capsule<T,N> c(a, b, r); V<N> q; if (f <= 0) { q = a; sym_reach("low"); } else if (f >= x2) { q = b; sym_reach("high"); } else { q = a + x * (f / x2); sym_reach("mid"); }
    same(c.axis(), x, "axis"); same(c.nearest_axis_point(p), q, "nearest point of the axis segment"); V<N> v = p - q; T l2 = dot(v, v); sym_assume(l2 > 0); T d = c.sdf(p); sym_check_eq((d + r) * (d + r), l2, "signed distance"); sym_check(d + r >= 0, "signed distance"); sym_check(c.contains(p) == (l2 <= r * r), "contains a point exactly up to its radius"); V<N> m = c.project(p), n = c.normal(p); same((m - q) * (d + r), v * r, "projection is the nearest surface point"); same(n * (d + r), v, "normal points away from the axis");
}
extern "C" void h_capsule() { if (sym_choose(2, "n")) capsule<3>(); else capsule<2>(); }
template <index_t N> void capsule_s() { V<N> a = vec<N>("a"), x = vec<N>("x"), p = vec<N>("p"), b = a + x; T r = radius("r"), s = radius("s"), x2 = dot(x, x), f = dot(p - a, x); sym_assume(x2 > 0); V<N> q = f <= 0 ? a : f >= x2 ? b : a + x * (f / x2), v = p - q; bool in = dot(v, v) <= (r + s) * (r + s); sym_check(Capsule<T,N>(a, b, r).intersects(Sphere<T,N>(p, s)) == in, "sphere meets a capsule exactly when their radii reach"); sym_reach(in ? "in" : "out"); }
extern "C" void h_capsule_s() { if (sym_choose(2, "n")) capsule_s<3>(); else capsule_s<2>(); }
template <index_t N> void capsule_d() { V<N> a = vec<N>("a"), b = vec<N>("b"), d = anydir<N>("d") * (T) 2; T r = radius("r"); Capsule<T,N> c(a, b, r), z; V<N> s = c.convex_support(d), e = s - d * (r / 2); bool ea = true, eb = true; for (index_t i = 0; i < N; ++i) { ea &= e[i] == a[i]; eb &= e[i] == b[i]; } sym_check(ea | eb, "support point is an end moved by the radius"); sym_check(dot(d, e) >= dot(d, a), "support point is the furthest"); sym_check(dot(d, e) >= dot(d, b), "support point is the furthest"); Rect<T,N> k = c.bounds(); for (index_t i = 0; i < N; ++i) { T l = a[i] < b[i] ? a[i] : b[i], h = a[i] < b[i] ? b[i] : a[i]; sym_check_eq(k.lo[i], l - r, "bounds"); sym_check_eq(k.hi[i], h + r, "bounds"); sym_check_eq(z.p0[i], i ? 0 : -1, "default capsule"); sym_check_eq(z.p1[i], i == 0, "default capsule"); } sym_check((c == Capsule<T,N>(a, b, r)), "equality"); sym_reach("end"); }
extern "C" void h_capsule_d() { if (sym_choose(2, "n")) capsule_d<3>(); else capsule_d<2>(); }
template <index_t N> void plane() {
    V<N> n = anydir<N>("n"), o = vec<N>("o"), p = vec<N>("p"); T k = sym_f64("k"); sym_assume(k > 0); Plane<T,N> h(n * k, o); T d = dot(p - o, n); same(h.normal, n, "normal is normalised"); sym_check_eq(h.distance(p), d, "signed distance along the normal"); sym_check_eq(h.sdf(p), d, "signed distance along the normal"); sym_check(h.contains(p) == (d <= 0), "half space is the side opposite the normal"); same(h.project(p), p - n * d, "orthogonal projection"); same(h.origin(), n * dot(o, n), "point nearest the origin");
    Plane<T,N> z(n * k), e; same(z.normal, n, "normal is normalised"); sym_check_eq(z.d, 0, "through the origin"); sym_check_eq(e.distance(p), p[0], "default plane"); sym_check(h == Plane<T,N>(n * k, o), "equality"); sym_reach("end");
}
extern "C" void h_plane() { if (sym_choose(2, "n")) plane<3>(); else plane<2>(); }
template <index_t N> void through(Plane<T,N> h, V<N> p, const char* m) { sym_check_eq(h.distance(p), 0, m); }
extern "C" void h_plane_make() {
    switch (sym_choose(5, "w")) {
    case 0: { V<3> a = vec<3>("a"), b = vec<3>("b"), p = vec<3>("p"), c = a ^ b; sym_assume(dot(c, c) > 0); V<3> s[2] = {a, b}; auto h = Plane<T,3>::from_basis(s, p); unit(h.normal, "normal of a basis"); sym_check_eq(dot(h.normal, a), 0, "spans its basis"); sym_check_eq(dot(h.normal, b), 0, "spans its basis"); through(h, p, "passes through its point"); through(h, p + a + b, "spans its basis"); } break;
    case 1: { V<2> a = vec<2>("a"), p = vec<2>("p"); sym_assume(dot(a, a) > 0); V<2> s[1] = {a}; auto h = Plane<T,2>::from_basis(s, p); unit(h.normal, "normal of a basis"); through(h, p, "passes through its point"); through(h, p + a * 3, "spans its basis"); auto g = Plane<T,2>::from_basis(s); through(g, a, "spans its basis"); through(g, V<2>(0, 0), "through the origin"); } break;
    case 2: { V<3> a = vec<3>("a"), b = vec<3>("b"), p = vec<3>("p"), c = (a - p) ^ (b - p); sym_assume(dot(c, c) > 0); V<3> s[3] = {p, a, b}; auto h = Plane<T,3>::from_simplex(s); unit(h.normal, "normal of a simplex"); for (V<3> q : s) through(h, q, "passes through its simplex"); } break;
    case 3: { V<2> a = vec<2>("a"), p = vec<2>("p"); sym_assume(dot(a - p, a - p) > 0); V<2> s[2] = {p, a}; auto h = Plane<T,2>::from_simplex(s); unit(h.normal, "normal of a simplex"); for (V<2> q : s) through(h, q, "passes through its simplex"); } break;
    default: { V<3> a = vec<3>("a"), b = vec<3>("b"), c = a ^ b; sym_assume(dot(c, c) > 0); V<3> s[2] = {a, b}; auto h = Plane<T,3>::from_basis(s); through(h, a, "spans its basis"); through(h, b, "spans its basis"); through(h, V<3>(0, 0, 0), "through the origin"); } break;
    } sym_reach("end");
}
extern "C" void h_plane_xf() { // the transformed plane holds exactly the transformed points, and keeps its side
    V<3> n = dir<3>("n"), o = vec<3>("o"), p = vec<3>("p"), s(2, sym_f64("s"), 1); sym_assume(s.y != 0); Plane<T,3> h(n, o), g; AffineTransform<T,3> x = scale(s) * translation(V<3>(sym_f64("t"), 3, 5)); index_t w = sym_choose(4, "w");
    if (w == 0) g = x * h; else if (w == 1) { g = h; g *= x; } else if (w == 2) g = h / x; else { g = h; g /= x; } V<3> q = w < 2 ? x * p : p / x; T d = h.distance(p), e = g.distance(q); unit(g.normal, "normal stays unit length"); sym_check((d > 0) == (e > 0) & (d == 0) == (e == 0), "points keep their side of a transformed plane"); sym_reach("end");
}
extern "C" void h_plane_cut() {
    V<2> n = dir<2>("n"), o = vec<2>("o"); Plane<T,2> h(n, o); switch (sym_choose(4, "w")) {
    case 0: { V<2> c = vec<2>("c"); T r = radius("r"), d = h.distance(c); Sphere<T,2> s(c, r); sym_check(h.contains(s) == (d <= -r), "sphere below the plane"); bool x = h.intersects(s); if ((d > r) | (d < -r)) sym_check(!x, "plane misses the sphere"); if ((d < r) & (d > -r)) sym_check(x, "plane cuts the sphere"); } break;
    case 1: { V<2> p[3]; T d[3]; for (int i = 0; i < 3; ++i) { p[i] = vec<2>("p"); d[i] = dot(n, p[i] - o); } bool x = h.intersects(p, 3); sym_check(!((d[0] > 0) & (d[1] > 0) & (d[2] > 0)) | !x, "plane misses the hull"); sym_check(!((d[0] < 0) & (d[1] < 0) & (d[2] < 0)) | !x, "plane misses the hull"); sym_check(!((d[0] < 0) | (d[1] < 0) | (d[2] < 0)) | !((d[0] > 0) | (d[1] > 0) | (d[2] > 0)) | x, "plane cuts the hull"); sym_check((d[0] != 0) & (d[1] != 0) & (d[2] != 0) | x, "plane touches the hull"); } break;
    case 2: { V<2> lo = vec<2>("lo"), hi = vec<2>("hi"); sym_assume(lo.x <= hi.x); sym_assume(lo.y <= hi.y); Rect<T,2> b(lo, hi); T d[4] = {h.distance(lo), h.distance(hi), h.distance(V<2>(lo.x, hi.y)), h.distance(V<2>(hi.x, lo.y))}; bool up = true, dn = true, su = true, sd = true; for (T e : d) { up &= e >= 0; dn &= e <= 0; su &= e > 0; sd &= e < 0; } sym_check(h.contains(b) == dn, "box below the plane"); bool x = h.intersects(b); sym_check(!(su | sd) | !x, "plane misses the box"); sym_check(up | dn | x, "plane cuts the box"); } break;
    default: { V<2> a = vec<2>("a"), b = vec<2>("b"); T r = radius("r"), e = h.distance(a), f = h.distance(b); Capsule<T,2> c(a, b, r); sym_check(h.contains(c) == ((e <= -r) & (f <= -r)), "capsule below the plane"); bool x = h.intersects(c); sym_check(!(((e > r) & (f > r)) | ((e < -r) & (f < -r))) | !x, "plane misses the capsule"); sym_check(((e >= r) & (f >= r)) | ((e <= -r) & (f <= -r)) | x, "plane cuts the capsule"); } break;
    } sym_reach("end");
}
// shapes of the user: what is not given follows from what is
template <index_t N> struct Half : public Projectable<T,N,Half<N>> { T a; bool contains(V<N> p) const { return p[0] <= a; } V<N> project(V<N> p) const { p[0] = a; return p; } };
template <index_t N> struct Field : public SdfEvaluable<T,N,Field<N>> { T a; T sdf(V<N> p) const { return p[0] + 2 * p[N-1] - a; } };
template <index_t N> void user() {
    Half<N> h; Field<N> f; h.a = f.a = sym_f64("a"); V<N> p = vec<N>("p"), q = p, e((T) 0); T d = p[0] - h.a; sym_check(f.contains(p) == (p[0] + 2 * p[N-1] <= f.a), "contains a point exactly where the distance is not positive"); sym_check(static_cast<const SdfEvaluable<T,N,Field<N>>&>(f).sdf(p) == p[0] + 2 * p[N-1] - f.a, "distance through the interface");
    sym_assume(d != 0); q[0] = h.a; e[0] = 1; sym_check_eq(h.sdf(p), d, "signed distance to the nearest surface point"); same(h.normal(p), e, "normal points away from the inside"); same(h.clip(p), d > 0 ? q : p, "clips to the shape"); same(static_cast<const Projectable<T,N,Half<N>>&>(h).project(p), q, "projection through the interface"); sym_reach(d > 0 ? "out" : "in");
}
extern "C" void h_user() { if (sym_choose(2, "n")) user<3>(); else user<2>(); }
// four dimensions
extern "C" void h_four() { switch (sym_choose(8, "w")) { case 0: sphere<4>(); break; case 1: sphere_in<4>(); break; case 2: sphere_sph<4>(); break; case 3: sphere_ray<4>(); break; case 4: capsule<4>(); break; case 5: capsule_s<4>(); break; case 6: capsule_d<4>(); break; default: plane<4>(); } sym_reach("end"); }
