// P19: cylinders and extruded shapes against closed forms in their own axes.
//@ h_cyl      mode=real q=60 t=200 split=n:2 need=out,wall,cap,axis
//@ h_cyl_dir  mode=real q=60 t=200 split=n:2 need=end
//@ h_cyl_ray2 mode=real q=60 t=200 need=hit,miss
//@ h_cyl_ray3 mode=real q=60 t=200 split=c:4 need=hit,miss
//@ h_ext      mode=real q=60 t=200 need=out,wall,cap
//@ h_ext_ray  mode=real q=60 t=200 split=c:4 need=hit,miss
//@ h_ext_box  mode=real q=60 t=200 need=in,out
//@ h_ext_bray mode=real q=60 t=200 need=hit,miss
//@ h_ext_tri  mode=real q=100 t=300 split=part:2 need=out,wall,cap
//@bounds all real end points, radii, heights, points, directions and rays; cylinders in the plane at any angle and in space around a fixed oblique axis (any axis in the thorough tier); extruded discs and boxes
//@assume exact real arithmetic; radii are not negative and lengths positive; points not equidistant from wall and cap
#include "shape.h"
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Simplex.h>
static T pos(const char* n) { T r = sym_f64(n); sym_assume(r > 0); return r; }
static T nonneg(const char* n) { T r = sym_f64(n); sym_assume(r >= 0); return r; }
template <index_t N> void cyl() {
    Frame<N> f = frame<N>(); V<N> p0 = vec<N>("p0"); T h = pos("h"), r = nonneg("r"), s = sym_f64("s"), k = nonneg("k"); V<N> p = p0 + f.A * s + f.w * k; Cylinder<T,N> c(p0, p0 + f.A * h, r);
    bool in = (0 <= s) & (s <= h) & (k <= r); sym_check(c.contains(p) == in, "contains the points between the caps and within the radius");
    T D = c.sdf(p); V<N> m = c.project(p), e = m - p0; T x = s < 0 ? -s : s > h ? s - h : 0, y = k > r ? k - r : 0, ms = dot(e, f.A); V<N> mw = e - f.A * ms;
    if (!in) { sym_check(D >= 0, "outside distance"); sym_check_eq(D * D, x * x + y * y, "outside distance"); same(m, p0 + f.A * (s < 0 ? 0 : s > h ? h : s) + f.w * (k > r ? r : k), "projection of an outside point"); V<N> n = c.normal(p); same(n * D, p - m, "normal of an outside point"); unit(n, "normal length"); sym_reach("out"); return; }
    T cap = s < h - s ? s : h - s, wall = r - k; sym_assume(cap != wall); V<N> n = c.normal(p); unit(n, "normal length");
    if (wall < cap) { sym_check_eq(D, -wall, "inside distance"); sym_check_eq(ms, s, "projection to the wall"); sym_check_eq(dot(mw, mw), r * r, "projection to the wall"); if (k > 0) { same(mw, f.w * r, "projection to the wall"); same(n, f.w, "normal of the wall"); } sym_check_eq(dot(n, f.A), 0, "normal of the wall"); sym_reach(k == 0 ? "axis" : "wall"); }
    else { sym_check_eq(D, -cap, "inside distance"); sym_assume(2 * s != h); bool lo = s < h - s; same(m, p0 + f.A * (lo ? 0 : h) + f.w * k, "projection to the cap"); same(n, lo ? -f.A : f.A, "normal of the cap"); sym_reach("cap"); }
}
extern "C" void h_cyl() { if (sym_choose(2, "n")) cyl<3>(); else cyl<2>(); }
template <index_t N> void cyl_dir() {
    Frame<N> f = frame<N>(); V<N> p0 = vec<N>("p0"); T h = pos("h"), r = nonneg("r"), x = sym_f64("x"), y = nonneg("y"); sym_assume((x != 0) | (y != 0)); Cylinder<T,N> c(p0, p0 + f.A * h, r); V<N> d = f.A * x + f.w * y, e = c.convex_support(d) - p0; T t = dot(e, f.A); V<N> u = e - f.A * t;
    sym_check_eq(dot(d, e), (x > 0 ? x * h : 0) + y * r, "support point is furthest"); sym_check((t >= 0) & (t <= h), "support point is on the cylinder"); sym_check(dot(u, u) <= r * r, "support point is on the cylinder");
    Rect<T,N> b = c.bounds(); for (index_t i = 0; i < N; ++i) { T l = p0[i], g = l + f.A[i] * h, lo = l < g ? l : g, hi = l < g ? g : l, q = r * r * (1 - f.A[i] * f.A[i]), a = lo - b.lo[i], z = b.hi[i] - hi; sym_check_eq(a * a, q, "bounds"); sym_check_eq(z * z, q, "bounds"); sym_check((a >= 0) & (z >= 0), "bounds"); }
    sym_check((c == Cylinder<T,N>(c.p0, c.p1, r)), "equality"); sym_check(!(c == Cylinder<T,N>(c.p0, c.p1, r + 1)), "equality"); Cylinder<T,N> o(r), k; sym_check_eq(o.radius, r, "radius"); sym_check_eq(k.radius, 1, "unit radius"); sym_check_eq((o.p1 - o.p0).x, 1, "unit length"); sym_reach("end");
}
extern "C" void h_cyl_dir() { if (sym_choose(2, "n")) cyl_dir<3>(); else cyl_dir<2>(); }
static T param() { T t = sym_f64("t"); sym_assume((t > -1e9) & (t < 1e9)); return t; }
extern "C" void h_cyl_ray2() { V<2> A = V<2>(3, 4) / 5, w(-A.y, A.x), p0 = vec<2>("p0"); T h = pos("h"), r = nonneg("r"), s = sym_f64("s"), k = sym_f64("k"), x = sym_f64("x"), y = sym_f64("y"), t = param(); sym_assume((x != 0) | (y != 0)); Rect<T,1> i = Cylinder<T,2>(p0, p0 + A * h, r).intersect(Ray<T,2>(p0 + A * s + w * k, A * x + w * y)); T a = s + t * x, b = k + t * y; bool in = (0 <= a) & (a <= h) & (-r <= b) & (b <= r); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss"); }
// in space: c=0 oblique, 1 parallel to the axis, 2 perpendicular to it, 3 through the axis
extern "C" void h_cyl_ray3() {
    Frame<3> f; f.A = V<3>(1, 2, 2) / 3; f.w = V<3>(2, 1, -2) / 3; f.z = V<3>(2, -2, 1) / 3; V<3> p0(3, 5, 7); T h = pos("h"), r = nonneg("r"), s = sym_f64("s"), k = sym_f64("k"), t = param(); V<3> d; index_t c = sym_choose(4, "c"); T x = 0, y = 0, z = 0;
    if (c == 0) { x = sym_f64("x"); y = 2; z = 1; } else if (c == 1) { x = sym_f64("x"); sym_assume(x != 0); } else if (c == 2) { z = sym_f64("z"); sym_assume(z != 0); } else { y = sym_f64("y"); x = 3; } Rect<T,1> i = Cylinder<T,3>(p0, p0 + f.A * h, r).intersect(Ray<T,3>(p0 + f.A * s + f.w * k, f.A * x + f.w * y + f.z * z)); T a = s + t * x, b = k + t * y, e = t * z; bool in = (0 <= a) & (a <= h) & (b * b + e * e <= r * r); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss");
}
extern "C" void h_ext() {
    V<2> c = vec<2>("c"), u = dir<2>("u"); T r = nonneg("r"), k = pos("k"), z0 = sym_f64("z0"), h = pos("h"), s = sym_f64("s"); V<2> b = c + u * k; V<3> p(b, z0 + s); auto e = sym_choose(2, "how") ? extrude(Sphere<T,2>(c, r), z0 + h, z0) : Extruded<Sphere<T,2>>(Sphere<T,2>(c, r), Rect<T,1>(z0, z0 + h)); bool in = (0 <= s) & (s <= h) & (k <= r); sym_check(e.contains(p) == in, "contains the points above the base between the heights");
    T D = e.sdf(p), x = s < 0 ? -s : s > h ? s - h : 0, y = k > r ? k - r : 0; V<3> m = e.project(p);
    if (!in) { sym_check(D >= 0, "outside distance"); sym_check_eq(D * D, x * x + y * y, "outside distance"); same(m, V<3>(c + u * (k > r ? r : k), z0 + (s < 0 ? 0 : s > h ? h : s)), "projection of an outside point"); same(e.normal(p) * D, p - m, "normal of an outside point"); sym_reach("out"); return; }
    T cap = s < h - s ? s : h - s, wall = r - k; sym_assume((cap != wall) & (2 * s != h)); bool lo = s < h - s; V<3> n = e.normal(p);
    if (wall < cap) { sym_check_eq(D, -wall, "inside distance"); same(m, V<3>(c + u * r, z0 + s), "projection to the wall"); same(n, V<3>(u, 0), "normal of the wall"); sym_reach("wall"); } else { sym_check_eq(D, -cap, "inside distance"); same(m, V<3>(b, z0 + (lo ? 0 : h)), "projection to the cap"); same(n, V<3>(0, 0, lo ? -1 : 1), "normal of the cap"); sym_reach("cap"); }
}
extern "C" void h_ext_ray() {
    V<2> c(3, 5); T r = nonneg("r"), h = pos("h"), s = sym_f64("s"), k = sym_f64("k"), t = param(), x = 0, y = 0, z = 0; index_t w = sym_choose(4, "c"); if (w == 0) { x = 1; y = 2; z = sym_f64("z"); } else if (w == 1) { z = sym_f64("z"); sym_assume(z != 0); } else if (w == 2) { y = sym_f64("y"); sym_assume(y != 0); } else { x = sym_f64("x"); z = 3; }
    Rect<T,1> i = extrude(Sphere<T,2>(c, r), 2, 2 + h).intersect(Ray<T,3>(V<3>(3 + k, 5, 2 + s), V<3>(x, y, z))); T a = s + t * z, b = k + t * x, e = t * y; bool in = (0 <= a) & (a <= h) & (b * b + e * e <= r * r); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss");
}
extern "C" void h_ext_box() {
    V<2> lo = vec<2>("lo"), hi = vec<2>("hi"), b = vec<2>("b"); T z = sym_f64("z"), l = sym_f64("l"), g = sym_f64("g"); sym_assume((lo.x <= hi.x) & (lo.y <= hi.y) & (l <= g)); Rect<T,2> base(lo, hi); Extruded<Rect<T,2>> e(base, l, g), u(base), d; bool in = inbox(base, b) & (l <= z) & (z <= g); sym_check(e.contains(V<3>(b, z)) == in, "contains exactly the box"); sym_check(u.contains(V<3>(b, z)) == (inbox(base, b) & (0 <= z) & (z <= 1)), "unit height"); sym_check_eq(d.height.hi - d.height.lo, 1, "unit height");
    V<3> q(b, z), s = e.convex_support(q); sym_check_eq(dot(q, s), (b.x > 0 ? b.x * hi.x : b.x * lo.x) + (b.y > 0 ? b.y * hi.y : b.y * lo.y) + (z > 0 ? z * g : z * l), "support point is furthest"); Rect<T,3> k = e.bounds(); sym_check(inbox(k, s), "support point is inside"); same(k.lo, V<3>(lo, l), "bounds"); same(k.hi, V<3>(hi, g), "bounds"); sym_check((e == Extruded<Rect<T,2>>(base, g, l)), "heights in either order"); sym_reach(in ? "in" : "out");
}
extern "C" void h_ext_bray() { // boxes, rays along any combination of axes
    V<2> o(sym_f64("ox"), sym_f64("oy")); T l = sym_f64("l"), g = sym_f64("g"), z = sym_f64("z"), t = param(); sym_assume(l <= g); index_t w = sym_choose(3, "w"); V<3> d = w == 0 ? V<3>(0, 0, 2) : w == 1 ? V<3>(-1, 0, 3) : V<3>(1, 2, 0); Rect<T,1> i = extrude(Rect<T,2>(V<2>(-1, -1), V<2>(1, 2)), l, g).intersect(Ray<T,3>(V<3>(o, z), d)); V<3> p = V<3>(o, z) + d * t; bool in = (p.x >= -1) & (p.x <= 1) & (p.y >= -1) & (p.y <= 2) & (p.z >= l) & (p.z <= g); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss");
}
// a prism on a 3-4-5 triangle: every wall distance is rational; points nearest to a wall, or above and below
extern "C" void h_ext_tri() {
    Simplex<T,2> t{V<2>(0, 0), V<2>(4, 0), V<2>(0, 3)}; T z0 = sym_f64("z0"), h = pos("h"), s = sym_f64("s"), x = sym_f64("x"), y = sym_f64("y"); Extruded<Simplex<T,2>> e(t, Rect<T,1>(z0, z0 + h)); const V<3> p(x, y, z0 + s); T g = (12 - 3 * x - 4 * y) / 5; bool base = (x >= 0) & (y >= 0) & (g >= 0), in = base & (0 <= s) & (s <= h); sym_check(e.contains(p) == in, "contains the points above the base between the heights");
    T cs = s < 0 ? 0 : s > h ? h : s, dz = s - cs; T D = e.sdf(p); V<3> m = e.project(p);
    if (sym_choose(2, "part")) { sym_assume(base); sym_assume(x < y); sym_assume(x < g); if (dz != 0) { sym_check_eq(D, s < 0 ? -s : s - h, "distance above or below"); same(m, V<3>(x, y, z0 + cs), "projection to the cap"); same(e.normal(p), V<3>(0, 0, s < 0 ? -1 : 1), "normal of the cap"); sym_reach("out"); return; }
        T cap = s < h - s ? s : h - s; sym_assume(cap != x); sym_assume(2 * s != h); if (cap < x) { sym_check_eq(D, -cap, "inside distance"); same(m, V<3>(x, y, z0 + (s < h - s ? 0 : h)), "projection to the cap"); sym_reach("cap"); } else { sym_check_eq(D, -x, "inside distance"); same(m, V<3>(0, y, z0 + s), "projection to the wall"); if (x > 0) same(e.normal(p), V<3>(-1, 0, 0), "normal of the wall"); sym_reach("wall"); } }
    else { sym_assume(x < 0); sym_assume(y > 0); sym_assume(y < 3); sym_check(D >= 0, "outside distance"); sym_check_eq(D * D, x * x + dz * dz, "outside distance"); same(m, V<3>(0, y, z0 + cs), "projection of an outside point"); sym_reach("out"); }
}
