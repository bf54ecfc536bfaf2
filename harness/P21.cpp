// P21: simplexes: membership, rays, measure, facing, nearest points.
// LINK: GeomException
//@ h_smp_in    mode=real q=60 t=200 split=n:2,k:3 need=in,out
//@ h_smp_flat  mode=real q=60 t=200 need=end
//@ h_smp_ray   mode=real q=60 t=200 split=w:4 need=hit,miss
//@ h_smp_trace mode=real q=60 t=200 split=w:3 need=hit,miss
//@ h_smp_vol   mode=real q=60 t=200 split=w:4 need=end
//@ h_smp_meas  mode=real q=60 t=200 split=w:5 need=end
//@ h_smp_face  mode=real q=60 t=200 split=w:5 need=in,out
//@ h_smp_clip2 mode=real q=80 t=300 split=w:5,part:3,o:2 need=in,out
//@ h_smp_clip3 mode=real q=60 t=200 split=w:4,k:3,part:3 need=out
//@ h_smp_clip4 mode=real q=60 t=200 split=o:4,+k:3,+part:3 need=out
//@ h_smp_nd    mode=real q=60 t=300 split=w:6,part:3 need=in,out
//@ h_smp_proj  mode=real q=60 t=200 split=w:4 need=in,out
//@ h_smp_edit  mode=real q=60 t=200 split=n:2 need=end
//@bounds all real points and rays; triangles with one vertex anywhere (two more fixed in each order) and selected acute, obtuse and thin tetrahedra; points, segments and triangles in the plane and space; four dimensions for measure and facing
//@assume exact real arithmetic; simplexes are not degenerate
#include "shape.h"
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Simplex.h>
static T param() { T t = sym_f64("t"); sym_assume((t > -1e9) & (t < 1e9)); return t; }
static T cr(V<2> a, V<2> b) { return a.x * b.y - a.y * b.x; }
// a triangle with one free vertex, in each position
static Simplex<T,2> tri(index_t k) { V<2> c = vec<2>("c"), a(1, 2), b(4, 3); sym_assume(cr(b - a, c - a) != 0); switch (k) { case 0: return {a, b, c}; case 1: return {c, a, b}; default: return {b, c, a}; } }
// tetrahedra: right-angled, thin, obtuse
static Simplex<T,3> tet(index_t k) { switch (k) { case 0: return {V<3>(0, 0, 0), V<3>(2, 0, 0), V<3>(0, 3, 0), V<3>(0, 0, 1)}; case 1: return {V<3>(1, 1, 1), V<3>(5, 2, 1), V<3>(2, 6, 2), V<3>(3, 3, 2)}; default: return {V<3>(-1, 2, 0), V<3>(7, 1, 3), V<3>(4, -1, 1), V<3>(9, 5, -2)}; } }
extern "C" void h_smp_in() {
    if (sym_choose(2, "n")) { auto s = tet(sym_choose(3, "k")); T u = sym_f64("u"), v = sym_f64("v"), w = sym_f64("w"); bool in = (u >= 0) & (v >= 0) & (w >= 0) & (u + v + w <= 1); sym_check(s.contains(s.pts[0] * (1 - u - v - w) + s.pts[1] * u + s.pts[2] * v + s.pts[3] * w) == in, "contains exactly the weighted means of its vertices"); sym_reach(in ? "in" : "out"); }
    else { auto s = tri(sym_choose(3, "k")); T u = sym_f64("u"), v = sym_f64("v"); bool in = (u >= 0) & (v >= 0) & (u + v <= 1); sym_check(s.contains(s.pts[0] * (1 - u - v) + s.pts[1] * u + s.pts[2] * v) == in, "contains exactly the weighted means of its vertices"); sym_reach(in ? "in" : "out"); }
}
extern "C" void h_smp_flat() { Simplex<T,2> s{vec<2>("a"), vec<2>("b")}, e; V<2> p = vec<2>("p"); sym_check(!s.contains(p), "a flat simplex contains nothing"); sym_check(!e.contains(p), "a flat simplex contains nothing"); sym_check_eq(s.volume(), 0, "a flat simplex has no volume"); sym_check(Simplex<T,2>{p}.intersect(Ray<T,2>(p, V<2>(1, 2))).is_empty(), "a point is not hit by rays"); sym_reach("end"); }
extern "C" void h_smp_ray() {
    index_t w = sym_choose(4, "w"); T t = param(); if (w == 0) { auto s = tri(0); V<2> a = s.pts[0], b = s.pts[1], c = s.pts[2]; T x = sym_f64("x"), y = sym_f64("y"); V<2> d(1, 3); T A = cr(b - a, c - a); V<2> o(x, y), p = o + d * t - a; Rect<T,1> i = s.intersect(Ray<T,2>(o, d)); T u = cr(p, c - a) * A, v = cr(b - a, p) * A, f = A * A - u - v; bool in = (u >= 0) & (v >= 0) & (f >= 0); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss"); }
    else { auto s = tet(w - 1); V<3> d = w == 2 ? V<3>(4, 1, 0) : V<3>(1, w == 1 || THOROUGH ? sym_f64("y") : 2, 2); T u = sym_f64("u"), v = sym_f64("v"), k = sym_f64("k"); V<3> o = s.pts[0] + (s.pts[1] - s.pts[0]) * u + (s.pts[2] - s.pts[0]) * v + (s.pts[3] - s.pts[0]) * k, q = o + d * t - s.pts[0]; V<3> e[3]; for (int j = 0; j < 3; ++j) e[j] = s.pts[j + 1] - s.pts[0]; T A = e[0].dot(e[1] ^ e[2]), sum = 0; bool in = true; for (int j = 0; j < 3; ++j) { T x = q.dot(e[(j + 1) % 3] ^ e[(j + 2) % 3]) * A; in &= x >= 0; sum += x; } in &= sum <= A * A; Rect<T,1> i = s.intersect(Ray<T,3>(o, d)); sym_check(i.contains(t) == in, "ray interval holds exactly the points inside"); sym_reach(in ? "hit" : "miss"); }
}
extern "C" void h_smp_trace() { // a ray towards the point with given surface parameters
    index_t w = sym_choose(3, "w"); T k = sym_f64("k"), u = sym_f64("u"), x = 0, g = -7; if (w == 0) { V<2> a = vec<2>("a"), b = vec<2>("b"), d = vec<2>("d"); sym_assume(cr(b - a, d) != 0); V<2> o = a + (b - a) * u - d * k, p[2] = {a, b}; bool in = (u >= 0) & (u <= 1); Rect<T,1> i = Simplex<T,2>{a, b}.intersect(Ray<T,2>(o, d)); sym_check(i.is_empty() == !in, "ray hits exactly within the segment"); V<1> uv; bool h = trace_simplex<T,2>(p, Ray<T,2>(o, d), &uv, &g); sym_check(h == in, "ray hits exactly within the segment"); if (in) { sym_check_eq(i.lo, k, "ray parameter of the hit"); sym_check_eq(i.hi, k, "ray parameter of the hit"); sym_check_eq(g, k, "ray parameter of the hit"); sym_check_eq(uv[0], u, "surface parameters"); } sym_reach(in ? "hit" : "miss"); }
    else { T v = sym_f64("v"); V<3> p[3] = {V<3>(1, 2, 0), w == 1 ? V<3>(4, 2, 1) : V<3>(1, 2, 5), w == 1 ? V<3>(3, 7, 2) : vec<3>("c")}, d = w == 1 ? vec<3>("d") : V<3>(1, 2, 2), n = (p[1] - p[0]) ^ (p[2] - p[0]); sym_assume(dot(n, d) != 0); V<3> o = p[0] + (p[1] - p[0]) * u + (p[2] - p[0]) * v - d * k; bool in = (u >= 0) & (v >= 0) & (u + v <= 1); Rect<T,1> i = Simplex<T,3>(p, 3).intersect(Ray<T,3>(o, d)); V<2> uv; bool h = trace_simplex<T,3>(p, Ray<T,3>(o, d), &uv, &g), h2 = trace_simplex<T,3>(p, Ray<T,3>(o, d), nullptr, &x); sym_check((h == in) & (h2 == in), "ray hits exactly within the triangle"); sym_check(i.is_empty() == !in, "ray hits exactly within the triangle"); if (in) { sym_check_eq(g, k, "ray parameter of the hit"); sym_check_eq(x, k, "ray parameter of the hit"); sym_check_eq(i.lo, k, "ray parameter of the hit"); sym_check_eq(i.hi, k, "ray parameter of the hit"); sym_check_eq(uv.x, u, "surface parameters"); sym_check_eq(uv.y, v, "surface parameters"); } sym_reach(in ? "hit" : "miss"); }
}
extern "C" void h_smp_vol() {
    switch (sym_choose(4, "w")) { case 0: { V<2> a = vec<2>("a"), b = vec<2>("b"), c = vec<2>("c"); T A = cr(b - a, c - a); Simplex<T,2> s{a, b, c}; sym_check_eq(s.volume(), A / 2, "signed area"); sym_check_eq(s.measure(), (A < 0 ? -A : A) / 2, "area"); } break;
    case 1: { V<3> a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), d = vec<3>("d"); T A = (b - a).dot((c - a) ^ (d - a)); Simplex<T,3> s{a, b, c, d}; sym_check_eq(s.volume(), A / 6, "signed volume"); T m = s.measure(); sym_check_eq(m * m, A * A / 36, "volume"); sym_check(m >= 0, "volume"); } break;
    case 2: { T x = sym_f64("x"), y = sym_f64("y"); V<4> a(1, 0, 0, 0), b(3, x, 0, 0), c(1, 1, y, 0), d(1, 0, 2, 1), e(2, 1, 1, 1); Simplex<T,4> s{a, b, c, d, e}; T A = 2 * (y - 2 + 0) ; (void) A; T v = s.volume(), m = s.measure(); sym_check_eq(m * m, v * v, "measure is the size of the volume"); sym_check(m >= 0, "measure is positive"); // det of the edge rows
        T r[4][4]; V<4> q[4] = {b, c, d, e}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = q[i][j] - a[j]; auto d3 = [&](int i, int j, int k, int s0) { int cs[3], n = 0; for (int z = 0; z < 4; ++z) if (z != s0) cs[n++] = z; return r[i][cs[0]] * (r[j][cs[1]] * r[k][cs[2]] - r[j][cs[2]] * r[k][cs[1]]) - r[i][cs[1]] * (r[j][cs[0]] * r[k][cs[2]] - r[j][cs[2]] * r[k][cs[0]]) + r[i][cs[2]] * (r[j][cs[0]] * r[k][cs[1]] - r[j][cs[1]] * r[k][cs[0]]); }; T D = r[0][0] * d3(1, 2, 3, 0) - r[0][1] * d3(1, 2, 3, 1) + r[0][2] * d3(1, 2, 3, 2) - r[0][3] * d3(1, 2, 3, 3); sym_check_eq(v * 24, D, "signed hypervolume"); } break;
    default: { auto s = Simplex<T,3>::standard_simplex(); sym_check_eq(s.volume() * 6, 1, "standard simplex"); T u = sym_f64("u"), v = sym_f64("v"), w = sym_f64("x"); sym_check(s.contains(V<3>(u, v, w)) == ((u >= 0) & (v >= 0) & (w >= 0) & (u + v + w <= 1)), "standard simplex"); } break; } sym_reach("end");
}
extern "C" void h_smp_meas() {
    switch (sym_choose(5, "w")) { case 0: { V<2> a = vec<2>("a"), b = vec<2>("b"); T m = Simplex<T,2>{a, b}.measure(); sym_check_eq(m * m, dot(b - a, b - a), "length"); } break; case 1: { V<4> a = vec<4>("a"), b = vec<4>("b"); T m = Simplex<T,4>{a, b}.measure(); sym_check_eq(m * m, dot(b - a, b - a), "length"); } break;
    case 2: { V<3> a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"), n = (b - a) ^ (c - a); T m = Simplex<T,3>{a, b, c}.measure(); sym_check_eq(4 * m * m, dot(n, n), "area"); } break;
    case 3: { V<4> a = vec<4>("a"), x = vec<4>("b"), y = vec<4>("c"); T g = dot(x, x) * dot(y, y) - dot(x, y) * dot(x, y), m = Simplex<T,4>{a, a + x, a + y}.measure(); sym_check_eq(4 * m * m, g, "area"); } break;
    default: { T e = sym_f64("e"); V<4> a(1, 2, 3, 4), x(e, 1, 0, 0), y(0, 1, 1, 0), z(0, 0, 1, 2); T xx = dot(x, x), yy = dot(y, y), zz = dot(z, z), xy = dot(x, y), xz = dot(x, z), yz = dot(y, z), g = xx * (yy * zz - yz * yz) - xy * (xy * zz - yz * xz) + xz * (xy * yz - yy * xz), m = Simplex<T,4>{a, a + x, a + y, a + z}.measure(); sym_check_eq(36 * m * m, g, "volume in four dimensions"); } break; } sym_reach("end");
}
// facing: the point above the surface parameters (u,v), any distance along the complement
template <index_t N> void facing(const Simplex<T,N>& s, V<N> off, const T* u) { V<N> p = s.pts[0] + off; T sum = 0; bool in = true; for (index_t i = 1; i < s.n; ++i) { p += (s.pts[i] - s.pts[0]) * u[i-1]; in &= u[i-1] >= 0; sum += u[i-1]; } in &= sum <= 1; V<N> q; sym_check(s.is_facing(p, &q) == in, "faces exactly the points over it"); sym_check(s.is_facing(p) == in, "faces exactly the points over it"); if (in) for (index_t i = 0; i + 1 < s.n; ++i) sym_check_eq(q[i], u[i], "surface parameters"); sym_reach(in ? "in" : "out"); }
extern "C" void h_smp_face() {
    T u[3] = {sym_f64("u"), sym_f64("v"), sym_f64("w")}, k = sym_f64("k"), l = sym_f64("l"); switch (sym_choose(5, "w")) { case 0: { V<2> a = vec<2>("a"), d = vec<2>("d"); sym_assume(dot(d, d) > 0); facing<2>({a, a + d}, V<2>(-d.y, d.x) * k, u); } break; case 1: { V<3> a(1, 2, 3), b(4, 1, 2), c = vec<3>("c"), n = (b - a) ^ (c - a); sym_assume(dot(n, n) > 0); facing<3>({a, b, c}, n * k, u); } break; case 2: { V<3> a = vec<3>("a"); facing<3>({a, a + V<3>(1, 2, 2)}, V<3>(2, -1, 0) * k + V<3>(0, 1, -1) * l, u); } break; case 3: { V<4> a(1, 2, 3, 4), x(1, 0, 2, 1), y(0, 1, 1, 3); facing<4>({a, a + x, a + y}, V<4>(2, 1, -1, 0) * k + V<4>(1, 3, 0, -1) * l, u); } break; default: facing<3>(tet(1), V<3>((T) 0), u); }
}
// nearest point: in the hull (some vertex subset spans it) and optimal against every vertex
template <index_t N> void optimal(const Simplex<T,N>& s, V<N> p, V<N> q) { for (index_t i = 0; i < s.n; ++i) sym_check_le(dot(p - q, s.pts[i] - q), 0, "nearest point beats every vertex direction"); }
template <index_t N> void nearest(const Simplex<T,N>& s, V<N> p, bool inside, bool whole = true) {
    index_t part = whole ? sym_choose(3, "part") : 0; sym_reach(inside ? "in" : "out"); if (part == 1) { if (inside) return; const V<N> r = p; V<N> q = s.project(r), e = p - q; optimal(s, p, q); T D = s.sdf(p); sym_check_eq(D * D, dot(e, e), "distance"); sym_check(D >= 0, "distance"); return; }
    Simplex<T,N> f; V<N> q = part ? s.clip(p) : s.clip(p, &f), e = p - q; if (part == 2) { V<N> m = s.normal(p); T mm = dot(m, m), me = dot(m, e); if (s.n == N + 1 || dot(e, e) > 0) sym_check_eq(mm, 1, "normals are unit length"); if (!inside) { sym_check_eq(mm * dot(e, e), me * me, "normal points from the nearest point"); sym_check(me >= 0, "normal points from the nearest point"); } else { V<N> w = s.project(p) - p; T mw = dot(m, w); sym_check_eq(dot(w, w), mw * mw, "normal inside points towards the nearest surface point"); sym_check(mw >= 0, "normal inside points towards the nearest surface point"); } return; }
    if (inside) same(q, p, "a point inside is unchanged"); optimal(s, p, q); sym_check((f.n >= 1) & (f.n <= s.n), "projected face"); for (index_t i = 0; i < f.n; ++i) { bool has = false; for (index_t j = 0; j < s.n; ++j) { bool eq = true; for (index_t k = 0; k < N; ++k) eq &= f.pts[i][k] == s.pts[j][k]; has |= eq; } sym_check(has, "projected face has vertices of the simplex"); } // q lies within f
    if (f.n == 1) same(q, f.pts[0], "nearest point lies on its face"); else if (f.n == 2) { V<N> d = f.pts[1] - f.pts[0], x = q - f.pts[0]; T t = dot(x, d), l = dot(d, d); same(x * l, d * t, "nearest point lies on its face"); sym_check((t >= 0) & (t <= l), "nearest point lies on its face"); }
    else if constexpr (N == 3) if (f.n == 3) { V<3> a = f.pts[1] - f.pts[0], b = f.pts[2] - f.pts[0], x = q - f.pts[0], n = a ^ b; T nn = dot(n, n), u = dot(x ^ b, n), v = dot(a ^ x, n); sym_check_eq(dot(x, n), 0, "nearest point lies on its face"); sym_check((u >= 0) & (v >= 0) & (u + v <= nn), "nearest point lies on its face"); }
}
extern "C" void h_smp_clip2() { index_t w = sym_choose(5, "w"); if (w < 3) { index_t o = sym_choose(2, "o"); Simplex<T,2> s = THOROUGH ? tri(w) : w == 0 ? Simplex<T,2>{V<2>(1, 2), V<2>(5, 3), o ? V<2>(2, 6) : V<2>(4, -3)} : w == 1 ? Simplex<T,2>{V<2>(0, 0), V<2>(7, 1), o ? V<2>(9, 3) : V<2>(3, -1)} : Simplex<T,2>{o ? V<2>(-2, 1) : V<2>(8, 1), V<2>(3, 0), V<2>(0, 0)}; V<2> p = vec<2>("p"); V<2> a = s.pts[0], b = s.pts[1], c = s.pts[2]; T A = cr(b - a, c - a); if (THOROUGH) sym_assume(o ? A > 0 : A < 0); T x = cr(b - a, p - a) * A, y = cr(c - b, p - b) * A, z = cr(a - c, p - c) * A; nearest<2>(s, p, (x >= 0) & (y >= 0) & (z >= 0)); } else if (w == 3) { V<2> a = vec<2>("a"), b = vec<2>("b"), p = vec<2>("p"); sym_assume(dot(b - a, b - a) > 0); nearest<2>({a, b}, p, false); } else nearest<2>({vec<2>("a")}, vec<2>("p"), false); }
extern "C" void h_smp_clip3() { index_t w = sym_choose(4, "w"), k = sym_choose(3, "k"); auto s = tet(k); V<3> p = vec<3>("p"); if (w == 0) nearest<3>({s.pts[0], s.pts[1], s.pts[2]}, p, false); else if (w == 1) nearest<3>({s.pts[3], s.pts[1], s.pts[2]}, p, false); else if (w == 2) nearest<3>({s.pts[3], s.pts[1]}, p, false); else nearest<3>({s.pts[2]}, p, false); }
extern "C" void h_smp_clip4() { // outside the whole tetrahedron, in each of its regions
    index_t k = THOROUGH ? sym_choose(3, "k") : 1, o = sym_choose(4, "o"); auto s = tet(k); V<3> p = vec<3>("p"), c = (s.pts[0] + s.pts[1] + s.pts[2] + s.pts[3]) / 4; sym_assume((o & 1 ? p.x >= c.x : p.x < c.x) & (o & 2 ? p.z >= c.z : p.z < c.z)); bool in = true; for (int i = 0; i < 4; ++i) { V<3> a = s.pts[(i+1)%4], n = (s.pts[(i+2)%4] - a) ^ (s.pts[(i+3)%4] - a); in &= dot(n, p - a) * dot(n, c - a) >= 0; } sym_assume(!in); nearest<3>(s, p, false, THOROUGH); }
// four dimensions: nearest points of segments, triangles, tetrahedra and a full simplex
static void in_face(const Simplex<T,4>& f, V<4> q) { // coordinates of q on the (fixed) face by Gaussian elimination of its Gram matrix
    index_t m = f.n - 1; V<4> a[4], x = q - f.pts[0], y((T) 0); T g[4][5]; for (index_t i = 0; i < m; ++i) a[i] = f.pts[i+1] - f.pts[0]; for (index_t i = 0; i < m; ++i) { for (index_t j = 0; j < m; ++j) g[i][j] = dot(a[i], a[j]); g[i][m] = dot(a[i], x); }
    for (index_t i = 0; i < m; ++i) for (index_t j = 0; j < m; ++j) if (j != i) { T k = g[j][i] / g[i][i]; for (index_t c = i; c <= m; ++c) g[j][c] -= k * g[i][c]; }
    T sum = 0; for (index_t i = 0; i < m; ++i) { T u = g[i][m] / g[i][i]; sym_check(u >= 0, "nearest point lies on its face"); sum += u; y += a[i] * u; } sym_check(sum <= 1, "nearest point lies on its face"); same(y, x, "nearest point lies on its face"); }
extern "C" void h_smp_nd() {
    index_t w = sym_choose(6, "w"), part = sym_choose(3, "part"); V<4> v[5] = {V<4>(1, 0, 2, 1), V<4>(4, 1, 0, 0), V<4>(0, 5, 1, -1), V<4>(1, 1, 6, 2), V<4>(0, -1, 1, 5)}, p = w < 4 ? vec<4>("p") : V<4>((T) 0); Simplex<T,4> s; bool inside = false;
    if (w == 0) s = {v[0], v[1]}; else if (w == 1) s = {v[0], v[1], v[2]}; else if (w == 2) s = {v[4], v[2], v[3]}; else if (w == 3) { s = {v[0], v[1], v[2], v[3]}; if (!THOROUGH) { p.w = 1; p.z = -p.x; } }
    else { s = {v[0], v[1], v[2], v[3], v[4]}; V<4> c = (v[0] + v[1] + v[2] + v[3] + v[4]) / 5; T a = sym_f64("a"), b = THOROUGH ? sym_f64("b") : T(w == 4 ? 1 : -1) / 8; if (w == 4) p = c + V<4>(1, -1, 2, 0) * a + V<4>(0, 1, 1, 2) * b; else p = c + (v[1] - c) * a + (v[3] - c) * b; inside = s.contains(p); }
    if (part == 2) { V<4> m = s.normal(p), q = s.clip(p), e = p - q; if (s.n == 5 || dot(e, e) > 0) sym_check_eq(dot(m, m), 1, "normals are unit length"); if (!inside) { T me = dot(m, e); sym_check_eq(dot(m, m) * dot(e, e), me * me, "normal points from the nearest point"); sym_check(me >= 0, "normal points from the nearest point"); sym_reach("out"); } else sym_reach("in"); return; }
    Simplex<T,4> f; const V<4> r = p; V<4> q = part ? s.project(r, &f) : s.clip(p, &f), e = p - q; if (inside) { sym_reach("in"); if (!part) { same(q, p, "a point inside is unchanged"); return; }
        T D = s.sdf(p), d2 = dot(e, e); sym_check_eq(D * D, d2, "distance to the boundary"); sym_check(D <= 0, "distance is negative inside"); sym_check((f.n == 4) | (d2 == 0), "projected to a face"); in_face(f, q); for (int i = 0; i < 5; ++i) { V<4> b[3], o; for (int j = 0; j < 3; ++j) b[j] = v[(i + j + 2) % 5] - v[(i + 1) % 5]; o = orthogonal<T,4>(b); T x = dot(o, p - v[(i + 1) % 5]); sym_check_le(d2 * dot(o, o), x * x, "no face is nearer"); } return; }
    sym_reach("out"); optimal(s, p, q); sym_check((f.n >= 1) & (f.n <= s.n), "projected face"); in_face(f, q); if (part) { T D = s.sdf(p); sym_check_eq(D * D, dot(e, e), "distance"); sym_check(D >= 0, "distance"); } }
extern "C" void h_smp_proj() { // inside: the nearest boundary face, negative distance
    index_t w = sym_choose(4, "w"); if (w == 0) { auto s = THOROUGH ? tri(0) : Simplex<T,2>{V<2>(1, 2), V<2>(4, 3), V<2>(2, 7)}; T u = sym_f64("u"), v = sym_f64("v"); sym_assume((u > 0) & (v > 0) & (u + v < 1)); V<2> p = s.pts[0] * (1 - u - v) + s.pts[1] * u + s.pts[2] * v, r = p; Simplex<T,2> f; V<2> q = s.project(r, &f); T D = s.sdf(p), d2 = dot(p - q, p - q); sym_check_eq(D * D, d2, "distance to the boundary"); sym_check(D <= 0, "distance is negative inside"); for (int i = 0; i < 3; ++i) { V<2> a = s.pts[i], e = s.pts[(i+1)%3] - a; T x = cr(e, p - a); sym_check_le(d2 * dot(e, e), x * x, "no side is nearer"); } sym_check(f.n == 2, "projected to a side"); sym_check_eq(cr(f.pts[1] - f.pts[0], q - f.pts[0]), 0, "projected to a side"); sym_reach("in"); V<2> k = s.clip(p); same(k, p, "a point inside is unchanged"); }
    else { auto s = tet(w - 1); T u = sym_f64("u"), v = sym_f64("v"), z = sym_f64("w"); bool in = (u > 0) & (v > 0) & (z > 0) & (u + v + z < 1); sym_assume(in); V<3> p = s.pts[0] * (1 - u - v - z) + s.pts[1] * u + s.pts[2] * v + s.pts[3] * z, r = p; Simplex<T,3> f; V<3> q = s.project(r, &f); T D = s.sdf(p), d2 = dot(p - q, p - q); sym_check_eq(D * D, d2, "distance to the boundary"); sym_check(D <= 0, "distance is negative inside"); T on = 1; for (int i = 0; i < 4; ++i) { V<3> a = s.pts[i], n = (s.pts[(i+1)%4] - a) ^ (s.pts[(i+2)%4] - a); T x = dot(n, p - a), y = dot(n, q - a); sym_check_le(d2 * dot(n, n), x * x, "no face is nearer"); on *= y; } sym_check_eq(on, 0, "projected to a face"); sym_check(f.n == 3, "projected to a face"); V<3> k = s.clip(p); same(k, p, "a point inside is unchanged"); sym_reach("in"); }
    if (w == 0) sym_reach("out");
}
template <index_t N> void edit() {
    V<N> a = vec<N>("a"), b, c = vec<N>("c"), d = vec<N>("d"); if (THOROUGH) b = vec<N>("b"); else for (index_t i = 0; i < N; ++i) b[i] = i + 1; Simplex<T,N> s{a, b}, e; e.insert(a); e |= b; sym_check(e == s, "inserted vertices"); auto f = s | c; sym_check(f.n == 3, "inserted vertices"); same(f.pts[2], c, "inserted vertices"); sym_check(s.n == 2, "source unchanged"); sym_check(s != f, "inequality"); auto g = f; while (g.n < N + 1) g |= c; g |= d; sym_check(g.n == N + 1, "a full simplex ignores insertion"); same(g.pts[N], c, "a full simplex ignores insertion");
    for (index_t i = 0; i < 3; ++i) { auto x = f.excluded(i); auto y = f; y.exclude(i); sym_check((x.n == 2) & (y.n == 2), "excluded vertex"); for (index_t j = 0, k = 0; j < 3; ++j) if (j != i) { same(x[k], f[j], "excluded vertex"); same(y[k], f[j], "excluded vertex"); ++k; } sym_check(x == y, "excluded vertex"); }
    AffineTransform<T,N> xf = translation(vec<N>("t")) * scale(V<N>(2)); auto h = f; h *= xf; for (index_t i = 0; i < 3; ++i) same(h[i], xf * f[i], "transformed vertices"); h = f; h /= xf; for (index_t i = 0; i < 3; ++i) same(h[i], f[i] / xf, "transformed vertices");
    T m = dot(a, d), o = dot(f.convex_support(d), d); for (index_t i = 1; i < 3; ++i) { T x = dot(f[i], d); m = x > m ? x : m; } sym_check_eq(o, m, "support point is the furthest vertex"); Rect<T,N> k = f.bounds(); bool l = false, u = false; for (index_t i = 0; i < 3; ++i) { sym_check(inbox(k, f[i]), "bounds"); l |= f[i][0] == k.lo[0]; u |= f[i][N-1] == k.hi[N-1]; } sym_check(l & u, "bounds"); V<N> p[2] = {a, b}; sym_check((Simplex<T,N>(p, 2) == s), "equality"); sym_reach("end");
}
extern "C" void h_smp_edit() { if (sym_choose(2, "n") && THOROUGH) edit<3>(); else edit<2>(); }
