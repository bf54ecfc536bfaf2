//@ h_compose   mode=real q=60 t=120 split=n:2 need=end
//@ h_history   mode=real q=90 t=300 split=a:6,b:6 need=end
//@ h_apply     mode=real q=60 t=120 split=n:2 need=end
//@ h_build     mode=real q=60 t=120 split=w:9 need=end
//@ h_rotate    mode=real q=60 t=120 split=w:9 need=end
//@ h_matrix    mode=real q=90 t=300 split=w:4 need=end
//@ h_align     mode=real q=90 t=300 split=w:3,axis:3,swap:2 need=end,opposite
//@ h_opposite  mode=real q=90 t=300 split=w:3 need=end
//@ h_resize    mode=real q=60 t=120 split=w:4 need=end
//@ h_convert   mode=real q=60 t=120 need=end
//@bounds all real matrices, points, angles, axes, centres and scales, in two and three dimensions (also four for composition); histories of up to three operations; direction alignment of any two directions one of which is a coordinate axis, and of any exactly opposite pair
//@assume exact real arithmetic; scales are non-zero, matrices regular, axes non-zero
// LINK: GeomException
#include "mtx.h"
#include <geomc/linalg/AffineTransform.h>
#ifndef THOROUGH
#define THOROUGH 0
#endif
template <index_t N> using X = AffineTransform<T,N>;
template <index_t N> using V = Vec<T,N>;
template <index_t N> static void same(V<N> a, V<N> b, const char* m) { for (index_t i = 0; i < N; ++i) sym_check_eq(a[i], b[i], m); }
// arbitrary affine maps in both directions; composition laws do not need them to be each other's inverses
template <index_t N> static X<N> any(const char* n) { X<N> x; for (index_t i = 0; i < N; ++i) for (index_t j = 0; j <= N; ++j) { x.mat.set(i, j, sym_f64(n)); x.inv.set(i, j, sym_f64(n)); } return x; }
// x and y map every point, vector and normal alike in both directions
template <index_t N> static void alike(X<N> x, X<N> y, const char* m) { for (index_t i = 0; i <= N; ++i) for (index_t j = 0; j <= N; ++j) { sym_check_eq(x.mat(i,j), y.mat(i,j), m); sym_check_eq(x.inv(i,j), y.inv(i,j), m); } }
template <index_t N> static void inverses(X<N> x, const char* m) { Ref a = ref(x.mat), b = ref(x.inv), c = mulr(a, b), d = mulr(b, a); for (index_t i = 0; i <= N; ++i) for (index_t j = 0; j <= N; ++j) { sym_check_eq(c.e[i][j], i == j, m); sym_check_eq(d.e[i][j], i == j, m); } for (index_t j = 0; j <= N; ++j) { sym_check_eq(x.mat(N,j), j == N, m); sym_check_eq(x.inv(N,j), j == N, m); } }
template <index_t N> static void compose() {
    X<N> a = any<N>("a"), b = any<N>("b"); V<N> p = vecn<N>("p"), q = vecn<N>("q"); Ray<T,N> r(p, q);
    same(a * p, a.apply(p), "applying to a point"); same(p / a, a.apply_inverse(p), "applying the inverse to a point");
    same((a * b) * p, a * (b * p), "product applies the right factor first"); same(p / (a * b), (p / a) / b, "inverse of a product");
    same((a * b).apply_vector(p), a.apply_vector(b.apply_vector(p)), "product on vectors"); same((a * b).apply_normal(p), a.apply_normal(b.apply_normal(p)), "product on normals"); same((a * b).apply_inverse_normal(p), b.apply_inverse_normal(a.apply_inverse_normal(p)), "inverse of a product on normals"); same((a * b).apply_inverse_vector(p), b.apply_inverse_vector(a.apply_inverse_vector(p)), "inverse of a product on vectors");
    same(a.apply(b) * p, b * (a * p), "concatenation applies this first"); same(p / a.apply(b), (p / b) / a, "inverse of a concatenation");
    same((a / b) * p, (a * p) / b, "quotient applies the first, then the inverse of the second"); same(p / (a / b), (b * p) / a, "inverse of a quotient"); alike(a.apply_inverse(b), a / b, "quotient");
    same(a.inverse() * p, p / a, "inverse"); same(p / a.inverse(), a * p, "inverse of the inverse"); alike(a.inverse().inverse(), a, "inverse of the inverse");
    Ray<T,N> s = a * r, t = r / a; same(s.origin, a * p, "ray origin"); same(s.direction, a.apply_vector(q), "ray direction"); same(t.origin, p / a, "ray origin"); same(t.direction, a.apply_inverse_vector(q), "ray direction");
    X<N> c(a); c *= b; same(c * p, b * (a * p), "compound product applies this first"); same(p / c, (p / b) / a, "compound product, inverse"); c = a; c /= b; alike(c, a / b, "compound quotient");
    c = a; c *= c; same(c * p, a * (a * p), "squared in place"); c = a; c /= c; same(c * p, (a * p) / a, "divided by itself");
    sym_check(a == a, "equal to itself"); X<N> d(a); T e = sym_f64("e"); index_t i = sym_choose(N, "i"), j = sym_choose(N + 1, "j"); d.mat.set(i, j, e); sym_check((d == a) == (e == a.mat(i,j)), "equal exactly when all elements are"); sym_check((d != a) == !(d == a), "unequal");
    X<N> id; same(id * p, p, "identity"); same(p / id, p, "identity"); alike(id * a, a, "identity is neutral"); alike(a * id, a, "identity is neutral"); sym_reach("end");
}
extern "C" void h_compose() { if (sym_choose(2, "n")) compose<3>(); else compose<2>(); }
extern "C" void h_history() {
    X<2> x = any<2>("x"), y = any<2>("y"); V<2> p = vecn<2>("p"), f = x * p, g = p / x; V<2> q = vecn<2>("q"); // tracked: image and preimage of p
    for (int k = 0; k < 3; ++k) switch (sym_choose(6, k == 0 ? "a" : k == 1 ? "b" : "c")) {
        case 0: x *= y; f = y * f; break;
        case 1: x /= y; f = f / y; break;
        case 2: x = x.apply(y); f = y * f; break;
        case 3: { X<2> z(x); x = z * y; f = z * (y * p); } break;
        case 4: { V<2> h = p / x; x = x.inverse(); f = h; } break;
        default: { X<2> z(x); x = z / y; f = (z * p) / y; } break;
    }
    same(x * p, f, "image after a history"); for (index_t j = 0; j < 3; ++j) { sym_check_eq(x.mat(2,j), j == 2, "stays affine"); sym_check_eq(x.inv(2,j), j == 2, "stays affine"); } sym_reach("end");
}
template <index_t N> static void apply() {
    X<N> x = any<N>("x"); V<N> p = vecn<N>("p"), q = vecn<N>("q"), a, b, c, d, e, f; for (index_t i = 0; i < N; ++i) { a[i] = x.mat(i,N); d[i] = x.inv(i,N); for (index_t j = 0; j < N; ++j) { b[i] += x.mat(i,j) * p[j]; c[i] += x.inv(j,i) * p[j]; e[i] += x.inv(i,j) * p[j]; f[i] += x.mat(j,i) * p[j]; } }
    same(x.apply(p), a + b, "point"); same(x.apply_vector(p), b, "vectors are not translated"); same(x.apply_normal(p), c, "normal"); same(x.apply_inverse(p), d + e, "inverse point"); same(x.apply_inverse_vector(p), e, "inverse vector"); same(x.apply_inverse_normal(p), f, "inverse normal"); same(x * p - x * q, x.apply_vector(p - q), "difference of points");
    auto m = x.direction_matrix(); for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < N; ++j) sym_check_eq(m(i,j), x.mat(i,j), "direction matrix"); sym_reach("end");
}
extern "C" void h_apply() { if (sym_choose(2, "n")) apply<3>(); else apply<2>(); }
static V<3> rot(V<3> n, T c, T s, V<3> p) { return p * c + (n ^ p) * s + n * (n.dot(p) * (1 - c)); } // Rodrigues
static V<3> dir(const char* n) { T u = sym_f64(n), v = sym_f64(n), d = 1 + u*u + v*v; return V<3>(2*u/d, 2*v/d, (d - 2)/d); }
template <index_t N> static void rigid(X<N> x, V<N> p, V<N> img, const char* m) { inverses(x, m); same(x * p, img, m); same((x * p) / x, p, "round trip"); for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < N; ++j) sym_check_eq(x.inv(i,j), x.mat(j,i), "rotation is orthogonal"); }
extern "C" void h_build() {
    V<3> p = vecn<3>("p"), t = vecn<3>("t"), q = vecn<3>("q"); V<2> p2 = vecn<2>("p"), t2 = vecn<2>("t"); V<4> p4 = vecn<4>("p"), t4 = vecn<4>("t"); X<3> x; X<2> y; X<4> z;
    switch (sym_choose(9, "w")) {
    case 0: x = translation(t); inverses(x, "translation"); same(x * p, p + t, "translation"); same(p / x, p - t, "translation back"); same(x.apply_vector(p), p, "translating a vector"); break;
    case 1: y = translation(t2); inverses(y, "translation"); same(y * p2, p2 + t2, "translation"); same(p2 / y, p2 - t2, "translation back"); break;
    case 2: alike(translation(t.x, t.y, t.z), translation(t), "translation by components"); alike(translation(t2.x, t2.y), translation(t2), "translation by components"); break;
    case 3: for (int i = 0; i < 3; ++i) sym_assume(t[i] != 0); x = scale(t); inverses(x, "scale"); same(x * p, p * t, "scale"); same(p / x, p / t, "scale back"); sym_check_eq(x.apply_normal(p).dot(x.apply_vector(q)), p.dot(q), "normals stay perpendicular"); break;
    case 4: sym_assume(t2.x != 0); sym_assume(t2.y != 0); y = scale(t2); inverses(y, "scale"); same(y * p2, p2 * t2, "scale"); break;
    case 5: for (int i = 0; i < 3; ++i) sym_assume(t[i] != 0); alike(scale(t.x, t.y, t.z), scale(t), "scale by components"); alike(scale(t.x, t.y), scale(V<2>(t.x, t.y)), "scale by components"); break;
    case 6: z = translation(t4); inverses(z, "translation"); same(z * p4, p4 + t4, "translation"); break;
    case 7: for (int i = 0; i < 4; ++i) sym_assume(t4[i] != 0); z = scale(t4); inverses(z, "scale"); same(z * p4, p4 * t4, "scale"); z *= translation(p4); inverses(z, "scale then translate"); same(z * p4, p4 * t4 + p4, "scale then translate"); break;
    default: for (int i = 0; i < 3; ++i) sym_assume(t[i] != 0); x = X<3>(); x *= scale(t); x *= translation(q); x /= scale(t); inverses(x, "built up"); same(x * p, (p * t + q) / t, "built up step by step"); sym_check_eq(x.apply_normal(p).dot(x.apply_vector(q)), p.dot(q), "normals stay perpendicular"); break;
    } sym_reach("end");
}
extern "C" void h_rotate() {
    V<3> p = vecn<3>("p"), n, k, i = {1, 0, 0}, j = {0, 1, 0}, l = {0, 0, 1}; T a = sym_f64("a"), c = std::cos(a), s = std::sin(a); X<3> x, x2; SM<4,4> m, mi; SM<3,3> m3; V<2> p2(p.x, p.y);
    switch (sym_choose(9, "w")) {
    case 0: rigid(rotation_x(a), p, rot(i, c, s, p), "rotation about x"); rigid(rotation_y(a), p, rot(j, c, s, p), "rotation about y"); rigid(rotation_z(a), p, rot(l, c, s, p), "rotation about z"); break;
    case 1: m3 = rotmat_x(a); same(m3 * p, rot(i, c, s, p), "rotation about x"); m3 = rotmat_y(a); same(m3 * p, rot(j, c, s, p), "rotation about y"); m3 = rotmat_z(a); same(m3 * p, rot(l, c, s, p), "rotation about z"); break;
    case 2: rigid(rotation(a), p2, V<2>(p.x * c - p.y * s, p.x * s + p.y * c), "rotation in the plane"); same(rotation(a) * p2, p2.rotated(a), "agrees with vector rotation"); break;
    case 3: n = dir("n"); k = n * 2; x = rotation(k, a); rigid(x, p, rot(n, c, s, p), "rotation about an axis"); same(x * n, n, "the axis is fixed"); same(x * p, p.rotate(n, a), "agrees with vector rotation"); break;
    case 4: n = dir("n"); k = vecn<3>("k"); x = rotation(n * 3, k, a); inverses(x, "rotation about a centre"); same(x * p, k + rot(n, c, s, p - k), "rotation about a centre"); same(p / x, k + rot(n, c, -s, p - k), "rotation about a centre, inverse"); same(x * k, k, "the centre is fixed"); break;
    case 5: n = dir("n"); k = vecn<3>("k"); rotmat(&m, n, k, a); rotmat(&mi, n.x, n.y, n.z, k.x, k.y, k.z, a); sameM(m, ref(mi), "rotation matrix by components"); same((m * V<4>(p, 1)).template resized<3>(), k + rot(n, c, s, p - k), "rotation matrix about a centre"); { SM<4,4> u, v; rotmat(&u, &v, n, k, a); sameM(u, ref(m), "rotation matrix with its inverse"); rotmat(&u, &v, n.x, n.y, n.z, k.x, k.y, k.z, a); same((v * V<4>(p, 1)).template resized<3>(), k + rot(n, c, -s, p - k), "inverse rotation matrix about a centre"); } break;
    case 6: n = dir("n"); rotmat(&m, n, a); same((m * V<4>(p, 1)).template resized<3>(), rot(n, c, s, p), "rotation matrix"); rotmat(&m, n.x, n.y, n.z, a); same((m * V<4>(p, 1)).template resized<3>(), rot(n, c, s, p), "rotation matrix"); break;
    case 7: { T u = sym_f64("u"), v = sym_f64("v"), w = sym_f64("w"), d = 1 + u*u + v*v + w*w; Quat<T> q(2*u/d, 2*v/d, 2*w/d, (d - 2)/d); x = rotation(q); rigid(x, p, q * p, "rotation by a quaternion"); rotmat(&m, q); same((m * V<4>(p, 1)).template resized<3>(), q * p, "rotation matrix of a quaternion"); } break;
    default: n = dir("n"); { T h = sym_f64("h"); same((rotation(n, a) * rotation(n, h)) * p, rotation(n, a + h) * p, "rotations about one axis add"); same((rotation(a) * rotation(h)) * p2, rotation(a + h) * p2, "plane rotations add"); } break;
    } sym_reach("end");
}
extern "C" void h_matrix() {
    index_t w = sym_choose(4, "w");
    if (w == 0) { SM<2,2> m; fill(m, "m"); sym_assume(m(0,0) * m(1,1) - m(0,1) * m(1,0) != 0); V<2> p = vecn<2>("p"); X<2> x = transformation(m); inverses(x, "transform of a matrix"); same(x * p, m * p, "transform of a matrix"); V<2> n = vecn<2>("n"); sym_check_eq(x.apply_normal(n).dot(x.apply_vector(p)), n.dot(p), "normals stay perpendicular"); }
    else if (w == 1) { SM<2,2,COL_MAJOR> m; fill(m, "m"); sym_assume(m(0,0) * m(1,1) - m(0,1) * m(1,0) != 0); V<2> p = vecn<2>("p"), t = vecn<2>("t"); X<2> x = translation(t) * transformation(m); inverses(x, "transform of a matrix"); same(x * p, m * p + t, "transform of a matrix"); same((m * p + t) / x, p, "round trip"); }
    else { SM<3,3> m; fill(m, "m"); T d = m(0,0) * (m(1,1) * m(2,2) - m(1,2) * m(2,1)) - m(0,1) * (m(1,0) * m(2,2) - m(1,2) * m(2,0)) + m(0,2) * (m(1,0) * m(2,1) - m(1,1) * m(2,0)); sym_assume(d != 0); V<3> p = vecn<3>("p"); X<3> x = transformation(m);
        if (w == 2) { inverses(x, "transform of a matrix"); same(x * p, m * p, "transform of a matrix"); } else { V<3> n = vecn<3>("n"); sym_check_eq(x.apply_normal(n).dot(x.apply_vector(p)), n.dot(p), "normals stay perpendicular"); same((x * p) / x, p, "round trip"); } }
    sym_reach("end");
}
template <typename M> static void aligns(const M& m, V<3> a, V<3> b) { for (int i = 0; i < 3; ++i) { T x = 0; for (int j = 0; j < 3; ++j) x += m(i,j) * a[j]; sym_check_eq(x, b[i], "maps one direction onto the other"); for (int k = 0; k <= i; ++k) { T y = 0; for (int j = 0; j < 3; ++j) y += m(i,j) * m(k,j); sym_check_eq(y, i == k, "is orthogonal"); } }
    sym_check_eq(m(0,0) * (m(1,1) * m(2,2) - m(1,2) * m(2,1)) - m(0,1) * (m(1,0) * m(2,2) - m(1,2) * m(2,0)) + m(0,2) * (m(1,0) * m(2,1) - m(1,1) * m(2,0)), 1, "is a proper rotation"); }
static void align(V<3> a, V<3> b) { SM<4,4> m; SM<3,3> k; switch (sym_choose(3, "w")) { case 0: aligns(rotmat_direction_align(a, b), a, b); break; case 1: rotmat_direction_align(&k, a, b); aligns(k, a, b); break; default: rotmat_direction_align(&m, a, b); aligns(m, a, b); { X<3> x = direction_align(a, b); inverses(x, "direction alignment"); same(x * a, b, "direction alignment"); same(b / x, a, "direction alignment, inverse"); } } }
extern "C" void h_align() { V<3> e; index_t i = sym_choose(3, "axis"), o = sym_choose(3, "side"); e[i] = 1; V<3> d = dir("d"); if (o == 1) d = V<3>(d.y, d.z, d.x); else if (o == 2) d = V<3>(0, 0, sym_choose(2, "neg") ? -1 : 1); if (e.dot(d) == -1) sym_reach("opposite"); if (sym_choose(2, "swap")) align(d, e); else align(e, d); sym_reach("end"); }
extern "C" void h_opposite() { V<3> d = dir("d"); align(d, -d); sym_reach("end"); }
extern "C" void h_resize() {
    switch (sym_choose(4, "w")) {
    case 0: { X<2> x = any<2>("x"); V<3> p = vecn<3>("p"); V<2> q(p.x, p.y); X<3> y = x.resized<3>(); same(y * p, V<3>(x * q, p.z), "enlarged transform leaves the new axis alone"); same(p / y, V<3>(q / x, p.z), "enlarged transform, inverse"); same(y.apply_normal(p), V<3>(x.apply_normal(q), p.z), "enlarged transform, normals"); } break;
    case 1: { V<3> t = vecn<3>("t"); V<2> p = vecn<2>("p"); X<2> y = translation(t).resized<2>(); same(y * p, p + V<2>(t.x, t.y), "reduced translation"); same(p / y, p - V<2>(t.x, t.y), "reduced translation, inverse"); inverses(y, "reduced translation"); } break;
    case 2: { V<2> p = vecn<2>("p"), t = vecn<2>("t"); SM<2,2> m; fill(m, "m"); sym_assume(m(0,0) * m(1,1) - m(0,1) * m(1,0) != 0); X<2> x = translation(t) * transformation(m); X<3> y = x.resized<3>(); inverses(y, "enlarged transform"); X<2> z = y.resized<2>(); alike(z, x, "enlarging and reducing again changes nothing"); } break;
    default: { X<3> x = any<3>("x"); alike(x.resized<3>(), x, "same size"); AffineTransform<float,2> f = x.resized<2, float>(); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) sym_check_eq(f.mat(i,j), x.mat(i,j), "resized with another scalar type"); } break;
    } sym_reach("end");
}
extern "C" void h_convert() { X<3> x = any<3>("x"); AffineTransform<float,3> f = (AffineTransform<float,3>) x; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { sym_check_eq(f.mat(i,j), x.mat(i,j), "conversion"); sym_check_eq(f.inv(i,j), x.inv(i,j), "conversion"); } sym_reach("end"); }
