//@ h_algebra   mode=real q=60 t=120 need=end
//@ h_product   mode=real q=60 t=120 need=end
//@ h_rotate    mode=real q=60 t=120 need=end
//@ h_axis      mode=real q=60 t=120 need=end,zero_axis
//@ h_to_axis   mode=real q=60 t=120 need=end,null
//@ h_scale     mode=real q=60 t=120 need=end,null
//@ h_align     mode=real q=60 t=120 split=axis:3,swap:2 need=end
//@ h_opposite  mode=real q=60 t=120 need=end
//@ h_slerp     mode=real q=60 t=120 split=axis:4,swap:2 need=end,equal
//@ h_exp       mode=real q=60 t=120 need=end,real
//@ h_log       mode=real q=60 t=120 need=end,real
//@ h_pow       mode=real q=60 t=120 need=end,real,int
//@ h_float     mode=real q=60 t=120 need=end
//@ h_ray       mode=real q=60 t=120 split=dim:3 need=end,degenerate
//@bounds all real quaternion components, vectors, angles and interpolation parameters (interpolation and alignment: one operand any unit value, the other any coordinate axis); rays in dimensions 2 to 4
//@assume exact real arithmetic; unit-quaternion operations are given unit quaternions
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/LinalgTypes.h>
#include "sym.h"
using namespace geom;
typedef Quat<double> Q; typedef Vec<double,3> V;
static Q quat(const char* n) { double x = sym_f64(n), y = sym_f64(n), z = sym_f64(n), w = sym_f64(n); return Q(x, y, z, w); }
static V vec(const char* n) { double x = sym_f64(n), y = sym_f64(n), z = sym_f64(n); return V(x, y, z); }
static void same(Q a, Q b, const char* m) { for (int i = 0; i < 4; ++i) sym_check_eq(a[i], b[i], m); }
static void samev(V a, V b, const char* m) { for (int i = 0; i < 3; ++i) sym_check_eq(a[i], b[i], m); }
// a generic direction or unit quaternion by stereographic projection (every one but a pole)
static V dir(const char* n) { double u = sym_f64(n), v = sym_f64(n), d = 1 + u*u + v*v; return V(2*u/d, 2*v/d, (d - 2)/d); }
static Q sphere(const char* n) { double u = sym_f64(n), v = sym_f64(n), w = sym_f64(n), d = 1 + u*u + v*v + w*w; return Q(2*u/d, 2*v/d, 2*w/d, (d - 2)/d); }
static Q unit(const char* n) { Q q = quat(n); sym_assume(q.mag2() > 0); return q.unit(); }
extern "C" void h_algebra() {
    Q a = quat("a"), b = quat("b"); double s = sym_f64("s"); V v = vec("v");
    same(a + b, Q(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w), "sum"); same(a - b, Q(a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w), "difference");
    same(a * s, Q(a.x * s, a.y * s, a.z * s, a.w * s), "scaling"); same(s * a, a * s, "scaling from the left"); same(-a, Q(-a.x, -a.y, -a.z, -a.w), "negation");
    same(a.conj(), Q(-a.x, -a.y, -a.z, a.w), "conjugate"); same(std::conj(a), a.conj(), "std conjugate");
    samev(a.imag(), V(a.x, a.y, a.z), "vector part"); sym_check_eq(a.real(), a.w, "scalar part");
    same(Q(v, s), Q(v.x, v.y, v.z, s), "from vector and scalar"); double arr[4] = {a.x, a.y, a.z, a.w}; same(Q(arr), a, "from array"); same(Q(Vec<double,4>(arr)), a, "from a 4d vector");
    Q lit = {1, 2, 3, 4}; same(lit, Q(1, 2, 3, 4), "from braces");
    same(Q::identity(), Q(0, 0, 0, 1), "identity"); same(Q(), Q(0, 0, 0, 0), "default is zero");
    Quat<float> f = (Quat<float>) a; for (int i = 0; i < 4; ++i) sym_check_eq(f[i], a[i], "scalar conversion");
    sym_check_eq(a.dot(b), a.x*b.x + a.y*b.y + a.z*b.z + a.w*b.w, "dot"); sym_check_eq(a.mag2(), a.dot(a), "norm");
    sym_reach("end");
}
extern "C" void h_product() {
    Q a = quat("a"), b = quat("b"), c = quat("c"); double s = sym_f64("s");
    Q i(1,0,0,0), j(0,1,0,0), k(0,0,1,0), e = Q::identity();
    same(i * j, k, "i j = k"); same(j * k, i, "j k = i"); same(k * i, j, "k i = j"); same(j * i, -k, "j i = -k"); same(i * i, -e, "i i = -1"); same(j * j, -e, "j j = -1"); same(k * k, -e, "k k = -1");
    same(a * e, a, "right identity"); same(e * a, a, "left identity");
    same((a * b) * c, a * (b * c), "product is associative");
    same(a * (b + c), a * b + a * c, "product distributes"); same((a * s) * b, (a * b) * s, "product is linear");
    same((a * b).conj(), b.conj() * a.conj(), "conjugate reverses products");
    sym_check_eq((a * b).mag2(), a.mag2() * b.mag2(), "norm is multiplicative");
    same(a * a.conj(), Q(0, 0, 0, a.mag2()), "product with the conjugate is the norm");
    same(a.mult(b), a * b, "mult"); Q m = a; m = m * m; same(m, a.mult(a), "square");
    sym_reach("end");
}
extern "C" void h_rotate() {
    Q q = unit("q"), p = unit("p"); V v = vec("v"), w = vec("w");
    V r = q * v, s = q * w;
    sym_check_eq(r.mag2(), v.mag2(), "rotation keeps lengths"); sym_check_eq(r.dot(s), v.dot(w), "rotation keeps angles");
    samev(r.cross(s), q * v.cross(w), "rotation keeps handedness");
    samev(r * q, v, "inverse rotation undoes the rotation"); samev(v * q, q.conj() * v, "inverse rotation is rotation by the conjugate");
    samev(q * (p * v), (q * p) * v, "rotations compose");
    samev((-q) * v, r, "opposite quaternions rotate alike");
    sym_reach("end");
}
static V rodrigues(V p, V k, double t) { double C = std::cos(t), S = std::sin(t); return p * C + k.cross(p) * S + k * (k.dot(p) * (1 - C)); }
extern "C" void h_axis() {
    V k = vec("k"), v = vec("v"); double h = sym_f64("h");
    Q q = Q::rotation_from_axis_angle(k, 2 * h);
    if (k.mag2() == 0) { same(q, Q::identity(), "rotation about nothing"); sym_reach("zero_axis"); return; }
    sym_check_eq(q.mag2(), 1, "axis-angle rotation is a unit quaternion");
    V u = k / k.mag(), r = q * v;
    double S = std::sin(h), C = std::cos(h);   // sin(2h) = 2 S C, cos(2h) = C^2 - S^2
    samev(r, v * (C*C - S*S) + u.cross(v) * (2*S*C) + u * (u.dot(v) * (2*S*S)), "rotation by an axis and angle");
    sym_reach("end");
}
extern "C" void h_to_axis() {
    Q q = unit("q");
    Vec<double,4> a = q.to_axis_angle_rotation(); V w = q.to_angular_velocity();
    if (q.x == 0 && q.y == 0 && q.z == 0) { sym_check(a[3] == 0 && a[0] == 1 && a[1] == 0 && a[2] == 0, "null rotation as axis and angle"); samev(w, V(0.0), "null rotation as angular velocity"); sym_reach("null"); return; }
    V k(a[0], a[1], a[2]); double t = a[3];
    sym_check_eq(k.mag2(), 1, "axis is a unit vector"); sym_check_le(0, t, "angle is non-negative"); sym_check_le(t, 2 * M_PI, "angle is at most a full turn");
    samev(k * q.imag().mag(), q.imag(), "axis direction"); sym_check_eq(std::cos(t / 2), q.w, "angle");
    samev(w, k * t, "angular velocity");
    same(Q::rotation_from_axis_angle(k, t), q, "axis-angle round trip");
    sym_reach("end");
}
extern "C" void h_scale() {
    Q q = unit("q"); double t = sym_f64("t");
    if (q.imag().is_zero()) { sym_assume(q.w > 0); same(q.rotation_scale(t), Q::identity(), "scaling the null rotation"); sym_reach("null"); return; }
    same(q.rotation_scale(0), Q::identity(), "no part of a rotation"); same(q.rotation_scale(1), q, "the whole rotation"); same(q.rotation_scale(2), q * q, "twice a rotation"); same(q.rotation_scale(-1), q.conj(), "the inverse rotation");
    Q r = q.rotation_scale(t);
    sym_check_eq(r.mag2(), 1, "scaled rotation is a unit quaternion"); sym_check_eq(r.w, std::cos(t * std::acos(q.w)), "scaled rotation angle"); samev(r.imag().cross(q.imag()), V(0.0), "scaled rotation axis");
    samev(r.imag() * q.imag().mag(), q.imag() * std::sin(t * std::acos(q.w)), "scaled rotation axis and sense");
    sym_reach("end");
}
extern "C" void h_align() {
    V a = dir("a"), b; b[sym_choose(3, "axis")] = 1; if (sym_choose(2, "swap")) std::swap(a, b);
    sym_assume(a.dot(b) > -0.999);
    Q q = Q::rotation_direction_align(a, b);
    sym_check_eq(q.mag2(), 1, "aligning rotation is a unit quaternion");
    samev(q.imag() * std::sqrt(2 * (1 + a.dot(b))), a.cross(b), "aligning rotation turns about the common perpendicular");
    sym_check_eq(2 * q.w * q.w, 1 + a.dot(b), "aligning rotation turns by the angle between"); sym_check_le(0, q.w, "aligning rotation turns the short way");
    sym_reach("end");
}
extern "C" void h_opposite() {
    V a = vec("a"); sym_assume(a.mag2() > 0); a = a.unit();
    Q q = Q::rotation_direction_align(a, -a);
    sym_check_eq(q.mag2(), 1, "half turn is a unit quaternion"); samev(q * a, -a, "half turn reverses a direction");
    static const V d[3] = {V(1,0,0), V(0,1,0), V(0,0,-1)};
    V s = d[sym_choose(3, "s")], t = d[sym_choose(3, "t")];
    samev(Q::rotation_direction_align(s, t) * s, t, "aligning axes maps one to the other");
    sym_reach("end");
}
extern "C" void h_slerp() {
    Q a = sphere("a"), b; b[sym_choose(4, "axis")] = 1; if (sym_choose(2, "swap")) std::swap(a, b); double t = sym_f64("t");
    double d = a.dot(b);
    Q e = d < 0 ? -b : b; double D = d < 0 ? -d : d;
    Q r = a.slerp(b, t);
    if (D == 1) { same(r, a, "interpolating equal rotations"); sym_reach("equal"); return; }
    sym_check_eq(r.mag2(), 1, "interpolated rotation is a unit quaternion");
    same(a.slerp(b, 0), a, "interpolation starts at the first rotation"); same(a.slerp(b, 1), e, "interpolation ends at the second rotation, the short way");
    double w = std::acos(D);
    sym_check_eq(r.dot(a), std::cos(w * t), "interpolated angle from the first");
    sym_check_eq(r.dot(e), std::cos(w * t) * std::cos(w) + std::sin(w * t) * std::sin(w), "interpolated angle from the second");
    sym_reach("end");
}
extern "C" void h_exp() {
    Q q = quat("q");
    Q e = std::exp(q); V u = q.imag(); double m = u.mag(), k = std::exp(q.w);
    same(q.exp(), e, "exp methods agree");
    if (m == 0) { same(e, Q(0, 0, 0, k), "exponential of a real quaternion"); sym_reach("real"); return; }
    sym_check_eq(e.w, k * std::cos(m), "exponential, real part"); samev(e.imag() * m, u * (k * std::sin(m)), "exponential, vector part");
    sym_reach("end");
}
extern "C" void h_log() {
    Q q = quat("q"); bool real = sym_choose(2, "real");
    if (real) { q.x = q.y = q.z = 0; sym_assume(q.w != 0); } else sym_assume(q.imag().mag2() > 0);
    Q l = std::log(q); V u = q.imag(); double m = q.mag();
    same(q.log(), l, "log methods agree");
    sym_check_eq(l.w, std::log(m), "logarithm, real part"); 
    if (real) { sym_check_eq(l.imag().mag(), q.w > 0 ? 0 : M_PI, "logarithm of a real quaternion"); sym_reach("real"); return; }
    samev(l.imag() * u.mag(), u * std::acos(q.w / m), "logarithm, vector part");
    sym_reach("end");
}
extern "C" void h_pow() {
    Q q = quat("q"); double a = sym_f64("a"); bool real = sym_choose(2, "real");
    if (real) { q.x = q.y = q.z = 0; sym_assume(q.w > 0); } else sym_assume(q.imag().mag2() > 0);
    double m = q.mag();
    if (real) { Q r = std::pow(q, a); same(r, Q(0, 0, 0, std::pow(m, a)), "power of a positive real quaternion"); sym_reach("real"); return;
    }
    if (sym_choose(2, "int")) { Q r = std::pow(q, 2); double k = std::pow(m, 2); same(r * (m * m), q * q * k, "square of a quaternion"); sym_reach("int"); return; }
    Q r = std::pow(q, a); double k = std::pow(m, a), w = std::acos(q.w / m);
    sym_check_eq(r.w, k * std::cos(a * w), "power, real part"); samev(r.imag() * q.imag().mag(), q.imag() * (k * std::sin(a * w)), "power, vector part");
    sym_reach("end");
}
extern "C" void h_float() {
    float x = sym_f32("x"), y = sym_f32("y"), z = sym_f32("z"), w = sym_f32("w"), t = sym_f32("t");
    Quat<float> q(x, y, z, w); sym_assume(q.mag2() > 0); q = q.unit(); sym_assume(!q.imag().is_zero());
    Vec<float,4> a = q.to_axis_angle_rotation(); Vec<float,3> v = q.to_angular_velocity();
    sym_check_eq(std::cos(a[3] / 2), q.w, "single precision angle"); for (int i = 0; i < 3; ++i) { sym_check_eq(a[i] * q.imag().mag(), q[i], "single precision axis"); sym_check_eq(v[i], a[i] * a[3], "single precision angular velocity"); }
    Quat<float> s = q.rotation_scale(t), i = Quat<float>::identity().slerp(q, 0);
    sym_check_eq(s.mag2(), 1, "single precision scaling"); sym_check_eq(i.w, 1, "single precision interpolation");
    sym_reach("end");
}
template <int N> static void ray() {
    Ray<double,N> r; Vec<double,N> p; for (int i = 0; i < N; ++i) { r.origin[i] = sym_f64("o"); r.direction[i] = sym_f64("v"); p[i] = sym_f64("p"); }
    double s = sym_f64("s");
    Vec<double,N> m = r.at_multiple(s), m2 = r * s, m3 = s * r; Ray<double,N> n = -r, z, f(r.origin, r.direction); Ray<double,N+1> up = r.template resized<N+1>();
    for (int i = 0; i < N; ++i) {
        sym_check_eq(m[i], r.origin[i] + s * r.direction[i], "point at a multiple"); sym_check_eq(m2[i], m[i], "ray times scalar"); sym_check_eq(m3[i], m[i], "scalar times ray");
        sym_check_eq(n.origin[i], r.origin[i], "reversed origin"); sym_check_eq(n.direction[i], -r.direction[i], "reversed direction"); sym_check_eq(up.origin[i], r.origin[i], "resized ray"); sym_check_eq(up.direction[i], r.direction[i], "resized ray"); sym_check(z.origin[i] == 0 && z.direction[i] == (i == 0), "default ray"); sym_check(f.origin[i] == r.origin[i] && f.direction[i] == r.direction[i], "ray from parts");
    }
    sym_check(up.direction[N] == 0 && up.origin[N] == 0, "resized ray is padded with zeros");
    double v2 = r.direction.mag2(), d = (p - r.origin).dot(r.direction), b2 = (p - r.origin).mag2();
    if (v2 == 0) { sym_check_eq(r.dist2(p), b2, "distance to a degenerate ray"); sym_reach("degenerate"); return; }
    Vec<double,N> at = r.at_distance(s), pr = r.project(p);
    sym_check_eq((at - r.origin).mag2(), s * s, "point at a distance"); sym_check_eq((at - r.origin).dot(r.direction), s * r.direction.mag(), "point at a distance along the ray");
    sym_check_eq((p - pr).dot(r.direction), 0, "projection is perpendicular"); for (int i = 0; i < N; ++i) sym_check_eq(pr[i], r.origin[i] + r.direction[i] * (d / v2), "projection is on the ray");
    sym_check_eq(r.dist2(p), (p - pr).mag2(), "squared distance to a ray"); sym_check_eq(r.sdf(p) * r.sdf(p), (p - pr).mag2(), "distance to a ray"); sym_check_le(0, r.sdf(p), "distance to a ray is non-negative");
    sym_reach("end");
}
extern "C" void h_ray() {
    switch (sym_choose(3, "dim")) { case 0: ray<2>(); break; case 1: ray<3>(); break; case 2: ray<4>(); break; }
}
