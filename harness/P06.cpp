//@ h_arith     mode=real q=60 t=120 need=end
//@ h_scalar    mode=real q=60 t=120 need=end
//@ h_products  mode=real q=60 t=120 need=end
//@ h_trig      mode=real q=60 t=120 need=end
//@ h_exp       mode=real q=60 t=120 need=end
//@ h_pow       mode=real q=60 t=120 need=end
//@ h_sqrt_abs  mode=real q=60 t=120 need=end
//@ h_policy_abs mode=real q=60 t=120 need=end
//@ h_policy_minmax mode=real q=60 t=120 need=tie,end
//@ h_round     mode=real q=60 t=120 need=end
//@ h_compare   mode=real q=60 t=120 need=end
//@ h_compose   mode=real q=60 t=120 need=end
//@ h_inf_policy mode=fp q=60 t=120 need=end
//@ h_class     mode=fp q=60 t=120 need=end
//@ h_convert   mode=real q=60 t=120 need=end
//@ h_vectors   mode=real q=60 t=200 need=end
//@ h_rotations mode=real q=60 t=200 need=end
//@ h_shapes    mode=real q=60 t=200 split=shape:6 need=end
//@bounds all real values and tangents in the domain of each function (one evaluation per function, compositions of up to four functions and three-component vectors)
//@assume exact real arithmetic; exp, log, pow and inverse trigonometric functions of the standard library are opaque functions of their argument
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Oriented.h>
#include <geomc/linalg/Vec.h>
#include "sym.h"
using namespace geom;
typedef Dual<double> D;
typedef DiscontinuityPolicy DP;
template <typename X> static void is(const X& r, double x, double dx, const char* what) {
    sym_check_eq(r.x, x, what);
    sym_check_eq(r.dx, dx, what);
}
#define V(n) double n = sym_f64(#n)
extern "C" void h_arith() {
    V(a); V(da); V(b); V(db);
    D x(a, da), y(b, db);
    is(x + y, a + b, da + db, "sum");
    is(x - y, a - b, da - db, "difference");
    is(x * y, a * b, a * db + da * b, "product");
    is(-x, -a, -da, "negation");
    D z = x; z += y; is(z, a + b, da + db, "in-place sum");
    z = x; z -= y; is(z, a - b, da - db, "in-place difference");
    z = x; z *= y; is(z, a * b, a * db + da * b, "in-place product");
    z = x; z *= z; is(z, a * a, 2 * a * da, "in-place square");
    z = x; D w = z++; is(w, a, da, "post-increment value"); is(z, a + 1, da, "post-increment effect");
    is(++z, a + 2, da, "pre-increment"); is(--z, a + 1, da, "pre-decrement");
    w = z--; is(w, a + 1, da, "post-decrement value"); is(z, a, da, "post-decrement effect");
    z = b; is(z, b, 0, "assigning a constant has zero derivative");
    is(D(a), a, 0, "a constant has zero derivative");
    sym_assume(b != 0);
    is(x / y, a / b, (da * b - a * db) / (b * b), "quotient");
    z = x; z /= y; is(z, a / b, (da * b - a * db) / (b * b), "in-place quotient");
    z = y; z /= z; is(z, 1, 0, "in-place quotient with itself");
    sym_reach("end");
}
extern "C" void h_scalar() {
    V(a); V(da); V(s);
    D x(a, da), z;
    is(x + s, a + s, da, "dual plus constant");
    is(s + x, s + a, da, "constant plus dual");
    is(x - s, a - s, da, "dual minus constant");
    is(s - x, s - a, -da, "constant minus dual");
    is(x * s, a * s, da * s, "dual times constant");
    is(s * x, a * s, da * s, "constant times dual");
    z = x; z += s; is(z, a + s, da, "in-place plus constant");
    z = x; z -= s; is(z, a - s, da, "in-place minus constant");
    z = x; z *= s; is(z, a * s, da * s, "in-place times constant");
    sym_assume(s != 0 && a != 0);
    is(x / s, a / s, da / s, "dual over constant");
    is(s / x, s / a, -s * da / (a * a), "constant over dual");
    z = x; z /= s; is(z, a / s, da / s, "in-place over constant");
    sym_reach("end");
}
extern "C" void h_products() {
    double v[4], d[4];
    for (double& x : v) x = sym_f64("v");
    for (double& x : d) x = sym_f64("d");
    D a(v[0], d[0]), b(v[1], d[1]), c(v[2], d[2]), e(v[3], d[3]);
    double pab = v[0]*v[1], dab = d[0]*v[1] + v[0]*d[1], pce = v[2]*v[3], dce = d[2]*v[3] + v[2]*d[3];
    is(sum_of_products(a, b, c, e), pab + pce, dab + dce, "sum of products");
    is(diff_of_products(a, b, c, e), pab - pce, dab - dce, "difference of products");
    is(multiply_add(a, b, c), pab + v[2], dab + d[2], "multiply-add");
    is(std::fma(a, b, c), pab + v[2], dab + d[2], "fma");
    sym_reach("end");
}
extern "C" void h_trig() {
    V(a); V(da); V(b); V(db);
    D x(a, da), y(b, db);
    is(std::sin(x), std::sin(a), da * std::cos(a), "sin");
    is(std::cos(x), std::cos(a), -da * std::sin(a), "cos");
    sym_assume(std::cos(a) != 0);
    is(std::tan(x), std::tan(a), da * (1 + std::tan(a) * std::tan(a)), "tan");
    is(std::atan(x), std::atan(a), da / (1 + a * a), "atan");
    sym_assume(b > -1 && b < 1);
    is(std::asin(y), std::asin(b), db / std::sqrt(1 - b * b), "asin");
    is(std::acos(y), std::acos(b), -db / std::sqrt(1 - b * b), "acos");
    sym_assume(a != 0);
    is(std::atan2(y, x), std::atan2(b, a), (a * db - b * da) / (a * a + b * b), "atan2");
    sym_reach("end");
}
extern "C" void h_exp() {
    V(a); V(da);
    sym_assume(a > -20 && a < 20);
    D x(a, da);
    is(std::exp(x), std::exp(a), da * std::exp(a), "exp");
    sym_assume(a > 0);
    is(std::log(x), std::log(a), da / a, "log");
    sym_reach("end");
}
extern "C" void h_pow() {
    V(a); V(da); V(b); V(db);
    sym_assume(a > 0.01 && a < 20 && b > -5 && b < 5 && b != 0);
    D x(a, da), y(b, db);
    double p = std::pow(a, b);
    is(std::pow(x, y), p, p * (db * std::log(a) + b * da / a), "pow of two duals");
    is(std::pow(x, b), p, p * b * da / a, "pow with constant exponent");
    is(std::pow(a, y), p, p * db * std::log(a), "pow with constant base");
    sym_reach("end");
}
extern "C" void h_sqrt_abs() {
    V(a); V(da); V(b);
    sym_assume(a > 0);
    D x(a, da);
    is(std::sqrt(x), std::sqrt(a), da / (2 * std::sqrt(a)), "sqrt");
    sym_assume(b != 0);
    is(std::abs(D(b, da)), b < 0 ? -b : b, b < 0 ? -da : da, "abs away from zero");
    sym_reach("end");
}
extern "C" void h_policy_abs() {
    V(a);
    is(std::abs(Dual<double,DP::Right>(0, a)), 0, a, "abs at zero, right policy");
    is(std::abs(Dual<double,DP::Left>(0, a)), 0, -a, "abs at zero, left policy");
    is(std::abs(Dual<double,DP::Average>(0, a)), 0, 0, "abs at zero, average policy");
    sym_check(std::isnan(std::abs(Dual<double,DP::NaN>(0, a)).dx), "abs at zero, NaN policy");
    sym_reach("end");
}
template <DP P> static void mm() {
    V(a); V(da); V(b); V(db);
    Dual<double,P> x(a, da), y(b, db), lo = std::min(x, y), hi = std::max(x, y);
    double dmin = da < db ? da : db, dmax = da < db ? db : da;
    if (a < b) { is(lo, a, da, "min takes the smaller"); is(hi, b, db, "max takes the larger"); }
    else if (a > b) { is(lo, b, db, "min takes the smaller"); is(hi, a, da, "max takes the larger"); }
    else {
        sym_reach("tie");
        sym_check_eq(lo.x, a, "min at a tie"); sym_check_eq(hi.x, a, "max at a tie");
        if (P == DP::Right) { sym_check_eq(lo.dx, dmin, "min tie, right derivative"); sym_check_eq(hi.dx, dmax, "max tie, right derivative"); }
        if (P == DP::Left)  { sym_check_eq(lo.dx, dmax, "min tie, left derivative");  sym_check_eq(hi.dx, dmin, "max tie, left derivative"); }
        if (P == DP::Average) { sym_check_eq(lo.dx, (da + db) / 2, "min tie, average derivative"); sym_check_eq(hi.dx, (da + db) / 2, "max tie, average derivative"); }
        if (P == DP::NaN) { sym_check(std::isnan(lo.dx) && std::isnan(hi.dx), "min/max tie, NaN policy"); }
    }
    sym_reach("end");
}
extern "C" void h_policy_minmax() {
    switch (sym_choose(4, "policy")) {
        case 0: mm<DP::Right>(); break;
        case 1: mm<DP::Left>(); break;
        case 2: mm<DP::Average>(); break;
        case 3: mm<DP::NaN>(); break;
    }
}
extern "C" void h_round() {
    V(a); V(da);
    sym_assume(a > -4 && a < 4);
    D x(a, da);
    is(std::floor(x), std::floor(a), 0, "floor is locally constant");
    is(std::ceil(x), std::ceil(a), 0, "ceil is locally constant");
    double k = std::floor(a);
    Dual<double,DP::NaN> y(k, da), z(k + 0.5, da);
    sym_check(std::isnan(std::floor(y).dx) && std::isnan(std::ceil(y).dx), "rounding at an integer, NaN policy");
    is(std::floor(z), k, 0, "floor between integers, NaN policy");
    is(std::ceil(z), k + 1, 0, "ceil between integers, NaN policy");
    sym_reach("end");
}
extern "C" void h_compare() {
    V(a); V(da); V(b); V(db);
    D x(a, da), y(b, db);
    const D p = x, q = y;
    sym_check((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b) && (p == q) == (a == b) && (p != q) == (a != b), "comparison of constants");
    sym_check((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "comparison looks at the value only");
    sym_reach("end");
}
extern "C" void h_compose() {
    V(a); V(da); V(b); V(db); V(c); V(dc);
    D x(a, da), y(b, db), z(c, dc);
    Vec<D,3> u(x, y, z);
    D q = u.dot(u);
    is(q, a*a + b*b + c*c, 2 * (a*da + b*db + c*dc), "dot product of dual vectors");
    D s = std::sin(x * y) * std::cos(z) + x / (y * y + 1.0);
    double e = da * b + a * db, g = b * b + 1;
    is(s, std::sin(a * b) * std::cos(c) + a / g, std::cos(a * b) * e * std::cos(c) - std::sin(a * b) * std::sin(c) * dc + (da * g - a * 2 * b * db) / (g * g), "chain rule");
    D i = mix<D,D>(z, x, y);
    is(i, a + c * (b - a), da + dc * (b - a) + c * (db - da), "interpolation of duals");
    D r = u.mag2() - u.dot(u);
    is(r, 0, 0, "squared length");
    sym_reach("end");
}
extern "C" void h_inf_policy() {
    double a = sym_f64("a"), b = sym_f64("b");
    sym_assume(a == a && b == b);
    const double inf = __builtin_inf();
    Dual<double,DP::Inf> x(1, a), y(1, b), z(0, a);
    double lo = std::min(x, y).dx, hi = std::max(x, y).dx, ab = std::abs(z).dx;
    if (a == b) { sym_check(lo == a && hi == a, "equal tangents at a tie, infinite policy"); }
    else        { sym_check(lo == -inf && hi == inf, "differing tangents at a tie, infinite policy"); }
    sym_check(ab == (a > 0 ? inf : a < 0 ? -inf : 0), "abs at zero, infinite policy");
    double fl = std::floor(x).dx;
    sym_check(a == 0 || fl == (a > 0 ? inf : -inf), "floor at an integer, infinite policy");
    double ce = std::ceil(x).dx;
    sym_check(a == 0 || ce == (a > 0 ? inf : -inf), "ceil at an integer, infinite policy");
    Dual<double,DP::Inf> h(1.5, a);
    sym_check(std::floor(h).dx == 0 && std::ceil(h).dx == 0 && std::floor(h).x == 1 && std::ceil(h).x == 2, "rounding between integers, infinite policy");
    sym_reach("end");
}
extern "C" void h_class() {
    double x = sym_f64("x"), y = sym_f64("y"); D d(x, y);
    bool nx = x != x, ny = y != y, ix = !nx && x - x != 0, iy = !ny && y - y != 0;
    sym_check(std::isnan(d) == (nx || ny), "not a number"); sym_check(std::isinf(d) == (ix || iy), "infinite"); sym_check(std::isfinite(d) == !(nx || ny || ix || iy), "finite");
    sym_reach("end");
}
extern "C" void h_convert() {
    V(a); V(da);
    Dual<double,DP::Left> l(a, da);
    D r(l);
    is(r, a, da, "changing the discontinuity policy keeps value and derivative");
    Dual<float> f = D(a, da);
    is(f, a, da, "changing the scalar type keeps value and derivative");
    sym_check_eq(static_cast<double>(D(a, da)), a, "the scalar value of a dual");
    sym_reach("end");
}
// geometry over duals: the derivative of each result is the derivative of its closed form
typedef Vec<D,3> DV; typedef Vec<double,3> RV;
static DV dvec(const char* n, RV* v, RV* d) { DV r; for (int i = 0; i < 3; ++i) { (*v)[i] = sym_f64(n); (*d)[i] = sym_f64(n); r[i] = D((*v)[i], (*d)[i]); } return r; }
static double rdot(const RV& a, const RV& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void isv(const DV& r, const RV& v, const RV& d, const char* m) { for (int i = 0; i < 3; ++i) is(r[i], v[i], d[i], m); }
extern "C" void h_vectors() {
    RV a, da, b, db; DV u = dvec("u", &a, &da), w = dvec("w", &b, &db); V(s); V(ds); D k(s, ds);
    RV p, dp; for (int i = 0; i < 3; ++i) { p[i] = a[i] * s; dp[i] = da[i] * s + a[i] * ds; }
    isv(u * k, p, dp, "vector times a dual"); isv(k * u, p, dp, "dual times a vector");
    DV t = u; t *= k; isv(t, p, dp, "in-place scaling");
    is(u.dot(w), rdot(a, b), rdot(da, b) + rdot(a, db), "dot product");
    RV c(a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]), dc(da[1]*b[2] + a[1]*db[2] - da[2]*b[1] - a[2]*db[1], da[2]*b[0] + a[2]*db[0] - da[0]*b[2] - a[0]*db[2], da[0]*b[1] + a[0]*db[1] - da[1]*b[0] - a[1]*db[0]);
    isv(u.cross(w), c, dc, "cross product");
    isv(u.mix(w, k), RV(a + (b - a) * s), RV(da + (db - da) * s + (b - a) * ds), "interpolation");
    is(u.dist2(w), rdot(a - b, a - b), 2 * rdot(a - b, da - db), "squared distance");
    Ray<D,3> r(u, w); isv(r.at_multiple(k), RV(a + b * s), RV(da + db * s + b * ds), "point along a ray");
    sym_check((u == w) == ((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])), "vectors of duals compare by value");
    double m = rdot(b, b); sym_assume(m != 0); sym_assume(s != 0); double f = rdot(a, b), df = rdot(da, b) + rdot(a, db), dm = 2 * rdot(b, db);
    is(u.fraction_on(w), f / m, (df * m - f * dm) / (m * m), "fraction along an axis");
    isv(u / k, RV(a / s), RV((da * s - a * ds) / (s * s)), "vector over a dual");
    isv(u.project_on(w), RV(b * (f / m)), RV(db * (f / m) + b * ((df * m - f * dm) / (m * m))), "projection to an axis");
    D l = w.mag(); sym_check_eq(l.x * l.x, m, "length"); sym_check_eq(2 * l.x * l.dx, dm, "length");
    sym_reach("end");
}
extern "C" void h_rotations() {
    RV a, da; DV u = dvec("u", &a, &da); double q[4], dq[4]; Quat<D> k; for (int i = 0; i < 4; ++i) { q[i] = sym_f64("q"); dq[i] = sym_f64("q"); k[i] = D(q[i], dq[i]); }
    double n = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]; D m = k.mag2(); is(m, n, 2 * (q[0]*dq[0] + q[1]*dq[1] + q[2]*dq[2] + q[3]*dq[3]), "squared length of a quaternion");
    // product with a vector quaternion, written out
    Quat<D> p = k * Quat<D>(u, D(0)); double e[4] = { q[3]*a[0] + q[1]*a[2] - q[2]*a[1], q[3]*a[1] + q[2]*a[0] - q[0]*a[2], q[3]*a[2] + q[0]*a[1] - q[1]*a[0], -(q[0]*a[0] + q[1]*a[1] + q[2]*a[2]) };
    double d[4] = { dq[3]*a[0] + dq[1]*a[2] - dq[2]*a[1] + q[3]*da[0] + q[1]*da[2] - q[2]*da[1], dq[3]*a[1] + dq[2]*a[0] - dq[0]*a[2] + q[3]*da[1] + q[2]*da[0] - q[0]*da[2], dq[3]*a[2] + dq[0]*a[1] - dq[1]*a[0] + q[3]*da[2] + q[0]*da[1] - q[1]*da[0], -(dq[0]*a[0] + dq[1]*a[1] + dq[2]*a[2] + q[0]*da[0] + q[1]*da[1] + q[2]*da[2]) };
    for (int i = 0; i < 4; ++i) is(p[i], e[i], d[i], "quaternion product");
    // turning about an axis: the derivative with respect to the angle is a quarter turn further
    V(t); V(dt); AffineTransform<D,3> r = rotation(Vec<D,3>(D(0), D(0), D(1)), D(t, dt)); DV v = r.apply(u); double co = std::cos(t), si = std::sin(t);
    isv(v, RV(co * a[0] - si * a[1], si * a[0] + co * a[1], a[2]), RV(co * da[0] - si * da[1] - dt * (si * a[0] + co * a[1]), si * da[0] + co * da[1] + dt * (co * a[0] - si * a[1]), da[2]), "derivative of a rotation");
    AffineTransform<D,3> tr = translation(u); DV o = tr.apply(DV(D(1))); isv(o, RV(a + RV(1.0)), da, "derivative of a translation");
    sym_reach("end");
}
// the derivative of a signed distance along a path is the component of the velocity along the normal
template <typename R> static RV nrm(const R& r, const RV& a) { return r.normal(a); }
static RV nrm(const Plane<double,3>& r, const RV& a) { return r.normal; }
template <typename S, typename R> static void slope(const S& s, const R& r, const DV& u, const RV& a, const RV& da) { D f = s.sdf(u); RV n = nrm(r, a); sym_check_eq(f.x, r.sdf(a), "signed distance of duals"); sym_check_eq(f.dx, rdot(n, da), "the gradient of the distance is the normal"); sym_reach("end"); }
static DV cst(const RV& v) { DV r; for (int i = 0; i < 3; ++i) r[i] = D(v[i]); return r; }
extern "C" void h_shapes() {
    RV a, da; DV u = dvec("u", &a, &da); RV c; for (int i = 0; i < 3; ++i) c[i] = sym_f64("c"); V(r); sym_assume(r >= 0);
    switch (sym_choose(6, "shape")) {
        case 0: { sym_assume(rdot(a - c, a - c) > 0); slope(Sphere<D,3>(cst(c), D(r)), Sphere<double,3>(c, r), u, a, da); break; }
        case 1: { RV n(2, -1, 2); slope(Plane<D,3>(cst(n), cst(c)), Plane<double,3>(n, c), u, a, da); break; }
        case 2: { RV x(3, 0, 4); RV e = a - c; double f = rdot(e, x), m = 25, w = rdot(e, e) * m - f * f; sym_assume(f > 0); sym_assume(f < m); sym_assume(w > 0); slope(Capsule<D,3>(cst(c), cst(c + x), D(r)), Capsule<double,3>(c, c + x, r), u, a, da); break; }
        case 3: { RV x(3, 0, 4); RV e = a - c; sym_assume(rdot(e, x) < 0); slope(Capsule<D,3>(cst(c), cst(c + x), D(r)), Capsule<double,3>(c, c + x, r), u, a, da); break; }
        case 4: { RV h(1, 2, 3); RV l = c - h, g = c + h; sym_assume(a[0] > g[0]); sym_assume(a[1] > g[1]); slope(Rect<D,3>(cst(l), cst(g)), Rect<double,3>(l, g), u, a, da); break; }
        default: { RV h(1, 2, 3); RV l = c - h, g = c + h; sym_assume(a[0] < g[0]); sym_assume(g[0] - a[0] < 0.5); sym_assume(a[1] == c[1]); sym_assume(a[2] == c[2]); slope(Rect<D,3>(cst(l), cst(g)), Rect<double,3>(l, g), u, a, da); break; }
    }
}
