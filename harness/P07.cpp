//@ h_elementwise  mode=real q=60 t=120 split=dim:4 need=end
//@ h_int          q=60 t=120 need=end
//@ h_metric       mode=real q=60 t=120 split=dim:4 need=end
//@ h_minmax       mode=real q=60 t=120 split=dim:4 need=end
//@ h_arg          mode=real q=60 t=120 split=dim:4 need=end
//@ h_round        mode=real q=60 t=120 need=end
//@ h_reflect      mode=real q=60 t=120 split=dim:4 need=end,degenerate
//@ h_angle        mode=real q=60 t=120 need=end
//@ h_cross        mode=real q=60 t=120 need=end
//@ h_rotate2      mode=real q=60 t=120 need=end
//@ h_rotate3      mode=real q=60 t=120 need=end
//@ h_rotate3_center mode=real q=60 t=120 need=end
//@ h_align        mode=real q=60 t=120 need=end
//@ h_polar        mode=real q=60 t=120 need=end
//@ h_spherical    mode=real q=60 t=120 need=end
//@ h_resize       mode=real q=60 t=120 need=end
//@ h_overloads    mode=real q=60 t=120 need=end
//@ h_color        mode=real q=60 t=120 need=end
//@ h_rainbow      mode=real q=60 t=120 need=end
//@ h_stdfn        mode=real q=60 t=120 need=end
//@ h_finite       mode=fp q=60 t=120 need=end
//@bounds vectors of dimension 2, 3, 4 and 5 with all real components (32-bit integers for the integer type); all angles
//@assume exact real arithmetic; rotation axes and normals non-zero, aligned directions not opposite
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/LinalgTypes.h>
#include "sym.h"
using namespace geom;
template <int N> static Vec<double,N> vec(const char* nm) { Vec<double,N> v; for (int i = 0; i < N; ++i) v[i] = sym_f64(nm); return v; }
template <typename F> static void dims(F f) {
    switch (sym_choose(4, "dim")) {
        case 0: f.template operator()<2>(); break;
        case 1: f.template operator()<3>(); break;
        case 2: f.template operator()<4>(); break;
        case 3: f.template operator()<5>(); break;
    }
    sym_reach("end");
}
#define EACH for (int i = 0; i < N; ++i)
extern "C" void h_elementwise() {
    dims([]<int N>() {
        typedef Vec<double,N> V;
        V a = vec<N>("a"), b = vec<N>("b"); double s = sym_f64("s");
        V c = a + b, d = a - b, e = a * b, f = a * s, g = s * a, n = -a, ad = a.add(b), su = a.sub(b), sc = a.scale(b), ss = a.scale(s), mx = a.mix(b, s);
        EACH {
            sym_check_eq(c[i], a[i] + b[i], "sum"); sym_check_eq(ad[i], a[i] + b[i], "add");
            sym_check_eq(d[i], a[i] - b[i], "difference"); sym_check_eq(su[i], a[i] - b[i], "sub");
            sym_check_eq(e[i], a[i] * b[i], "elementwise product"); sym_check_eq(sc[i], a[i] * b[i], "scale by a vector");
            sym_check_eq(f[i], a[i] * s, "vector times scalar"); sym_check_eq(g[i], a[i] * s, "scalar times vector"); sym_check_eq(ss[i], a[i] * s, "scale by a scalar");
            sym_check_eq(n[i], -a[i], "negation");
            sym_check_eq(mx[i], a[i] + s * (b[i] - a[i]), "mix");
        }
        V x = a; x += b; EACH sym_check_eq(x[i], a[i] + b[i], "in-place sum");
        x = a; x -= b; EACH sym_check_eq(x[i], a[i] - b[i], "in-place difference");
        x = a; x *= s; EACH sym_check_eq(x[i], a[i] * s, "in-place scaling");
        x = a; x *= b; EACH sym_check_eq(x[i], a[i] * b[i], "in-place elementwise product");
        x = a; x += x; EACH sym_check_eq(x[i], 2 * a[i], "in-place doubling");
        sym_assume(s != 0); EACH sym_assume(b[i] != 0);
        V q = a / s, r = a / b, t = s / b;
        EACH { sym_check_eq(q[i], a[i] / s, "vector over scalar"); sym_check_eq(r[i], a[i] / b[i], "elementwise quotient"); sym_check_eq(t[i], s / b[i], "scalar over vector"); }
        x = a; x /= s; EACH sym_check_eq(x[i], a[i] / s, "in-place division");
        V u(s), z, o = V::ones, zz = V::zeros, ux = V::unit_x;
        EACH { sym_check_eq(u[i], s, "broadcast"); sym_check_eq(z[i], 0, "default is zero"); sym_check_eq(o[i], 1, "ones"); sym_check_eq(zz[i], 0, "zeros"); sym_check_eq(ux[i], i == 0, "unit_x"); }
        bool same = true; EACH same = same && a[i] == b[i];
        sym_check((a == b) == same, "equality is componentwise"); sym_check((a != b) == !same, "inequality is componentwise");
        sym_check(z.is_zero() && !o.is_zero() && !ux.is_zero(), "is_zero");
        V last; last[N-1] = s; sym_check(!last.is_zero(), "is_zero looks at every component");
        double arr[N]; EACH arr[i] = a[i];
        V fa(arr); sym_check(fa == a && fa.end() - fa.begin() == N && fa.size() == N, "construction from an array");
        EACH sym_check_eq(fa.begin()[i], a.get(i), "iteration order");
    });
}
extern "C" void h_int() {
    int a[3], b[3]; for (int& x : a) x = sym_range(-1000, 1000, "a"); for (int& x : b) x = sym_range(-1000, 1000, "b");
    Vec<int,3> u(a), v(b);
    sym_check(u.dot(v) == a[0]*b[0] + a[1]*b[1] + a[2]*b[2], "integer dot product");
    Vec<int,3> c = u.cross(v), s = u + v, p = u * v;
    sym_check((c.x == a[1]*b[2] - a[2]*b[1]) & (c.y == a[2]*b[0] - a[0]*b[2]) & (c.z == a[0]*b[1] - a[1]*b[0]), "integer cross product");
    sym_check((s.x == a[0] + b[0]) & (s.y == a[1] + b[1]) & (s.z == a[2] + b[2]) & (p.z == a[2] * b[2]), "integer sum and product");
    Vec<int,3> k(sym_range(-3, 3, "k"), sym_range(-3, 3, "k"), 5); Vec<double,3> d = (Vec<double,3>) k;
    sym_check_eq(d.x, k.x, "conversion to reals"); sym_check_eq(d.y, k.y, "conversion to reals"); sym_check_eq(d.z, k.z, "conversion to reals");
    Vec<long,3> l = (Vec<long,3>) u;
    sym_check((l.x == a[0]) & (l.z == a[2]), "conversion to a wider integer");
    int mn = u.min();
    sym_check((mn <= a[0]) & (mn <= a[1]) & (mn <= a[2]) & ((mn == a[0]) | (mn == a[1]) | (mn == a[2])), "smallest component");
    sym_reach("end");
}
extern "C" void h_metric() {
    dims([]<int N>() {
        typedef Vec<double,N> V;
        V a = vec<N>("a"), b = vec<N>("b"); double L = sym_f64("L");
        double d = 0, m = 0, e = 0;
        EACH { d += a[i] * b[i]; m += a[i] * a[i]; e += (a[i] - b[i]) * (a[i] - b[i]); }
        sym_check_eq(a.dot(b), d, "dot product"); sym_check_eq(a.mag2(), m, "squared length"); sym_check_eq(a.dist2(b), e, "squared distance");
        sym_check_eq(a.mag() * a.mag(), m, "length"); sym_check_le(0, a.mag(), "length is non-negative");
        sym_check_eq(a.dist(b) * a.dist(b), e, "distance"); sym_check_le(0, a.dist(b), "distance is non-negative");
        V w = a.with_length(L);
        if (m == 0) { EACH sym_check_eq(w[i], 0, "with_length of zero is zero"); return; }
        sym_check_eq(w.mag2(), L * L, "with_length sets the length");
        EACH sym_check_eq(w[i] * a.mag(), L * a[i], "with_length keeps the direction");
        V u = a.unit();
        sym_check_eq(u.mag2(), 1, "unit vectors have length one");
        EACH sym_check_eq(u[i] * a.mag(), a[i], "unit keeps the direction");
    });
}
extern "C" void h_minmax() {
    dims([]<int N>() {
        typedef Vec<double,N> V;
        bool which = sym_choose(2, "which");
        if constexpr (N <= 4) if (which) {
            V a = vec<N>("a"), b = vec<N>("b");
            V lo = a.min(b), hi = a.max(b);
            EACH { sym_check_eq(lo[i], a[i] < b[i] ? a[i] : b[i], "componentwise min"); sym_check_eq(hi[i], a[i] < b[i] ? b[i] : a[i], "componentwise max"); }
        }
        if constexpr (N <= 3) if (which) { V a = vec<N>("c"), b = vec<N>("d"); V p = std::min(a, b), q = std::max(a, b), r = a.min(b), s = a.max(b); EACH { sym_check_eq(p[i], r[i], "std::min agrees"); sym_check_eq(q[i], s[i], "std::max agrees"); } }
        if constexpr (N <= 4) if (!which) {
            V a = vec<N>("p"), c = a.clamp(V(-1.0), V(2.0)), k = a.abs();
            EACH { sym_check_eq(c[i], a[i] < -1 ? -1 : a[i] > 2 ? 2 : a[i], "componentwise clamp"); sym_check_eq(k[i], a[i] < 0 ? -a[i] : a[i], "componentwise abs"); }
        }
    });
}
extern "C" void h_arg() {
    dims([]<int N>() {
        Vec<double,N> a = vec<N>("a");
        double mn = a.min(), mx = a.max(); bool hit = false, hit2 = false;
        EACH { sym_check_le(mn, a[i], "min() is a lower bound"); sym_check_le(a[i], mx, "max() is an upper bound"); hit |= mn == a[i]; hit2 |= mx == a[i]; }
        sym_check(hit && hit2, "min() and max() are attained");
        if constexpr (N <= 4) {
            int p = a.argmax(), q = a.argmin();
            sym_check(0 <= p && p < N && 0 <= q && q < N, "extremal index is in range");
            EACH { sym_check_le(a[i] * a[i], a[p] * a[p], "argmax has the largest magnitude"); sym_check_le(a[q] * a[q], a[i] * a[i], "argmin has the smallest magnitude"); }
        }
    });
}
extern "C" void h_round() {
    Vec<double,2> a = vec<2>("a");
    sym_assume(a.x > -3 && a.x < 3 && a.y > -3 && a.y < 3);
    Vec<double,2> f = a.floor(), c = a.ceil(), r = a.round();
    for (int i = 0; i < 2; ++i) { sym_check_eq(f[i], std::floor(a[i]), "componentwise floor"); sym_check_eq(c[i], std::ceil(a[i]), "componentwise ceil"); sym_check_eq(r[i], std::round(a[i]), "componentwise round"); }
    sym_check(std::floor(a) == f && std::ceil(a) == c, "std::floor and std::ceil agree");
    sym_reach("end");
}
extern "C" void h_reflect() {
    dims([]<int N>() {
        typedef Vec<double,N> V;
        V a = vec<N>("a"), n = vec<N>("n");
        double m = n.mag2();
        V p = a.project_on(n);
        if (m == 0) { EACH sym_check_eq(p[i], 0, "projection on a zero axis is zero"); sym_reach("degenerate"); return; }
        double k = a.dot(n) / m;
        V r = a.reflect_about(n), b = a.bounce_on(n);
        sym_check_eq(a.fraction_on(n), k, "fraction along an axis");
        EACH {
            sym_check_eq(p[i], k * n[i], "orthogonal projection on an axis");
            sym_check_eq(r[i], 2 * k * n[i] - a[i], "reflection about an axis");
            sym_check_eq(b[i], a[i] - 2 * k * n[i], "bounce on a surface");
        }
    });
}
extern "C" void h_angle() {
    Vec<double,3> a = vec<3>("a"), b = vec<3>("b");
    sym_assume(a.mag2() > 0 && b.mag2() > 0);
    double t = a.angle_to(b);
    sym_check_eq(std::cos(t) * a.mag() * b.mag(), a.dot(b), "cosine of the angle between vectors");
    sym_check_le(0, t, "angle is non-negative"); sym_check_le(t, M_PI, "angle is at most a half turn");
    sym_reach("end");
}
extern "C" void h_cross() {
    Vec<double,3> a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c");
    Vec<double,3> x = a.cross(b), y = a ^ b;
    sym_check_eq(x.x, a.y * b.z - a.z * b.y, "cross product x"); sym_check_eq(x.y, a.z * b.x - a.x * b.z, "cross product y"); sym_check_eq(x.z, a.x * b.y - a.y * b.x, "cross product z");
    sym_check(x == y, "cross operator");
    Vec<double,3> n = triangle_normal(a, b, c), e = b - a, f = c - a;
    sym_assume(e.cross(f).mag2() > 0);
    sym_check_eq(n.dot(e), 0, "triangle normal is perpendicular"); sym_check_eq(n.dot(f), 0, "triangle normal is perpendicular"); sym_check_eq(n.mag2(), 1, "triangle normal is a unit vector");
    sym_check_le(0, n.dot(e.cross(f)), "triangle normal follows the right hand rule");
    sym_reach("end");
}
extern "C" void h_rotate2() {
    Vec<double,2> a = vec<2>("a"), c = vec<2>("c"); double t = sym_f64("t"), u = sym_f64("u"), C = std::cos(t), S = std::sin(t);
    Vec<double,2> r = a.rotated(t), q = a.rotate(c, t), w = r.rotated(u), z = a.rotated(t + u);
    sym_check_eq(r.x, C * a.x - S * a.y, "2d rotation x"); sym_check_eq(r.y, S * a.x + C * a.y, "2d rotation y");
    sym_check_eq(q.x, c.x + C * (a.x - c.x) - S * (a.y - c.y), "2d rotation about a center x"); sym_check_eq(q.y, c.y + S * (a.x - c.x) + C * (a.y - c.y), "2d rotation about a center y");
    sym_check_eq(w.x, z.x, "2d rotations compose"); sym_check_eq(w.y, z.y, "2d rotations compose");
    sym_check_eq(a.left_perpendicular().x, -a.y, "left perpendicular"); sym_check_eq(a.left_perpendicular().y, a.x, "left perpendicular");
    sym_check_eq(a.right_perpendicular().x, a.y, "right perpendicular"); sym_check_eq(a.right_perpendicular().y, -a.x, "right perpendicular");
    sym_check_eq(a.reflected_x().x, -a.x, "reflection x"); sym_check_eq(a.reflected_x().y, a.y, "reflection x"); sym_check_eq(a.reflected_y().y, -a.y, "reflection y"); sym_check_eq(a.reflected_y().x, a.x, "reflection y");
    sym_reach("end");
}
static void rodrigues(Vec<double,3> r, Vec<double,3> p, Vec<double,3> k, double t, const char* what) {
    double C = std::cos(t), S = std::sin(t), m = k.mag(), m2 = k.mag2(), d = k.dot(p);
    Vec<double,3> x = k.cross(p);
    for (int i = 0; i < 3; ++i) sym_check_eq(r[i], p[i] * C + x[i] / m * S + k[i] * d / m2 * (1 - C), what);
}
extern "C" void h_rotate3() {
    Vec<double,3> a = vec<3>("a"), k = vec<3>("k"); double t = sym_f64("t");
    sym_assume(k.mag2() > 0);
    Vec<double,3> r = a.rotate(k, t), q = a.rotate(k.x, k.y, k.z, t);
    rodrigues(r, a, k, t, "3d rotation about an axis");
    sym_check(q == r, "3d rotation overloads agree");
    sym_check_eq(r.mag2(), a.mag2(), "rotation keeps lengths");
    sym_check_eq(a.reflected_x().x, -a.x, "reflection x"); sym_check_eq(a.reflected_y().y, -a.y, "reflection y"); sym_check_eq(a.reflected_z().z, -a.z, "reflection z"); sym_check_eq(a.reflected_z().x + a.reflected_x().y + a.reflected_y().z, a.x + a.y + a.z, "reflection keeps the others");
    sym_reach("end");
}
extern "C" void h_rotate3_center() {
    Vec<double,3> a = vec<3>("a"), k = vec<3>("k"), c = vec<3>("c"); double t = sym_f64("t");
    sym_assume(k.mag2() > 0);
    Vec<double,3> r = a.rotate(k, c, t);
    rodrigues(r - c, a - c, k, t, "3d rotation about an axis through a center");
    sym_check(a.rotate(k.x, k.y, k.z, c.x, c.y, c.z, t) == r, "3d rotation overloads agree");
    sym_reach("end");
}
extern "C" void h_align() {
    Vec<double,3> f = vec<3>("f"), g = vec<3>("g"), a = vec<3>("a");
    sym_assume(f.mag2() > 0 && g.mag2() > 0);
    f = f.unit(); g = g.unit();
    sym_assume(f.dot(g) > -0.9);
    Vec<double,3> r = f.align(f, g);
    for (int i = 0; i < 3; ++i) sym_check_eq(r[i], g[i], "aligning a direction with another maps one to the other");
    Vec<double,3> x = f.cross(g), s = x.align(f, g);
    for (int i = 0; i < 3; ++i) sym_check_eq(s[i], x[i], "alignment fixes the rotation axis");
    // about concrete directions, every vector keeps its length and handedness
    Vec<double,3> p(0, 1, 0), q(0, 0, 1), w = a.align(p, q);
    sym_check_eq(w.mag2(), a.mag2(), "alignment keeps lengths");
    sym_check_eq(w.dot(q), a.dot(p), "alignment keeps angles");
    sym_reach("end");
}
extern "C" void h_polar() {
    Vec<double,2> a = vec<2>("a");
    sym_assume(a.mag2() > 0);
    Vec<double,2> p = a.to_polar(), b = p.from_polar();
    sym_check_eq(p.x * p.x, a.mag2(), "polar radius");
    sym_check_eq(b.x, a.x, "polar round trip x"); sym_check_eq(b.y, a.y, "polar round trip y");
    sym_check_le(0, p.y, "polar angle is non-negative"); sym_check_le(p.y, 2 * M_PI, "polar angle is at most a full turn");
    double r = sym_f64("r"), t = sym_f64("t");
    Vec<double,2> c = Vec<double,2>(r, t).from_polar();
    sym_check_eq(c.x, r * std::cos(t), "cartesian x of polar coordinates"); sym_check_eq(c.y, r * std::sin(t), "cartesian y of polar coordinates");
    sym_reach("end");
}
extern "C" void h_spherical() {
    double r = sym_f64("r"), e = sym_f64("e"), z = sym_f64("z");
    Vec<double,3> a = Vec<double,3>::from_spherical(r, e, z);
    sym_check_eq(a.x, r * std::sin(e) * std::cos(z), "spherical x"); sym_check_eq(a.y, r * std::sin(e) * std::sin(z), "spherical y"); sym_check_eq(a.z, r * std::cos(e), "spherical z");
    Vec<double,3> b = vec<3>("b");
    sym_assume(b.mag2() > 0 && (b.x != 0 || b.y != 0));
    Vec<double,3> s = b.to_spherical(), c = Vec<double,3>::from_spherical(s.x, s.y, s.z);
    sym_check_eq(s.x * s.x, b.mag2(), "spherical radius");
    sym_check_eq(c.z, b.z, "spherical round trip z");
    sym_check_eq(c.x * b.y, c.y * b.x, "spherical round trip direction");
    sym_check_le(0, c.x * b.x + c.y * b.y, "spherical round trip side");
    sym_check_eq(c.mag2(), b.mag2(), "spherical round trip length");
    sym_reach("end");
}
extern "C" void h_resize() {
    Vec<double,3> a = vec<3>("a");
    Vec<double,5> b = a.resized<5>(); Vec<double,2> c = a.resized<2>(); double d = a.resized<1>();
    for (int i = 0; i < 5; ++i) sym_check_eq(b[i], i < 3 ? a[i] : 0, "extending pads with zeros");
    sym_check_eq(c.x, a.x, "truncating keeps the leading components"); sym_check_eq(c.y, a.y, "truncating keeps the leading components"); sym_check_eq(d, a.x, "truncating to a scalar");
    Vec<double,4> e(a, 7.0), f(c, 8.0, 9.0); Vec<double,3> g(c, 5.0); Vec<double,5> h(e, 6.0);
    sym_check(e[0] == a.x && e[1] == a.y && e[2] == a.z && e[3] == 7, "appending a component");
    sym_check(f[0] == a.x && f[1] == a.y && f[2] == 8 && f[3] == 9 && g[0] == a.x && g[1] == a.y && g[2] == 5, "appending components");
    sym_check(h[0] == a.x && h[3] == 7 && h[4] == 6, "appending a component to a larger vector");
    Vec<float,3> fl = (Vec<float,3>) a; sym_check_eq(fl.y, a.y, "scalar conversion");
    Vec<double,5> l = {a.x, a.y, a.z, 4.0, 5.0}, arr((const double*) l.begin()), fill(a.x); Vec<double,4> l4 = {a.x, a.y, a.z, 4.0}; Vec<double,3> l3 = {a.x, a.y, a.z}; Vec<double,2> l2 = {a.x, a.y};
    for (int i = 0; i < 5; ++i) { double v = i < 3 ? a[i] : i + 1; sym_check_eq(l[i], v, "from a list"); sym_check_eq(arr[i], v, "from an array"); sym_check_eq(fill[i], a.x, "from a scalar"); if (i < 4) sym_check_eq(l4[i], v, "from a list"); if (i < 3) sym_check_eq(l3[i], v, "from a list"); if (i < 2) sym_check_eq(l2[i], v, "from a list"); }
    DiagMatrix<double,5,6> dm; for (int i = 0; i < 5; ++i) dm.diagonal(i) = l[i]; const DiagMatrix<double,5,6>& cm = dm; DiagMatrix<double,3,5> sm; for (int i = 0; i < 3; ++i) sm.diagonal(i) = a[i];
    for (int j = 0; j < 6; ++j) { Vec<double,5> x(dm.col(j)), y(cm.col(j)); for (int i = 0; i < 5; ++i) { sym_check_eq(x[i], i == j ? l[i] : 0, "from a matrix column"); sym_check_eq(y[i], i == j ? l[i] : 0, "from a matrix column"); } if (j < 5) { Vec<double,5> z(sm.col(j)); for (int i = 0; i < 5; ++i) sym_check_eq(z[i], i == j && i < 3 ? l[i] : 0, "from a shorter matrix column"); } }
    sym_reach("end");
}
extern "C" void h_overloads() {
    Vec<double,2> a = vec<2>("a"), p = vec<2>("p"); Vec<double,3> b = vec<3>("b"), q = vec<3>("q"); Vec<double,4> c = vec<4>("c"), r = vec<4>("r");
    sym_check(a.add(p.x, p.y) == a + p && a.sub(p.x, p.y) == a - p && a.scale(p.x, p.y) == a * p, "2d argument overloads");
    sym_check_eq(a.dot(p.x, p.y), a.dot(p), "2d dot overload");
    sym_check(b.add(q.x, q.y, q.z) == b + q && b.sub(q.x, q.y, q.z) == b - q && b.scale(q.x, q.y, q.z) == b * q, "3d argument overloads");
    sym_check_eq(b.dot(q.x, q.y, q.z), b.dot(q), "3d dot overload");
    sym_check(c.add(r.x, r.y, r.z, r.w) == c + r && c.sub(r.x, r.y, r.z, r.w) == c - r && c.scale(r.x, r.y, r.z, r.w) == c * r, "4d argument overloads");
    sym_check_eq(c.dot(r.x, r.y, r.z, r.w), c.dot(r), "4d dot overload");
    typedef Vec<double,2> V2; typedef Vec<double,3> V3; typedef Vec<double,4> V4;
    sym_check(V2::X_AXIS == V2(1,0) && V2::Y_AXIS == V2(0,1) && V3::X_AXIS == V3(1,0,0) && V3::Y_AXIS == V3(0,1,0) && V3::Z_AXIS == V3(0,0,1) && V4::W_AXIS == V4(0,0,0,1) && V4::Z_AXIS == V4(0,0,1,0) && V4::Y_AXIS == V4(0,1,0,0), "axes");
    sym_reach("end");
}
extern "C" void h_color() {
    static const int cs[4] = {0x00123456, 0x7fffff01, (int) 0xff80ff40, 0};
    int c = cs[sym_choose(4, "c")];
    double a = (c >> 24 & 255) / 255.0, r = (c >> 16 & 255) / 255.0, g = (c >> 8 & 255) / 255.0, b = (c & 255) / 255.0;
    Vec<double,3> v = from_rgb<double>(c); Vec<double,4> w = from_argb<double>(c), u = from_rgba<double>(c);
    sym_check_le(std::abs(v.x - r) + std::abs(v.y - g) + std::abs(v.z - b), 1e-12, "rgb unpacking");
    sym_check_le(std::abs(w.w - a) + std::abs(w.x - r) + std::abs(w.y - g) + std::abs(w.z - b), 1e-12, "argb unpacking");
    sym_check_le(std::abs(u.x - a) + std::abs(u.y - r) + std::abs(u.z - g) + std::abs(u.w - b), 1e-12, "rgba unpacking");
    sym_reach("end");
}
// hue: six ramps around the circle, repeated with period one on both sides
extern "C" void h_rainbow() {
    int k = sym_choose(6, "k"), n = (int) sym_choose(5, "n") - 2; double f = sym_f64("f"); sym_assume((f >= 0) & (f < 1));
    Vec<double,3> v = rainbow<double>(n + (k + f) / 6); const double u[6][3] = {{1, f, 0}, {1 - f, 1, 0}, {0, 1, f}, {0, 1 - f, 1}, {f, 0, 1}, {1, 0, 1 - f}};
    for (int i = 0; i < 3; ++i) { double d = v[i] - u[k][i]; sym_check_le(d, 1e-9, "hue"); sym_check_le(-d, 1e-9, "hue"); }
    sym_reach("end");
}
extern "C" void h_stdfn() {
    Vec<double,3> a = vec<3>("a");
    sym_assume(a.x > 0.1 && a.y > 0.1 && a.z > 0.1 && a.x < 9 && a.y < 9 && a.z < 9 && std::cos(a.x) != 0 && std::cos(a.y) != 0 && std::cos(a.z) != 0);
    Vec<double,3> s = std::sqrt(a), n = std::sin(a), c = std::cos(a), t = std::tan(a), e = std::exp(a), l = std::log(a), b = std::abs(-a);
    for (int i = 0; i < 3; ++i) {
        sym_check_eq(s[i], std::sqrt(a[i]), "componentwise sqrt"); sym_check_eq(n[i], std::sin(a[i]), "componentwise sin"); sym_check_eq(c[i], std::cos(a[i]), "componentwise cos");
        sym_check_eq(t[i], std::tan(a[i]), "componentwise tan"); sym_check_eq(e[i], std::exp(a[i]), "componentwise exp"); sym_check_eq(l[i], std::log(a[i]), "componentwise log"); sym_check_eq(b[i], a[i], "componentwise abs");
    }
    sym_reach("end");
}
extern "C" void h_finite() {
    float x = sym_f32("x"), y = sym_f32("y"), z = sym_f32("z");
    bool fx = x - x == 0, fy = y - y == 0, fz = z - z == 0;
    sym_check(Vec<float,2>(x, y).is_finite_real() == (fx && fy), "2d finiteness");
    sym_check(Vec<float,3>(x, y, z).is_finite_real() == (fx && fy && fz), "3d finiteness");
    sym_reach("end");
}
