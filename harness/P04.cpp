//@ h_posmod_int    q=60 t=200 need=end
//@ h_posmod_real   mode=real q=60 t=200 need=end
//@ h_div_def       q=100 t=400 split=k:2 need=end
//@ h_div_i32       q=60 t=200 need=end
//@ h_div_u32       q=60 t=200 need=end
//@ h_div_real      mode=real q=60 t=200 need=end
//@ h_pow2          q=60 t=200 need=end
//@ h_clamp         mode=fp q=60 t=200 need=end
//@ h_clamp_int     q=60 t=200 need=end
//@ h_mix           mode=real q=60 t=200 need=end
//@ h_products      mode=real q=60 t=200 need=end
//@ h_products_cplx mode=real q=60 t=200 need=end
//@ h_products_int  q=60 t=200 need=end
//@ h_linear        mode=real q=60 t=200 need=end
//@ h_cubic         mode=real q=60 t=200 need=end
//@ h_quadratic     mode=real q=100 t=400 need=two,one,none,linear
//@ h_angle         mode=real q=100 t=400 need=end
//@bounds all 16-bit signed dividends and divisors for positive_mod; the defining inequalities of floor/ceil division for all operands up to 200 in magnitude; 32-bit signed and unsigned operands against the truncation identity; all reals for the interpolation, product and root identities; all 32-bit float bit patterns except NaN for clamp
//@assume divisors are non-zero, products/sums used by the integer forms are representable; real-valued claims are over exact arithmetic (floating rounding is not modelled)
#include <geomc/function/Utils.h>
#include <complex>
#include "sym.h"
using namespace geom;
extern "C" void h_posmod_int() {
    int16_t a = sym_u16("a"), b = sym_u16("b");
    sym_assume(b != 0);
    int r = positive_mod<int>(a, b);
    if (b > 0) sym_check(0 <= r && r < b, "positive_mod lies in [0,b)");
    else       sym_check(b < r && r <= 0, "positive_mod of a negative divisor lies in (b,0]");
    int t = a % b; if (t != 0 && (t < 0) != (b < 0)) t += b;
    sym_check(r == t, "positive_mod is congruent to a modulo b");
    uint32_t ua = sym_u32("ua"), ub = sym_range(1, 1u << 30, "ub");
    sym_check(positive_mod(ua, ub) == ua % ub, "positive_mod of unsigned values");
    sym_reach("end");
}
extern "C" void h_posmod_real() {
    double a = sym_f64("a"), b = sym_f64("b");
    sym_assume(b > 0.01 && b < 1000 && a > -6 * b && a < 6 * b);
    double r = positive_mod(a, b);
    sym_check_le(0, r, "real positive_mod is non-negative");
    sym_check_le(r, b, "real positive_mod is below the modulus");
    double q = (a - r) / b;
    sym_check_eq(q, std::floor(q + 0.5), "real positive_mod is congruent to a modulo b");
    sym_reach("end");
}
extern "C" void h_div_def() {
    int a = sym_range(-200, 200, "a"), b = sym_range(-200, 200, "b");
    sym_assume(b != 0);
    if (sym_choose(2, "k") == 0) {
        int f = floor_div(a, b);
        if (b > 0) sym_check(f * b <= a && a < (f + 1) * b, "floor_div is the floor of the quotient");
        else       sym_check(f * b >= a && a > (f + 1) * b, "floor_div is the floor of the quotient");
    } else {
        int c = ceil_div(a, b);
        if (b > 0) sym_check(c * b >= a && a > (c - 1) * b, "ceil_div is the ceiling of the quotient");
        else       sym_check(c * b <= a && a < (c - 1) * b, "ceil_div is the ceiling of the quotient");
        sym_check(snap(a, b) == b * c, "snap is the multiple of b given by the ceiling");
    }
    sym_reach("end");
}
extern "C" void h_div_i32() {
    int32_t a = sym_range(-(1<<29), 1<<29, "a"), b = sym_range(-(1<<29), 1<<29, "b");
    sym_assume(b != 0);
    int32_t q = a / b, r = a % b;
    int32_t f = q - (r != 0 && (r < 0) != (b < 0)), c = q + (r != 0 && (r < 0) == (b < 0));
    sym_check(floor_div(a, b) == f, "floor_div rounds towards minus infinity");
    sym_check(ceil_div(a, b) == c, "ceil_div rounds towards plus infinity");
    sym_reach("end");
}
extern "C" void h_div_u32() {
    uint32_t a = sym_range(0, 1<<29, "a"), b = sym_range(1, 1<<29, "b");
    uint32_t q = a / b, r = a % b;
    sym_check(floor_div(a, b) == q, "floor_div of unsigned values");
    sym_check(ceil_div(a, b) == q + (r != 0), "ceil_div of unsigned values");
    sym_reach("end");
}
extern "C" void h_div_real() {
    double a = sym_range(-40, 40, "a") * 0.25, b = 0.5 * (1 + sym_choose(4, "b"));
    if (sym_choose(2, "neg")) b = -b;
    double f = floor_div(a, b), c = ceil_div(a, b), s = snap(a, b);
    sym_check(f == std::floor(f) && c == std::floor(c), "real floor_div and ceil_div are integers");
    sym_check(f <= a / b && a / b < f + 1, "real floor_div");
    sym_check(c >= a / b && a / b > c - 1, "real ceil_div");
    sym_check_eq(s, c * b, "real snap is a multiple of b");
    sym_reach("end");
}
extern "C" void h_pow2() {
    uint64_t x = sym_u64("x");
    bool ref = false;
    for (int i = 0; i < 64; ++i) ref |= (x == (1ull << i));
    sym_check(is_power_of_two(x) == ref, "is_power_of_two (64 bit)");
    int32_t y = sym_i32("y");
    bool r2 = false;
    for (int i = 0; i < 31; ++i) r2 |= (y == (1 << i));
    sym_check(is_power_of_two(y) == r2, "is_power_of_two (signed)");
    sym_reach("end");
}
extern "C" void h_clamp() {
    float v = sym_f32("v"), lo = sym_f32("lo"), hi = sym_f32("hi");
    sym_assume(lo <= hi && v == v);
    float c = clamp(v, lo, hi);
    sym_check(lo <= c && c <= hi, "clamp lies in the interval");
    sym_check(v < lo || v > hi || c == v, "clamp keeps values inside the interval");
    sym_check(v >= lo || c == lo, "clamp raises to the lower bound");
    sym_check(v <= hi || c == hi, "clamp lowers to the upper bound");
    sym_reach("end");
}
extern "C" void h_clamp_int() {
    int32_t v = sym_i32("v"), lo = sym_i32("lo"), hi = sym_i32("hi");
    sym_assume(lo <= hi);
    int32_t c = clamp(v, lo, hi);
    sym_check(c == (v < lo ? lo : v > hi ? hi : v), "integer clamp");
    sym_reach("end");
}
extern "C" void h_mix() {
    double t = sym_f64("t"), a = sym_f64("a"), b = sym_f64("b");
    sym_check_eq(mix(t, a, b), a + t * (b - a), "mix is the linear interpolation");
    float tf = sym_f32("tf"), af = sym_f32("af"), bf = sym_f32("bf");
    sym_check_eq(mix(tf, af, bf), af + tf * (bf - af), "mix is the linear interpolation (float)");
    sym_check_eq(radians<double>(a), a * M_PI / 180, "radians");
    sym_check_eq(degrees<double>(radians<double>(a)), a, "degrees inverts radians");
    sym_reach("end");
}
extern "C" void h_products() {
    double a = sym_f64("a"), b = sym_f64("b"), c = sym_f64("c"), d = sym_f64("d");
    sym_check_eq(diff_of_products(a, b, c, d), a * b - c * d, "diff_of_products");
    sym_check_eq(sum_of_products(a, b, c, d), a * b + c * d, "sum_of_products");
    sym_check_eq(multiply_add(a, b, c), a * b + c, "multiply_add");
    float e = sym_f32("e"), f = sym_f32("f"), g = sym_f32("g"), h = sym_f32("h");
    sym_check_eq(diff_of_products(e, f, g, h), e * f - g * h, "diff_of_products (float)");
    sym_check_eq(sum_of_products(e, f, g, h), e * f + g * h, "sum_of_products (float)");
    sym_check_eq(multiply_add(e, f, g), e * f + g, "multiply_add (float)");
    sym_reach("end");
}
extern "C" void h_products_cplx() {
    typedef std::complex<double> C;
    double v[8];
    for (int i = 0; i < 8; ++i) v[i] = sym_f64("v");
    C a(v[0], v[1]), b(v[2], v[3]), c(v[4], v[5]), d(v[6], v[7]);
    double abr = v[0]*v[2] - v[1]*v[3], abi = v[0]*v[3] + v[1]*v[2], cdr = v[4]*v[6] - v[5]*v[7], cdi = v[4]*v[7] + v[5]*v[6];
    C r = diff_of_products(a, b, c, d);
    sym_check_eq(r.real(), abr - cdr, "complex diff_of_products (real part)");
    sym_check_eq(r.imag(), abi - cdi, "complex diff_of_products (imaginary part)");
    r = sum_of_products(a, b, c, d);
    sym_check_eq(r.real(), abr + cdr, "complex sum_of_products (real part)");
    sym_check_eq(r.imag(), abi + cdi, "complex sum_of_products (imaginary part)");
    r = multiply_add(a, b, c);
    sym_check_eq(r.real(), abr + v[4], "complex multiply_add (real part)");
    sym_check_eq(r.imag(), abi + v[5], "complex multiply_add (imaginary part)");
    sym_reach("end");
}
extern "C" void h_products_int() {
    int64_t a = sym_range(-(1ll<<30), 1ll<<30, "a"), b = sym_range(-(1ll<<30), 1ll<<30, "b"), c = sym_range(-(1ll<<30), 1ll<<30, "c"), d = sym_range(-(1ll<<30), 1ll<<30, "d");
    sym_check(diff_of_products(a, b, c, d) == a * b - c * d, "integer diff_of_products");
    sym_check(sum_of_products(a, b, c, d) == a * b + c * d, "integer sum_of_products");
    sym_check(multiply_add(a, b, c) == a * b + c, "integer multiply_add");
    sym_reach("end");
}
extern "C" void h_linear() {
    double s[3], p[8];
    for (double& x : s) x = sym_f64("s");
    for (double& x : p) x = sym_f64("p");
    for (int dim = 1; dim <= 3; ++dim) {
        double e = 0;
        for (int i = 0; i < (1 << dim); ++i) {
            double w = 1;
            for (int k = 0; k < dim; ++k) w *= (i >> k & 1) ? s[k] : 1 - s[k];
            e += w * p[i];
        }
        sym_check_eq(interp_linear(s, p, dim), e, "interp_linear is the multilinear interpolant of the corner values");
    }
    sym_reach("end");
}
static double catmull(double s, const double p[4]) {
    double m1 = (p[2] - p[0]) / 2, m2 = (p[3] - p[1]) / 2;
    return (2*s*s*s - 3*s*s + 1) * p[1] + (s*s*s - 2*s*s + s) * m1 + (-2*s*s*s + 3*s*s) * p[2] + (s*s*s - s*s) * m2;
}
extern "C" void h_cubic() {
    double s[2], p[16], q[4];
    for (double& x : s) x = sym_f64("s");
    for (double& x : p) x = sym_f64("p");
    sym_check_eq(interp_cubic(s[0], p), catmull(s[0], p), "interp_cubic is the Catmull-Rom segment");
    for (int i = 0; i < 4; ++i) q[i] = catmull(s[0], p + 4 * i);
    sym_check_eq(interp_cubic(s, p, 2), catmull(s[1], q), "two-dimensional interp_cubic is separable");
    sym_check_eq(interp_cubic(s, p, 1), catmull(s[0], p), "one-dimensional interp_cubic");
    sym_reach("end");
}
extern "C" void h_quadratic() {
    double a = sym_f64("a"), b = sym_f64("b"), c = sym_f64("c"), r[2];
    bool ok = quadratic_solve(r, a, b, c);
    double disc = b * b - 4 * a * c;
    if (a == 0 && b == 0) { sym_check(!ok, "a constant has no reported roots"); sym_reach("none"); return; }
    sym_check(ok == (disc >= 0), "roots are reported iff the discriminant is non-negative");
    if (!ok) { sym_reach("none"); return; }
    for (int i = 0; i < 2; ++i) sym_check_eq(a * r[i] * r[i] + b * r[i] + c, 0, "reported roots satisfy the equation");
    if (a == 0) { sym_check_eq(r[0], r[1], "a linear equation has one root"); sym_reach("linear"); return; }
    if (disc == 0) { sym_check_eq(r[0], r[1], "a double root is reported twice"); sym_reach("one"); return; }
    sym_check_eq((r[0] - r[1]) * (r[0] - r[1]) * a * a, disc, "two distinct roots are both reported");
    sym_reach("two");
}
extern "C" void h_angle() {
    double a = sym_f64("a"), b = sym_f64("b"), T = 2 * M_PI;
    sym_assume(a > -20 && a < 20 && b > -20 && b < 20);
    double d = angle_to(a, b);
    sym_check_le(-T / 2, d, "angle_to is at least minus half a turn");
    sym_check_le(d, T / 2, "angle_to is at most half a turn");
    double k = (a + d - b) / T;
    sym_check_eq(k, std::floor(k + 0.5), "rotating by angle_to reaches the target angle");
    sym_reach("end");
}
