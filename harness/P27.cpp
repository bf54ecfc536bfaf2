// P27: orthogonal polynomials and functions on the sphere: closed forms, projection, conversion, rotation, convolution.
//@ h_sph_legendre  mode=real q=60 t=200 split=n:11 need=end
//@ h_sph_assoc     mode=real q=60 t=200 split=l:5 need=end
//@ h_sph_chebyshev mode=real q=60 t=200 split=n:7 need=end
//@ h_sph_zonal     mode=real q=60 t=200 split=n:5 need=end
//@ h_sph_kernels   mode=real q=60 t=200 split=n:6 need=end
//@ h_sph_eval      mode=real q=60 t=200 split=n:4,kind:3 need=end
//@ h_sph_addition  mode=real q=60 t=200 split=n:3,kind:2 need=end
//@ h_sph_algebra   mode=real q=60 t=200 split=a:3,b:3 need=end
//@ h_sph_convert   mode=real q=60 t=200 split=a:4,b:4,kind:3 need=end
//@ h_sph_convolve  mode=real q=60 t=200 split=a:4,b:4 need=end
//@bounds polynomial orders 0-10, all sub-bands up to order 4; functions of one to four bands, all coefficients, all arguments
//@assume exact real arithmetic; arguments in [-1,1], coefficients at most 100 in size where constants such as the root of two are rounded
#include "shape.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/SphericalHarmonics.h>
typedef double T;
using SH = SphericalHarmonics<T,0>; using ZH = ZonalHarmonics<T,0>;
// integer powers of complex numbers stand for the library function
extern "C" double _Complex cpow(double _Complex x, double _Complex y) { double _Complex r = 1; for (int n = (int) __real__ y; n > 0; --n) r *= x; return r; }
static void near(T a, T b, const char* m) { T d = a - b; sym_check_le(d, 1e-7, m); sym_check_le(-d, 1e-7, m); }
static T num(const char* n) { T c = sym_f64(n); sym_assume((c >= -100) & (c <= 100)); return c; }
static T arg(const char* n) { T c = sym_f64(n); sym_assume((c >= -1) & (c <= 1)); return c; }
static T ipow(T x, int n) { T r = 1; for (; n > 0; --n) r *= x; return r; }
static T binom(int n, int k) { T r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
// explicit coefficients of the Legendre polynomial of order n; d-th derivative (d = -1: integral from -1)
static T legref(int n, int d, T x) { T s = 0; for (int k = 0; 2 * k <= n; ++k) { T c = (k & 1 ? -1 : 1) * binom(n, k) * binom(2 * n - 2 * k, n) / ipow(2, n); int e = n - 2 * k; if (d < 0) { s += c * (ipow(x, e + 1) - (e & 1 ? 1 : -1)) / (e + 1); continue; } for (int i = 0; i < d; ++i) c *= e - i; if (e >= d) s += c * ipow(x, e - d); } return s; }
extern "C" void h_sph_legendre() { int n = sym_choose(11, "n"); T x = arg("x");
    sym_check_eq(legendre<T>(n, x), legref(n, 0, x), "Legendre polynomial"); sym_check_eq(legendre<T>(n, 0, x), legref(n, 0, x), "zero sub-band"); sym_check_eq(legendre_integral<T>(n, x), legref(n, -1, x), "integral of the Legendre polynomial"); sym_check_eq(legendre<T>(n, 1.0), 1, "one at the pole"); sym_reach("end"); }
extern "C" void h_sph_assoc() { int l = sym_choose(5, "l"), m = sym_choose(l + 1, "m"); T x = arg("x"), s = std::sqrt(1 - x * x); T w = (m & 1 ? -1 : 1) * ipow(s, m) * legref(l, m, x); sym_check_eq(legendre<T>(l, m, x), w, "associated Legendre polynomial");
    SH h(5); legendre(&h, m, x); for (int i = m; i < 5; ++i) { T v = (m & 1 ? -1 : 1) * ipow(s, m) * legref(i, m, x); sym_check_eq(h.coeff(i, m), v, "batch of Legendre polynomials"); sym_check_eq(h.coeff(i, -m), v, "batch of Legendre polynomials"); } sym_reach("end"); }
extern "C" void h_sph_chebyshev() { int n = sym_choose(7, "n"); T z = sym_f64("z"); sym_assume((z > 0.1) & (z < 10)); T x = (z + 1 / z) / 2;   // x = cosh a, z = exp a
    T w = 1 / z, u = 0; for (int i = 0; i <= n; ++i) u += ipow(z, n - i) * ipow(w, i); sym_check_eq(chebyshev<T>(1, n, x), (ipow(z, n) + ipow(w, n)) / 2, "first kind"); sym_check_eq(chebyshev<T>(2, n, x), u, "second kind"); sym_reach("end"); }
extern "C" void h_sph_zonal() { int n = sym_choose(5, "n") + 1; T x = arg("x"); ZH a(n), b(n); sym_check(a.bands() == n, "bands"); for (int i = 0; i < n; ++i) { sym_check_eq(a.coeff(i), 0, "starts at zero"); a.coeff(i) = num("a"); } const ZH& ac = a; for (int i = 0; i < n; ++i) sym_check(ac.get() == a.get() && &a.coeff(i) == a.get() + i && ac.coeff(i) == a.get()[i], "coefficient access");
    T w = 0; for (int i = 0; i < n; ++i) w += a.coeff(i) * legref(i, 0, x); sym_check_eq(a.eval(x), w, "value is the Legendre series"); T v = num("v"); b.project(x, v); for (int i = 0; i < n; ++i) sym_check_eq(b.coeff(i), v * legref(i, 0, x), "projected sample");
    int m = sym_choose(5, "m") + 1; ZH c(m); for (int i = 0; i < m; ++i) c.coeff(i) = num("c"); T d = 0; for (int i = 0; i < n && i < m; ++i) d += a.coeff(i) * c.coeff(i); sym_check_eq(a.dot(c), d, "inner product"); sym_check_eq(c.dot(a), d, "inner product");
    ZH e(a); T a0 = a.coeff(0); e.normalize(); if (a0 != 0) { near(e.coeff(0) * 4 * PI, 1, "integral one"); for (int i = 0; i < n; ++i) sym_check_eq(e.coeff(i) * a0, a.coeff(i) * e.coeff(0), "normalising only scales"); } else for (int i = 0; i < n; ++i) sym_check_eq(e.coeff(i), a.coeff(i), "zero integral unchanged");
    a.clear(); for (int i = 0; i < n; ++i) sym_check_eq(a.coeff(i), 0, "clear"); sym_reach("end"); }
// moments of the spot and of max(0, x): a_l = (2l+1)/2 * integral of f P_l
extern "C" void h_sph_kernels() { int n = sym_choose(6, "n") + 1; T x = sym_f64("x"); sym_assume((x >= -2) & (x <= 2)); ZH s(n), l(n); s.generate_spot(x); T c = x < -1 ? -1 : (x > 1 ? 1 : x);
    for (int i = 0; i < n; ++i) sym_check_eq(s.coeff(i), (2 * i + 1) * (legref(i, -1, 1) - legref(i, -1, c)) / 2, "spot");
    int o = sym_choose(n + 2, "o") - 1; l.coeff(n - 1) = num("old"); l.generate_lambertian(o); int ct = o < 1 ? n : o; for (int i = 0; i < n; ++i) { T m = 0; for (int k = 0; 2 * k <= i; ++k) m += (k & 1 ? -1 : 1) * binom(i, k) * binom(2 * i - 2 * k, i) / ipow(2, i) / (i - 2 * k + 2); sym_check_eq(l.coeff(i), i < ct ? (2 * i + 1) * m / 2 : 0, "clamped cosine"); } sym_reach("end"); }
static T Y(int l, int m, T x, T c, T s) { // real harmonic from cos(alt) and (cos,sin) of the azimuth by multiplication
    T cm = 1, sm = 0; int a = m < 0 ? -m : m; for (int i = 0; i < a; ++i) { T t = cm * c - sm * s; sm = sm * c + cm * s; cm = t; } T f = 1; for (int i = l - a + 1; i <= l + a; ++i) f *= i; T k = std::sqrt((2 * l + 1) / (4 * PI * f)); if (m) k *= 1.4142135623730951; T p = k * (a & 1 ? -1 : 1) * ipow(std::sqrt(1 - x * x), a) * legref(l, a, x); return m < 0 ? p * sm : (m ? p * cm : p); }
static void fill(SH& h, const char* n) { for (index_t i = 0; i < h.size(); ++i) h.coeffs[i] = num(n); }
extern "C" void h_sph_eval() { int n = sym_choose(4, "n") + 1, kind = sym_choose(3, "kind"); T x = arg("x"), u = sym_f64("u"); sym_assume((u >= -3) & (u <= 3)); T c = (1 - u * u) / (1 + u * u), s = 2 * u / (1 + u * u), azi = std::atan2(s, c), alt = std::acos(x), q = std::sqrt(1 - x * x);
    SH h(n); for (index_t i = 0; i < h.size(); ++i) sym_check_eq(h.coeffs[i], 0, "starts at zero"); int l = sym_choose(n, "l"), m = (int) sym_choose(2 * l + 1, "m") - l; T y = Y(l, m, x, c, s);
    if (kind == 0) { near(spherical_harmonic_coeff<T>(l, m, x, azi), y, "single harmonic"); h.coeff(l, m) = 1; near(h.eval(alt, azi), y, "value from angles"); sym_check_eq(h.coeffs[l * l + l + m], 1, "coefficient order"); const SH& hc = h; sym_check(hc.coeff(l, m) == 1 && h.get() + (l * l + l + m) == &h.coeff(l, m) && hc.get() == h.get() && hc.size() == hc.bands() * hc.bands(), "coefficient access"); }
    else if (kind == 1) { T v = arg("v"), o = arg("o"); h.coeff(l, m) = o; h.project(alt, azi, v); near(h.coeff(l, m), o + v * y, "sample is added"); }
    else { T r = sym_f64("r"); sym_assume((r > 0.1) & (r < 10) & (x > -1) & (x < 1)); V<3> d(r * q * c, r * q * s, r * x); SH b = SH::basis(d, n); near(b.coeff(l, m), y, "basis of a direction"); h.coeff(l, m) = 1; near(h.eval(d), y, "value in a direction"); } sym_reach("end"); }
// rotation invariance: the inner product of two projected directions depends on their angle only
extern "C" void h_sph_addition() { int n = sym_choose(3, "n") + 1, k = sym_choose(2, "kind"); V<3> a, b; { T u = k ? 0.75 : sym_f64("u"), v = k ? sym_f64("v") : -0.5; sym_assume((u > 0.1) & (u < 2) & (v > -2) & (v < 2)); T w = 1 + u * u, z = 1 + v * v, q = 2 * u / w; a = V<3>(q * (1 - v * v) / z, q * 2 * v / z, (1 - u * u) / w); b = V<3>(0.64, -0.48, 0.6); }
    SH p = SH::basis(a, n), q = SH::basis(b, n); T w = 0; for (int l = 0; l < n; ++l) w += (2 * l + 1) / (4 * PI) * legref(l, 0, dot(a, b)); near(p.dot(q), w, "addition theorem"); near(p.eval(b), w, "value of a projected direction"); sym_reach("end"); }
extern "C" void h_sph_algebra() { int n = sym_choose(3, "a") + 1, m = sym_choose(3, "b") + 1; SH a(n), b(m); fill(a, "a"); fill(b, "b"); index_t A = a.size(), B = b.size(), mx = A > B ? A : B; sym_check((A == n * n) & (a.bands() == n), "size"); T k = sym_f64("k"); sym_assume((k > 0.1) & (k < 10));
    T d = 0; for (index_t i = 0; i < A && i < B; ++i) d += a.coeffs[i] * b.coeffs[i]; sym_check_eq(a.dot(b), d, "inner product");
    SH s = a + b; sym_check(s.size() == mx, "sum has the larger size"); for (index_t i = 0; i < mx; ++i) sym_check_eq(s.coeffs[i], (i < A ? a.coeffs[i] : 0) + (i < B ? b.coeffs[i] : 0), "sum");
    SH e(a); e += b; sym_check(e.size() == A, "size kept"); for (index_t i = 0; i < A; ++i) sym_check_eq(e.coeffs[i], a.coeffs[i] + (i < B ? b.coeffs[i] : 0), "sum in place");
    SH f(a); f *= k; for (index_t i = 0; i < A; ++i) sym_check_eq(f.coeffs[i], k * a.coeffs[i], "scaled"); f /= k; for (index_t i = 0; i < A; ++i) sym_check_eq(f.coeffs[i], a.coeffs[i], "divided"); -f; for (index_t i = 0; i < A; ++i) sym_check_eq(f.coeffs[i], -a.coeffs[i], "negated");
    SH g(a); g += k; T x = arg("x"); near(g.eval(std::acos(x), 0.0), a.eval(std::acos(x), 0.0) + k, "constant added to the function"); for (index_t i = 1; i < A; ++i) sym_check_eq(g.coeffs[i], a.coeffs[i], "constant changes one band");
    SH h(a); h.normalize(); if (a.coeffs[0] != 0) { near(h.coeffs[0] * std::sqrt(4 * PI), 1, "integral one"); for (index_t i = 0; i < A; ++i) sym_check_eq(h.coeffs[i] * a.coeffs[0], a.coeffs[i] * h.coeffs[0], "normalising only scales"); } else for (index_t i = 0; i < A; ++i) sym_check_eq(h.coeffs[i], a.coeffs[i], "zero integral unchanged");
    h.clear(); for (index_t i = 0; i < A; ++i) sym_check_eq(h.coeffs[i], 0, "clear"); SH z; sym_check((z.bands() == 1) & (z.size() == 1), "default size"); sym_check_eq(z.coeffs[0], 0, "starts at zero"); sym_reach("end"); }
template <index_t A, index_t B> static void convert_fixed() { ZonalHarmonics<T,A> z; for (int i = 0; i < A; ++i) z.coeff(i) = num("z"); T x = arg("x"); SphericalHarmonics<T,B> h(z); sym_check(h.bands() == B, "bands"); T w = 0; for (int i = 0; i < A && i < B; ++i) w += z.coeff(i) * legref(i, 0, x); near(h.eval(std::acos(x), 1.0), w, "same function"); for (int l = 0; l < B; ++l) for (int m = -l; m <= l; ++m) if (m || l >= A) sym_check_eq(h.coeff(l, m), 0, "zonal only"); SphericalHarmonics<T,B> g(z, V<3>(0, 0, 2)); for (index_t i = 0; i < B * B; ++i) near(g.coeffs[i], h.coeffs[i], "polar axis"); ZonalHarmonics<T,B> b(h); for (int i = 0; i < B; ++i) near(b.coeff(i), i < A ? z.coeff(i) : 0, "back again"); sym_reach("end"); }
extern "C" void h_sph_convert() { int n = sym_choose(4, "a") + 1, m = sym_choose(4, "b") + 1, kind = sym_choose(3, "kind");
    if (kind == 0) { ZH z(n); for (int i = 0; i < n; ++i) z.coeff(i) = num("z"); T x = arg("x"); SH h(z); sym_check(h.bands() == n, "bands"); near(h.eval(std::acos(x), 1.0), z.eval(x), "same function"); ZH b(h); sym_check(b.bands() == n, "bands"); for (int i = 0; i < n; ++i) near(b.coeff(i), z.coeff(i), "back again"); sym_reach("end"); return; }
    if (kind == 1) { if (n > 3 || m > n) { sym_reach("end"); return; } ZH z(n); z.coeff(m - 1) = 1; T u = sym_f64("u"); sym_assume((u > 0.1) & (u < 2)); V<3> a(0.64, -0.48, 0.6), d(2 * u / (1 + u * u), 0, (1 - u * u) / (1 + u * u)); SH h(z, a * (T) m); near(h.eval(d), z.eval(dot(a, d)), "same function about the new axis"); sym_reach("end"); return; }
    switch (n * 4 + m) { case 5: return convert_fixed<1,1>(); case 6: return convert_fixed<1,2>(); case 9: return convert_fixed<2,1>(); case 11: return convert_fixed<2,3>(); case 14: return convert_fixed<3,2>(); case 15: return convert_fixed<3,3>(); default: sym_reach("end"); } }
extern "C" void h_sph_convolve() { int n = sym_choose(4, "a") + 1, m = sym_choose(4, "b") + 1; ZH k(m), o(n), kk(m); for (int i = 0; i < m; ++i) kk.coeff(i) = k.coeff(i) = num("k"); for (int i = 0; i < n; ++i) o.coeff(i) = num("o");
    SH a(n); fill(a, "a"); SH r(a); r.convolve(k); for (int l = 0; l < n; ++l) for (int j = -l; j <= l; ++j) near(r.coeff(l, j), a.coeff(l, j) * (l < m ? k.coeff(l) * 4 * PI / (2 * l + 1) : 0), "convolution");
    ZH z(o); z.convolve(kk); SH s(o); s.convolve(kk); SH t(z); for (index_t i = 0; i < t.size(); ++i) near(t.coeffs[i], s.coeffs[i], "both forms convolve alike"); ZH y(kk); y.convolve(o); for (int i = 0; i < n && i < m; ++i) near(y.coeff(i), z.coeff(i), "commutes");
    ZH dirac(n); for (int i = 0; i < n; ++i) dirac.coeff(i) = (2 * i + 1) / (4 * PI); ZH w(o); w.convolve(dirac); for (int i = 0; i < n; ++i) near(w.coeff(i), o.coeff(i), "point kernel changes nothing"); int e = sym_choose(3, "t"); for (int i = 0; i < n; ++i) sym_assume((o.coeff(i) > 0.01) | (o.coeff(i) < -0.01)); ZH q(o), q2(o); q.diffuse(e); q2.convolve(o); for (int i = 0; i < n; ++i) near(q.coeff(i), e == 0 ? dirac.coeff(i) : (e == 1 ? o.coeff(i) : q2.coeff(i)), "repeated self-convolution"); sym_reach("end"); }
