// P26: gradient noise: quintic blend of the lattice ramps, zero and exact slope on the lattice, exact derivative everywhere.
//@ h_pln_lattice mode=real q=60 t=200 split=n:4,cell:4 need=end
//@ h_pln_eval    mode=real q=60 t=200 split=n:4,cell:4 need=end
//@ h_pln_grad    mode=real q=60 t=200 split=n:4,cell:4 need=end
//@ h_pln_table   mode=real q=60 t=200 split=n:4 need=end
//@bounds one to four dimensions; all points (in four dimensions: two coordinates at a time) of four chosen cells (negative, mixed and distant), all lattice slopes
//@assume exact real arithmetic; distinct lattice corners may share a slope as their table entries do
#include "shape.h"
#include <geomc/random/RandomTools.h>
#include <geomc/function/PerlinNoise.h>
// raw draws for the table: directions with rational length, entry order unchanged
static int nd = 0, dims = 1;
namespace geom { Random::Random() {} Random::~Random() {}
template <> double Random::rand<double>(double l, double h) { static const double D[4][4] = {{0.25}, {0.375, 0.5}, {0.25, -0.5, 0.5}, {0.25, -0.25, 0.25, 0.25}}; return D[dims - 1][nd++ % dims]; }
template <> unsigned long Random::rand<unsigned long>(unsigned long) { return 0; }
Random* getRandom() { static struct R : Random { uint32_t rand32() override { return 0; } void rseed(uint64_t) override {} } r; return &r; } }
template <index_t N> using P = typename PointType<T,N>::point_t;
template <index_t N> static T& co(P<N>& p, index_t i) { return PointType<T,N>::iterator(p)[i]; }
static const int64_t CELL[4][4] = {{0, 0, 0, 0}, {-1, 2, -7, 3}, {1003, -5, 128, -260}, {-256, 255, -1024, 511}};
template <index_t N> static P<N> lat(int c, int k) { P<N> p = P<N>(); for (index_t i = 0; i < N; ++i) co<N>(p, i) = (T) (CELL[c][i] + ((k >> i) & 1)); return p; }
template <index_t N> struct Noise { PerlinNoise<T,N> n; static int prep() { dims = N; nd = 0; return 0; } Noise(int = prep()) : n(getRandom()) { }
    // give every corner of a cell its own slope (unless the table shares them)
    P<N> g[1 << N]; void cell(int c) { for (int i = 0; i < 256; ++i) co<N>(n.gradients[i], 0) = i; for (int k = 0; k < 1 << N; ++k) { P<N> q = n.gradient(lat<N>(c, k)).second; int j = (int) co<N>(q, 0); if (j >= 0 && j < 256) id[k] = j; } for (int k = 0; k < 1 << N; ++k) { bool old = false; for (int l = 0; l < k; ++l) if (id[l] == id[k]) { g[k] = g[l]; old = true; } if (!old) for (index_t i = 0; i < N; ++i) co<N>(g[k], i) = sym_f64("g"); n.gradients[id[k]] = g[k]; } } int id[1 << N]; };
static T fade(T t) { return t * t * t * (10 - 15 * t + 6 * t * t); }
static T slope(T t) { return 30 * t * t * (1 - 2 * t + t * t); }
template <index_t N> static void lattice() { int c = sym_choose(4, "cell"); { Noise<N> z; z.cell(c); for (int k = 0; k < 1 << N; ++k) { P<N> p = lat<N>(c, k); sym_check_eq(z.n.eval(p), 0, "zero on the lattice"); auto r = z.n.gradient(p); sym_check_eq(r.first, 0, "zero on the lattice"); for (index_t i = 0; i < N; ++i) sym_check_eq(co<N>(r.second, i), co<N>(z.g[k], i), "slope on the lattice"); } } sym_reach("end"); }
template <index_t N> static void point(bool grad) { Noise<N> z; int c = sym_choose(4, "cell"), ax = N > 3 ? sym_choose(2, "axes") : 0; z.cell(c); P<N> s, p = lat<N>(c, 0); for (index_t i = 0; i < N; ++i) { T x = (i + 1) / T(8); if (N < 4 || ax == (i == 1 || i == 2)) { x = sym_f64("s"); sym_assume((x >= 0) & (x < 1)); } co<N>(s, i) = x; co<N>(p, i) += x; }
    T f = 0, d[N]; for (T& x : d) x = 0; for (int k = 0; k < 1 << N; ++k) { T ramp = 0, w = 1; for (index_t i = 0; i < N; ++i) { int b = (k >> i) & 1; T t = fade(co<N>(s, i)); ramp += (co<N>(s, i) - b) * co<N>(z.g[k], i); w *= b ? t : 1 - t; } f += w * ramp; for (index_t j = 0; j < N; ++j) { T v = 1; for (index_t i = 0; i < N; ++i) { int b = (k >> i) & 1; T t = fade(co<N>(s, i)), u = slope(co<N>(s, i)); v *= i == j ? (b ? u : -u) : (b ? t : 1 - t); } d[j] += v * ramp + w * co<N>(z.g[k], j); } }
    if (!grad) { sym_check_eq(z.n.eval(p), f, "blend of the corner ramps"); PerlinNoise<T,N> y(z.n); sym_check_eq(y.eval(p), f, "copy gives the same noise"); } else { auto r = z.n.gradient(p); sym_check_eq(r.first, f, "value returned with the gradient"); for (index_t i = 0; i < N; ++i) sym_check_eq(co<N>(r.second, i), d[i], "gradient is the derivative"); } sym_reach("end"); }
extern "C" void h_pln_lattice() { switch (sym_choose(4, "n")) { case 0: lattice<1>(); break; case 1: lattice<2>(); break; case 2: lattice<3>(); break; default: lattice<4>(); } }
extern "C" void h_pln_eval() { switch (sym_choose(4, "n")) { case 0: point<1>(false); break; case 1: point<2>(false); break; case 2: point<3>(false); break; default: point<4>(false); } }
extern "C" void h_pln_grad() { switch (sym_choose(4, "n")) { case 0: point<1>(true); break; case 1: point<2>(true); break; case 2: point<3>(true); break; default: point<4>(true); } }
template <index_t N> static void table() { Noise<N> z; for (int i = 0; i < 256; ++i) { T m = 0; for (index_t j = 0; j < N; ++j) m += co<N>(z.n.gradients[i], j) * co<N>(z.n.gradients[i], j); if (N > 1) sym_check_eq(m, 1, "unit slopes"); else sym_check_le(m, 1, "unit slopes"); }
    // the slope of a lattice point depends on nothing but the point, and neighbours usually differ
    z.cell(0); int seen = 0; for (int k = 0; k < 1 << N; ++k) for (int l = 0; l < k; ++l) seen += z.id[k] != z.id[l]; sym_check(seen > 0, "neighbouring lattice points have their own slopes"); PerlinNoise<T,N> d; sym_check_eq(d.eval(lat<N>(0, 0)), 0, "zero on the lattice"); sym_reach("end"); }
extern "C" void h_pln_table() { switch (sym_choose(4, "n")) { case 0: table<1>(); break; case 1: table<2>(); break; case 2: table<3>(); break; default: table<4>(); } }
