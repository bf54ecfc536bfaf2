// P28: spline paths: interpolation of knots with their velocities, smooth joins, straight ends, for every parameter.
//@ h_path_ends  mode=real q=60 t=200 split=n:4 need=empty,end
//@ h_path_inner mode=real q=60 t=200 split=n:3,dim:2 need=end
//@ h_path_many  mode=real q=60 t=200 split=cell:8 need=end
//@ h_path_join  mode=real q=60 t=200 split=dim:2 need=end
//@ h_path_grow  mode=real q=60 t=200 need=end
//@bounds up to four knots in two and three dimensions (nine in the plane) with all positions and velocities; every parameter (up to 1e30 in size beyond the ends)
//@assume exact real arithmetic
#include "shape.h"
#include <geomc/function/Path.h>
template <index_t N> static void fill(Path<T,N>& p, int n) { for (int i = 0; i < n; ++i) { V<N> a = vec<N>("p"), v = vec<N>("v"); p.appendKnot(a, v); } }
static T fade(T t) { return 6 * t * t * t * t * t - 15 * t * t * t * t + 10 * t * t * t; }
// before the first and after the last knot the path is straight
extern "C" void h_path_ends() { int n = sym_choose(4, "n"); Path<T,2> p; fill(p, n); T t = sym_f64("t"); sym_assume((t >= -1e30) & (t <= 1e30)); if (!n) { same(p.eval(t), V<2>(0.0, 0.0), "empty path"); sym_reach("empty"); return; }
    sym_assume((t < 0) | (t >= n - 1)); V<2> r = p.eval(t); bool lo = t < 0; Ray<T,2> k = p.knots[lo ? 0 : n - 1]; T s = lo ? t : t - (n - 1); same(r, k.origin + k.direction * s, "straight beyond the ends"); sym_reach("end"); }
template <index_t N> static void inner(int n) { Path<T,N> p; fill(p, n); T s = sym_f64("t"); sym_assume((s >= 0) & (s < 1)); int c = sym_choose(n - 1, "cell"); V<N> r = p.eval(c + s); T w = fade(s); Ray<T,N> a = p.knots[c], b = p.knots[c + 1]; for (index_t i = 0; i < N; ++i) sym_check_eq(r[i], (1 - w) * (a.origin[i] + s * a.direction[i]) + w * (b.origin[i] + (s - 1) * b.direction[i]), "blend of the two knots"); same(p.eval((T) c), a.origin, "passes through the knot"); same(p.eval(c + 1.0), b.origin, "passes through the knot"); sym_reach("end"); }
extern "C" void h_path_inner() { int n = sym_choose(3, "n") + 2; if (sym_choose(2, "dim")) inner<3>(n); else inner<2>(n); }
// a long path: every cell, and both straight ends
extern "C" void h_path_many() { Path<T,2> p; fill(p, 9); int c = sym_choose(8, "cell"); T s = sym_f64("t"); sym_assume((s >= 0) & (s < 1)); V<2> r = p.eval(c + s); T w = fade(s); Ray<T,2> a = p.knots[c], b = p.knots[c + 1]; for (index_t i = 0; i < 2; ++i) sym_check_eq(r[i], (1 - w) * (a.origin[i] + s * a.direction[i]) + w * (b.origin[i] + (s - 1) * b.direction[i]), "blend of the two knots"); same(p.eval((T) c), a.origin, "passes through the knot"); same(p.eval(c + 1.0), b.origin, "passes through the knot"); same(p.eval(8 + s), p.knots[8].origin + s * p.knots[8].direction, "straight beyond the last knot"); sym_assume(s > 0); same(p.eval(-s), p.knots[0].origin - s * p.knots[0].direction, "straight before the first knot"); sym_reach("end"); }
// both sides of a knot agree with its tangent line up to second order: |path - line| <= K |h|^3
template <index_t N> static void join() { Path<T,N> p; for (int i = 0; i < 3; ++i) { V<N> a = vec<N>("p"), v = vec<N>("v"); for (index_t j = 0; j < N; ++j) sym_assume((a[j] >= -10) & (a[j] <= 10) & (v[j] >= -10) & (v[j] <= 10)); p.appendKnot(a, v); } T h = sym_f64("h"); sym_assume((h > 0) & (h < 0.5)); bool left = sym_choose(2, "left"); T d = left ? -h : h; V<N> r = p.eval(1 + d); Ray<T,N> k = p.knots[1]; for (index_t i = 0; i < N; ++i) { T e = r[i] - (k.origin[i] + d * k.direction[i]); sym_check_le(e, 1000 * h * h * h, "joins smoothly"); sym_check_le(-e, 1000 * h * h * h, "joins smoothly"); } sym_reach("end"); }
extern "C" void h_path_join() { if (sym_choose(2, "dim")) join<3>(); else join<2>(); }
extern "C" void h_path_grow() { Path<T,2> p; fill(p, 2); T t = sym_f64("t"); sym_assume((t >= -3) & (t < 1)); V<2> r = p.eval(t); V<2> a = vec<2>("p"), v = vec<2>("v"); p.appendKnot(a, v); same(p.eval(t), r, "appending a knot keeps the path before it"); sym_check(p.knots.size() == 3, "one more knot"); same(p.knots[2].origin, a, "knot position"); same(p.knots[2].direction, v, "knot velocity"); sym_reach("end"); }
