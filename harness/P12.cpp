//@ h_plu      mode=real q=90 t=300 split=k:4,z:3 t=900 need=full,deficient
//@ h_lup      mode=real q=90 t=300 split=k:4,z:3 t=900 need=full,deficient
//@ h_plu_big  mode=real q=90 t=300 split=k:6 need=full,deficient
//@ h_lup_big  mode=real q=90 t=300 split=k:6 need=full,deficient
//@ h_apply    mode=real q=60 t=120 split=n:4 need=end
//@ h_backsolve mode=real q=60 t=120 split=n:3 need=end
//@ h_solve    mode=real q=90 t=300 split=n:3,z:2 need=solved,degenerate
//@ h_solve_vec mode=real q=90 t=300 split=n:4 need=solved,degenerate
//@ h_solve_big mode=real q=90 t=300 split=k:6 need=solved,degenerate
//@bounds fully symbolic matrices up to 3x3 (one to three rows and columns, square and not), 4x4 systems in basis form, and 5x5 with two symbolic elements in any of six sparsity patterns; one or two right-hand sides; row- and column-major; all permutations up to four
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
#include <geomc/linalg/LUDecomp.h>
static const int base[3][5][5] = {{{2,0,1,0,0},{0,0,0,3,1},{1,2,0,0,0},{0,1,0,0,2},{0,0,1,1,0}}, {{0,0,0,0,1},{0,2,0,1,0},{4,0,0,0,3},{0,1,1,0,0},{1,0,0,2,0}}, {{1,2,3,4,5},{2,1,2,3,4},{0,2,1,2,3},{1,0,2,1,2},{0,1,0,2,1}}};
static void pattern(Ref& a, index_t k) {
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) a.e[i][j] = base[k % 3][i][j];
    if (k < 3) { a.e[0][0] = sym_f64("x"); a.e[3][4] = sym_f64("y"); } else { a.e[4][0] = sym_f64("x"); a.e[1][3] = sym_f64("y"); }
}
static void store(const Ref& a, T* m, bool row) { for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) m[row ? i * a.n + j : j * a.m + i] = a.e[i][j]; }
static void load(Ref& a, const T* m, bool row) { for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) a.e[i][j] = m[row ? i * a.n + j : j * a.m + i]; }
static T dets(const Ref& a, index_t n, unsigned used, index_t r) { if (r == n) return 1; T d = 0; int s = 1; for (index_t c = 0; c < n; ++c) { if (used >> c & 1) continue; d += s * a.e[r][c] * dets(a, n, used | 1u << c, r + 1); s = -s; } return d; }
static bool is_odd(const index_t* p, index_t n) { bool o = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) o ^= p[j] > p[i]; return o; }
static void is_perm(const index_t* p, index_t n) { unsigned s = 0; for (int i = 0; i < n; ++i) { sym_check(p[i] >= 0 & p[i] < n, "permutation index in range"); s |= 1u << p[i]; } sym_check(s == (1u << n) - 1, "reordering is a permutation"); }
// the product of the two triangular factors
static Ref lu(const Ref& f) { Ref r(f.m, f.n); for (index_t i = 0; i < f.m; ++i) for (index_t j = 0; j < f.n; ++j) for (index_t k = 0; k <= i && k <= j; ++k) r.e[i][j] += (k == i ? 1 : f.e[i][k]) * f.e[k][j]; return r; }
static void small_factors(const Ref& f, bool rows) { if (rows) for (index_t j = 0; j < f.n; ++j) for (index_t i = j + 1; i < f.m; ++i) { sym_check_le(f.e[i][j], 1, "multipliers are at most one"); sym_check_le(-1, f.e[i][j], "multipliers are at most one"); } }
template <bool Row> static void plu(const Ref& a) {
    T m[25]; store(a, m, Row); index_t p[5]; bool odd = true; index_t deg = decomp_plu<T,Row>(m, a.m, a.n, p, &odd); Ref f(a.m, a.n); load(f, m, Row); Ref w(a.m, a.n);
    is_perm(p, a.m); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) w.e[i][j] = a.e[p[i]][j];
    sameR(lu(f), w, "the factors reproduce the row-permuted matrix"); sym_check(odd == is_odd(p, a.m), "parity of the row permutation");
    if (a.m == a.n) sym_check((deg > 0) == (dets(a, a.n, 0, 0) == 0), "degenerate exactly when singular"); else if (deg == 0 & a.n == 1) { T s = 0; for (int i = 0; i < a.m; ++i) s += a.e[i][0] * a.e[i][0]; sym_check(s > 0, "degenerate column"); }
    sym_check(deg >= 0 & deg <= a.n & deg <= a.m, "number of degenerate rows"); if (deg == 0) small_factors(f, true); sym_reach(deg ? "deficient" : "full");
}
template <bool Row> static void lup(const Ref& a) {
    T m[25]; store(a, m, Row); index_t p[5]; bool odd = true; index_t deg = decomp_lup<T,Row>(m, a.m, a.n, p, &odd); Ref f(a.m, a.n); load(f, m, Row); Ref w(a.m, a.n);
    is_perm(p, a.n); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) w.e[i][j] = a.e[i][p[j]];
    if (deg == 0) sameR(lu(f), w, "the factors reproduce the column-permuted matrix"); sym_check(odd == is_odd(p, a.n), "parity of the column permutation");
    if (a.m == a.n) sym_check((deg > 0) == (dets(a, a.n, 0, 0) == 0), "degenerate exactly when singular"); sym_check(deg >= 0 & deg <= a.n & deg <= a.m, "number of degenerate columns"); sym_reach(deg ? "deficient" : "full");
    if (deg == 0) for (index_t i = 0; i < a.m; ++i) for (index_t j = i + 1; j < a.n; ++j) { T x = f.e[i][j], d = f.e[i][i]; sym_check_le(x * x, d * d, "pivots are the largest in their row"); }
}
#ifndef THOROUGH
#define THOROUGH 0
#endif
// shapes 2x2, 2x3, 3x2, 3x3, with elements zeroed to limit the number of ways to pivot
static bool Row_;
static Ref shape() {
    index_t k = sym_choose(4, "k"), z = sym_choose(3, "z"); Ref a(k < 2 ? 2 : 3, k & 1 ? 3 : 2); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) a.e[i][j] = sym_f64("a");
    if (k == 3 && !THOROUGH) Row_ = z & 1; else Row_ = sym_choose(2, "row");
    sym_assume(!(k < 3 && z) & !(z == 2 && !THOROUGH));
    if (k == 3 && THOROUGH && z == 2) return a; // fully symbolic
    if (k == 3) { if (z == 0) { a.e[0][0] = 0; a.e[2][1] = 0; } else if (z == 1) { a.e[1][0] = 0; a.e[0][2] = 0; } else { a.e[0][0] = a.e[1][1] = a.e[2][2] = 0; } }
    return a;
}
extern "C" void h_plu() { Ref a = shape(); if (Row_) plu<true>(a); else plu<false>(a); }
extern "C" void h_lup() { Ref a = shape(); if (Row_) lup<true>(a); else lup<false>(a); }
extern "C" void h_plu_big() { Ref a(5, 5); pattern(a, sym_choose(6, "k")); if (sym_choose(2, "row")) plu<true>(a); else plu<false>(a); }
extern "C" void h_lup_big() { Ref a(5, 5); pattern(a, sym_choose(6, "k")); if (sym_choose(2, "row")) lup<true>(a); else lup<false>(a); }
extern "C" void h_apply() {
    index_t n = 1 + sym_choose(4, "n"), p[4], q[4]; any_perm(p, n, "p"); std::copy(p, p + n, q); T m[8], w[8]; for (int i = 0; i < 8; ++i) w[i] = m[i] = sym_f64("m");
    if (sym_choose(2, "row")) { detail::destructive_apply_permutation<T,true>(q, m, n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) sym_check_eq(m[2 * i + j], w[2 * p[i] + j], "permuted rows"); }
    else { detail::destructive_apply_permutation<T,false>(q, m, n, 2); for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) sym_check_eq(m[n * j + i], w[n * j + p[i]], "permuted rows"); }
    sym_reach("end");
}
extern "C" void h_backsolve() {
    index_t n = 1 + sym_choose(3, "n"), m = 1 + sym_choose(2, "m"), skip = sym_choose(n, "skip"), p[3]; bool row = sym_choose(2, "row"); any_perm(p, n, "p"); Ref f(n, n), b(n, m), x(n, m), pb(n, m); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) f.e[i][j] = sym_f64("f"); sym_assume(f.e[i][i] != 0); for (int j = 0; j < m; ++j) b.e[i][j] = sym_f64("b"); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) pb.e[i][j] = b.e[p[i]][j];
    T F[9], B[6], X[6]; store(f, F, row); store(b, B, row); if (row) backsolve_plu<T,true>(F, p, n, m, X, B, skip); else backsolve_plu<T,false>(F, p, n, m, X, B, skip); load(x, X, row);
    Ref bb(n, m); load(bb, B, row); sameR(bb, b, "the right-hand side is unchanged");
    // with skipped rows only the remaining ones of the upper system hold
    Ref y(n, m); for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { y.e[i][j] = pb.e[i][j]; for (int k = 0; k < i; ++k) y.e[i][j] -= f.e[i][k] * y.e[k][j]; }
    for (int j = 0; j < m; ++j) for (int i = skip; i < n; ++i) { T s = 0; for (int k = i; k < n; ++k) s += f.e[i][k] * x.e[k][j]; sym_check_eq(s, y.e[i][j], "back-substitution solves the permuted system"); }
    store(pb, X, row); if (row) backsolve_lu<T,true>(F, n, m, X, skip); else backsolve_lu<T,false>(F, n, m, X, skip); Ref z(n, m); load(z, X, row); for (int j = 0; j < m; ++j) for (int i = skip; i < n; ++i) sym_check_eq(z.e[i][j], x.e[i][j], "back-substitution solves the system");
    sym_reach("end");
}
extern "C" void h_solve() {
    index_t n = 1 + sym_choose(3, "n"), z = sym_choose(2, "z"), m = 1 + sym_choose(2, "m"); bool row = n == 3 && !THOROUGH ? z : sym_choose(2, "row"); Ref a(n, n), b(n, m), x(n, m); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) a.e[i][j] = sym_f64("a"); for (int j = 0; j < m; ++j) b.e[i][j] = sym_f64("b"); }
    if (n == 3) { if (z) a.e[0][0] = a.e[1][1] = a.e[2][2] = 0; else a.e[1][0] = a.e[0][2] = a.e[2][1] = 0; } else if (z) a.e[0][0] = 0;
    T A[9], X[6]; store(a, A, row); store(b, X, row); bool ok = row ? linear_solve<T,true>(A, n, m, X) : linear_solve<T,false>(A, n, m, X); sym_check(ok == (dets(a, n, 0, 0) != 0), "solvable exactly when regular");
    if (ok) { load(x, X, row); sameR(mulr(a, x), b, "solution of a linear system"); } sym_reach(ok ? "solved" : "degenerate");
}
template <index_t N> static void solve_vec(const Ref& a) {
    index_t m = 1 + sym_choose(2, "m"); Vec<T,N> v[N], b[2], x[2]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) v[j][i] = a.e[i][j]; for (auto& y : b) for (T& t : y) t = sym_f64("b"); x[0] = b[0]; x[1] = b[1];
    bool ok = linear_solve(v, m, x); sym_check(ok == (dets(a, N, 0, 0) != 0), "solvable exactly when the basis is independent");
    if (ok) for (int j = 0; j < m; ++j) for (int i = 0; i < N; ++i) { T s = 0; for (int k = 0; k < N; ++k) s += a.e[i][k] * x[j][k]; sym_check_eq(s, b[j][i], "coordinates in a basis"); }
    if (m == 1) for (int i = 0; i < N; ++i) sym_check_eq(x[1][i], b[1][i], "vectors beyond the requested number are untouched"); sym_reach(ok ? "solved" : "degenerate");
}
template <index_t N> static Ref any() { Ref a(N, N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a.e[i][j] = sym_f64("a"); return a; }
extern "C" void h_solve_vec() { switch (sym_choose(4, "n")) { case 0: solve_vec<2>(any<2>()); break; case 1: solve_vec<3>(any<3>()); break; case 2: solve_vec<4>(any<4>()); break; default: { Ref a(5, 5); pattern(a, 1); solve_vec<5>(a); } } }
extern "C" void h_solve_big() { Ref a(5, 5); pattern(a, sym_choose(6, "k")); solve_vec<5>(a); }
