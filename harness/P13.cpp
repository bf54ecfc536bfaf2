//@ h_orth23   mode=real q=60 t=120 need=end
//@ h_orth4    mode=real q=60 t=300 split=z:3 need=independent,dependent
//@ h_orth5    mode=real q=60 t=300 split=k:4 need=independent,dependent
//@ h_null1    mode=real q=60 t=120 split=n:3 need=independent,dependent
//@ h_null2    mode=real q=60 t=300 split=z:4 need=independent,dependent
//@ h_null5    mode=real q=60 t=300 split=k:4 need=independent,dependent
//@ h_gram     mode=real q=60 t=200 split=k:5 need=end
//@ h_gram5    mode=real q=60 t=200 split=k:4 need=end
//@ h_unit     mode=real q=60 t=200 split=k:4 need=end
//@ h_project  mode=real q=60 t=200 split=k:4 need=end
//@ h_chol_ok  mode=real q=60 t=200 split=n:4 need=end
//@ h_chol_any mode=real q=60 t=200 split=n:3 need=ok,rejected
//@ h_chol_dims mode=real q=60 t=120 need=end
//@bounds complements and null spaces: every two or three vectors in two and three dimensions, every one to three vectors in four dimensions with up to eight symbolic elements, five dimensions with two symbolic elements; Gram-Schmidt and projections of one to three vectors in two to four dimensions; Cholesky up to 4x4 (positive definite) and 3x3 (any symmetric), both storage orders
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
#include <geomc/linalg/Orthogonal.h>
#include <geomc/linalg/Cholesky.h>
template <index_t N> static T dot(const Vec<T,N>& a, const Vec<T,N>& b) { T s = 0; for (int i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
static T dets(const T (*a)[5], index_t n, unsigned used, index_t r) { if (r == n) return 1; T d = 0; int s = 1; for (index_t c = 0; c < n; ++c) { if (used >> c & 1) continue; d += s * a[r][c] * dets(a, n, used | 1u << c, r + 1); s = -s; } return d; }
// Gram determinant: zero exactly for dependent vectors
template <index_t N> static T gram(const Vec<T,N>* v, index_t n) { T g[5][5]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g[i][j] = dot(v[i], v[j]); return dets(g, n, 0, 0); }
template <index_t N> static T det_of(const Vec<T,N>* a, index_t na, const Vec<T,N>* b, index_t nb) { T g[5][5]; for (int i = 0; i < na + nb; ++i) for (int j = 0; j < N; ++j) g[i][j] = i < na ? a[i][j] : b[i - na][j]; return dets(g, N, 0, 0); }
// all maximal minors of N-1 vectors
template <index_t N> static bool dependent(const Vec<T,N>* v) { bool z = true; for (int k = 0; k < N; ++k) { T g[5][5]; for (int i = 0; i < N - 1; ++i) for (int j = 0, c = 0; j < N; ++j) if (j != k) g[i][c++] = v[i][j]; z = z & (dets(g, N - 1, 0, 0) == 0); } return z; }
template <index_t N> static void complement(const Vec<T,N>* v) {
    Vec<T,N> w[N]; std::copy(v, v + N - 1, w); Vec<T,N> o = orthogonal<T,N>(w); bool dep = dependent<N>(v), zero = true; for (int i = 0; i < N; ++i) zero = zero & (o[i] == 0);
    for (int i = 0; i < N - 1; ++i) sym_check_eq(dot(o, v[i]), 0, "orthogonal to every vector"); sym_check(zero == dep, "zero exactly when the vectors are dependent"); sym_reach(dep ? "dependent" : "independent");
    for (int i = 0; i < N - 1; ++i) for (int j = 0; j < N; ++j) sym_check_eq(w[i][j], v[i][j], "the vectors are unchanged");
}
extern "C" void h_orth23() {
    Vec<T,2> a[1] = {vecn<2>("a")}; Vec<T,3> b[2] = {vecn<3>("b"), vecn<3>("c")}; Vec<T,2> p = orthogonal(a); Vec<T,3> q = orthogonal(b);
    sym_check_eq(dot(p, a[0]), 0, "orthogonal to the vector"); sym_check_eq(dot(p, p), dot(a[0], a[0]), "non-zero"); for (auto& x : b) sym_check_eq(dot(q, x), 0, "orthogonal to both vectors"); sym_check_eq(dot(q, q), gram(b, 2), "zero exactly when dependent"); sym_reach("end");
}
extern "C" void h_orth4() {
    index_t z = sym_choose(3, "z"); Vec<T,4> v[3] = {vecn<4>("a"), vecn<4>("b"), vecn<4>("c")};
    if (z == 0) { v[0] = Vec<T,4>(0, 0, v[0][2], v[0][3]); v[1][2] = 0; v[1][3] = 1; v[2] = Vec<T,4>(v[2][0], 0, 2, 0); } else if (z == 1) { v[0] = Vec<T,4>(1, 0, v[0][2], 0); v[1] = Vec<T,4>(0, 2, 0, v[1][3]); v[2][0] = 0; v[2][2] = 1; } else { v[0] = Vec<T,4>(0, 1, 0, 0); v[1] = Vec<T,4>(0, v[1][1], 0, v[1][3]); v[2][2] = 0; v[2][1] = 0; }
    complement<4>(v);
}
extern "C" void h_orth5() {
    static const int base[2][4][5] = {{{0,0,1,0,2},{1,0,0,3,0},{2,0,1,6,2},{0,1,0,1,0}}, {{1,2,0,1,0},{0,1,1,0,3},{2,1,0,0,1},{1,1,1,1,1}}}; index_t k = sym_choose(4, "k"); Vec<T,5> v[4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) v[i][j] = base[k / 2][i][j]; if (k & 1) { v[0][0] = sym_f64("x"); v[3][4] = sym_f64("y"); } else { v[2][1] = sym_f64("x"); v[1][3] = sym_f64("y"); }
    complement<5>(v);
}
template <index_t N> static void nullsp(const Vec<T,N>* v, index_t n) {
    Vec<T,N> in[N], out[N]; std::copy(v, v + n, in); bool alias = n <= N - n && n && sym_choose(2, "alias"); for (auto& o : out) for (T& t : o) t = sym_f64("junk"); if (alias) std::copy(v, v + n, out); Vec<T,N> last = out[N - n < N ? N - n : N - 1];
    bool ok = nullspace<T,N>(alias ? out : in, n, out); T g = gram(v, n); bool dep = g == 0; if (n < N - 1) sym_check(ok == !dep, "fails exactly for dependent vectors");
    for (int i = 0; i < N - n; ++i) for (int j = 0; j < n; ++j) sym_check_eq(dot(out[i], v[j]), 0, "null vectors are orthogonal to every input");
    if (dep) { for (int i = 0; i < N - n; ++i) for (int j = 0; j < N; ++j) sym_check_eq(out[i][j], 0, "null vectors of dependent inputs are zero"); } else sym_check(det_of(v, n, out, N - n) != 0, "null vectors are independent");
    if (!alias) for (int i = 0; i < n; ++i) for (int j = 0; j < N; ++j) sym_check_eq(in[i][j], v[i][j], "the inputs are unchanged"); if (N - n < N) for (int j = 0; j < N; ++j) sym_check_eq(out[N - n][j], last[j], "only as many vectors as needed are written");
    sym_reach(dep ? "dependent" : "independent");
}
extern "C" void h_null1() { switch (sym_choose(3, "n")) { case 0: { Vec<T,2> v = vecn<2>("v"); nullsp<2>(&v, 1); break; } case 1: { Vec<T,3> v = vecn<3>("v"); nullsp<3>(&v, 1); break; } default: { Vec<T,4> v = vecn<4>("v"); nullsp<4>(&v, 1); } } }
extern "C" void h_null2() {
    index_t z = sym_choose(4, "z"); Vec<T,4> v[2] = {vecn<4>("a"), vecn<4>("b")}; if (z == 0) { v[0][0] = 0; v[0][1] = 0; v[1][3] = 1; v[1][2] = 0; } else if (z == 1) { v[0] = Vec<T,4>(1, v[0][1], 0, 2); v[1][1] = 2; } else if (z == 2) { v[0] = Vec<T,4>(0, 1, v[0][2], 0); } if (z == 3) { Vec<T,3> w[2] = {vecn<3>("a"), vecn<3>("b")}; nullsp<3>(w, 2); } else nullsp<4>(v, 2);
}
extern "C" void h_null5() {
    static const int base[2][3][5] = {{{0,0,1,0,2},{1,0,0,3,0},{1,0,1,3,2}}, {{1,2,0,1,0},{0,1,1,0,3},{2,1,0,0,1}}}; index_t k = sym_choose(4, "k"); Vec<T,5> v[3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 5; ++j) v[i][j] = base[k / 2][i][j]; if (k & 1) { v[0][0] = sym_f64("x"); v[1][4] = sym_f64("y"); } else { v[2][1] = sym_f64("x"); v[1][3] = sym_f64("y"); }
    nullsp<5>(v, k & 1 ? 2 : 3);
}
template <index_t N> static void gs(index_t n) {
    Vec<T,N> v[3], w[3]; for (int i = 0; i < 3; ++i) w[i] = v[i] = vecn<N>("v"); sym_assume(gram(v, n) > 0); for (int i = 1; i < n; ++i) sym_assume(gram(v, i) > 0); orthogonalize<T,N>(w, n);
    for (int j = 0; j < N; ++j) sym_check_eq(w[0][j], v[0][j], "the first vector is unchanged"); for (int i = n; i < 3; ++i) for (int j = 0; j < N; ++j) sym_check_eq(w[i][j], v[i][j], "vectors beyond the requested number are unchanged");
    for (int i = 0; i < n; ++i) { sym_check_eq(dot(w[i], v[i]), dot(w[i], w[i]), "each vector loses its components along the previous ones"); for (int j = 0; j < i; ++j) sym_check_eq(dot(w[i], w[j]), 0, "mutually orthogonal"); }
    sym_check_eq(gram(w, n), gram(v, n), "the spanned volume is kept"); sym_reach("end");
}
extern "C" void h_gram() {
    switch (sym_choose(5, "k")) { case 0: gs<3>(2); break; case 1: gs<3>(3); break; case 2: gs<4>(2); break; case 3: gs<4>(1); break;
    default: { Vec<T,2> v[2] = {vecn<2>("a"), vecn<2>("b")}, w[2] = {v[0], v[1]}; orthogonalize(w, 2); sym_check_eq(w[0][0], v[0][0], "the first vector is unchanged"); sym_check_eq(w[0][1], v[0][1], "the first vector is unchanged"); sym_check_eq(dot(w[0], w[1]), 0, "mutually orthogonal"); sym_check_eq(dot(w[1], w[1]), dot(v[0], v[0]), "non-zero"); w[1] = v[1]; orthogonalize(w, 1); sym_check_eq(w[1][0], v[1][0], "vectors beyond the requested number are unchanged"); sym_reach("end"); } }
}
// five vectors in five dimensions, each in turn symbolic
extern "C" void h_gram5() {
    typedef Vec<T,5> V; static const int base[5][5] = {{1,2,0,1,3},{2,1,1,0,1},{0,1,4,1,1},{1,0,1,5,2},{3,1,2,2,1}}; V v[5], w[5]; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) v[i][j] = base[i][j];
    index_t k = sym_choose(4, "k"), n = k == 1 ? 4 : 5; if (k < 2) { for (int j = 0; j < 5; ++j) v[n-1][j] = sym_f64("v"); } else if (k == 2) { v[3][1] = sym_f64("x"); v[4][2] = sym_f64("y"); } else v[0][0] = sym_f64("x"); for (int i = 0; i < 5; ++i) w[i] = v[i]; orthogonalize<T,5>(w, n);
    for (int i = 0; i < 5; ++i) { if (i == 0 || i >= n) for (int j = 0; j < 5; ++j) sym_check_eq(w[i][j], v[i][j], "first vector and unused vectors are unchanged"); if (i < n) { sym_check_eq(dot(w[i], v[i]), dot(w[i], w[i]), "each vector loses its components along the previous ones"); for (int j = 0; j < i; ++j) sym_check_eq(dot(w[i], w[j]), 0, "mutually orthogonal"); } } sym_reach("end");
}
template <index_t N> static void on(index_t n) {
    Vec<T,N> v[3], w[3]; for (int i = 0; i < n; ++i) w[i] = v[i] = vecn<N>("v"); for (int i = 1; i <= n; ++i) sym_assume(gram(v, i) > 0); orthonormalize(w, n);
    for (int i = 0; i < n; ++i) { sym_check_eq(dot(w[i], w[i]), 1, "unit length"); for (int j = 0; j < i; ++j) sym_check_eq(dot(w[i], w[j]), 0, "mutually orthogonal"); if (N > 2) sym_check(dot(w[i], v[i]) > 0, "direction is kept"); }
    for (int j = 0; j < N; ++j) sym_check_eq(w[0][j] * w[0][j] * dot(v[0], v[0]), v[0][j] * v[0][j], "the first direction is kept"); sym_reach("end");
}
extern "C" void h_unit() { switch (sym_choose(4, "k")) { case 0: on<3>(1); break; case 1: on<2>(2); break; case 2: on<3>(2); break; default: on<4>(2); } }
extern "C" void h_project() {
    index_t k = sym_choose(4, "k"); typedef Vec<T,3> V; V v[2] = {vecn<3>("a"), vecn<3>("b")}, x = vecn<3>("x"), p; index_t n = k % 2 + 1; sym_assume(dot(v[0], v[0]) > 0);
    if (n == 2) sym_assume(gram(v, 2) > 0);
    if (k < 2) { V w[2] = {v[0], v[1]}; if (n == 2) { T s = dot(v[1], v[0]) / dot(v[0], v[0]); for (int j = 0; j < 3; ++j) w[1][j] -= s * w[0][j]; } p = project_to_orthogonal_subspace(w, x, n); } else { V w[2] = {v[0], v[1]}; p = project_to_subspace(w, x, n); }
    for (int i = 0; i < n; ++i) sym_check_eq(dot(p, v[i]), dot(x, v[i]), "the residual is orthogonal to the subspace");
    if (n == 1) for (int i = 0; i < 3; ++i) sym_check_eq(p[i] * v[0][(i + 1) % 3], p[(i + 1) % 3] * v[0][i], "the projection lies in the subspace"); else { T g[5][5]; for (int j = 0; j < 3; ++j) { g[0][j] = v[0][j]; g[1][j] = v[1][j]; g[2][j] = p[j]; } sym_check_eq(dets(g, 3, 0, 0), 0, "the projection lies in the subspace"); }
    sym_reach("end");
}
template <MatrixLayout L> static void chol_ok(index_t n) {
    Ref l(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { l.e[i][j] = sym_f64("l"); if (i == j) sym_assume(l.e[i][j] > 0); } Ref a = mulr(l, trr(l)); SM<0,0,L> m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i,j) = a.e[i][j];
    sym_check(cholesky(&m), "positive-definite matrices are decomposed"); sameM(m, l, "lower-triangular factor"); sym_reach("end");
}
extern "C" void h_chol_ok() { index_t n = 1 + sym_choose(4, "n"); if (sym_choose(2, "row")) chol_ok<ROW_MAJOR>(n); else chol_ok<COL_MAJOR>(n); }
template <index_t N, MatrixLayout L> static void chol_any() {
    SM<N,N,L> m; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) m(i,j) = m(j,i) = sym_f64("a"); Ref a = ref(m); bool pd = true; T g[5][5]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) g[i][j] = a.e[i][j]; for (int k = 1; k <= N; ++k) pd = pd && dets(g, k, 0, 0) > 0;
    bool ok = cholesky(&m); sym_check(ok == pd, "decomposed exactly when positive definite"); if (ok) { Ref l = ref(m); for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) sym_check_eq(l.e[i][j], 0, "the factor is lower triangular"); sameR(mulr(l, trr(l)), a, "the factor times its transpose is the matrix"); } sym_reach(ok ? "ok" : "rejected");
}
extern "C" void h_chol_any() { switch (sym_choose(3, "n")) { case 0: chol_any<1,ROW_MAJOR>(); break; case 1: chol_any<2,COL_MAJOR>(); break; default: chol_any<3,ROW_MAJOR>(); } }
extern "C" void h_chol_dims() { SM<0,0> a = mk<SM<0,0>>(2, 3, "a"); Ref r = ref(a); sym_check(!cholesky(&a), "non-square matrices are rejected"); sameM(a, r, "rejected matrix"); sym_reach("end"); }
