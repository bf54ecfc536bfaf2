// Shared helpers: a plain array oracle for every matrix type.
#pragma once
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Vec.h>
#include "sym.h"
using namespace geom;
#define D0 DYNAMIC_DIM
typedef double T;
template <index_t M, index_t N, MatrixLayout L=ROW_MAJOR> using SM = SimpleMatrix<T,M,N,L>;
template <index_t M, index_t N> using DM = DiagMatrix<T,M,N>;
template <index_t N> using PM = PermutationMatrix<N>;

struct Ref { T e[6][6]; index_t m, n; Ref(index_t m, index_t n): m(m), n(n) { for (auto& r : e) for (T& x : r) x = 0; } };
template <typename Mx> Ref ref(const Mx& a) { Ref r(a.rows(), a.cols()); for (index_t i = 0; i < r.m; ++i) for (index_t j = 0; j < r.n; ++j) r.e[i][j] = a(i,j); return r; }
template <index_t N> Ref refc(const Vec<T,N>& v) { Ref r(N,1); for (index_t i = 0; i < N; ++i) r.e[i][0] = v[i]; return r; }
template <index_t N> Ref refr(const Vec<T,N>& v) { Ref r(1,N); for (index_t i = 0; i < N; ++i) r.e[0][i] = v[i]; return r; }
static inline Ref mulr(const Ref& a, const Ref& b) { Ref r(a.m, b.n); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < b.n; ++j) for (index_t k = 0; k < a.n; ++k) r.e[i][j] += a.e[i][k] * b.e[k][j]; return r; }
static inline Ref addr(const Ref& a, const Ref& b, T s) { Ref r(a.m, a.n); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) r.e[i][j] = a.e[i][j] + s * b.e[i][j]; return r; }
static inline Ref sclr(T s, const Ref& a) { Ref r(a.m, a.n); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) r.e[i][j] = s * a.e[i][j]; return r; }
static inline Ref trr(const Ref& a) { Ref r(a.n, a.m); for (index_t i = 0; i < a.m; ++i) for (index_t j = 0; j < a.n; ++j) r.e[j][i] = a.e[i][j]; return r; }
static inline void sameR(const Ref& a, const Ref& b, const char* msg) {
    sym_check(a.m == b.m & a.n == b.n, msg);
    for (index_t i = 0; i < b.m; ++i) for (index_t j = 0; j < b.n; ++j) sym_check_eq(a.e[i][j], b.e[i][j], msg);
}
template <typename Mx> void sameM(const Mx& a, const Ref& b, const char* msg) { sameR(ref(a), b, msg); }

// every element symbolic (diagonal: diagonal elements; permutation: any permutation)
template <index_t M, index_t N, MatrixLayout L, StoragePolicy P> void fill(SimpleMatrix<T,M,N,L,P>& m, const char* n) { for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) m.set(i, j, sym_f64(n)); }
template <index_t M, index_t N> void fill(DiagMatrix<T,M,N>& m, const char* n) { for (T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) *p = sym_f64(n); }
static inline void any_perm(index_t* p, index_t n, const char* name) {
    bool used[8] = {};
    for (index_t i = 0; i < n; ++i) { index_t k = sym_choose(n - i, name), x = 0; while (used[x]) ++x; while (k--) { ++x; while (used[x]) ++x; } used[x] = true; p[i] = x; }
}
template <index_t N> void fill(PermutationMatrix<N>& m, const char* n) { index_t p[8]; any_perm(p, m.rows(), n); m.setRowSources(p); }
template <typename Mx> struct Make { static Mx make(index_t r, index_t c) { return Mx(r, c); } };
template <index_t N> struct Make<PermutationMatrix<N>> { static PermutationMatrix<N> make(index_t r, index_t) { return PermutationMatrix<N>(r); } };
template <typename Mx> Mx mk(index_t r, index_t c, const char* n) { Mx m = Make<Mx>::make(r, c); fill(m, n); return m; }
template <index_t N> Vec<T,N> vecn(const char* n) { Vec<T,N> v; for (index_t i = 0; i < N; ++i) v[i] = sym_f64(n); return v; }
