//@ h_det_small mode=real q=60 t=120 need=end
//@ h_det_dyn2  mode=real q=60 t=120 need=end
//@ h_det_dyn3  mode=real q=60 t=300 split=z:4 need=end
//@ h_det_big   mode=real q=60 t=300 split=k:6 need=end
//@ h_det_other mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_inv2      mode=real q=60 t=120 split=k:6 need=ok,singular
//@ h_inv3      mode=real q=60 t=120 split=k:6 need=ok,singular
//@ h_inv4      mode=real q=90 t=200 split=k:4 need=ok,singular
//@ h_inv_dyn   mode=real q=60 t=200 split=n:4 need=ok,singular
//@ h_inv_big   mode=real q=60 t=300 split=k:6 need=ok,singular
//@ h_inv_diag  mode=real q=60 t=120 split=k:4 need=ok,singular
//@ h_inv_perm  mode=real q=60 t=120 split=k:3 need=end
//@ h_inv_dims  mode=real q=60 t=120 split=m:3,n:3 need=end,thrown
//@bounds every element of matrices up to 4x4 (LU-based determinants and inverses: up to 3x3 fully symbolic, 5x5 with two symbolic elements in any of six sparsity patterns); all permutations up to four; static and runtime sizes, row- and column-major, owned and wrapped, in place and out of place
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
static T dets(const Ref& a, index_t n, unsigned used, index_t r) { if (r == n) return 1; T d = 0; int s = 1; for (index_t c = 0; c < n; ++c) { if (used >> c & 1) continue; bool z = __builtin_constant_p(0); (void) z; d += s * a.e[r][c] * dets(a, n, used | 1u << c, r + 1); s = -s; } return d; }
static T dets(const Ref& a) { return dets(a, a.m, 0, 0); }
template <typename A, typename B> static void isinv(const A& a, const B& b, const char* msg) {
    Ref x = ref(a), y = ref(b), p = mulr(x, y); sym_check(y.m == x.m & y.n == x.n, msg);
    for (index_t i = 0; i < x.m; ++i) for (index_t j = 0; j < x.n; ++j) sym_check_eq(p.e[i][j], i == j, msg);
}
extern "C" void h_det_small() {
    SM<1,1> a; SM<2,2> b; SM<3,3> c; SM<4,4> d; SM<2,2,COL_MAJOR> e; SM<3,3,COL_MAJOR> f; SM<4,4,COL_MAJOR> g; fill(a, "a"); fill(b, "b"); fill(c, "c"); fill(d, "d"); fill(e, "e"); fill(f, "f"); fill(g, "g");
    sym_check_eq(det(a), a(0,0), "determinant 1x1"); sym_check_eq(det(b), dets(ref(b)), "determinant 2x2"); sym_check_eq(det(c), dets(ref(c)), "determinant 3x3"); sym_check_eq(det(d), dets(ref(d)), "determinant 4x4");
    sym_check_eq(det(e), dets(ref(e)), "determinant 2x2 column-major"); sym_check_eq(det(f), dets(ref(f)), "determinant 3x3 column-major"); sym_check_eq(det(g), dets(ref(g)), "determinant 4x4 column-major");
    const T* p = c.data_begin(); sym_check_eq(det3x3(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]), dets(ref(c)), "determinant of nine elements"); sym_check_eq(det2x2(p[0], p[1], p[2], p[3]), p[0] * p[3] - p[1] * p[2], "determinant of four elements");
    WrapperMatrix<T,3,3> w(f.data_begin()); sym_check_eq(det(w), dets(ref(f)), "determinant of a wrapper"); SM<0,0> n = mk<SM<0,0>>(2, 3, "n"); sym_check_eq(det(n), 0, "determinant of a non-square matrix");
    sym_reach("end");
}
extern "C" void h_det_dyn2() {
    SM<0,0> a = mk<SM<0,0>>(2, 2, "a"), c = mk<SM<0,0>>(1, 1, "c"); SM<0,2,COL_MAJOR> b = mk<SM<0,2,COL_MAJOR>>(2, 2, "b"); Ref ra = ref(a);
    sym_check_eq(det(c), c(0,0), "runtime-sized determinant"); if (sym_choose(2, "w")) sym_check_eq(det(a), dets(ra), "runtime-sized determinant"); else sym_check_eq(det(b), dets(ref(b)), "runtime-sized determinant");
    sameM(a, ra, "the determinant does not change its operand"); sym_reach("end");
}
extern "C" void h_det_dyn3() {
    // two of the elements of the first column zero in turn, so that pivoting is exercised with few paths
    index_t z = sym_choose(4, "z"); SM<0,0> a = mk<SM<0,0>>(3, 3, "a"); if (z < 3) { a(z,0) = 0; a((z + 1) % 3,2) = 0; } else { for (int i = 0; i < 3; ++i) a(i,i) = 0; }
    T m[9]; std::copy(a.data_begin(), a.data_end(), m); sym_check_eq(sym_choose(2, "w") ? det(a) : det_destructive(m, 3), dets(ref(a)), "runtime-sized determinant"); sym_reach("end");
}
// 5x5 matrices with two symbolic elements
static void pattern(Ref& a, index_t k) {
    static const int base[3][5][5] = {{{2,0,1,0,0},{0,0,0,3,1},{1,2,0,0,0},{0,1,0,0,2},{0,0,1,1,0}}, {{0,0,0,0,1},{0,2,0,1,0},{4,0,0,0,3},{0,1,1,0,0},{1,0,0,2,0}}, {{1,2,3,4,5},{2,1,2,3,4},{0,2,1,2,3},{1,0,2,1,2},{0,1,0,2,1}}};
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) a.e[i][j] = base[k % 3][i][j];
    if (k < 3) { a.e[0][0] = sym_f64("x"); a.e[3][4] = sym_f64("y"); } else { a.e[4][0] = sym_f64("x"); a.e[1][3] = sym_f64("y"); }
}
extern "C" void h_det_big() {
    index_t k = sym_choose(6, "k"), w = sym_choose(3, "w"); Ref r(5, 5); pattern(r, k); T want = dets(r);
    if (w == 0) { SM<5,5> a; for (int i = 0; i < 25; ++i) a(i / 5, i % 5) = r.e[i / 5][i % 5]; sym_check_eq(det(a), want, "determinant 5x5"); sameM(a, r, "the determinant does not change its operand"); }
    else if (w == 1) { SM<5,5,COL_MAJOR> a; for (int i = 0; i < 25; ++i) a(i / 5, i % 5) = r.e[i / 5][i % 5]; sym_check_eq(det(a), want, "determinant 5x5 column-major"); }
    else { SM<0,0> a(5, 5); for (int i = 0; i < 25; ++i) a(i / 5, i % 5) = r.e[i / 5][i % 5]; sym_check_eq(det(a), want, "runtime-sized determinant 5x5"); }
    sym_reach("end");
}
extern "C" void h_det_other() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); DM<0,0> d = mk<DM<0,0>>(m, n, "d"); T w = m == n; if (m == n) for (int i = 0; i < m; ++i) w *= d(i,i); sym_check_eq(det(d), w, "determinant of a diagonal matrix");
    DM<3,3> e; fill(e, "e"); sym_check_eq(det(e), e(0,0) * e(1,1) * e(2,2), "determinant of a diagonal matrix");
    PM<0> p = mk<PM<0>>(m, m, "p"); PM<4> q; if (n == 1) fill(q, "q"); sym_check_eq(det(p), dets(ref(p)), "determinant of a permutation"); sym_check_eq(det(q), dets(ref(q)), "determinant of a permutation"); PM<4> t(q); t.transpose(); sym_check_eq(det(t), dets(ref(q)), "determinant of a transposed permutation");
    sym_reach("end");
}
template <index_t N, MatrixLayout L, MatrixLayout K> static void inv1(bool inplace) {
    SM<N,N,L> a; fill(a, "a"); Ref r = ref(a); T d = dets(r); bool ok;
    if (inplace) { ok = inv(&a, a); if (ok) { SM<N,N,L> b(a); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i,j) = r.e[i][j]; isinv(a, b, "inverse in place"); } }
    else { SM<N,N,K> b; fill(b, "b"); ok = inv(&b, a); sameM(a, r, "inversion does not change its operand"); if (ok) { isinv(a, b, "inverse"); } }
    sym_check(ok == (d != 0), "inversion succeeds exactly for regular matrices"); sym_reach(ok ? "ok" : "singular");
}
template <index_t N, MatrixLayout L> static void inv2() { SM<N,N,L> a; fill(a, "a"); bool ok = false; auto b = inv(a, &ok); sym_check(ok == (dets(ref(a)) != 0), "inversion succeeds exactly for regular matrices"); if (ok) isinv(a, b, "inverse"); sym_reach(ok ? "ok" : "singular"); }
template <index_t N> static void inv3() { // transposed view of the same storage as the destination
    SM<N,N> a; fill(a, "a"); SM<N,N> c(a); auto t = a.as_transpose(); bool ok = inv(&t, c); sym_check(ok == (dets(ref(c)) != 0), "inversion succeeds exactly for regular matrices"); if (ok) isinv(c, t, "inverse into a transposed view"); sym_reach(ok ? "ok" : "singular"); }
template <index_t N> static void invk(index_t k) { switch (k) { case 0: inv1<N,ROW_MAJOR,ROW_MAJOR>(false); break; case 1: inv1<N,ROW_MAJOR,COL_MAJOR>(false); break; case 2: inv1<N,COL_MAJOR,ROW_MAJOR>(true); break; case 3: inv2<N,COL_MAJOR>(); break; case 4: inv2<N,ROW_MAJOR>(); break; default: inv3<N>(); } }
extern "C" void h_inv2() { invk<2>(sym_choose(6, "k")); }
extern "C" void h_inv3() { invk<3>(sym_choose(6, "k")); }
extern "C" void h_inv4() { invk<4>(sym_choose(4, "k")); }
extern "C" void h_inv_dyn() {
    index_t n = 1 + sym_choose(4, "n"), w = sym_choose(3, "w"); SM<0,0> a = mk<SM<0,0>>(n, n, "a"); Ref r = ref(a); T d = dets(r); bool ok;
    if (w == 0) { SM<0,0,COL_MAJOR> b(n, n); ok = inv(&b, a); if (ok) isinv(a, b, "runtime-sized inverse"); }
    else if (w == 1) { auto b = inv(a, &ok); if (ok) isinv(a, b, "runtime-sized inverse"); }
    else { SM<0,0> b(a); ok = inv(&a, a); if (ok) isinv(b, a, "runtime-sized inverse in place"); }
    sym_check(ok == (d != 0), "inversion succeeds exactly for regular matrices"); sym_reach(ok ? "ok" : "singular");
}
extern "C" void h_inv_big() {
    index_t k = sym_choose(6, "k"), w = sym_choose(3, "w"); Ref r(5, 5); pattern(r, k); T d = dets(r); bool ok;
    SM<5,5> a; for (int i = 0; i < 25; ++i) a(i / 5, i % 5) = r.e[i / 5][i % 5];
    if (w == 0) { SM<5,5,COL_MAJOR> b; ok = inv(&b, a); if (ok) isinv(a, b, "inverse 5x5"); }
    else if (w == 1) { SM<5,5> b(a); ok = inv(&b, b); if (ok) isinv(a, b, "inverse 5x5 in place"); }
    else { SM<0,0> b(a); SM<0,0> c(5, 5); ok = inv(&c, b); if (ok) isinv(a, c, "runtime-sized inverse 5x5"); }
    sym_check(ok == (d != 0), "inversion succeeds exactly for regular matrices"); sym_reach(ok ? "ok" : "singular");
}
extern "C" void h_inv_diag() {
    index_t k = sym_choose(4, "k"); bool ok; DM<3,3> a; fill(a, "a"); Ref r = ref(a); bool reg = (a(0,0) != 0) & (a(1,1) != 0) & (a(2,2) != 0);
    if (k == 0) { SM<3,3> b; fill(b, "b"); ok = inv(&b, a); if (ok) isinv(a, b, "inverse of a diagonal matrix"); }
    else if (k == 1) { DM<3,3> b; fill(b, "b"); ok = inv(&b, a); if (ok) isinv(a, b, "inverse of a diagonal matrix"); }
    else if (k == 2) { DM<3,3> b(a); ok = inv(&b, b); if (ok) isinv(a, b, "inverse of a diagonal matrix in place"); }
    else { DM<0,0> d = mk<DM<0,0>>(2, 2, "d"); reg = (d(0,0) != 0) & (d(1,1) != 0); auto b = inv(d, &ok); if (ok) isinv(d, b, "inverse of a diagonal matrix"); }
    sym_check(ok == reg, "inversion succeeds exactly for regular matrices"); sameM(a, r, "inversion does not change its operand"); sym_reach(ok ? "ok" : "singular");
}
extern "C" void h_inv_perm() {
    index_t k = sym_choose(3, "k"); bool ok = false; PM<4> a; fill(a, "a");
    if (k == 0) { auto b = inv(a, &ok); isinv(a, b, "inverse of a permutation"); sym_check_eq(b.sign(), det(a), "sign of the inverse"); }
    else if (k == 1) { PM<4> b(a); ok = inv(&b, b); isinv(a, b, "inverse of a permutation in place"); }
    else { PM<0> p = mk<PM<0>>(3, 3, "p"); auto b = inv(p, &ok); isinv(p, b, "inverse of a permutation"); SM<3,3> s; sym_check(inv(&s, p), "inverse of a permutation"); isinv(p, s, "dense inverse of a permutation"); }
    sym_check(ok, "permutations are regular"); sym_reach("end");
}
extern "C" void h_inv_dims() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); SM<0,0> a(m, n), b(2, 2); a.set_identity(); bool threw = false, ok = false;
    try { auto x = inv(a, &ok); } catch (const NonsquareMatrixException& e) { threw = true; sym_check(e.rows == m & e.cols == n, "reported size"); } sym_check(threw == (m != n), "inversion of a non-square matrix is rejected"); if (threw) sym_reach("thrown");
    threw = false; try { ok = inv(&b, a); } catch (const GeomException&) { threw = true; } sym_check(threw == (m != n | m != 2), "inversion into a differently sized matrix is rejected");
    threw = false; SM<2,2> s; try { ok = inv(&s, a); } catch (const GeomException&) { threw = true; } sym_check(threw == (m != n | m != 2), "inversion into a differently sized matrix is rejected");
    sym_reach("end");
}
