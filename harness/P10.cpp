//@ h_static   mode=real q=60 t=120 need=end
//@ h_dynamic  mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_iters    mode=real q=60 t=120 split=a:7 need=end
//@ h_diagperm mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_region   mode=real q=60 t=120 split=a:4,b:4 need=end
//@ h_copyreg  mode=real q=60 t=120 split=a:3,b:3 need=end
//@ h_copy     mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_mismatch mode=real q=60 t=120 split=m:3,n:3 need=end,thrown
//@ h_assign   mode=real q=60 t=120 split=m:3 need=end
//@ h_vec      mode=real q=60 t=120 split=m:4 need=end,thrown
//@ h_ctor     mode=real q=60 t=120 need=end
//@ h_ident    mode=real q=60 t=120 split=m:4,n:4 need=end
//@ h_equal    mode=real q=60 t=120 split=k:8 need=same,differ
//@ h_eqdims   mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_empty    mode=real q=60 t=120 split=m:2,n:2 need=end
//@ h_back     mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_large    mode=real q=60 t=120 split=w:5 need=end
//@bounds dimensions one to four and selected ones up to six, static and runtime; every element, every position and every region; row- and column-major, owned and wrapped storage, dense, diagonal and permutation matrices
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
template <typename Mx> static void access(Mx& m, const char* msg) {
    index_t R = m.rows(), C = m.cols(); Ref e = ref(m); const Mx& cm = m;
    for (index_t i = 0; i < R; ++i) for (index_t j = 0; j < C; ++j) {
        sym_check_eq(m[i][j], e.e[i][j], msg); sym_check_eq(cm[i][j], e.e[i][j], msg); sym_check_eq(m.row(i)[j], e.e[i][j], msg); sym_check_eq(m.col(j)[i], e.e[i][j], msg);
        sym_check_eq(*(cm.row(i) + j), e.e[i][j], msg); sym_check_eq(*(cm.col(j) + i), e.e[i][j], msg); sym_check_eq(cm(i,j), e.e[i][j], msg);
        sym_check_eq(m.begin()[i * C + j], e.e[i][j], "elements are iterated row by row"); sym_check_eq(*(cm.begin() + (i * C + j)), e.e[i][j], "elements are iterated row by row");
    }
    index_t n = 0; for (auto it = cm.begin(); it != cm.end() & n <= R * C; ++it, ++n) { if (n < R * C) sym_check_eq(*it, e.e[n / C][n % C], "elements are iterated row by row"); }
    sym_check(n == R * C & m.end() - m.begin() == R * C & cm.end() - cm.begin() == R * C, "number of elements iterated");
    // each write changes exactly one element
    for (index_t i = 0; i < R; ++i) for (index_t j = 0; j < C; ++j) {
        T v = sym_f64("v"); e.e[i][j] = v;
        switch ((i * C + j) % 5) { case 0: m.set(i, j, v); break; case 1: m(i,j) = v; break; case 2: m[i][j] = v; break; case 3: m.col(j)[i] = v; break; default: *(m.begin() + (i * C + j)) = v; }
        sameM(m, e, "a write changes exactly one element");
    }
}
extern "C" void h_static() {
    SM<2,3> a; SM<3,2,COL_MAJOR> b; SM<1,4> c; SM<4,1,COL_MAJOR> d; fill(a, "a"); fill(b, "b"); fill(c, "c"); fill(d, "d");
    sym_check(a.rows() == 2 & a.cols() == 3 & b.rows() == 3 & b.cols() == 2, "dimensions");
    for (int i = 0; i < 6; ++i) { sym_check_eq(a.data_begin()[i], a(i / 3, i % 3), "row-major storage order"); sym_check_eq(b.data_begin()[i], b(i % 3, i / 3), "column-major storage order"); }
    sym_check(a.data_end() - a.data_begin() == 6 & b.data_end() - b.data_begin() == 6, "storage size");
    access(a, "row-major access"); access(b, "column-major access"); access(c, "row access"); access(d, "column access");
    T raw[6]; for (T& x : raw) x = sym_f64("w"); WrapperMatrix<T,2,3> w(raw); WrapperMatrix<T,2,3,COL_MAJOR> wc(raw);
    access(w, "wrapped access"); for (int i = 0; i < 6; ++i) sym_check_eq(raw[i], w(i / 3, i % 3), "writes reach the wrapped array");
    access(wc, "wrapped access"); for (int i = 0; i < 6; ++i) sym_check_eq(raw[i], wc(i % 2, i / 2), "writes reach the wrapped array");
    sym_reach("end");
}
extern "C" void h_dynamic() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n");
    SM<0,0> a = mk<SM<0,0>>(m, n, "a"); SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(m, n, "b");
    sym_check(a.rows() == m & a.cols() == n & b.rows() == m & b.cols() == n, "runtime dimensions");
    for (index_t i = 0; i < m; ++i) for (index_t j = 0; j < n; ++j) { sym_check_eq(a.data_begin()[i * n + j], a(i,j), "row-major storage order"); sym_check_eq(b.data_begin()[j * m + i], b(i,j), "column-major storage order"); }
    access(a, "row-major access"); access(b, "column-major access");
    SM<0,2> c = mk<SM<0,2>>(m, 2, "c"); SM<3,0,COL_MAJOR> d = mk<SM<3,0,COL_MAJOR>>(3, n, "d"); sym_check(c.rows() == m & c.cols() == 2 & d.rows() == 3 & d.cols() == n, "partly runtime dimensions");
    access(c, "partly runtime access"); access(d, "partly runtime access");
    sym_reach("end");
}
template <typename I> static void arith(I b, index_t n, index_t x, const T* want) {
    for (index_t y = 0; y <= n; ++y) {
        I p = b + x, q = b; q += y; sym_check((p - q) == x - y & (p == q) == (x == y) & (p < q) == (x < y), "iterator difference and comparison");
        if (y < n) { I r = p; r += y - x; sym_check_eq(*r, want[y], "iterator advance"); sym_check_eq(p[y - x], want[y], "iterator index"); }
        if (y > 0) { I r = b + y; --r; sym_check_eq(*r, want[y - 1], "iterator decrement"); sym_check(r - b == y - 1, "iterator decrement"); }
        if (y < n) { I r = b + y; sym_check_eq(*r++, want[y], "iterator postincrement"); sym_check(r - b == y + 1, "iterator increment"); }
    }
}
extern "C" void h_iters() {
    index_t x = sym_choose(7, "a"); SM<2,3> a; SM<2,3,COL_MAJOR> b; fill(a, "a"); fill(b, "b");
    const SM<2,3>& ca = a; const SM<2,3,COL_MAJOR>& cb = b; T wa[6], wb[6]; for (int i = 0; i < 6; ++i) { wa[i] = a(i / 3, i % 3); wb[i] = b(i / 3, i % 3); }
    arith(a.begin(), 6, x, wa); arith(ca.begin(), 6, x, wa); arith(b.begin(), 6, x, wb); arith(cb.begin(), 6, x, wb);
    // columns of a row-major matrix follow one another, like rows
    T ta[6], tb[6]; for (int i = 0; i < 6; ++i) { ta[i] = a(i % 2, i / 2); tb[i] = b(i % 2, i / 2); }
    arith(a.col(0), 6, x, ta); arith(ca.col(0), 6, x, ta); arith(b.col(0), 6, x, tb); arith(cb.col(0), 6, x, tb);
    MatrixRegion all(Vec<index_t,2>(0, 0), Vec<index_t,2>(1, 2)); arith(a.region_begin(all), 6, x, wa); arith(cb.region_begin(all), 6, x, wb);
    DM<2,3> d; fill(d, "d"); T wd[6]; for (int i = 0; i < 6; ++i) wd[i] = d(i / 3, i % 3); arith(d.begin(), 6, x, wd); auto di = d.begin(); sym_check((di.begin() == d.begin()) & (di.end() == d.end()), "range of an iterator"); const auto& cd = d; auto ci = cd.begin() + 2; sym_check((ci.begin() == cd.begin()) & (ci.end() == cd.end()), "range of an iterator");
    sym_reach("end");
}
template <typename Mx> static void caccess(const Mx& m, const char* msg) {
    index_t R = m.rows(), C = m.cols(), n = 0; auto it = m.begin();
    for (; it != m.end() & n <= R * C; ++it, ++n) if (n < R * C) sym_check_eq(*it, m(n / C, n % C), msg);
    sym_check(n == R * C & m.end() - m.begin() == n, msg);
    for (index_t i = 0; i < R; ++i) for (index_t j = 0; j < C; ++j) { sym_check_eq(*(m.row(i) + j), m(i,j), msg); sym_check_eq(m[i][j], m(i,j), msg); }
}
extern "C" void h_diagperm() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"), k = m < n ? m : n;
    DM<0,0> d = mk<DM<0,0>>(m, n, "d"); sym_check(d.rows() == m & d.cols() == n & d.diagonal_end() - d.diagonal_begin() == k, "dimensions of a diagonal matrix");
    for (index_t i = 0; i < m; ++i) for (index_t j = 0; j < n; ++j) sym_check_eq(d(i,j), i == j ? d.diagonal(i) : 0, "elements of a diagonal matrix");
    caccess(d, "diagonal iteration");
    T v = sym_f64("v"); d.diagonal(k - 1) = v; sym_check_eq(d(k - 1, k - 1), v, "diagonal write"); if (k > 1) sym_check_eq(d(0,0), d.diagonal_begin()[0], "diagonal write");
    if (n == 1) { PM<0> p = mk<PM<0>>(m, m, "p"); PM<3> q; fill(q, "q"); caccess(p, "permutation iteration"); caccess(q, "permutation iteration");
        for (index_t i = 0; i < m; ++i) for (index_t j = 0; j < m; ++j) sym_check(p(i,j) == (p.getRowSources()[i] == j), "elements of a permutation matrix"); }
    T src[3]; for (T& x : src) x = sym_f64("s"); DM<3,3> e(src); DM<0,0> f(src, k);
    sym_check(f.rows() == k & f.cols() == k, "diagonal matrix from an array"); for (int i = 0; i < 3; ++i) sym_check_eq(e(i,i), src[i], "diagonal matrix from an array"); for (int i = 0; i < k; ++i) sym_check_eq(f(i,i), src[i], "diagonal matrix from an array");
    d.set_zero(); sameM(d, Ref(m, n), "zero diagonal matrix"); d.set_identity(); Ref id(m, n); for (int i = 0; i < k; ++i) id.e[i][i] = 1; sameM(d, id, "identity diagonal matrix");
    sym_reach("end");
}
extern "C" void h_region() {
    SM<4,4> a; SM<4,4,COL_MAJOR> b; fill(a, "a"); fill(b, "b"); const SM<4,4>& ca = a; Ref ra = ref(a), rb = ref(b);
    index_t i0 = sym_choose(4, "a"), j0 = sym_choose(4, "b"), i1 = i0 + sym_choose(4 - i0, "h"), j1 = j0 + sym_choose(4 - j0, "w");
    MatrixRegion r(Vec<index_t,2>(i0, j0), Vec<index_t,2>(i1, j1)); index_t w = j1 - j0 + 1, tot = (i1 - i0 + 1) * w, n = 0;
    auto q = ca.region_begin(r); for (auto p = b.region_begin(r); p != b.region_end(r) & n <= tot; ++p, ++q, ++n) if (n < tot) { index_t i = i0 + n / w, j = j0 + n % w; sym_check_eq(*p, b(i,j), "region elements"); sym_check_eq(*q, a(i,j), "region elements"); sym_check(p.point()[0] == i & p.point()[1] == j, "position of a region iterator"); T v = sym_f64("v"); *p = v; rb.e[i][j] = v; }
    sym_check(n == tot, "number of region elements"); sym_check(a.region_end(r) - a.region_begin(r) == tot, "size of a region");
    sameM(b, rb, "writes through a region change exactly the region");
    for (n = tot; n > 0;) { --q; --n; index_t i = i0 + n / w, j = j0 + n % w; sym_check_eq(*q, a(i,j), "region elements backwards"); sym_check_eq(*(ca.region_begin(r) + n), a(i,j), "region advance"); sym_check_eq(*(ca.region_end(r) - (tot - n)), a(i,j), "region advance backwards"); }
    sameM(a, ra, "reads change nothing");
    sym_reach("end");
}
extern "C" void h_copyreg() {
    SM<3,3> a; SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(4, 4, "b"); fill(a, "a"); Ref ra = ref(a), rb = ref(b);
    index_t i0 = sym_choose(3, "a"), j0 = sym_choose(3, "b"), h = 1 + sym_choose(3 - i0, "h"), w = 1 + sym_choose(3 - j0, "w"), y = sym_choose(5 - h, "y"), x = sym_choose(5 - w, "x");
    copyMatrixRegion(a, b, MatrixRegion(Vec<index_t,2>(i0, j0), Vec<index_t,2>(i0 + h - 1, j0 + w - 1)), Vec<index_t,2>(y, x));
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) rb.e[y + i][x + j] = ra.e[i0 + i][j0 + j];
    sameM(b, rb, "copied region"); sameM(a, ra, "source of a region copy"); sym_reach("end");
}
extern "C" void h_copy() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n");
    SM<0,0> a = mk<SM<0,0>>(m, n, "a"); SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(m, n, "b"); DM<0,0> d = mk<DM<0,0>>(m, n, "d"); Ref ra = ref(a), rb = ref(b);
    { SM<0,0> x = mk<SM<0,0>>(m, n, "x"); mtxcopy(&x, b); sameM(x, rb, "copy across storage order"); mtxcopy(&x, a); sameM(x, ra, "copy"); mtxcopy(&x, d); sameM(x, ref(d), "copy of a diagonal matrix"); }
    { SM<0,0,COL_MAJOR> x = mk<SM<0,0,COL_MAJOR>>(m, n, "x"); mtxcopy(&x, b); sameM(x, rb, "copy of column-major"); mtxcopy(&x, a); sameM(x, ra, "copy across storage order"); mtxcopy(&x, d); sameM(x, ref(d), "copy of a diagonal matrix"); }
    { DM<0,0> x(m, n); mtxcopy(&x, d); sameM(x, ref(d), "diagonal copy"); }
    { SM<0,0> x(b); sameM(x, rb, "construction from the other storage order"); SM<0,0,COL_MAJOR> y(a), z(b); sameM(y, ra, "construction from the other storage order"); sameM(z, rb, "copy construction"); SM<0,0> w(d); sameM(w, ref(d), "construction from a diagonal matrix"); T v = sym_f64("v"); x(0,0) = v; z(0,0) = v; sameM(b, rb, "copies are independent"); }
    { PM<0> p = mk<PM<0>>(m, m, "p"); if (n == 1) { SM<0,0> x(p); sameM(x, ref(p), "construction from a permutation"); SM<0,0,COL_MAJOR> y(m, m); mtxcopy(&y, p); sameM(y, ref(p), "copy of a permutation"); PM<0> q(m); mtxcopy(&q, p); sameM(q, ref(p), "permutation copy"); for (int i = 0; i < m; ++i) sym_check(q.getColSources()[p.getRowSources()[i]] == i, "permutation copy has the inverse too"); } }
    if (m == 2 & n == 3) { SM<2,3> x(a); sameM(x, ra, "static from runtime size"); SM<2,3,COL_MAJOR> y(a); sameM(y, ra, "static from runtime size"); SM<2,3> z; mtxcopy(&z, b); sameM(z, rb, "static from runtime size"); SM<0,0> w(z); sameM(w, rb, "runtime size from static"); SM<0,3> u(y); sameM(u, ra, "partly static"); SM<2,0> t(u); sameM(t, ra, "partly static");
        T raw[6]; WrapperMatrix<T,2,3> wr(raw); mtxcopy(&wr, a); sameM(wr, ra, "copy into wrapped storage"); SM<2,3> o(wr); sameM(o, ra, "copy out of wrapped storage"); DM<2,3> dd; mtxcopy(&dd, d); sameM(dd, ref(d), "static diagonal copy"); SM<2,3> od(d); sameM(od, ref(d), "static from diagonal"); }
    sym_reach("end");
}
template <typename F> static bool throws(F f) { try { f(); } catch (const DimensionMismatchException&) { return true; } return false; }
extern "C" void h_mismatch() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); bool bad = m != 2 | n != 3;
    SM<0,0> a = mk<SM<0,0>>(m, n, "a"); SM<0,0> b = mk<SM<0,0>>(2, 3, "b"); SM<2,3> s; fill(s, "s"); SM<2,3,COL_MAJOR> c; fill(c, "c"); DM<0,0> d = mk<DM<0,0>>(m, n, "d"); DM<2,3> e; fill(e, "e"); Ref rb = ref(b), rs = ref(s), rc = ref(c), re = ref(e);
    bool t = throws([&] { mtxcopy(&b, a); }); sym_check(t == bad, "copy between runtime sizes is rejected exactly when they differ"); if (bad) sameM(b, rb, "rejected copy");
    sym_check(throws([&] { mtxcopy(&s, a); }) == bad, "copy into a static size is rejected exactly when they differ"); if (bad) sameM(s, rs, "rejected copy");
    sym_check(throws([&] { mtxcopy(&c, a); }) == bad, "copy into a static size is rejected exactly when they differ"); if (bad) sameM(c, rc, "rejected copy");
    sym_check(throws([&] { mtxcopy(&e, d); }) == bad, "diagonal copy is rejected exactly when the sizes differ"); if (bad) sameM(e, re, "rejected copy");
    sym_check(throws([&] { mtxcopy(&a, s); }) == bad, "copy from a static size is rejected exactly when they differ");
    sym_check(throws([&] { SM<2,3> x(a); sameM(x, ref(a), "constructed copy"); }) == bad, "construction of a static size is rejected exactly when the sizes differ");
    sym_check(throws([&] { SM<2,0> x(a); sameM(x, ref(a), "constructed copy"); }) == (m != 2), "construction of a partly static size is rejected exactly when the sizes differ");
    sym_check(throws([&] { SM<2,3,COL_MAJOR> x(d); sameM(x, ref(d), "constructed copy"); }) == bad, "construction of a static size is rejected exactly when the sizes differ");
    if (bad) sym_reach("thrown");
    sym_reach("end");
}
extern "C" void h_assign() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n");
    SM<0,0> a = mk<SM<0,0>>(m, n, "a"), b = mk<SM<0,0>>(2, 2, "b"); Ref ra = ref(a); b = a; sameM(b, ra, "assignment takes the size and elements"); b(0,0) = 1; sameM(a, ra, "assigned copy is independent"); SM<0,0> c(std::move(b)); ra.e[0][0] = 1; sameM(c, ra, "move construction"); SM<0,0> d(1, 1); d = std::move(c); sameM(d, ra, "move assignment"); d = d; sameM(d, ra, "self assignment");
    DM<0,0> e = mk<DM<0,0>>(m, n, "e"), f = mk<DM<0,0>>(2, 3, "f"); f = e; sameM(f, ref(e), "diagonal assignment"); DM<0,0> g(f); sameM(g, ref(e), "diagonal copy"); g.diagonal(0) = 5; sameM(f, ref(e), "diagonal copies are independent");
    PM<0> p = mk<PM<0>>(m, m, "p"), q = mk<PM<0>>(2, 2, "q"); q = p; sameM(q, ref(p), "permutation assignment"); PM<3> r, s; fill(r, "r"); s = r; sameM(s, ref(r), "permutation assignment"); r.transpose(); s = r; sameM(s, ref(r), "assignment of a transposed permutation"); for (int i = 0; i < 3; ++i) sym_check(s.getColSources()[s.getRowSources()[i]] == i, "assigned permutation is consistent");
    SM<2,3,COL_MAJOR> u, v; fill(u, "u"); v = u; sameM(v, ref(u), "static assignment");
    sym_reach("end");
}
extern "C" void h_vec() {
    index_t m = 1 + sym_choose(4, "m"); Vec<T,3> v = vecn<3>("v"), w = v; SM<3,1> k; SM<1,3> r; SM<0,1> dk = mk<SM<0,1>>(m, 1, "dk"); SM<1,0> dr = mk<SM<1,0>>(1, m, "dr"); SM<0,0> x = mk<SM<0,0>>(m, 1, "x"), y = mk<SM<0,0>>(1, m, "y"), z = mk<SM<0,0>>(m, 2, "z");
    mtxcopy(&k, v); sameM(k, refc(v), "vector into a column"); mtxcopy(&r, v); sameM(r, refr(v), "vector into a row"); fill(k, "k"); fill(r, "r");
    mtxcopy(&w, k); for (int i = 0; i < 3; ++i) sym_check_eq(w[i], k(i,0), "column into a vector"); mtxcopy(&w, r); for (int i = 0; i < 3; ++i) sym_check_eq(w[i], r(0,i), "row into a vector");
    sym_check(throws([&] { mtxcopy(&w, dk); }) == (m != 3) & throws([&] { mtxcopy(&w, dr); }) == (m != 3), "copy between a vector and a runtime size is rejected exactly when the sizes differ");
    sym_check(throws([&] { mtxcopy(&dk, v); }) == (m != 3) & throws([&] { mtxcopy(&dr, v); }) == (m != 3), "copy between a vector and a runtime size is rejected exactly when the sizes differ");
    sym_check(throws([&] { mtxcopy(&x, v); }) == (m != 3) & throws([&] { mtxcopy(&y, v); }) == (m != 3) & throws([&] { mtxcopy(&w, x); }) == (m != 3) & throws([&] { mtxcopy(&w, y); }) == (m != 3), "copy between a vector and a runtime size is rejected exactly when the sizes differ");
    sym_check(throws([&] { mtxcopy(&z, v); }) & throws([&] { mtxcopy(&w, z); }), "copy between a vector and a matrix that is neither a row nor a column is rejected");
    if (m == 3) { sameM(dk, refc(v), "vector into a runtime column"); sameM(dr, refr(v), "vector into a runtime row"); sameM(x, refc(v), "vector into a runtime column"); sameM(y, refr(v), "vector into a runtime row"); for (int i = 0; i < 3; ++i) sym_check_eq(w[i], v[i], "runtime matrix into a vector"); } else sym_reach("thrown");
    sym_reach("end");
}
extern "C" void h_ctor() {
    T s[6]; for (T& x : s) x = sym_f64("s"); const T* cs = s;
    SM<2,3> a(cs); SM<2,3,COL_MAJOR> b(cs); SM<0,0> c(cs, 3, 2); SM<0,0,COL_MAJOR> d(cs, 3, 2);
    for (int i = 0; i < 6; ++i) { sym_check_eq(a(i / 3, i % 3), s[i], "from a row-major array"); sym_check_eq(b(i % 2, i / 2), s[i], "from a column-major array"); sym_check_eq(c(i / 2, i % 2), s[i], "from a row-major array"); sym_check_eq(d(i % 3, i / 3), s[i], "from a column-major array"); }
    SM<2,3> e({s[0], s[1], s[2], s[3], s[4], s[5]}); SM<2,3,COL_MAJOR> f({s[0], s[1], s[2], s[3], s[4], s[5]}); SM<0,0> g({s[0], s[1], s[2], s[3], s[4], s[5]}, 2, 3);
    SimpleMatrix<T,2,3,ROW_MAJOR,STORAGE_SHARED> sh({s[0], s[1], s[2], s[3], s[4], s[5]}); SimpleMatrix<T,0,0,COL_MAJOR,STORAGE_SHARED> sd({s[0], s[1], s[2], s[3], s[4], s[5]}, 2, 3), se = sd; SimpleMatrix<T,2,3,ROW_MAJOR,STORAGE_SHARED> si = sh; sym_check(sd.rows() == 2 && sd.cols() == 3, "shape of a shared matrix");
    for (int i = 0; i < 6; ++i) { sym_check_eq(sh(i / 3, i % 3), s[i], "shared, from a row-major list"); sym_check_eq(sd(i % 2, i / 2), s[i], "shared, from a column-major list"); } sd.set(1, 2, s[0] + 1); sym_check_eq(se(1, 2), s[0] + 1, "copies of a runtime-sized shared matrix are one matrix"); si.set(0, 0, s[1] + 1); sym_check_eq(sh(0, 0), s[0], "copies of a static matrix are independent");
    for (int i = 0; i < 6; ++i) { sym_check_eq(e(i / 3, i % 3), s[i], "from a row-major list"); sym_check_eq(f(i % 2, i / 2), s[i], "from a column-major list"); sym_check_eq(g(i / 3, i % 3), s[i], "from a row-major list"); }
    Vec<T,3> u = vecn<3>("u"), v = vecn<3>("v");
    SM<2,3> h{u, v}; SM<3,2,COL_MAJOR> k{u, v}; SM<0,3> l{u, v}; for (int i = 0; i < 3; ++i) { sym_check_eq(h(0,i), u[i], "from rows"); sym_check_eq(h(1,i), v[i], "from rows"); sym_check_eq(k(i,0), u[i], "from columns"); sym_check_eq(k(i,1), v[i], "from columns"); sym_check_eq(l(0,i), u[i], "from rows"); sym_check_eq(l(1,i), v[i], "from rows"); } sym_check(l.rows() == 2, "number of rows");
    WrapperMatrix<T,0,2> w(s, 3); WrapperMatrix<T,0,0,COL_MAJOR> x(s, 2, 3); sym_check(w.rows() == 3 & w.cols() == 2 & x.rows() == 2 & x.cols() == 3, "dimensions of a wrapper"); for (int i = 0; i < 6; ++i) { sym_check_eq(w(i / 2, i % 2), s[i], "wrapper"); sym_check_eq(x(i % 2, i / 2), s[i], "wrapper"); }
    sym_reach("end");
}
extern "C" void h_ident() {
    index_t m = 1 + sym_choose(4, "m"), n = 1 + sym_choose(4, "n"); Ref id(m, n), z(m, n); for (int i = 0; i < m & i < n; ++i) id.e[i][i] = 1;
    SM<0,0> a(m, n); SM<0,0,COL_MAJOR> b(m, n); sameM(a, id, "new matrices are the identity"); sameM(b, id, "new matrices are the identity"); fill(a, "a"); fill(b, "b"); a.set_identity(); b.set_identity(); sameM(a, id, "identity"); sameM(b, id, "identity"); fill(a, "a"); fill(b, "b"); a.set_zero(); b.set_zero(); sameM(a, z, "zero"); sameM(b, z, "zero");
    DM<0,0> d(m, n); sameM(d, id, "new diagonal matrices are the identity"); PM<0> p(m); Ref ip(m, m); for (int i = 0; i < m; ++i) ip.e[i][i] = 1; sameM(p, ip, "new permutations are the identity"); fill(p, "p"); p.set_identity(); sameM(p, ip, "identity permutation"); sym_check(p.sign() == 1, "sign of the identity");
    T raw[6]; for (T& x : raw) x = sym_f64("r"); WrapperMatrix<T,2,3> w(raw); for (int i = 0; i < 6; ++i) sym_check_eq(raw[i], w(i / 3, i % 3), "wrapping keeps the elements"); w.set_identity(); for (int i = 0; i < 6; ++i) sym_check_eq(raw[i], i % 4 == 0, "identity of a wrapper");
    sym_reach("end");
}
extern "C" void h_equal() {
    index_t k = sym_choose(8, "k"); SM<2,2> a; fill(a, "a"); SM<0,0> b = mk<SM<0,0>>(2, 2, "b"); SM<2,2,COL_MAJOR> c; fill(c, "c"); DM<2,2> d; fill(d, "d"); DM<0,0> e = mk<DM<0,0>>(2, 2, "e"); PM<2> p; fill(p, "p"); PM<0> q = mk<PM<0>>(2, 2, "q"); SM<2,2> f; fill(f, "f");
    auto cmp = [&](const auto& x, const auto& y) { Ref u = ref(x), v = ref(y); bool r = x == y, s = x != y, t = y == x, want = true; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) want = want & (u.e[i][j] == v.e[i][j]); sym_check(r == want, "equality compares every element"); sym_check(s == !want, "inequality"); sym_check(t == want, "equality is symmetric"); sym_reach(r ? "same" : "differ"); };
    switch (k) { case 0: cmp(a, b); break; case 1: cmp(a, c); break; case 2: cmp(a, d); break; case 3: cmp(d, e); break; case 4: cmp(a, p); break; case 5: cmp(p, q); break; case 6: cmp(a, f); break; default: cmp(e, q); }
}
extern "C" void h_eqdims() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); bool ok = m == 2 & n == 3; SM<2,3> s; fill(s, "s"); SM<0,0> a(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i,j) = i < 2 ? s(i,j) : 0;
    sym_check((a == s) == ok & (s == a) == ok & (a != s) == !ok, "matrices of different size are unequal"); DM<2,3> d; DM<0,0> e(m, n); sym_check((d == e) == ok & (e == d) == ok, "diagonal matrices of different size are unequal"); SM<3,2> t; sym_check(!(s == t) & (s != t), "matrices of different static size are unequal");
    PM<0> p(m), q(n); sym_check((p == q) == (m == n), "permutations of different size are unequal"); sym_reach("end");
}
// matrices without rows or columns: nothing to iterate, copy or compare
extern "C" void h_empty() {
    index_t m = sym_choose(2, "m") * 3, n = m ? 0 : sym_choose(2, "n") * 3; SM<0,0> a(m, n), o(m, n); SM<0,0,COL_MAJOR> c(m, n), e(m, n); int k = 0; for (T x : a) k += 1 + (x != 0); for (T x : c) k += 1 + (x != 0); sym_check(k == 0, "nothing to iterate"); sym_check(a.end() - a.begin() == 0 & c.end() - c.begin() == 0, "no elements"); const auto& cc = c; sym_check(cc.end() - cc.begin() == 0, "no elements");
    sym_check(a == c & c == a & a == o & c == e & !(a != c), "empty matrices of one size are equal"); mtxcopy(&c, a); mtxcopy(&a, c); mtxcopy(&o, a); mtxcopy(&e, c); SM<0,0> p(c); SM<0,0,COL_MAJOR> q(a); sym_check(p == c & q == a & p.rows() == m & p.cols() == n, "copies of empty matrices"); a = c; sym_check(a.rows() == m & a.cols() == n, "assignment of empty matrices");
    DM<0,0> d(n, n); for (T* i = d.diagonal_begin(); i != d.diagonal_end(); ++i) ++k; sym_check(k == n, "diagonal has one element per row"); sym_reach("end");
}
// iterators of every kind step back, and diagonals are read and written by index
extern "C" void h_back() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); SM<0,0> a = mk<SM<0,0>>(m, n, "a"); SM<0,0,COL_MAJOR> c(m, n); mtxcopy(&c, a); DM<0,0> d = mk<DM<0,0>>(m, n, "d"); PM<0> p(m); { index_t s[3]; for (int i = 0; i < m; ++i) s[i] = (i + 1) % m; p.setRowSources(s); }
    auto back = [&](const auto& x) { index_t R = x.rows(), C = x.cols(); for (index_t i = 0; i < R; ++i) { auto t = x.row(i) + C; for (index_t j = C - 1; j >= 0; --j) { --t; sym_check_eq(*t, T(x(i,j)), "row read backwards"); } sym_check(t == x.row(i), "back at the first element of the row"); } for (index_t j = 0; j < C; ++j) { auto t = x.col(j) + R; for (index_t i = R - 1; i >= 0; --i) { --t; sym_check_eq(*t, T(x(i,j)), "column read backwards"); } sym_check(t == x.col(j), "back at the first element of the column"); } auto t = x.end(); for (index_t k = R * C - 1; k >= 0; --k) { --t; sym_check_eq(*t, T(x(k / C, k % C)), "elements read backwards"); } sym_check(t == x.begin(), "back at the first element"); };
    back(a); back(c); back(d); back(p); const DM<0,0>& cd = d; for (index_t i = 0; i < std::min(m, n); ++i) { sym_check_eq(cd.diagonal(i), T(d(i,i)), "diagonal by index"); d.diagonal(i) = i + 5; sym_check_eq(T(d(i,i)), T(i + 5), "diagonal written by index"); }
    T raw[3]; for (T& x : raw) x = sym_f64("r"); const T* cr = raw; DM<3,3> f(cr); DM<0,0> h(cr, 3); for (index_t i = 0; i < 3; ++i) { sym_check_eq(T(f(i,i)), raw[i], "diagonal from an array"); sym_check_eq(T(h(i,i)), raw[i], "diagonal from an array"); } sym_check(h.rows() == 3 & h.cols() == 3, "size of a diagonal from an array");
    sym_reach("end");
}
// larger matrices
extern "C" void h_large() {
    int w = sym_choose(5, "w");
    if (w == 0) { SM<0,0> a = mk<SM<0,0>>(5, 6, "a"); access(a, "row-major access"); SM<0,0,COL_MAJOR> b(a); sameM(b, ref(a), "copy to the other order"); sym_check(a == b, "a copy compares equal"); b(4,5) = b(4,5) + 1; sym_check(!(a == b), "one element differs"); }
    else if (w == 1) { SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(6, 4, "b"); access(b, "column-major access"); SM<6,4> c(b); sameM(c, ref(b), "copy to the other order"); SM<0,0> d(6, 4); d = b; sameM(d, ref(b), "assignment"); }
    else if (w == 2) { SM<6,5> a; SM<5,5,COL_MAJOR> b; fill(a, "a"); fill(b, "b"); access(a, "row-major access"); access(b, "column-major access"); b.set_identity(); Ref id(5, 5); for (int i = 0; i < 5; ++i) id.e[i][i] = 1; sameM(b, id, "identity"); a.set_zero(); sameM(a, Ref(6, 5), "zero"); }
    else if (w == 3) { SM<6,6> a; SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(6, 5, "b"); fill(a, "a"); Ref ra = ref(a), rb = ref(b); copyMatrixRegion(a, b, MatrixRegion(Vec<index_t,2>(1, 2), Vec<index_t,2>(5, 5)), Vec<index_t,2>(0, 1)); for (int i = 0; i < 5; ++i) for (int j = 0; j < 4; ++j) rb.e[i][j + 1] = ra.e[i + 1][j + 2]; sameM(b, rb, "copied region"); sameM(a, ra, "source unchanged"); T want[30]; MatrixRegion r(Vec<index_t,2>(1, 0), Vec<index_t,2>(5, 4)); for (int i = 0; i < 25; ++i) want[i] = a(1 + i / 5, i % 5); arith(a.region_begin(r), 25, 13, want); }
    else { DM<6,5> d; fill(d, "d"); caccess(d, "diagonal iteration"); DM<0,0> e = mk<DM<0,0>>(5, 6, "e"); caccess(e, "diagonal iteration"); SM<6,5> m(d); sameM(m, ref(d), "dense copy of a diagonal matrix"); static const index_t S[6] = {3, 0, 5, 1, 2, 4}; PM<6> p; p.setRowSources(S); caccess(p, "permutation iteration"); SM<0,0> q(p); sameM(q, ref(p), "dense copy of a permutation"); for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) sym_check(p(i,j) == (S[i] == j), "elements of a permutation matrix"); }
    sym_reach("end");
}
