//@ h_dense    mode=real q=60 t=120 need=end
//@ h_dynamic  mode=real q=60 t=120 split=k:4 need=end
//@ h_diag     mode=real q=60 t=120 need=end
//@ h_diag_dyn mode=real q=60 t=120 split=m:3,n:3 need=end
//@ h_perm     mode=real q=60 t=120 need=end
//@ h_vec      mode=real q=60 t=120 need=end
//@ h_into     mode=real q=60 t=120 need=end
//@ h_alias    mode=real q=60 t=120 need=end
//@ h_overlap  mode=real q=60 t=120 split=off:4 need=end
//@ h_acc      mode=real q=60 t=120 need=end
//@ h_addsub   mode=real q=60 t=120 need=end
//@ h_scale    mode=real q=60 t=120 need=end
//@ h_transpose mode=real q=60 t=120 need=end
//@ h_dims     mode=real q=60 t=120 split=m:3,n:3 need=end,thrown
//@ h_dyn_more mode=real q=60 t=120 split=m:3,n:3 need=end,thrown
//@ h_large    mode=real q=60 t=120 split=w:6 need=end
//@ h_empty    mode=real q=60 t=120 split=m:2,n:2 need=end
//@bounds all element values and all permutations; dimensions one to four (and selected ones up to six); row- and column-major, owned and wrapped storage, static and runtime sizes, destinations distinct from, equal to or overlapping the operands
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
#include <stdexcept>
extern "C" void h_dense() {
    SM<2,3> a; SM<3,4> b; SM<2,3,COL_MAJOR> ac; SM<3,4,COL_MAJOR> bc; SM<4,1> k; SM<3,3> s;
    fill(a, "a"); fill(b, "b"); fill(ac, "c"); fill(bc, "d"); fill(k, "k"); fill(s, "s");
    sameM(a * b, mulr(ref(a), ref(b)), "row-major product"); sameM(ac * bc, mulr(ref(ac), ref(bc)), "column-major product");
    sameM(a * bc, mulr(ref(a), ref(bc)), "mixed product"); sameM(ac * b, mulr(ref(ac), ref(b)), "mixed product");
    sameM(b * k, mulr(ref(b), ref(k)), "product with a column"); sameM(a * s, mulr(ref(a), ref(s)), "product with a square"); sameM(mul(a, s), mulr(ref(a), ref(s)), "mul");
    T raw[6] = {1, 2, 3, 4, 5, 6}; for (T& x : raw) x = sym_f64("w");
    WrapperMatrix<T,2,3> wr(raw); WrapperMatrix<T,3,2,COL_MAJOR> wc(raw);
    for (int i = 0; i < 6; ++i) { sym_check_eq(wr(i / 3, i % 3), raw[i], "row-major wrapper"); sym_check_eq(wc(i % 3, i / 3), raw[i], "column-major wrapper"); }
    sameM(wr * s, mulr(ref(wr), ref(s)), "product of a wrapper"); sameM(s * wc, mulr(ref(s), ref(wc)), "product with a wrapper"); sameM(wr * wc, mulr(ref(wr), ref(wc)), "product of overlapping wrappers");
    sym_reach("end");
}
extern "C" void h_dynamic() {
    index_t m = sym_choose(4, "k"), n = m == 3 ? 1 : 3 - m, k = 1 + (m * 2) % 3; m += 1; 
    SM<0,0> a = mk<SM<0,0>>(m, k, "a"); SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(k, n, "b");
    sameM(a * b, mulr(ref(a), ref(b)), "runtime-sized product");
    SM<0,0,COL_MAJOR> d(m, n); mul(&d, a, b); sameM(d, mulr(ref(a), ref(b)), "runtime-sized destination");
    SM<3,3> s; fill(s, "s"); SM<0,3> r = mk<SM<0,3>>(m, 3, "r"); SM<3,0> c = mk<SM<3,0>>(3, n, "c"); SM<0,0> x = mk<SM<0,0>>(3, n, "x"), y = mk<SM<0,0>>(m, 3, "y");
    sameM(r * s, mulr(ref(r), ref(s)), "partly runtime-sized product"); sameM(s * c, mulr(ref(s), ref(c)), "partly runtime-sized product"); sameM(r * c, mulr(ref(r), ref(c)), "partly runtime-sized product");
    sameM(s * x, mulr(ref(s), ref(x)), "static by runtime product"); sameM(y * s, mulr(ref(y), ref(s)), "runtime by static product");
    Vec<T,3> v = vecn<3>("v"); sameM(y * v, mulr(ref(y), refc(v)), "runtime matrix by vector"); sameM(v * x, mulr(refr(v), ref(x)), "vector by runtime matrix");
    sym_reach("end");
}
extern "C" void h_diag() {
    DM<3,3> d; DM<2,3> w; DM<3,2> t; fill(d, "d"); fill(w, "w"); fill(t, "t");
    SM<3,3> s; SM<2,3> a; SM<3,2,COL_MAJOR> b; SM<4,3> h; fill(s, "s"); fill(a, "a"); fill(b, "b"); fill(h, "h");
    Ref D = ref(d), W = ref(w), TT = ref(t), S = ref(s), A = ref(a), B = ref(b);
    sameM(s * d, mulr(S, D), "matrix by diagonal"); sameM(d * s, mulr(D, S), "diagonal by matrix"); sameM(w * s, mulr(W, S), "wide diagonal by matrix"); sameM(s * t, mulr(S, TT), "matrix by tall diagonal");
    sameM(t * a, mulr(TT, A), "tall diagonal by matrix"); sameM(b * w, mulr(B, W), "matrix by wide diagonal"); sameM(w * b, mulr(W, B), "wide diagonal by matrix"); sameM(h * t, mulr(ref(h), TT), "matrix by tall diagonal");
    sameM(d * d, mulr(D, D), "diagonal by diagonal"); sameM(w * t, mulr(W, TT), "wide by tall diagonal"); sameM(t * w, mulr(TT, W), "tall by wide diagonal"); sameM(w * d, mulr(W, D), "wide by square diagonal");
    SM<3,3> o; mul(&o, d, d); sameM(o, mulr(D, D), "diagonal product into a dense matrix"); mul(&o, t, w); sameM(o, mulr(TT, W), "diagonal product into a dense matrix");
    DM<3,3> e; mul(&e, t, w); sameM(e, mulr(TT, W), "diagonal product into a diagonal matrix"); e = d; mul(&e, e, e); sameM(e, mulr(D, D), "in-place diagonal square");
    SM<3,3> p = s; p *= d; sameM(p, mulr(S, D), "in-place product with a diagonal");
    Vec<T,3> v = vecn<3>("v"); Vec<T,2> u = vecn<2>("u");
    sameR(refc(d * v), mulr(D, refc(v)), "diagonal by vector"); sameR(refr(v * d), mulr(refr(v), D), "vector by diagonal"); sameR(refc(w * v), mulr(W, refc(v)), "wide diagonal by vector"); sameR(refr(u * w), mulr(refr(u), W), "vector by wide diagonal");
    sym_reach("end");
}
extern "C" void h_diag_dyn() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n");
    DM<0,0> d(m, n), e(n, m); fill(d, "d"); fill(e, "e"); SM<0,0> a = mk<SM<0,0>>(n, 2, "a"), b = mk<SM<0,0,COL_MAJOR>>(2, m, "b");
    sameM(d * a, mulr(ref(d), ref(a)), "diagonal by matrix"); sameM(b * d, mulr(ref(b), ref(d)), "matrix by diagonal"); sameM(d * e, mulr(ref(d), ref(e)), "diagonal by diagonal");
    SM<0,0> o(m, m); mul(&o, d, e); sameM(o, mulr(ref(d), ref(e)), "diagonal product into a dense matrix");
    sameM(transpose(d), trr(ref(d)), "transpose of a diagonal"); SM<0,0> q(n, m); transpose(&q, d); sameM(q, trr(ref(d)), "dense transpose of a diagonal");
    sameM(d + d, addr(ref(d), ref(d), 1), "sum of diagonals"); SM<0,0> f = mk<SM<0,0>>(m, n, "f"); sameM(d - f, addr(ref(d), ref(f), -1), "difference of diagonal and dense"); sameM(2.0 * d, sclr(2, ref(d)), "scaled diagonal");
    sym_reach("end");
}
extern "C" void h_perm() {
    PM<3> p, q; fill(p, "p"); fill(q, "q"); SM<3,3> s; SM<3,2> a; SM<2,3,COL_MAJOR> b; DM<3,3> d; fill(s, "s"); fill(a, "a"); fill(b, "b"); fill(d, "d");
    Ref P = ref(p), Q = ref(q), S = ref(s), A = ref(a), B = ref(b), D = ref(d);
    sameM(p * s, mulr(P, S), "permutation by matrix"); sameM(s * p, mulr(S, P), "matrix by permutation"); sameM(p * a, mulr(P, A), "permutation by tall matrix"); sameM(b * p, mulr(B, P), "wide matrix by permutation");
    sameM(p * d, mulr(P, D), "permutation by diagonal"); sameM(d * p, mulr(D, P), "diagonal by permutation"); sameM(p * q, mulr(P, Q), "permutation by permutation");
    SM<3,3> o; mul(&o, p, q); sameM(o, mulr(P, Q), "permutation product into a dense matrix"); SM<3,3,COL_MAJOR> oc; mul(&oc, p, s); sameM(oc, mulr(P, S), "permuted rows into column-major"); mul(&oc, s, p); sameM(oc, mulr(S, P), "permuted columns into column-major");
    PM<3> r; mul(&r, p, q); sameM(r, mulr(P, Q), "permutation product into a permutation"); r = p; mul(&r, r, q); sameM(r, mulr(P, Q), "permutation product in place"); r = q; mul(&r, p, r); sameM(r, mulr(P, Q), "permutation product in place");
    SM<3,3> t = s; mul(&t, p, t); sameM(t, mulr(P, S), "rows permuted in place"); t = s; mul(&t, t, p); sameM(t, mulr(S, P), "columns permuted in place");
    Vec<T,3> v = vecn<3>("v"); sameR(refc(p * v), mulr(P, refc(v)), "permutation by vector"); sameR(refr(v * p), mulr(refr(v), P), "vector by permutation");
    Vec<T,3> w = v; mul(&w, p, w); sameR(refc(w), mulr(P, refc(v)), "vector permuted in place");
    PM<0> x(3), y(3); fill(x, "x"); y.setRowSources(p.getRowSources()); sameM(y, P, "runtime-sized permutation"); sameM(x * y, mulr(ref(x), P), "product of runtime-sized permutations"); sameM(y * s, mulr(P, S), "runtime permutation by matrix"); sameM(s * y, mulr(S, P), "matrix by runtime permutation"); sameR(refc(y * v), mulr(P, refc(v)), "runtime permutation by vector");
    sym_reach("end");
}
extern "C" void h_vec() {
    SM<2,3> a; SM<3,3,COL_MAJOR> s; SM<4,2> b; fill(a, "a"); fill(s, "s"); fill(b, "b"); Vec<T,2> v2 = vecn<2>("v2"); Vec<T,3> v3 = vecn<3>("v3"); Vec<T,4> v4 = vecn<4>("v4");
    sameR(refc(a * v3), mulr(ref(a), refc(v3)), "matrix by vector"); sameR(refr(v2 * a), mulr(refr(v2), ref(a)), "vector by matrix"); sameR(refc(s * v3), mulr(ref(s), refc(v3)), "matrix by vector"); sameR(refr(v3 * s), mulr(refr(v3), ref(s)), "vector by matrix");
    sameR(refc(b * v2), mulr(ref(b), refc(v2)), "matrix by vector"); sameR(refr(v4 * b), mulr(refr(v4), ref(b)), "vector by matrix");
    Vec<T,2> d; mul(&d, a, v3); sameR(refc(d), mulr(ref(a), refc(v3)), "into a vector"); SM<2,1> k; mul(&k, a, v3); sameM(k, mulr(ref(a), refc(v3)), "into a column matrix"); SM<1,3> l; mul(&l, v2, a); sameM(l, mulr(refr(v2), ref(a)), "into a row matrix");
    Vec<T,3> w = v3; mul(&w, s, w); sameR(refc(w), mulr(ref(s), refc(v3)), "vector transformed in place"); w = v3; mul(&w, w, s); sameR(refr(w), mulr(refr(v3), ref(s)), "vector transformed in place from the left");
    WrapperMatrix<T,3,3> wm(s.data_begin()); w = v3; mul(&w, wm, w); sameR(refc(w), mulr(ref(wm), refc(v3)), "vector transformed in place by a wrapper");
    sym_reach("end");
}
extern "C" void h_into() {
    SM<2,3> a; SM<3,2> b; fill(a, "a"); fill(b, "b"); Ref R = mulr(ref(a), ref(b));
    SM<2,2> d; fill(d, "d"); SM<2,2,COL_MAJOR> c; fill(c, "c"); SM<0,0> x(2, 2); SM<0,2> y(2, 2); T raw[4]; WrapperMatrix<T,2,2> w(raw);
    sameM(mul(&d, a, b), R, "returned destination"); sameM(d, R, "row-major destination"); mul(&c, a, b); sameM(c, R, "column-major destination"); mul(&x, a, b); sameM(x, R, "runtime destination"); mul(&y, a, b); sameM(y, R, "partly runtime destination"); mul(&w, a, b); sameM(w, R, "wrapped destination"); sym_check_eq(raw[1], R.e[0][1], "wrapped destination writes the array");
    SimpleMatrix<T,0,0,ROW_MAJOR,STORAGE_SHARED> s1(2,2), s2 = s1; mul(&s1, a, b); sameM(s2, R, "shared destination is seen through its copies");
    sameM(a, ref(a), "operand unchanged");
    sym_reach("end");
}
extern "C" void h_alias() {
    SM<2,2> m, n; fill(m, "m"); fill(n, "n"); Ref M = ref(m), N = ref(n);
    SM<2,2> d = m; mul(&d, d, n); sameM(d, mulr(M, N), "into the left operand"); d = n; mul(&d, m, d); sameM(d, mulr(M, N), "into the right operand"); d = m; mul(&d, d, d); sameM(d, mulr(M, M), "into both operands");
    SM<0,0> x = m; mul(&x, x, n); sameM(x, mulr(M, N), "runtime: into the left operand"); x = n; mul(&x, m, x); sameM(x, mulr(M, N), "runtime: into the right operand"); x = m; mul(&x, x, x); sameM(x, mulr(M, M), "runtime: into both operands");
    d = m; auto v = d.as_transpose(); sameM(v, trr(M), "transposed view"); mul(&d, v, n); sameM(d, mulr(trr(M), N), "into the matrix behind a transposed operand");
    d = m; mul(&v, n, d); sameM(v, mulr(N, M), "into the transposed view of an operand"); sameM(d, trr(mulr(N, M)), "the view writes the matrix");
    SimpleMatrix<T,0,0,ROW_MAJOR,STORAGE_SHARED> s(2,2), s2 = s; for (int i = 0; i < 4; ++i) s.set(i / 2, i % 2, M.e[i / 2][i % 2]); mul(&s2, s, n); sameM(s, mulr(M, N), "into a shared copy of an operand");
    DM<2,2> g; fill(g, "g"); Ref G = ref(g); d = m; mul(&d, d, g); sameM(d, mulr(M, G), "into the left of a diagonal product"); d = m; mul(&d, g, d); sameM(d, mulr(G, M), "into the right of a diagonal product"); DM<2,2> h = g; mul(&h, h, g); sameM(h, mulr(G, G), "diagonal into its operand");
    sym_check(mtx_aliases_storage(d, d) & mtx_aliases_storage(d, v) & mtx_aliases_storage(s, s2), "aliasing is reported"); sym_check(!mtx_aliases_storage(m, n) & !mtx_aliases_storage(m, g) & !mtx_aliases_storage(s, m), "distinct storage is not reported");
    sym_reach("end");
}
extern "C" void h_overlap() {     // partially overlapping wrappers
    T raw[10], b0[4]; for (T& x : raw) x = sym_f64("r"); for (T& x : b0) x = sym_f64("b"); index_t off = sym_choose(4, "off");
    WrapperMatrix<T,2,3> a(raw + 2); WrapperMatrix<T,2,3> d(raw + off); SM<3,3> s; fill(s, "s"); Ref A = ref(a), S = ref(s); 
    mul(&d, a, s); sameM(d, mulr(A, S), "product into overlapping storage");
    for (T& x : raw) x = sym_f64("q"); WrapperMatrix<T,2,2> p(raw + 3), q(raw + off); Ref P = ref(p); SM<2,2> n; fill(n, "n");
    sym_check(mtx_aliases_storage(p, q) & mtx_aliases_storage(q, p), "overlapping storage is reported"); WrapperMatrix<T,2,2> far(raw + 3 - 3), near(raw + 4); sym_check(!mtx_aliases_storage(far, near) & !mtx_aliases_storage(near, far), "adjacent storage is not reported");
    mul(&q, n, p); sameM(q, mulr(ref(n), P), "product into overlapping storage");
    for (T& x : raw) x = sym_f64("t"); P = ref(p); transpose(&q, p); sameM(q, trr(P), "transpose into overlapping storage");
    for (T& x : raw) x = sym_f64("u"); WrapperMatrix<T,2,3> e(raw + 2); WrapperMatrix<T,3,2> f(raw + off); Ref E = ref(e); transpose(&f, e); sameM(f, trr(E), "transpose into overlapping storage of another shape");

    sym_reach("end");
}
extern "C" void h_acc() {
    SM<2,3> a; SM<3,2> b; SM<2,2> d; SM<2,2,COL_MAJOR> c; fill(a, "a"); fill(b, "b"); fill(d, "d"); fill(c, "c"); Ref D = ref(d), C = ref(c), R = mulr(ref(a), ref(b));
    mul_acc(&d, a, b); sameM(d, addr(D, R, 1), "product added to the destination"); mul_acc(&c, a, b); sameM(c, addr(C, R, 1), "product added to a column-major destination");
    SM<0,0> x = mk<SM<0,0>>(2, 2, "x"); Ref X = ref(x); mul_acc(&x, a, b); sameM(x, addr(X, R, 1), "product added to a runtime destination");
    Vec<T,3> v = vecn<3>("v"), w = vecn<3>("w"); Vec<T,2> u = vecn<2>("u"); SM<3,3> s; fill(s, "s");
    Vec<T,2> u2 = u; mul_acc(&u2, a, v); sameR(refc(u2), addr(refc(u), mulr(ref(a), refc(v)), 1), "product added to a vector"); Vec<T,3> w2 = w; mul_acc(&w2, u, a); sameR(refr(w2), addr(refr(w), mulr(refr(u), ref(a)), 1), "left product added to a vector"); w2 = w; mul_acc(&w2, s, v); sameR(refc(w2), addr(refc(w), mulr(ref(s), refc(v)), 1), "square product added to a vector");
    SM<3,1> k; fill(k, "k"); Ref K = ref(k); mul_acc(&k, s, v); sameM(k, addr(K, mulr(ref(s), refc(v)), 1), "product added to a column"); SM<1,3> l; fill(l, "l"); Ref L = ref(l); mul_acc(&l, v, s); sameM(l, addr(L, mulr(refr(v), ref(s)), 1), "product added to a row");
    DM<2,2> g, h, o; fill(g, "g"); fill(h, "h"); fill(o, "o"); Ref O = ref(o), GH = mulr(ref(g), ref(h)); mul_acc(&o, g, h); sameM(o, addr(O, GH, 1), "diagonal product added to a diagonal"); fill(d, "e"); D = ref(d); mul_acc(&d, g, h); sameM(d, addr(D, GH, 1), "diagonal product added to a dense matrix");
    sym_reach("end");
}
extern "C" void h_addsub() {
    SM<2,3> a, b; SM<2,3,COL_MAJOR> c; DM<2,3> g, h; SM<0,0> x = mk<SM<0,0>>(2, 3, "x"); fill(a, "a"); fill(b, "b"); fill(c, "c"); fill(g, "g"); fill(h, "h");
    Ref A = ref(a), B = ref(b), C = ref(c), G = ref(g), H = ref(h), X = ref(x);
    sameM(a + b, addr(A, B, 1), "sum"); sameM(a - b, addr(A, B, -1), "difference"); sameM(a + c, addr(A, C, 1), "mixed-layout sum"); sameM(c - a, addr(C, A, -1), "mixed-layout difference"); sameM(a + g, addr(A, G, 1), "dense plus diagonal"); sameM(g - a, addr(G, A, -1), "diagonal minus dense");
    sameM(g + h, addr(G, H, 1), "diagonal sum"); sameM(g - h, addr(G, H, -1), "diagonal difference"); sameM(a + x, addr(A, X, 1), "static plus runtime"); sameM(x - c, addr(X, C, -1), "runtime minus static"); sameM(add(a, b), addr(A, B, 1), "add"); sameM(sub(a, b), addr(A, B, -1), "sub");
    SM<2,3> d; add(&d, a, c); sameM(d, addr(A, C, 1), "sum into a destination"); sub(&d, g, a); sameM(d, addr(G, A, -1), "difference into a destination"); SM<2,3,COL_MAJOR> e; add(&e, a, b); sameM(e, addr(A, B, 1), "sum into a column-major destination"); sub(&e, a, c); sameM(e, addr(A, C, -1), "difference into column-major");
    add(&d, g, h); sameM(d, addr(G, H, 1), "diagonal sum into dense"); sub(&d, g, h); sameM(d, addr(G, H, -1), "diagonal difference into dense"); DM<2,3> f; add(&f, g, h); sameM(f, addr(G, H, 1), "diagonal sum into diagonal"); sub(&f, g, h); sameM(f, addr(G, H, -1), "diagonal difference into diagonal");
    d = a; add(&d, d, b); sameM(d, addr(A, B, 1), "sum into an operand"); d = b; sub(&d, a, d); sameM(d, addr(A, B, -1), "difference into an operand"); f = g; sub(&f, h, f); sameM(f, addr(H, G, -1), "diagonal difference into an operand"); add(&x, a, x); sameM(x, addr(A, X, 1), "runtime sum into an operand");
    sym_reach("end");
}
extern "C" void h_scale() {
    SM<2,3> a; SM<2,3,COL_MAJOR> c; DM<2,3> g; SM<0,0> x = mk<SM<0,0>>(2, 3, "x"); fill(a, "a"); fill(c, "c"); fill(g, "g"); Ref A = ref(a), C = ref(c), G = ref(g), X = ref(x); T k = sym_f64("k");
    sameM(k * a, sclr(k, A), "scalar by matrix"); sameM(a * k, sclr(k, A), "matrix by scalar"); sameM(k * c, sclr(k, C), "scalar by column-major"); sameM(k * g, sclr(k, G), "scalar by diagonal"); sameM(g * k, sclr(k, G), "diagonal by scalar"); sameM(x * k, sclr(k, X), "runtime matrix by scalar"); sameM(scale(k, a), sclr(k, A), "scale");
    SM<2,3> d; scale(&d, k, c); sameM(d, sclr(k, C), "scale into a destination"); scale(&d, k, g); sameM(d, sclr(k, G), "scaled diagonal into dense"); DM<2,3> h; scale(&h, k, g); sameM(h, sclr(k, G), "scaled diagonal into diagonal"); scale(&a, k, a); sameM(a, sclr(k, A), "scale in place"); c *= k; sameM(c, sclr(k, C), "in-place scale"); x *= k; sameM(x, sclr(k, X), "in-place scale"); scale(&g, k, g); sameM(g, sclr(k, G), "diagonal scale in place");
    sym_reach("end");
}
extern "C" void h_transpose() {
    SM<2,3> a; SM<2,3,COL_MAJOR> c; SM<3,3> s; DM<2,3> g; PM<3> p; SM<0,0> x = mk<SM<0,0>>(2, 3, "x"), y = mk<SM<0,0>>(3, 3, "y"); fill(a, "a"); fill(c, "c"); fill(s, "s"); fill(g, "g"); fill(p, "p"); Ref A = ref(a), C = ref(c), S = ref(s), G = ref(g), P = ref(p), X = ref(x), Y = ref(y);
    sameM(transpose(a), trr(A), "transpose"); sameM(transpose(c), trr(C), "column-major transpose"); sameM(transpose(s), trr(S), "square transpose"); sameM(transpose(g), trr(G), "diagonal transpose"); sameM(transpose(p), trr(P), "permutation transpose"); sameM(transpose(x), trr(X), "runtime transpose");
    SM<3,2> d; transpose(&d, a); sameM(d, trr(A), "transpose into a destination"); transpose(&d, c); sameM(d, trr(C), "transpose into another layout"); transpose(&d, g); sameM(d, trr(G), "diagonal into dense"); SM<3,3> e; transpose(&e, p); sameM(e, trr(P), "permutation into dense"); transpose(&e, s); sameM(e, trr(S), "square into a destination"); SM<3,3,COL_MAJOR> ec; transpose(&ec, s); sameM(ec, trr(S), "square into another layout"); SM<0,0> z(3, 2); transpose(&z, x); sameM(z, trr(X), "runtime destination"); transpose(&z, a); sameM(z, trr(A), "static into runtime");
    PM<3> q; transpose(&q, p); sameM(q, trr(P), "permutation into permutation"); q.transpose(); sameM(q, P, "permutation transposed twice"); PM<0> r(3); transpose(&r, p); sameM(r, trr(P), "permutation into runtime permutation"); DM<3,2> h; transpose(&h, g); sameM(h, trr(G), "diagonal into diagonal");
    transpose(&s, s); sameM(s, trr(S), "in place"); transpose(&y, y); sameM(y, trr(Y), "runtime in place"); q = p; transpose(&q, q); sameM(q, trr(P), "permutation in place");
    DM<3,3> dd; fill(dd, "dd"); Ref DD = ref(dd); transpose(&dd, dd); sameM(dd, DD, "diagonal in place"); auto v = y.as_transpose(); sameM(v, Y, "transposed view"); transpose(&y, v); sameM(y, trr(Y) , "transposed view into its matrix") ;
    sym_reach("end");
}
template <typename F> static bool throws(F f) { try { f(); return false; } catch (DimensionMismatchException&) { return true; } }
extern "C" void h_dims() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); SM<0,0> x(m, n), d(2, 2); SM<2,2> s; DM<0,0> g(m, n);
    bool t;
    t = throws([&]{ x * s; }); sym_check(t == (n != 2), "inner dimensions must agree"); if (t) sym_reach("thrown");
    t = throws([&]{ s * x; }); sym_check(t == (m != 2), "inner dimensions must agree");
    t = throws([&]{ s * g; }); sym_check(t == (m != 2), "inner dimensions must agree for diagonals");
    t = throws([&]{ mul(&d, s, x); }); sym_check(t == (m != 2 || n != 2), "destination dimensions must agree");
    t = throws([&]{ mul(&d, x, s); }); sym_check(t == (m != 2 || n != 2), "destination dimensions must agree");
    t = throws([&]{ mul(&x, s, s); }); sym_check(t == (m != 2 || n != 2), "destination dimensions must agree");
    t = throws([&]{ mul_acc(&x, s, s); }); sym_check(t == (m != 2 || n != 2), "accumulated destination dimensions must agree");
    t = throws([&]{ s + x; }); sym_check(t == (m != 2 || n != 2), "sum dimensions must agree"); t = throws([&]{ x - s; }); sym_check(t == (m != 2 || n != 2), "difference dimensions must agree"); t = throws([&]{ add(&x, s, s); }); sym_check(t == (m != 2 || n != 2), "sum destination dimensions must agree"); t = throws([&]{ sub(&d, x, s); }); sym_check(t == (m != 2 || n != 2), "difference dimensions must agree");
    t = throws([&]{ scale(&x, 2.0, s); }); sym_check(t == (m != 2 || n != 2), "scale destination dimensions must agree");
    SM<2,3> a; t = throws([&]{ transpose(&x, a); }); sym_check(t == (m != 3 || n != 2), "transpose destination dimensions must agree"); t = throws([&]{ transpose(&a, x); }); sym_check(t == (m != 3 || n != 2), "transpose source dimensions must agree"); SM<0,0> y(2, 3); t = throws([&]{ transpose(&x, y); }); sym_check(t == (m != 3 || n != 2), "runtime transpose dimensions must agree");
    t = throws([&]{ mtxcopy(&x, a); }); sym_check(t == (m != 2 || n != 3), "copied dimensions must agree"); t = throws([&]{ mtxcopy(&a, x); }); sym_check(t == (m != 2 || n != 3), "copied dimensions must agree");
    Vec<T,2> v; t = throws([&]{ x * v; }); sym_check(t == (n != 2), "vector dimension must agree"); t = throws([&]{ v * x; }); sym_check(t == (m != 2), "vector dimension must agree");
    sym_reach("end");
}
// runtime sizes: accumulated products, in-place scaling by a diagonal, vectors as rows and columns, square arrays
extern "C" void h_dyn_more() {
    index_t m = 1 + sym_choose(3, "m"), n = 1 + sym_choose(3, "n"); bool t;
    SM<0,0> x = mk<SM<0,0>>(m, n, "x"); SM<0,0,COL_MAJOR> y = mk<SM<0,0,COL_MAJOR>>(2, 2, "y"); SM<0,0> z = mk<SM<0,0>>(2, 2, "z"); SM<2,2> s; fill(s, "s"); Ref X = ref(x), Y = ref(y), Z = ref(z), S = ref(s);
    t = throws([&]{ mul_acc(&y, x, s); }); sym_check(t == (m != 2 || n != 2), "accumulated product of runtime sizes must agree"); if (!t) sameM(y, addr(Y, mulr(X, S), 1), "accumulated runtime product"); else { sameM(y, Y, "refused product changes nothing"); sym_reach("thrown"); }
    t = throws([&]{ mul_acc(&z, s, x); }); sym_check(t == (m != 2 || n != 2), "accumulated product of runtime sizes must agree"); if (!t) sameM(z, addr(Z, mulr(S, X), 1), "accumulated runtime product");
    DM<0,0> d = mk<DM<0,0>>(2, 2, "d"); DM<2,2> e; fill(e, "e"); Ref D = ref(d), E = ref(e); SM<0,0> a = x; t = throws([&]{ a *= d; }); sym_check(t == (n != 2), "scaling columns by a diagonal of another size"); if (!t) sameM(a, mulr(X, D), "columns scaled in place");
    SM<0,0> b = x; t = throws([&]{ b *= e; }); sym_check(t == (n != 2), "scaling columns by a diagonal of another size"); if (!t) sameM(b, mulr(X, E), "columns scaled in place"); SM<2,2> f = s; f *= e; sameM(f, mulr(S, E), "columns scaled in place"); DM<2,2> g = e; g *= d; sameM(g, mulr(E, D), "diagonal scaled in place");
    Vec<T,3> v = vecn<3>("v"); PM<3> p; index_t src[3] = {2, 0, 1}; p.setRowSources(src); Ref P = ref(p); SM<0,0> c(m, n), r(m, n); fill(c, "c"); fill(r, "r"); t = throws([&]{ mul(&c, p, v); }); sym_check(t == (m != 3 || n != 1), "column of another size"); if (!t) sameM(c, mulr(P, refc(v)), "permuted vector as a column");
    t = throws([&]{ mul(&r, v, p); }); sym_check(t == (m != 1 || n != 3), "row of another size"); if (!t) sameM(r, mulr(refr(v), P), "permuted vector as a row");
   
    if (m == n) { SM<0,0> q = x; transpose_square_matrix(q.data_begin(), m); sameM(q, trr(X), "square array transposed"); SM<0,0> i = x; transpose(&i, i); sameM(i, trr(X), "runtime square matrix transposed in place"); }
    sym_reach("end");
}
// larger matrices
extern "C" void h_large() {
    int w = sym_choose(6, "w");
    if (w == 0) { SM<0,0> a = mk<SM<0,0>>(5, 6, "a"); SM<0,0,COL_MAJOR> b = mk<SM<0,0,COL_MAJOR>>(6, 4, "b"); sameM(a * b, mulr(ref(a), ref(b)), "runtime-sized product"); SM<0,0> c = mk<SM<0,0>>(5, 4, "c"); Ref C = ref(c); mul_acc(&c, a, b); sameM(c, addr(C, mulr(ref(a), ref(b)), 1), "accumulated product"); sameM(transpose(a), trr(ref(a)), "transpose"); }
    else if (w == 1) { SM<6,2> a; SM<2,6,COL_MAJOR> b; fill(a, "a"); fill(b, "b"); sameM(a * b, mulr(ref(a), ref(b)), "product"); sameM(b * a, mulr(ref(b), ref(a)), "product"); SM<6,6> o; mul(&o, a, b); sameM(o, mulr(ref(a), ref(b)), "product into a matrix"); sameM(transpose(b), trr(ref(b)), "transpose"); sameM(a + transpose(b), addr(ref(a), trr(ref(b)), 1), "sum"); }
    else if (w == 2) { SM<5,5> a, b; fill(a, "a"); fill(b, "b"); Ref A = ref(a), B = ref(b); sameM(a * b, mulr(A, B), "square product"); SM<5,5> c = a; mul(&c, c, b); sameM(c, mulr(A, B), "product in place"); c = a; transpose(&c, c); sameM(c, trr(A), "transpose in place"); sameM(a - b, addr(A, B, -1), "difference"); sameM(2.5 * a, sclr(2.5, A), "scale"); c = a; add(&c, c, b); sameM(c, addr(A, B, 1), "sum in place"); }
    else if (w == 3) { SM<0,0> a = mk<SM<0,0>>(6, 6, "a"); Ref A = ref(a); SM<0,0> c = a; transpose(&c, c); sameM(c, trr(A), "runtime transpose in place"); c = a; transpose_square_matrix(c.data_begin(), 6); sameM(c, trr(A), "square array transposed"); SM<0,0,COL_MAJOR> d = mk<SM<0,0,COL_MAJOR>>(6, 6, "d"); sameM(a + d, addr(A, ref(d), 1), "sum"); sameM(a * T(3), sclr(3, A), "scale"); }
    else if (w == 4) { DM<6,6> d; DM<5,6> e; fill(d, "d"); fill(e, "e"); SM<6,5> a; fill(a, "a"); sameM(d * a, mulr(ref(d), ref(a)), "diagonal by matrix"); sameM(a * e, mulr(ref(a), ref(e)), "matrix by diagonal"); sameM(e * a, mulr(ref(e), ref(a)), "diagonal by matrix"); sameM(e * d, mulr(ref(e), ref(d)), "diagonal by diagonal"); Vec<T,6> v = vecn<6>("v"); sameR(refc(d * v), mulr(ref(d), refc(v)), "diagonal by vector"); SM<0,0> k = mk<SM<0,0>>(4, 6, "k"); Ref K = ref(k); k *= d; sameM(k, mulr(K, ref(d)), "columns scaled in place"); }
    else { static const index_t S[2][6] = {{3, 0, 5, 1, 2, 4}, {5, 4, 3, 2, 1, 0}}; PM<6> p; PM<0> q(6); p.setRowSources(S[0]); q.setRowSources(S[1]); SM<6,4> a; SM<0,0> b = mk<SM<0,0>>(3, 6, "b"); fill(a, "a"); sameM(p * a, mulr(ref(p), ref(a)), "permuted rows"); sameM(b * p, mulr(ref(b), ref(p)), "permuted columns"); sameM(q * a, mulr(ref(q), ref(a)), "permuted rows"); sameM(b * q, mulr(ref(b), ref(q)), "permuted columns"); sameM(p * q, mulr(ref(p), ref(q)), "product of permutations"); Vec<T,6> v = vecn<6>("v"); sameR(refc(p * v), mulr(ref(p), refc(v)), "permuted vector"); sameR(refr(v * p), mulr(refr(v), ref(p)), "permuted vector"); SM<5,6> w2; fill(w2, "w"); sameR(refc(w2 * v), mulr(ref(w2), refc(v)), "matrix by vector"); Vec<T,5> u = vecn<5>("u"); sameR(refr(u * w2), mulr(refr(u), ref(w2)), "vector by matrix"); }
    sym_reach("end");
}
// matrices without rows or columns
extern "C" void h_empty() {
    index_t m = sym_choose(2, "m") * 2, n = m ? 0 : sym_choose(2, "n") * 2; SM<0,0> a(m, n), b(n, m); SM<0,0,COL_MAJOR> c(m, n), d(n, m); Ref Z(m, m), E(n, n);
    sameM(a * b, Z, "product over an empty dimension is zero"); sameM(c * d, Z, "product over an empty dimension is zero"); sameM(a * d, Z, "product over an empty dimension is zero"); sameM(c * b, Z, "product over an empty dimension is zero"); sameM(b * a, E, "product of no rows"); sameM(d * c, E, "product of no rows"); SM<0,0> o(m, m); fill(o, "o"); mul(&o, a, b); sameM(o, Z, "product over an empty dimension is zero");
    Ref N(m, n); sameM(a + c, N, "empty sum"); sameM(c - a, N, "empty difference"); sameM(2.0 * c, N, "empty scale"); sameM(transpose(c), trr(N), "empty transpose"); sameM(transpose(a), trr(N), "empty transpose"); transpose(&b, a); transpose(&d, c); transpose(&d, a); DM<0,0> g(n, n); sameM(a * g, N, "empty product with a diagonal"); sameM(c * g, N, "empty product with a diagonal");
    sym_reach("end");
}
