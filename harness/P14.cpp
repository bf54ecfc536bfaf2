//@ h_sources  mode=real q=60 t=120 split=n:4 need=end
//@ h_history  mode=real q=90 t=300 split=a:8,b:8 need=end
//@ h_dynamic  mode=real q=90 t=300 split=a:8,b:8 need=end
//@ h_sign     mode=real q=60 t=120 split=n:5 need=end
//@ h_apply    mode=real q=60 t=120 split=n:5 need=end
//@ h_product  mode=real q=60 t=120 split=w:4 need=end
//@ h_large    mode=real q=60 t=120 split=b:3,l:9 need=end
//@ h_act      mode=real q=60 t=120 split=n:3 need=end
//@bounds every permutation of up to five elements (three for histories and products) and every exchange of two among three of nine and of thirteen elements, every history of two operations (three on the thorough tier) among setting from either map, row and column swaps, transposing, assignment and products; static and runtime sizes
//@assume exact real arithmetic
// LINK: GeomException
#include "mtx.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
// a permutation of symbolic integers; the engine and the solver split it where the code indexes with it
static void sym_perm(index_t* p, index_t n, const char* nm) { for (index_t i = 0; i < n; ++i) { p[i] = sym_range(0, n - 1, nm); for (index_t j = 0; j < i; ++j) sym_assume(p[i] != p[j]); } }
static bool odd(const index_t* p, index_t n) { bool o = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) o ^= p[j] > p[i]; return o; }
// src[i]: the column of the one in row i
template <typename P> static void is(P m, const index_t* src, index_t n, const char* msg) {
    sym_check(m.rows() == n & m.cols() == n, msg);
    for (index_t i = 0; i < n; ++i) { sym_check(m.getRowSources()[i] == src[i] & m.getColDestinations()[i] == src[i], msg); sym_check(m.getColSources()[src[i]] == i & m.getRowDestinations()[src[i]] == i, msg); for (index_t j = 0; j < n; ++j) sym_check(m(i,j) == (src[i] == j), msg); }
    index_t d = det(m), s = m.sign(); sym_check(s == (odd(src, n) ? -1 : 1), "sign of a permutation"); sym_check(d == s, "determinant of a permutation"); sym_check(m.sign() == s, "the sign is stable");
    for (index_t i = 0; i < n; ++i) sym_check(m.getRowSources()[i] == src[i] & m.getColSources()[src[i]] == i, "the sign leaves the permutation unchanged");
}
extern "C" void h_sources() {
    index_t n = 1 + sym_choose(4, "n"), p[4], q[4]; sym_perm(p, n, "p"); for (int i = 0; i < n; ++i) q[p[i]] = i; PM<0> m(n); m.setRowSources(p); is(m, p, n, "row sources"); m.set_identity(); m.setColDestinations(p); is(m, p, n, "column destinations"); m.set_identity(); m.setColSources(p); is(m, q, n, "column sources"); m.set_identity(); m.setRowDestinations(p); is(m, q, n, "row destinations");
    if (n == 4) { PM<4> s; s.setColSources(p); is(s, q, 4, "column sources"); s.setRowSources(p); is(s, p, 4, "row sources"); s.transpose(); is(s, q, 4, "transpose"); s.setRowSources(p); is(s, p, 4, "row sources after a transpose"); }
    sym_reach("end");
}
// a model permutation mirrored by the matrix
template <index_t N> static void step(PM<N>& m, PM<N>& o, index_t* s, index_t op) {
    const index_t n = 3; index_t t[3], a, b; std::copy(s, s + n, t);
    switch (op) {
    case 0: sym_perm(s, n, "p"); m.setRowSources(s); break;
    case 1: sym_perm(t, n, "p"); m.setColSources(t); for (int i = 0; i < n; ++i) s[t[i]] = i; break;
    case 2: a = sym_choose(3, "l"); b = (a + sym_choose(3, "d")) % 3; m.swap_rows(a, b); std::swap(s[a], s[b]); break;
    case 3: a = sym_choose(3, "l"); b = (a + sym_choose(3, "d")) % 3; m.swap_cols(a, b); for (int i = 0; i < n; ++i) s[i] = t[i] == a ? b : t[i] == b ? a : t[i]; break;
    case 4: m.transpose(); for (int i = 0; i < n; ++i) s[t[i]] = i; break;
    case 5: m.sign(); break;
    case 6: o.set_identity(); { index_t u[3] = {1, 2, 0}; o.setRowSources(u); mul(&m, PM<N>(m), o); for (int i = 0; i < n; ++i) s[i] = u[t[i]]; } break;
    default: { PM<N> c(m); m.set_identity(); o = c; m = o; } break;
    }
}
template <index_t N> static void history() {
    PM<N> m = mk<PM<N>>(3, 3, "m"), o = mk<PM<N>>(3, 3, "o"); index_t s[3]; std::copy(m.getRowSources(), m.getRowSources() + 3, s);
    step(m, o, s, sym_choose(8, "a")); if (THOROUGH) is(m, s, 3, "permutation after one operation"); step(m, o, s, sym_choose(8, "b")); is(m, s, 3, "permutation after two operations");
    if (THOROUGH) { step(m, o, s, sym_choose(8, "c")); is(m, s, 3, "permutation after three operations"); } sym_reach("end");
}
template <> PM<3> mk<PM<3>>(index_t, index_t, const char*) { return PM<3>(); } // histories start from the identity
extern "C" void h_history() { history<3>(); }
template <> PM<0> mk<PM<0>>(index_t r, index_t, const char*) { return PM<0>(r); }
extern "C" void h_dynamic() { history<0>(); }
extern "C" void h_sign() { index_t n = 1 + sym_choose(5, "n"), p[5], q[5]; sym_perm(p, n, "p"); std::copy(p, p + n, q); sym_check(permutation_sign(q, n) == (odd(p, n) ? -1 : 1), "sign of a permutation"); sym_reach("end"); }
extern "C" void h_apply() {
    index_t n = 1 + sym_choose(5, "n"), p[5], q[5]; sym_perm(p, n, "p"); std::copy(p, p + n, q); T v[6], w[6]; for (int i = 0; i < 6; ++i) v[i] = w[i] = sym_f64("v"); permutation_apply(q, n, v); for (int i = 0; i < n; ++i) sym_check_eq(v[i], w[p[i]], "permuted sequence"); for (int i = n; i < 6; ++i) sym_check_eq(v[i], w[i], "elements beyond the end are untouched"); sym_reach("end");
}
extern "C" void h_product() {
    index_t w = sym_choose(4, "w"); index_t a[3], b[3], c[3]; sym_perm(a, 3, "a"); sym_perm(b, 3, "b"); for (int i = 0; i < 3; ++i) c[i] = b[a[i]]; PM<3> x, y, z; x.setRowSources(a); y.setRowSources(b); PM<0> u(3), v(3), t(3); u.setRowSources(a); v.setRowSources(b);
    if (w == 0) { is(x * y, c, 3, "product of permutations"); } else if (w == 1) { z.setRowSources(b); z.sign(); mul(&z, x, y); is(z, c, 3, "product into a permutation"); } else if (w == 2) { is(u * v, c, 3, "product of runtime-sized permutations"); mul(&t, u, v); is(t, c, 3, "product into a permutation"); } else { is(x * v, c, 3, "mixed product"); PM<3> k(x); k.transpose(); index_t e[3] = {0, 1, 2}; is(x * k, e, 3, "a permutation times its transpose is the identity"); mul(&x, x, y); is(x, c, 3, "product in place"); }
    sym_reach("end");
}
// permutations of many elements: any exchange of two, from a chosen start
template <typename P> static void large(P m, index_t n, int base, int a, int b) {
    index_t p[16], q[16], c[16]; for (index_t i = 0; i < n; ++i) p[i] = base == 0 ? i : base == 1 ? (i * 5 + 3) % n : n - 1 - i; m.setRowSources(p); m.swap_rows(a, b); std::swap(p[a], p[b]); is(m, p, n, "exchanged rows"); for (index_t i = 0; i < n; ++i) q[p[i]] = i;
    P t(m); t.transpose(); is(t, q, n, "transpose"); t.swap_cols(a, b); for (index_t i = 0; i < n; ++i) c[i] = q[i] == a ? b : q[i] == b ? a : q[i]; is(t, c, n, "exchanged columns"); for (index_t i = 0; i < n; ++i) q[i] = c[p[i]]; is(m * t, q, n, "product of permutations"); T v[16], w[16]; for (index_t i = 0; i < n; ++i) v[i] = w[i] = sym_f64("v"); std::copy(p, p + n, c); permutation_apply(c, n, v); for (index_t i = 0; i < n; ++i) sym_check_eq(v[i], w[p[i]], "permuted sequence"); std::copy(p, p + n, c); sym_check(permutation_sign(c, n) == (odd(p, n) ? -1 : 1), "sign of a permutation"); sym_reach("end");
}
extern "C" void h_large() { int k = sym_choose(3, "b"), a = sym_choose(9, "l"), b = sym_choose(9, "r"); large(PM<9>(), 9, k, a, b); large(PM<0>(13), 13, k, a + 4 * (a > 4), b + 2); }
extern "C" void h_act() {
    index_t n = 1 + sym_choose(3, "n"), p[3]; sym_perm(p, n, "p"); PM<0> m(n); m.setRowSources(p); SM<0,0> a(n, 2), b(2, n); fill(a, "a"); fill(b, "b"); auto c = m * a; auto d = b * m;
    for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) { sym_check_eq(c(i,j), a(p[i],j), "rows are taken from their sources"); sym_check_eq(d(j,p[i]), b(j,i), "columns go to their destinations"); } sym_reach("end");
}
