//@ h_order2   mode=real q=60 t=120 split=o:2,a:3 need=end
//@ h_order3   mode=real q=60 t=120 split=o:2,a:2,b:3 need=end
//@ h_one      mode=real q=60 t=120 split=a:4 need=end
//@ h_jump2    mode=real q=60 t=120 split=o:2,a:3,b:3 need=end
//@ h_jump3    mode=real q=60 t=120 split=o:2,a:2,b:3,c:3 need=end
//@ h_empty    mode=real q=60 t=120 need=end
//@ h_point    mode=real q=60 t=120 need=end
//@ h_huge     mode=real q=60 t=120 split=o:2,w:3 need=end
//@ h_types    mode=real q=60 t=120 split=w:4,o:2,ax:2 need=end
//@ h_four     mode=real q=60 t=120 split=o:2,e:4 need=end
//@bounds extents one to three in one, two and three dimensions, four selected regions in four and one in five dimensions, at every corner offset up to 2^40 in size (symbolic), both orders, every position and every jump within the region; regions of 2^20 by 2^16, 2^36 by 2 and 1 by 2^40 cells at every position (symbolic); signed and unsigned coordinates of 8, 16, 32 and 64 bits
//@assume none
#include <geomc/shape/Rect.h>
#include <geomc/shape/GridIterator.h>
#include "sym.h"
using namespace geom;
static const index_t FAR = (index_t)1 << 40;
template <index_t N> struct Org { Vec<index_t,N> lo, n; Rect<index_t,N> r() const { return Rect<index_t,N>(lo, lo + n - Vec<index_t,N>((index_t)1)); } };
template <index_t N> static Org<N> org() {
    const char* s[] = {"a", "b", "c"}; Org<N> o; for (int i = 0; i < N; ++i) { o.n[i] = 1 + sym_choose(N == 3 && i == 0 ? 2 : 3, s[i]); o.lo[i] = sym_range(-FAR, FAR, "lo"); } return o;
}
// the k-th point of the region: in FIRST order the first coordinate changes fastest
template <index_t N> static Vec<index_t,N> kth(const Org<N>& o, bool first, index_t k) { Vec<index_t,N> p; for (int i = 0; i < N; ++i) { int d = first ? i : N - 1 - i; p[d] = o.lo[d] + k % o.n[d]; k /= o.n[d]; } return p; }
template <index_t N> static bool eq(const Vec<index_t,N>& a, const Vec<index_t,N>& b) { bool r = true; for (int i = 0; i < N; ++i) r = r & (a[i] == b[i]); return r; }
template <index_t N> static index_t total(const Org<N>& o) { index_t t = 1; for (int i = 0; i < N; ++i) t *= o.n[i]; return t; }
template <index_t N, ArrayOrder O> static void order() {
    Org<N> o = org<N>(); bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE; index_t n = total(o);
    GridIterator<index_t,N,O> it(o.r()), b = it.begin(), e = it.end();
    sym_check(e - b == n, "number of cells"); sym_check(it == b, "a new iterator is at the beginning");
    for (index_t k = 0; k < n; ++k, ++it) { sym_check(eq(*it, kth(o, first, k)), "cells come in order"); sym_check(it - b == k & e - it == n - k & it != e, "position"); }
    sym_check(it == e, "iteration ends after the last cell");
    for (index_t k = n; k > 0;) { --it; --k; sym_check(eq(*it, kth(o, first, k)), "cells come in reverse order"); }
    sym_check(it == b, "reverse iteration ends at the beginning");
    sym_reach("end");
}
extern "C" void h_order2() { if (sym_choose(2, "o")) order<2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else order<2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
extern "C" void h_order3() { if (sym_choose(2, "o")) order<3,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else order<3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
template <index_t N, ArrayOrder O> static void jump() {
    Org<N> o = org<N>(); bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE; index_t n = total(o), k = sym_choose(n + 1, "from");
    GridIterator<index_t,N,O> b(o.r()), p = b; for (index_t i = 0; i < k; ++i) ++p;
    for (index_t j = 0; j <= n; ++j) {
        GridIterator<index_t,N,O> q = p; q += j - k; GridIterator<index_t,N,O> s = p - (k - j);
        sym_check(q - p == j - k & p - q == k - j & (q < p) == (j < k) & (q == s), "difference of iterators");
        if (j < n) sym_check(eq(*q, kth(o, first, j)) & eq(*(p + (j - k)), kth(o, first, j)), "jump lands on the right cell"); else sym_check(q == b.end(), "jump to the end");
    }
    sym_reach("end");
}
extern "C" void h_jump2() { if (sym_choose(2, "o")) jump<2,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else jump<2,ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
extern "C" void h_jump3() { if (sym_choose(2, "o")) jump<3,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else jump<3,ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
extern "C" void h_one() {
    index_t n = 1 + sym_choose(4, "a"), lo = sym_range(-FAR, FAR, "lo"); typedef GridIterator<index_t,1,ARRAYORDER_FIRST_DIM_CONSECUTIVE> G; typedef GridIterator<index_t,1,ARRAYORDER_LAST_DIM_CONSECUTIVE> H;
    G g(lo, lo + n), it = g.begin(); H h(Rect<index_t,1>(lo, lo + n - 1)), ih = h.begin(); sym_check(g.end() - g == n & h.end() - h == n, "number of cells");
    for (index_t k = 0; k < n; ++k, ++it, ++ih) { sym_check(*it == lo + k & *ih == lo + k & it != g.end(), "cells come in order"); sym_check(*(g + k) == lo + k & *(g.end() - (n - k)) == lo + k, "jump lands on the right cell"); }
    sym_check(it == g.end() & ih == h.end(), "iteration ends after the last cell"); --it; sym_check(*it == lo + n - 1, "decrement"); sym_check(G::order == ARRAYORDER_FIRST_DIM_CONSECUTIVE & H::order == ARRAYORDER_LAST_DIM_CONSECUTIVE, "order");
    sym_reach("end");
}
extern "C" void h_empty() {
    index_t x = sym_range(-FAR, FAR, "x"), y = sym_range(-FAR, FAR, "y"), w = sym_range(-5, 5, "w"), h = sym_range(-5, 5, "h"); sym_assume(w <= 0 | h <= 0); typedef Vec<index_t,2> V; Rect<index_t,2> r(V(x, y), V(x + w - 1, y + h - 1));
    GridIterator<index_t,2,ARRAYORDER_FIRST_DIM_CONSECUTIVE> f(r); GridIterator<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE> l(r); sym_check(f.begin() == f.end() & l.begin() == l.end() & f.end() - f.begin() == 0 & l.end() - l.begin() == 0, "an empty region has no cells");
    if (w <= 0) { GridIterator<index_t,1,ARRAYORDER_FIRST_DIM_CONSECUTIVE> o(x, x + w); sym_check(o.begin() == o.end() & o.end() - o.begin() == 0, "an empty interval has no cells"); }
    sym_reach("end");
}
extern "C" void h_point() {
    typedef Vec<index_t,2> V; index_t x = sym_range(-FAR, FAR, "x"), y = sym_range(-FAR, FAR, "y"), w = sym_choose(3, "w"), h = sym_choose(3, "h"), i = sym_choose(w + 1, "i"), j = sym_choose(h + 1, "j");
    GridIterator<index_t,2,ARRAYORDER_LAST_DIM_CONSECUTIVE> g(Rect<index_t,2>(V(x, y), V(x + w, y + h)), V(x + i, y + j)), e(V(x, y), V(x + w + 1, y + h + 1));
    sym_check((*g)[0] == x + i & (*g)[1] == y + j, "starting point"); sym_check(g - g.begin() == i * (h + 1) + j, "position of the starting point"); sym_check((*e.begin())[0] == x & (*e)[1] == y & e.end() - e == (w + 1) * (h + 1) & e == g.begin(), "exclusive upper corner"); sym_reach("end");
}

// very large regions: positions and jumps anywhere in them
template <ArrayOrder O> static void huge() {
    typedef Vec<index_t,2> V; typedef GridIterator<index_t,2,O> G; const bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE; index_t w = sym_choose(3, "w"), n = (index_t)1 << (w == 0 ? 20 : w == 1 ? 36 : 0), m = (index_t)1 << (w == 0 ? 16 : w == 1 ? 1 : 40); V lo(sym_range(-FAR, FAR, "x"), sym_range(-FAR, FAR, "y")), e = first ? V(n, m) : V(m, n); 
    G g(Rect<index_t,2>(lo, lo + e - V((index_t)1))), b = g.begin(), end = g.end(); index_t i = sym_range(0, n - 1, "i"), j = sym_range(0, m - 1, "j"), k = i + n * j; V p = lo + (first ? V(i, j) : V(j, i));
    sym_check(end - b == n * m, "number of cells"); G q = b + k; sym_check(eq(*q, p), "jump lands on the right cell"); sym_check(q - b == k, "position"); sym_check(end - q == n * m - k, "position"); sym_check(end - (n * m - k) == q, "jump back lands on the right cell"); ++q; sym_check(q - b == k + 1, "one step on"); --q; sym_check(eq(*q, p), "one step back"); sym_reach("end");
}
extern "C" void h_huge() { if (sym_choose(2, "o")) huge<ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else huge<ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
// coordinates of every width, signed or not
template <typename I, ArrayOrder O> static void types(index_t lim) {
    typedef Vec<I,2> V; typedef GridIterator<I,2,O> G; typedef GridIterator<I,1,O> L; const bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE; index_t ax = sym_choose(2, "ax"), v = std::is_signed<I>::value ? sym_range(-lim, lim - 3, "v") : sym_range(0, lim - 3, "v"), x = ax ? v : 0, y = ax ? lim - 3 : v, n = 3, k = 0;
    G g(Rect<I,2>(V((I)x, (I)y), V((I)(x + 2), (I)(y + 1)))), i = g.begin(), e = g.end(); sym_check((e - i == 6) & (i - e == -6), "number of cells");
    auto at = [=](index_t k) { V p = *(g.begin() + k); index_t a = first ? k % 3 : k / 2, b = first ? k / 3 : k % 2; return ((index_t)p.x == x + a) & ((index_t)p.y == y + b); };
    for (; k < 6; ++k, ++i) { index_t a = first ? k % 3 : k / 2, b = first ? k / 3 : k % 2; sym_check(((index_t)(*i).x == x + a) & ((index_t)(*i).y == y + b), "cells come in order"); sym_check(at(k), "jump lands on the right cell"); sym_check((i - g.begin() == k) & (g.begin() - i == -k) & (i - e == k - 6) & (e - i == 6 - k), "position"); }
    sym_check(i == e, "iteration ends after the last cell"); while (k-- > 0) { --i; index_t a = first ? k % 3 : k / 2, b = first ? k / 3 : k % 2; sym_check(((index_t)(*i).x == x + a) & ((index_t)(*i).y == y + b), "cells come in reverse order"); G r = e; r += k - 6; sym_check(r == i, "jump back lands on the right cell"); } sym_check(i == g.begin(), "reverse iteration ends at the beginning");
    L l((I)x, (I)(x + n)), t = l.end(); sym_check((t - l == n) & (l - t == -n), "number of cells"); for (k = n; k-- > 0;) { --t; sym_check((index_t)*t == x + k, "decrement"); } sym_check(t == l.begin(), "reverse iteration ends at the beginning"); sym_reach("end");
}
template <ArrayOrder O> static void width() { switch (sym_choose(4, "w")) { case 0: if (sym_choose(2, "s")) types<int8_t,O>(120); else types<uint8_t,O>(250); break; case 1: if (sym_choose(2, "s")) types<int16_t,O>(30000); else types<uint16_t,O>(60000); break; case 2: if (sym_choose(2, "s")) types<int32_t,O>(1L << 30); else types<uint32_t,O>(1L << 31); break; default: types<uint64_t,O>(1L << 40); } }
extern "C" void h_types() { if (sym_choose(2, "o")) width<ARRAYORDER_FIRST_DIM_CONSECUTIVE>(); else width<ARRAYORDER_LAST_DIM_CONSECUTIVE>(); }
// four and five dimensions
template <index_t N, ArrayOrder O> static void four(const index_t* n) { Org<N> o; bool first = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE; for (int i = 0; i < N; ++i) { o.n[i] = n[i]; o.lo[i] = i == 1 ? sym_range(-FAR, FAR, "lo") : i * 3 - 5; } index_t t = total(o); GridIterator<index_t,N,O> b(o.r()), it = b, e = b.end(); sym_check(e - b == t, "number of cells");
    for (index_t k = 0; k < t; ++k, ++it) { sym_check(eq(*it, kth(o, first, k)), "cells come in order"); sym_check((it - b == k) & (e - it == t - k) & (it != e), "position"); auto j = b + k; sym_check(j == it, "jump from the beginning"); auto y = it + (t - 1 - 2 * k); sym_check(eq(*y, kth(o, first, t - 1 - k)), "jump to the mirrored cell"); auto z = e - (t - k); sym_check(z == it, "jump back from the end"); } sym_check(it == e, "iteration ends after the last cell"); for (index_t k = t; k-- > 0;) { --it; sym_check(eq(*it, kth(o, first, k)), "cells come in order backwards"); } sym_check(it == b, "back at the beginning"); sym_reach("end"); }
extern "C" void h_four() { static const index_t E[4][5] = {{2, 3, 1, 2, 0}, {3, 2, 2, 3, 0}, {1, 1, 4, 2, 0}, {2, 1, 3, 2, 2}}; int o = sym_choose(2, "o"), e = sym_choose(4, "e"); if (e == 3) { if (o) four<5,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(E[e]); else four<5,ARRAYORDER_LAST_DIM_CONSECUTIVE>(E[e]); } else { if (o) four<4,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(E[e]); else four<4,ARRAYORDER_LAST_DIM_CONSECUTIVE>(E[e]); } }
