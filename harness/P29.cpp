// P29: lattice of bins: every item is kept in its cell and found by every query region that contains it, once.
//@ h_bin_of     mode=real q=60 t=200 split=cs:3 need=end
//@ h_bin_query  mode=real q=60 t=200 split=cs:3,axis:2,kind:3 need=in,out
//@ h_bin_many   mode=real q=60 t=200 split=p:4,q:4 need=end
//@ h_bin_none   mode=real q=60 t=200 need=end
//@ h_bin_erase  mode=real q=60 t=200 split=k:4 need=end
//@ h_bin_heap   mode=real q=60 t=200 split=o:4,k:3 need=end
//@ h_bin_3d     mode=real q=60 t=200 split=corner:4,off:9 need=end
//@bounds up to four items in two dimensions (two in three dimensions), fourteen with ten in one cell near four places up to 1e5 cells from the origin; cell sizes 1/2, 1 and 3; coordinates within two cells of the origin, query regions up to four cells wide
//@assume exact real arithmetic; hash values only decide the order of iteration
#include "shape.h"
#include <geomc/shape/BinLatticePartition.h>
template <index_t N> using B = BinLatticePartition<T,N,int>;
static T cells() { static const T C[3] = {0.5, 1, 3}; return C[sym_choose(3, "cs")]; }
static T num(const char* n, T c) { T x = sym_f64(n); sym_assume((x >= -(2 + THOROUGH) * c) & (x < (2 + THOROUGH) * c)); return x; }
extern "C" void h_bin_of() { T c = cells(), x = num("x", c), y = num("y", c); B<2> b(c); auto k = b.binOf(V<2>(x, y)); sym_check_le(k.x * c, x, "cell contains the point"); sym_check(x < (k.x + 1) * c, "cell contains the point"); sym_check_le(k.y * c, y, "cell contains the point"); sym_check(y < (k.y + 1) * c, "cell contains the point"); sym_reach("end"); }
// count what a range of iterators returns
template <typename I> static void count(I i, I e, int* n, int m) { int steps = 0; for (; i != e; ++i) { if (++steps > 8) { sym_check(false, "query ends"); return; } int id = (*i).second; sym_check((id >= 0) & (id < m), "only inserted items"); if (id >= 0 && id < m) n[id]++; } }
// one item, one region, one axis symbolic
extern "C" void h_bin_query() { T c = cells(); int a = sym_choose(2, "axis"), kind = sym_choose(3, "kind"); B<2> b(c); static const T F[3] = {-1.5, 0, 1}; T f = F[sym_choose(3, "other")] * c; V<2> p, lo, hi; p[a] = num("p", c); p[1 - a] = f; b.insert(p, 0); int n[1] = {0};
    if (kind == 2) { T r = sym_f64("r"), q = num("q", c); sym_assume((r >= 0) & (r <= 2 * c)); V<2> m; m[a] = q; m[1 - a] = f + c / 4; lo = m - V<2>(r); hi = m + V<2>(r); sym_assume(r >= c / 2); sym_assume(r < c); auto i = b.query(m, r); count(i, i.end(), n, 1); auto e = b.query(m, r); bool any = e != e.end(); sym_check(any == (n[0] > 0), "same answer again"); }
    else { lo[a] = num("lo", c); hi[a] = num("hi", c); sym_assume(lo[a] <= hi[a]); lo[1 - a] = kind ? f - c : f; hi[1 - a] = kind ? f + c / 2 : f; auto i = b.query(Rect<T,2>(lo, hi)); count(i, i.end(), n, 1); }
    bool in = (lo[0] <= p[0]) & (p[0] <= hi[0]) & (lo[1] <= p[1]) & (p[1] <= hi[1]); sym_check(!in | (n[0] == 1), "item inside the region is found once"); sym_check(n[0] <= 1, "no item twice");
    auto pb = b.binOf(p), lb = b.binOf(lo), hb = b.binOf(hi); bool near = (pb.x >= lb.x) & (pb.x <= hb.x) & (pb.y >= lb.y) & (pb.y <= hb.y); sym_check(near | (n[0] == 0), "no item from a cell outside of the region"); if (n[0]) sym_reach("in"); else sym_reach("out"); }
// several items, some in the same cell or at the same place; all are iterated, and found by the right queries
template <index_t N> static void many(T c, const V<N>* p, int m, V<N> q, T r) { B<N> b(c); for (int i = 0; i < m; ++i) b.insert(p[i], i); sym_check(b.size() == (size_t) m, "size"); int n[4] = {0, 0, 0, 0}, k[4] = {0, 0, 0, 0}; for (auto& it : b) { sym_check((it.second >= 0) & (it.second < m), "only inserted items"); n[it.second]++; same(it.first, p[it.second], "location kept"); } for (int i = 0; i < m; ++i) sym_check(n[i] == 1, "iteration visits every item once");
    auto i = b.query(q, r); count(i.begin(), i.end(), k, m); for (int j = 0; j < m; ++j) { bool in = true; for (index_t d = 0; d < N; ++d) in &= (q[d] - r <= p[j][d]) & (p[j][d] <= q[d] + r); sym_check(!in | (k[j] == 1), "item inside the region is found once"); sym_check(k[j] <= 1, "no item twice"); }
    for (auto i = b.query(q, r); i != i.end(); ++i) { { typename B<N>::iterator plain = i; sym_check(&*plain == &*i, "iterator of the whole lattice at the same item"); } auto bin = i.current_bin(), want = b.binOf((*i).first); for (index_t d = 0; d < N; ++d) sym_check(bin[d] == want[d], "current cell"); auto e = i; ++e; if (e == e.end()) sym_check(!(e == i), "end differs from the last item"); else sym_check(!(e == i), "iterators at different items differ"); auto s = i; sym_check(s == i, "iterators at the same item are equal"); }
    int u[4] = {0, 0, 0, 0}, steps = 0; for (auto g = b.binsBegin(); g != b.binsEnd() && ++steps <= m; ++g) { auto want = b.binOf(g->second.first); for (index_t d = 0; d < N; ++d) sym_check(g->first[d] == want[d], "cell of an item"); int id = g->second.second; sym_check((id >= 0) & (id < m), "only inserted items"); if (id >= 0 && id < m) u[id]++; } for (int j = 0; j < m; ++j) sym_check(u[j] == 1, "cells hold every item once");
    { auto z = b.query(q, r); auto blk = z.query_block(); auto l = b.binOf(q - V<N>(r)), h = b.binOf(q + V<N>(r)); for (index_t d = 0; d < N; ++d) sym_check((blk.lo[d] <= l[d]) & (blk.hi[d] >= h[d]), "block of cells covers the region"); }
    if (m == 2) { auto g = b.binsBegin(); int id = g->second.second; b.erase(g); sym_check(b.size() == 1, "one item less"); for (auto& it : b) sym_check(it.second == 1 - id, "the other item stays"); }
    b.clear(); sym_check(b.size() == 0, "clear"); auto z = b.query(q, r); sym_check(z == z.end(), "nothing found after clear"); sym_reach("end"); }
static V<2> pick(int i) { static const T P[4][2] = {{0.25, 0.25}, {-0.5, 0.75}, {1, 1}, {-1.25, -0.25}}; return V<2>(P[i][0], P[i][1]); }
extern "C" void h_bin_many() { int i = sym_choose(4, "p"), j = sym_choose(4, "q"); T x = sym_f64("x"); sym_assume((x >= -1) & (x < 1.5)); V<2> p[4] = {pick(i), V<2>(x, 0.5), pick(j), pick(i)}; static const T R[3] = {0, 0.5, 1}; T r = R[sym_choose(3, "r")]; many<2>(1, p, 4, pick((i + j) % 4), r); V<3> t[2] = {V<3>(x, 0, -1.0), V<3>(1, 0.5, x)}; many<3>(1, t, 2, V<3>(0.25, 0.5, -0.5), r); }
extern "C" void h_bin_none() { B<2> b(1); auto z = b.query(V<2>(0.5, 0.5), 2.0); sym_check(z == z.end(), "nothing in an empty lattice"); T x = num("x", 1); b.insert(V<2>(x, 0.5), 7); static const T L[3][4] = {{1.5, 0, -0.5, 1}, {-1, 2, 1, 0.5}, {-2, 1.5, 2, -1.5}}; int k = sym_choose(3, "k"); auto e = b.query(Rect<T,2>(V<2>(L[k][0], L[k][1]), V<2>(L[k][2], L[k][3]))); int n = 0; for (; e != e.end() && n < 8; ++e) ++n; 
    // a region that is empty along an axis by at least a cell holds nothing
    sym_check(n == 0, "nothing in an empty region"); sym_check(n <= 1, "no item twice"); sym_reach("end"); }
extern "C" void h_bin_erase() { int k = sym_choose(4, "k"); T x = sym_f64("x"); sym_assume((x >= -1) & (x < 1)); V<2> p[4] = {V<2>(0.25, 0.25), V<2>(x, 0.5), V<2>(0.25, 0.25), V<2>(-0.5, 0.5)}; B<2> b(1); for (int i = 0; i < 4; ++i) b.insert(p[i], i); auto i = b.begin(); for (int s = 0; (*i).second != k && s < 4; ++s) ++i; sym_check((*i).second == k, "iteration visits every item"); b.erase(i); sym_check(b.size() == 3, "one item less"); int n[4] = {0, 0, 0, 0}; for (auto& it : b) n[it.second]++; for (int j = 0; j < 4; ++j) sym_check(n[j] == (j != k), "exactly the erased item is gone"); int m[4] = {0, 0, 0, 0}; auto q = b.query(V<2>(0.0, 0.0), 2.0); count(q, q.end(), m, 4); for (int j = 0; j < 4; ++j) sym_check(m[j] == (j != k), "query after erasing"); sym_reach("end"); }
// many items in a cell, far from the origin; wide regions
extern "C" void h_bin_heap() { static const T O[4][2] = {{0, 0}, {1e5, -7}, {-40, 1e5}, {-1e5, -1e5}}; int o = sym_choose(4, "o"), k = sym_choose(3, "k"); V<2> c(O[o][0], O[o][1]); B<2> b(1); V<2> p[14]; T x = sym_f64("x"); sym_assume((x >= 0) & (x < 1)); for (int i = 0; i < 10; ++i) p[i] = c + V<2>(i % 3 == 1 ? x : i / 16.0, 0.5); p[10] = c + V<2>(1.5, 0.5); p[11] = c + V<2>(-6.5, 4.5); p[12] = c + V<2>(x, 7.5); p[13] = c + V<2>(9.5, -2.5); for (int i = 0; i < 14; ++i) b.insert(p[i], i); sym_check(b.size() == 14, "size");
    static const T L[3][4] = {{0, 0, 0.99, 0.99}, {-7, -3, 10, 8}, {-0.5, 0.5, 2, 7.25}}; V<2> lo = c + V<2>(L[k][0], L[k][1]), hi = c + V<2>(L[k][2], L[k][3]); int n[14] = {}, steps = 0; auto q = b.query(Rect<T,2>(lo, hi)); for (; q != q.end(); ++q) { if (++steps > 14) { sym_check(false, "query ends"); return; } int id = (*q).second; sym_check((id >= 0) & (id < 14), "only inserted items"); if (id >= 0 && id < 14) n[id]++; }
    auto l = b.binOf(lo), h = b.binOf(hi); for (int i = 0; i < 14; ++i) { bool in = (lo[0] <= p[i][0]) & (p[i][0] <= hi[0]) & (lo[1] <= p[i][1]) & (p[i][1] <= hi[1]); auto g = b.binOf(p[i]); bool near = (g.x >= l.x) & (g.x <= h.x) & (g.y >= l.y) & (g.y <= h.y); sym_check(!in | (n[i] == 1), "item inside the region is found once"); sym_check(n[i] <= 1, "no item twice"); sym_check(near | (n[i] == 0), "no item from a cell outside of the region"); }
    auto e = b.begin(); int first = (*e).second; b.erase(e); sym_check(b.size() == 13, "one item less"); int m[14] = {}; for (auto& it : b) m[it.second]++; for (int i = 0; i < 14; ++i) sym_check(m[i] == (i != first), "exactly the erased item is gone"); sym_reach("end"); }
// three dimensions, regions whose lower corner lies in a different cell along every axis; the item is in one of the cells, or just outside of them
extern "C" void h_bin_3d() { static const T L[4][3] = {{0, 5, -3}, {4, 0, 2}, {-2, 1, 7}, {3, -1, 0}}; int c = sym_choose(4, "corner"), o = sym_choose(9, "off"); B<3> b(1); V<3> lo(L[c][0] + 0.25, L[c][1] + 0.5, L[c][2] + 0.75), p, hi; T w = sym_f64("w"), x = sym_f64("x"); sym_assume((w >= 1) & (w < 1.25) & (x >= 0) & (x < 1)); hi = lo + V<3>(w, w + 1, w);
    int out = -1; for (index_t d = 0; d < 3; ++d) p[d] = L[c][d] + (o < 8 ? (o >> d) & 1 : 0) + (d == o % 3 ? x : T(0.6)); if (o == 8) { out = sym_choose(6, "side"); p[out / 2] += out % 2 ? 3 + (out / 2 == 1) : -1; } b.insert(p, 0); b.insert(V<3>(L[c][0] + 1.5, L[c][1] + 2.5, L[c][2] + 0.5), 1);
    int n[2] = {0, 0}; auto i = b.query(Rect<T,3>(lo, hi)); count(i, i.end(), n, 2); bool in = true, in1 = true; V<3> s(L[c][0] + 1.5, L[c][1] + 2.5, L[c][2] + 0.5); auto pb = b.binOf(p), lb = b.binOf(lo), hb = b.binOf(hi); bool near = true; for (index_t d = 0; d < 3; ++d) { in &= (lo[d] <= p[d]) & (p[d] <= hi[d]); in1 &= (lo[d] <= s[d]) & (s[d] <= hi[d]); near &= (pb[d] >= lb[d]) & (pb[d] <= hb[d]); }
    sym_check(!in | (n[0] == 1), "item inside the region is found once"); sym_check(!in1 | (n[1] == 1), "other item inside the region is found once"); sym_check((n[0] <= 1) & (n[1] <= 1), "no item twice"); sym_check(near | (n[0] == 0), "no item from a cell outside of the region"); sym_reach("end"); }
