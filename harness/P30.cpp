// P30: trees: nodes, items and their order stay consistent through any history of edits.
//@ h_tree_build  mode=real q=60 t=300 split=shape:9,order:3 need=end
//@ h_tree_step   mode=real q=100 t=300 split=shape:9,op:8 need=end
//@ h_tree_pair   mode=real q=60 t=300 split=shape:1,+shape:7,op:8,op2:8 need=end
//@ h_tree_split  mode=real q=60 t=200 split=shape:5 need=end
//@ h_tree_copy   mode=real q=60 t=200 split=shape:9,kind:4 need=end
//@ h_tree_again mode=real q=60 t=200 split=shape:2,+shape:7,op:8,kind:4 need=end
//@ h_tree_adopt  mode=real q=60 t=200 split=shape:7,src:7 need=end
//@ h_tree_walk   mode=real q=60 t=200 split=shape:9 need=end,moved
//@ h_tree_search mode=real q=60 t=200 split=shape:9 need=end
//@bounds nine tree shapes of up to twelve nodes and five levels built in three orders, all item values; every single edit at every place, every pair of edits on one shape (on all shapes in thorough), every edit of copies of two shapes
//@assume edits get handles of the same tree, as documented; a handle to an erased node is not used again
#include "sym.h"
#include <geomc/Tree.h>
using namespace geom;
#ifndef THOROUGH
#define THOROUGH 0
#endif
typedef Tree<int,int> TR; typedef Subtree<int,int> S;
enum { K = 16, L = 12 };
static int sh(const char* n) { return sym_i32(n); }
// the model: children and items of every node as arrays
struct Model { int n = 0, par[K], nk[K], kid[K][K], ni[K], it[K][L]; bool live[K];
    int node(int p, int pos) { int id = n++; par[id] = p; nk[id] = ni[id] = 0; live[id] = true; if (p >= 0) { if (nk[p] == 0) { for (int i = 0; i < ni[p]; ++i) it[id][i] = it[p][i]; ni[id] = ni[p]; ni[p] = 0; } for (int i = nk[p]; i > pos; --i) kid[p][i] = kid[p][i - 1]; kid[p][pos] = id; nk[p]++; } return id; }
    void item(int a, int pos, int v) { for (int i = ni[a]; i > pos; --i) it[a][i] = it[a][i - 1]; it[a][pos] = v; ni[a]++; }
    void unitem(int a, int pos) { for (int i = pos; i + 1 < ni[a]; ++i) it[a][i] = it[a][i + 1]; ni[a]--; }
    int all(int a, int* out, int m) const { if (nk[a]) for (int i = 0; i < nk[a]; ++i) m = all(kid[a][i], out, m); else for (int i = 0; i < ni[a]; ++i) out[m++] = it[a][i]; return m; }
    int order(int a, int* out, int m) const { for (int i = 0; i < nk[a]; ++i) out[m++] = kid[a][i]; for (int i = 0; i < nk[a]; ++i) m = order(kid[a][i], out, m); return m; }
    void kill(int a) { live[a] = false; for (int i = 0; i < nk[a]; ++i) kill(kid[a][i]); }
    void flat(int a) { int b[K * L], m = all(a, b, 0); for (int i = 0; i < nk[a]; ++i) kill(kid[a][i]); nk[a] = 0; ni[a] = m; for (int i = 0; i < m; ++i) it[a][i] = b[i]; }
    void drop(int a) { int p = par[a], j = 0; kill(a); for (int i = 0; i < nk[p]; ++i) if (kid[p][i] != a) kid[p][j++] = kid[p][i]; nk[p] = j; } };
struct World { TR t; Model m; S h[K]; int k = 0;
    World() { h[0] = t.root(); *h[0] = m.node(-1, 0); }
    World(TR&& s, const Model& o) : t(std::move(s)), m(o) { find(t.root(), 0); }
    World(const TR& s, const Model& o) : t(s), m(o) { find(t.root(), 0); }
    World(const ConstSubtree<int,int>& s, const Model& o) : t(s), m(o) { find(t.root(), 0); }
    void find(S s, int a) { h[a] = s; S q = s.begin(); for (int i = 0; i < m.nk[a]; ++i, ++q) find(q, m.kid[a][i]); }
    int node(int p, int pos) { S b = pos < m.nk[p] ? h[m.kid[p][pos]] : h[p].end(); int id = m.node(p, pos); h[id] = h[p].insert_child_node(b, id); return id; }
    void item(int a, int pos) { int v = sh("v"); auto b = h[a].items_begin(); for (int i = 0; i < pos; ++i) ++b; auto r = h[a].insert_item(b, v); sym_check(*r == v, "inserted item"); m.item(a, pos, v); } };
static void same_subtree(S s, const Model& m, int a) { sym_check(s.node_count() == m.nk[a], "child count"); sym_check(*s == a, "node value"); int w[K * L], n = m.all(a, w, 0), i = 0; sym_check(s.item_count() == n, "item count");
    for (auto p = s.items_begin(); p != s.items_end(); ++p) { if (i >= n) { sym_check(false, "too many items"); return; } sym_check(*p == w[i++], "item order"); } sym_check(i == n, "all items");
    int c = 0; for (S q = s.begin(); q != s.end(); ++q) { if (c >= m.nk[a]) { sym_check(false, "too many children"); return; } sym_check(q.parent() == s, "parent"); same_subtree(q, m, m.kid[a][c++]); } sym_check(c == m.nk[a], "all children");
    int o[K], d = m.order(a, o, 0), j = 0; for (S q = s.subtree_begin(); q != s.subtree_end(); ++q) { if (j >= d) { sym_check(false, "too many descendants"); return; } sym_check(*q == o[j++], "descendants in sibling-first order"); } sym_check(j == d, "all descendants"); }
static void same_tree(TR& t, const Model& m) { S r = t.root(); sym_check(r.is_root(), "root"); sym_check(r.parent() == t.end(), "parent of the root"); same_subtree(r, m, 0); int o[K], d = m.order(0, o, 0), j = 0, w[K * L]; sym_check(t.size() == (size_t) d + 1, "size"); sym_check(t.item_count() == (size_t) m.all(0, w, 0), "item count"); S q = t.begin(); sym_check(*q == 0, "root comes first"); for (++q; q != t.end(); ++q) { if (j >= d) { sym_check(false, "too many nodes"); return; } sym_check(*q == o[j++], "sibling-first order"); } sym_check(j == d, "all nodes"); }
static const int SHAPE[9][11] = {{-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}, {0, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}, {0, 0, 0, -1, -1, -1, -1, -1, -1, -1, -1}, {0, 0, 1, 1, 2, -1, -1, -1, -1, -1, -1}, {0, 0, 0, 2, 2, -1, -1, -1, -1, -1, -1}, {0, 1, 2, -1, -1, -1, -1, -1, -1, -1, -1}, {0, 0, 1, 1, 3, 3, -1, -1, -1, -1, -1}, {0, 0, 0, 0, 0, 3, 3, 3, 3, 7, 7}, {0, 0, 2, 2, 4, 4, 6, 6, -1, -1, -1}};
static const int ITEMS[9][12] = {{2}, {0, 1}, {0, 1, 0, 2}, {0, 0, 0, 0, 1, 2}, {0, 0, 0, 0, 2, 1}, {0, 0, 0, 2}, {0, 0, 1, 0, 1, 0, 1}, {0, 0, 2, 0, 1, 0, 0, 0, 1, 0, 1, 2}, {0, 1, 0, 0, 0, 1, 0, 2, 1}};
// order 0: nodes then items from the left; 1: items from the right, each to the front; 2: nodes inserted from the right
static void build(World& w, int s, int order) { int id[12] = {0}; int n = 0; while (n < 11 && SHAPE[s][n] >= 0) ++n; if (order < 2) for (int i = 0; i < n; ++i) { int p = id[SHAPE[s][i]]; id[i + 1] = w.node(p, w.m.nk[p]); } else { int done = 0; for (int p = 0; p < 12; ++p) for (int i = n - 1; i >= 0; --i) if (SHAPE[s][i] == p) id[i + 1] = w.node(id[p], 0), ++done; }
    for (int j = 0; j <= n; ++j) { int a = order == 1 ? n - j : j; for (int i = 0; i < ITEMS[s][a]; ++i) w.item(id[a], order == 1 ? 0 : w.m.ni[id[a]]); } }
static int pick_node(World& w, const char* nm) { int c[K], n = 0; for (int i = 0; i < w.m.n; ++i) if (w.m.live[i]) c[n++] = i; return c[sym_choose(n, nm)]; }
static void edit(World& w, int op) { Model& m = w.m; int a = pick_node(w, "node"); bool ok = false; switch (op) {
    case 0: w.node(a, sym_choose(m.nk[a] + 1, "pos")); break;
    case 1: if (m.nk[a]) { int v = sh("v"); auto r = w.h[a].insert_item(w.h[a].items_begin(), v); sym_check(r == w.h[a].items_end(), "no item in an inner node"); } else w.item(a, sym_choose(m.ni[a] + 1, "pos")); break;
    case 2: { if (m.nk[a] || !m.ni[a]) { auto i = w.t.root().items_begin(); if (i != w.t.root().items_end()) { w.h[a].erase(i, &ok); sym_check(!ok, "item of another node is kept"); } break; } int p = sym_choose(m.ni[a], "pos"); auto i = w.h[a].items_begin(); for (int j = 0; j < p; ++j) ++i; auto r = w.h[a].erase(i, &ok); m.unitem(a, p); sym_check(ok, "erased"); if (p < m.ni[a]) sym_check(*r == m.it[a][p], "item after the erased one"); else sym_check(r == w.h[a].items_end(), "end after the last item"); break; }
    case 3: if (a) { int p = m.par[a], j = 0; while (m.kid[p][j] != a) ++j; S r = w.h[p].erase(w.h[a], &ok); m.drop(a); sym_check(ok, "erased"); if (j < m.nk[p]) sym_check(r == w.h[m.kid[p][j]], "node after the erased one"); else sym_check(r == w.h[p].end(), "end after the last child"); int q = pick_node(w, "other"); if (q) { int f = q == m.par[q] ? 0 : q; w.h[f].erase(w.h[f], &ok); sym_check(!ok, "only a child can be erased"); } } else { w.h[0].erase(w.h[0], &ok); sym_check(!ok, "root is kept"); } break;
    case 4: w.h[a].flatten(); m.flat(a); break;
    case 5: w.h[a].clear(); m.flat(a); m.ni[a] = 0; break;
    case 6: { int nn = sym_choose(3, "count"), pos = sym_choose(m.nk[a] + 1, "pos"), id[3]; S b = pos < m.nk[a] ? w.h[m.kid[a][pos]] : w.h[a].end(); for (int i = 0; i < nn; ++i) id[i] = m.n + i; const int* ib = id; const int* ie = id + nn; S r = pos == m.nk[a] && (a & 1) ? w.h[a].insert_child_nodes(ib, ie) : w.h[a].insert_child_nodes(b, ib, ie); if (!nn) { sym_check(r == w.h[a].end(), "no node inserted"); break; } for (int i = 0; i < nn; ++i) m.node(a, pos + i); S q = r; for (int i = 0; i < nn; ++i) { w.h[id[i]] = q; ++q; } break; }
    default: { if (m.nk[a]) { int v = 0; auto r = w.h[a].insert_items(w.h[a].items_begin(), &v, &v + 1); sym_check(r == w.h[a].items_end(), "no item in an inner node"); break; } int nn = sym_choose(3, "count"), pos = sym_choose(m.ni[a] + 1, "pos"), v[3]; for (int& x : v) x = sh("v"); auto i = w.h[a].items_begin(); for (int j = 0; j < pos; ++j) ++i; index_t ct = 0; auto r = w.h[a].insert_items(i, v, v + nn, &ct); if (!nn) { sym_check(r == w.h[a].items_end(), "no item inserted"); break; } sym_check((ct == nn) & (*r == v[0]), "count of inserted items"); for (int j = 0; j < nn; ++j) m.item(a, pos + j, v[j]); } } }
extern "C" void h_tree_build() { { World w; build(w, sym_choose(9, "shape"), sym_choose(3, "order")); same_tree(w.t, w.m); } sym_check(sym_live() == 0, "all memory released"); sym_reach("end"); }
extern "C" void h_tree_step() { { World w; build(w, sym_choose(9, "shape"), 0); edit(w, sym_choose(8, "op")); same_tree(w.t, w.m); } sym_check(sym_live() == 0, "all memory released"); sym_reach("end"); }
extern "C" void h_tree_pair() { World w; build(w, THOROUGH ? sym_choose(7, "shape") : 2 + sym_choose(1, "shape"), 0); edit(w, sym_choose(8, "op")); edit(w, sym_choose(8, "op2")); same_tree(w.t, w.m); sym_reach("end"); }
static long cmp(int a, int b) { return (long) a - (long) b; }
extern "C" void h_tree_split() { World w; static const int SH[5] = {1, 2, 3, 4, 5}; build(w, SH[sym_choose(5, "shape")], 0); Model& m = w.m; int a = pick_node(w, "node"); if (!m.nk[a]) { int extra = sym_choose(3, "extra"); for (int i = 0; i < extra; ++i) w.item(a, m.ni[a]); } int piv = sh("p"), id = m.n; S r = w.h[a].split(cmp, piv, id); if (!a || m.nk[a] || m.ni[a] < 2) { sym_check(r == w.h[a].end(), "not split"); same_tree(w.t, m); sym_reach("end"); return; }
    int p = m.par[a], j = 0; while (m.kid[p][j] != a) ++j; int n = m.ni[a], old[L], used[L], lo = 0; for (int i = 0; i < n; ++i) { old[i] = m.it[a][i]; used[i] = 0; lo += cmp(old[i], piv) < 0; } m.node(p, j); w.h[id] = r; sym_check(r.parent() == w.h[p], "new sibling");
    sym_check((r.item_count() == lo) & (w.h[a].item_count() == n - lo), "item counts"); if (r.item_count() > n || w.h[a].item_count() > n) return; m.ni[id] = m.ni[a] = 0; for (int k = 0; k < 2; ++k) { int x = k ? a : id, c = k ? n - lo : lo; auto q = w.h[x].items_begin(); for (int i = 0; i < c; ++i, ++q) { int v = *q; sym_check((cmp(v, piv) < 0) == !k, "items on their side of the pivot"); m.it[x][m.ni[x]++] = v; int eq = 0; for (int l = 0; l < n; ++l) { bool e = (old[l] == v) & !used[l] & !eq; used[l] |= e; eq |= e; } sym_check(eq, "same items as before"); } } same_tree(w.t, m); sym_reach("end"); }
extern "C" void h_tree_copy() { int s = sym_choose(9, "shape"), kind = sym_choose(4, "kind"); World w; build(w, s, 0); if (kind == 0) { TR c(w.t); same_tree(c, w.m); sym_check(c == w.t, "copy is equal"); sym_check(!(c != w.t), "copy is equal"); S r = c.root(); r.clear(); *r = 77; same_tree(w.t, w.m); S n = r.insert_child_node(5); n.insert_item(1); sym_check((c.size() == 2) & (c.item_count() == 1), "copy can be edited"); }
    else if (kind == 1) { TR c(std::move(w.t)); same_tree(c, w.m); S r = c.root(), n = r.insert_child_node(r.begin(), 99); n.insert_item(7); sym_check(r.begin() == n, "moved tree can be edited"); r.flatten(); sym_check(c.size() == 1, "moved tree can be edited"); }
    else if (kind == 2) { int v[3] = {sh("v"), sh("v"), sh("v")}, n = sym_choose(4, "n"); TR c(v, v + n); Model m; m.node(-1, 0); for (int i = 0; i < n; ++i) m.item(0, i, v[i]); *c.root() = 0; same_tree(c, m); S k = c.root().insert_child_node(m.node(0, 0)); k.insert_item(v[1]); m.item(1, m.ni[1], v[1]); same_tree(c, m); }
    else { World u; build(u, s, 0); bool eq = true; int x[K * L], y[K * L], n = w.m.all(0, x, 0); u.m.all(0, y, 0); for (int i = 0; i < n; ++i) eq &= x[i] == y[i]; sym_check((w.t == u.t) == eq, "equal when all items are"); sym_check((w.t != u.t) == !eq, "equal when all items are"); int a = pick_node(u, "node"); *u.h[a] = 50; sym_check(!(w.t == u.t), "node values differ"); *u.h[a] = a; u.node(a, u.m.nk[a]); sym_check(!(w.t == u.t), "structures differ"); sym_check(!(u.t == w.t), "structures differ"); } sym_reach("end"); }
// copies, moved trees and trees made from a subtree are edited like any other, at every place; the source keeps its own content
extern "C" void h_tree_again() { { World w; build(w, THOROUGH ? sym_choose(7, "shape") : 2 + 2 * sym_choose(2, "shape"), 0); int kind = sym_choose(4, "kind"), op = sym_choose(8, "op"); const TR& c = w.t; const Model m0 = w.m; if (kind == 0) { World u(c, w.m); edit(u, op); same_tree(u.t, u.m); same_tree(w.t, m0); } else if (kind == 1) { World u(std::move(w.t), w.m); edit(u, op); same_tree(u.t, u.m); } else if (kind == 2) { World u(c.root(), w.m); edit(u, op); same_tree(u.t, u.m); same_tree(w.t, m0); } else { World u(c, w.m); edit(w, op); same_tree(u.t, m0); same_tree(w.t, w.m); } } sym_check(sym_live() == 0, "all memory released"); sym_reach("end"); }
extern "C" void h_tree_adopt() { World w, u; build(w, sym_choose(7, "shape"), 0); build(u, sym_choose(7, "src"), 0); Model& m = w.m; int a = pick_node(w, "node"), b = pick_node(u, "from"); sym_assume((m.nk[a] > 0) | (m.ni[a] == 0)); int pos = sym_choose(m.nk[a] + 1, "pos"); S r = w.h[a].adopt(u.h[b], pos < m.nk[a] ? w.h[m.kid[a][pos]] : w.h[a].end());
    // copy the subtree in the model; node values keep those of the source, so renumber them in the tree first
    struct Rec { static void go(Model& m, const Model& f, int id, int b, S s) { *s = id; m.ni[id] = f.ni[b]; for (int i = 0; i < f.ni[b]; ++i) m.it[id][i] = f.it[b][i]; int k[K]; S q = s.begin(); for (int i = 0; i < f.nk[b]; ++i, ++q) { sym_check(*q == f.kid[b][i], "node values copied"); k[i] = m.n++; m.par[k[i]] = id; m.nk[k[i]] = m.ni[k[i]] = 0; m.live[k[i]] = true; m.kid[id][i] = k[i]; m.nk[id]++; go(m, f, k[i], f.kid[b][i], q); } } };
    int id = m.node(a, pos); sym_check(*r == b, "node values copied"); sym_check(r.node_count() == u.m.nk[b], "child count"); Rec::go(m, u.m, id, b, r); same_tree(w.t, m); same_tree(u.t, u.m); sym_reach("end"); }
// navigation through handles, read-only views, and trees made from a subtree
static void same_const(const ConstSubtree<int,int>& s, const Model& m, int a) { int w[K * L], n = m.all(a, w, 0), i = 0; sym_check(*s == a && s.node_count() == m.nk[a] && s.item_count() == n, "read-only node"); for (auto p = s.items_begin(); p != s.items_end(); ++p) { if (i >= n) { sym_check(false, "too many items"); return; } sym_check(*p == w[i++], "read-only item order"); } sym_check(i == n, "all items");
    int c = 0; for (auto q = s.begin(); q != s.end(); ++q) { if (c >= m.nk[a]) { sym_check(false, "too many children"); return; } sym_check(q.parent() == s, "parent"); same_const(q, m, m.kid[a][c++]); } sym_check(c == m.nk[a], "all children"); }
extern "C" void h_tree_walk() { { World w, u; build(w, sym_choose(9, "shape"), 0); Model& m = w.m; const TR& t = w.t; same_const(t.root(), m, 0); sym_check((t.begin() == t.root()) & t.root().is_root() & (t.root().parent() == t.end()), "read-only root"); int o[K], d = m.order(0, o, 0), j = 0; auto e = t.begin(); for (++e; e != t.end(); ++e) { if (j >= d) { sym_check(false, "too many nodes"); return; } sym_check(*e == o[j++], "read-only nodes"); } sym_check(j == d, "all nodes");
    int a = pick_node(w, "node"); S h = w.h[a], k = h; sym_check(&h.tree() == &w.t, "owner"); sym_check(h.is_root() == (a == 0), "root"); ConstSubtree<int,int> c(h); sym_check(&c.tree() == &w.t, "owner"); S back = w.t.subtree(c); sym_check(back == h, "writable handle of a read-only one"); S none = u.t.subtree(c); sym_check(none == u.t.end(), "handle of another tree"); sym_check((*h.operator->() == a) & (*c.operator->() == a), "member access");
    if (m.nk[a]) { +k; sym_check(k == w.h[m.kid[a][0]], "first child"); sym_check((h.begin() == k) & !(h.begin() != k), "first child"); -k; sym_check(k == h, "back to the parent"); sym_reach("moved"); }
    if (a) { int p = m.par[a], i = 0, n = m.nk[p]; while (m.kid[p][i] != a) ++i; S x = h; -x; sym_check(x == w.h[p], "parent"); if (i + 1 < n) { S y = h, z = y++; sym_check(z == h, "value before the step"); sym_check(y == w.h[m.kid[p][i + 1]], "next sibling"); S r = ++z; sym_check((r == y) & (z == y), "next sibling"); } if (i) { S y = h, z = y--; sym_check(z == h, "value before the step"); sym_check(y == w.h[m.kid[p][i - 1]], "previous sibling"); S r = --z; sym_check((r == y) & (z == y), "previous sibling"); }
        ConstSubtree<int,int> y(w.h[p]); +y; for (int q = 0; q < i; ++q) ++y; sym_check(y == c, "read-only steps"); -y; sym_check(*y == p, "read-only parent"); }
    TR f(c); struct Rec { static void go(S s, const Model& m, int a) { int w[K * L], n = m.all(a, w, 0), i = 0; sym_check(*s == a && s.node_count() == m.nk[a] && s.item_count() == n, "copied node"); for (auto p = s.items_begin(); p != s.items_end(); ++p) { if (i >= n) { sym_check(false, "too many items"); return; } sym_check(*p == w[i++], "copied items"); } sym_check(i == n, "all items"); int c = 0; for (S q = s.begin(); q != s.end(); ++q) { if (c >= m.nk[a]) { sym_check(false, "too many children"); return; } sym_check(q.parent() == s, "parent"); go(q, m, m.kid[a][c++]); } sym_check(c == m.nk[a], "all children"); } };
    int q[K], n = m.order(a, q, 0); sym_check(f.size() == (size_t) n + 1, "tree of a subtree"); sym_check(f.item_count() == (size_t) h.item_count(), "tree of a subtree"); sym_check(f.root().is_root() & (f.root().parent() == f.end()), "tree of a subtree"); Rec::go(f.root(), m, a); S g = f.root(); *g = 99; S ch = g.insert_child_node(98); if (n) { sym_check(ch.item_count() == 0, "edits of the new tree"); ch.insert_item(7); } sym_check(*ch == 98 && f.size() == (size_t) n + 2, "edits of the new tree"); same_tree(w.t, m); } sym_check(sym_live() == 0, "all memory released"); sym_reach("end"); }
static bool has(const S& s, int key) { for (auto i = s.items_begin(); i != s.items_end(); ++i) if (*i == key) return true; return false; }
static bool even(const S& s, int key) { return *s % 2 == 0; }
static bool yes(const S& s, int key) { return true; }
static bool may(const int& node, const int& item) { return true; }
static bool tenth(const int& node, const int& item) { return node != 1; }
static int preorder(const Model& m, int a, int* o, int n) { o[n++] = a; for (int i = 0; i < m.nk[a]; ++i) n = preorder(m, m.kid[a][i], o, n); return n; }
extern "C" void h_tree_search() { World w; build(w, sym_choose(9, "shape"), 0); Model& m = w.m; int a = pick_node(w, "node"), b = pick_node(w, "leaf"); int o[K], n = preorder(m, a, o, 0);
    bool below = false, skip = false; for (int q = b; q >= 0; q = m.par[q]) { below |= q == a; if (!below || q == a) skip |= q == 1; } if (!m.nk[b]) { auto i = w.h[b].items_begin(); for (int k = 0; k < m.ni[b]; ++k, ++i) { S want = below ? w.h[b] : w.h[a].end(); sym_check(w.h[a].find_parent(i) == want, "parent of an item"); sym_check(w.h[a].find_parent<may>(i) == want, "parent of an item, bounded"); if (below) sym_check(w.h[a].find_parent<tenth>(i) == (skip ? w.h[a].end() : want), "excluded nodes are not searched"); } }
    int j = 0; auto e = w.h[a].end(); for (auto q = w.h[a].query(0, yes, yes); q != e; ++q) { if (j >= n) { sym_check(false, "query ends"); return; } sym_check(**q == o[j++], "query visits the subtree in depth-first order"); } sym_check(j == n, "query visits all nodes");
    j = 0; int ev[K], ne = 0; for (int i = 0; i < n; ++i) if (o[i] % 2 == 0) ev[ne++] = o[i]; for (auto q = w.h[a].query(0, yes, even); q != e; ++q) { if (j >= ne) { sym_check(false, "query ends"); return; } sym_check(**q == ev[j++], "query tests its nodes"); } sym_check(j == ne, "query finds all nodes");
    j = 0; typedef bool (*VF)(const S&, const int&); VF all = S::visit_all_nodes<int>, leaf = S::visit_all_leaf_nodes<int>; int lv[K], nl = 0; for (int i = 0; i < n; ++i) if (!m.nk[o[i]]) lv[nl++] = o[i]; for (auto q = w.h[a].query(0, all, leaf); q != e; ++q) { if (j >= nl) { sym_check(false, "query ends"); return; } sym_check(**q == lv[j++], "leaf nodes"); } sym_check(j == nl, "all leaf nodes");
    if (n > 1) { int x = o[n - 1]; auto q = w.h[a].query(0, all, even); q = w.h[o[n / 2]]; j = n / 2; for (; q != e; ++q) { while (j < n && o[j] % 2) ++j; if (j >= n) { sym_check(false, "query ends"); return; } sym_check(**q == o[j++], "query continues from a given node"); } while (j < n && o[j] % 2) ++j; sym_check(j == n, "query continues to the end"); }
    sym_check((w.h[a].global_begin() == w.t.begin()) & (w.h[a].global_end() == w.t.end()) & (w.t.begin() == w.t.root()), "ends of the whole tree");
    int key = sh("key"); bool hit = false, got = false; int x[K * L], c = m.all(a, x, 0); for (int i = 0; i < c; ++i) hit |= x[i] == key; j = 0; for (auto q = w.h[a].query(key, has, has); q != e; ++q) { if (++j > n) { sym_check(false, "query ends"); return; } got |= (*q).node_count() == 0; sym_check(has(*q, key), "visited nodes match"); } sym_check(hit == got, "a bounded query finds the matching leaves"); sym_reach("end"); }
