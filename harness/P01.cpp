//@ h_deque_ops   q=60 t=400 split=op0:15 need=heap,inline,wrapped
//@ h_deque_pairs q=60 t=400 split=shape:7 need=end,copied,moved
//@ h_deque_misc  q=60 split=n:4 t=60 need=end
//@ h_deque_long  q=60 split=n:4,k:4,op:15 t=60 need=end
//@bounds Deque<T,2> and Deque<T,4> with an owning element type; a pre-state built by choosing a shape (inline/heap, wrapped head), then up to 3 (quick) / 4 (thorough) arbitrary operations out of 15, element values fully symbolic 32-bit integers; at most 24 elements (130 in long sequences, filled in four patterns)
//@assume allocation does not fail; self-move-assignment and inserting a reference to an element of the same deque are outside the property
#include <geomc/Deque.h>
#include "elt.h"
using namespace geom;
#ifdef THOROUGH
#define NOPS 4
#else
#define NOPS 3
#endif
template <typename D> static void same(D& d, const Seq& m) {
    sym_check(d.size() == m.n, "size equals the number of stored elements");
    sym_check(d.capacity() >= d.size(), "capacity is at least the size");
    for (int i = 0; i < m.n; ++i) sym_check(d[i].v() == m.a[i], "element i is the i-th of the sequence");
    if (m.n > 0) {
        sym_check(d.front().v() == m.a[0], "front is the first element");
        sym_check(d.back().v() == m.a[m.n-1], "back is the last element");
        sym_check(d[-1].v() == m.a[m.n-1], "negative indices count from the end");
        sym_check(d[m.n].v() == m.a[0], "indices wrap past the end");
        const D& c = d;
        sym_check(c[m.n-1].v() == m.a[m.n-1] && c.front().v() == m.a[0] && c.back().v() == m.a[m.n-1], "const accessors agree");
    }
}
static int val() { return sym_i32("v"); }
// build one of several structurally different states
template <typename D> static void build(D& d, Seq& m, int shape) {
    auto pb = [&]{ int v = val(); d.push_back(Elt(v)); m.push_back(v); };
    auto pf = [&]{ int v = val(); d.push_front(Elt(v)); m.push_front(v); };
    auto of = [&]{ d.pop_front(); m.pop_front(); };
    auto ob = [&]{ d.pop_back(); m.pop_back(); };
    switch (shape) {
        case 0: break;                                   // empty inline
        case 1: pb(); break;
        case 2: pf(); pb(); break;                       // full inline (N=2), wrapped head
        case 3: pb(); pb(); pb(); of(); break;           // heap, offset head
        case 4: pf(); pb(); pf(); pb(); pb(); ob(); ob(); ob(); break;  // heap, shrunk below N
        case 5: pb(); pf(); pf(); pf(); break;           // heap full, wrapped
        case 6: for (int i = 0; i < 4; ++i) { pb(); pf(); } pb(); of(); break;      // larger heap
    }
}
template <typename D> static void step(D& d, Seq& m, int op, const int N) {
    switch (op) {
        case 0: { int v = val(); Elt e(v); auto& r = d.push_back(e); m.push_back(v); sym_check(r.v() == v && &r == &d.back(), "push_back returns the new element"); break; }
        case 1: { int v = val(); auto& r = d.push_front(Elt(v)); m.push_front(v); sym_check(r.v() == v && &r == &d.front(), "push_front returns the new element"); break; }
        case 2: { auto r = d.pop_front(); sym_check(bool(r) == (m.n > 0), "pop_front yields a value iff non-empty"); if (r) { int x = m.pop_front(); sym_check(r->v() == x, "pop_front yields the first element"); } break; }
        case 3: { auto r = d.pop_back(); sym_check(bool(r) == (m.n > 0), "pop_back yields a value iff non-empty"); if (r) { int x = m.pop_back(); sym_check(r->v() == x, "pop_back yields the last element"); } break; }
        case 4: d.clear(); m.clear(); break;
        case 5: { long n = sym_choose(3, "cap"); d.reserve(n * 3); sym_check(d.capacity() >= n * 3, "reserve provides the capacity"); break; }
        case 6: { D e(d); same(e, m); e.push_back(Elt(7)); break; }              // copy, then mutate the copy
        case 7: { D e(std::move(d)); same(e, m); d = std::move(e); break; }        // move out and back
        case 8: { D e; Seq t; t.push_back(val()); t.push_back(val()); t.push_back(val()); for (int i = 0; i < 3; ++i) e.push_back(Elt(t.a[i])); d = e; m.set(t); same(e, t); break; }  // copy-assign heap
        case 9: { D e; Seq t; t.push_front(val()); e.push_front(Elt(t.a[0])); d = e; m.set(t); same(e, t); break; }   // copy-assign inline
        case 10: { D e; Seq t; for (int i = 0; i < 5; ++i) { int v = val(); t.push_front(v); e.push_front(Elt(v)); } d = std::move(e); m.set(t); Seq z; same(e, z); e.push_back(Elt(1)); break; }
        case 11: { D e; Seq t; int v = val(); t.push_front(v); e.push_front(Elt(v)); d = std::move(e); m.set(t); Seq z; same(e, z); e.push_front(Elt(1)); break; }
        case 12: { D& r = d; d = r; break; }           // self copy-assignment
        case 13: { if (m.n) { int v = val(); d[0] = Elt(v); m.a[0] = v; } break; }
        case 14: { D e(d); sym_check(e == d, "a copy compares equal"); int v = val(); e.push_front(Elt(v)); sym_check(e != d, "a longer sequence compares unequal"); if (m.n) { D f(d); f[m.n-1] = Elt(v); sym_check((f == d) == (v == m.a[m.n-1]), "equality compares all elements"); } break; }
    }
}
template <int N> static void ops() {
    {
        using D = Deque<Elt,N>;
        D d; Seq m;
        int op = sym_choose(15, "op0");
        build(d, m, sym_choose(6, "shape"));
        if (d.capacity() > N) sym_reach("heap"); else sym_reach("inline");
        if (m.n > 1 && &d.back() < &d.front()) sym_reach("wrapped");
        for (int k = 0; k < NOPS; ++k) {
            if (k) op = sym_choose(15, "op");
            step(d, m, op, N);
            if (k == NOPS - 1) same(d, m);
        }
        same(d, m);
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_deque_ops() { ops<2>(); }
extern "C" void h_deque_pairs() {
    {
        using D = Deque<Elt,2>;
        D d; Seq m; D e; Seq t;
        build(d, m, sym_choose(7, "shape"));
        build(e, t, sym_choose(7, "shape2"));
        switch (sym_choose(5, "kind")) {
            case 0: d = e; m.set(t); same(e, t); sym_reach("copied"); break;
            case 1: d = std::move(e); m.set(t); t.clear(); same(e, t); sym_reach("moved"); break;
            case 2: { D f(e); same(f, t); same(e, t); d = f; m.set(t); same(f, t); break; }
            case 3: { D f(std::move(e)); same(f, t); Seq z; same(e, z); step(f, t, sym_choose(15, "opf"), 2); same(f, t); t.clear(); break; }
            case 4: { bool eq = m.n == t.n; for (int i = 0; eq && i < m.n; ++i) eq = m.a[i] == t.a[i]; sym_check((d == e) == eq, "equality is elementwise"); break; }
        }
        same(d, m);
        step(d, m, sym_choose(15, "op1"), 2);
        step(e, t, sym_choose(4, "op2"), 2);
        same(d, m); same(e, t);
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_deque_misc() {
    {
        int src[6]; Seq m;
        int n = (int[]){0,1,4,6}[sym_choose(4, "n")];
        for (int i = 0; i < n; ++i) { src[i] = val(); m.push_back(src[i]); }
        Deque<Elt,4> d(src, n);
        same(d, m);
        Deque<Elt,4> c((index_t) (3 * sym_choose(4, "cap")));
        Seq z; same(c, z);
        for (int i = 0; i < 6; ++i) { int v = val(); c.push_front(Elt(v)); z.push_front(v); if (i & 1) { int w = val(); c.push_back(Elt(w)); z.push_back(w); } }
        same(c, z);
        step(d, m, sym_choose(15, "op"), 4); same(d, m);
        // every index in a symbolic window addresses the element at its residue
        if (m.n > 0) { long i = sym_range(-3 * m.n, 3 * m.n, "i"); long k = ((i % m.n) + m.n) % m.n; sym_check(d[sym_concretize(i)].v() == m.a[sym_concretize(k)], "indices are taken modulo the size"); }
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
// long sequences, filled in several patterns, edited once and emptied from either end
extern "C" void h_deque_long() {
    {
        int n = (int[]){15, 33, 66, 130}[sym_choose(4, "n")], k = sym_choose(4, "k");
        Deque<Elt,8> d; Seq m; int v = val();
        for (int i = 0; i < n; ++i) { int x = i % 7 == 3 ? v : i; bool back = k == 0 || (k == 2 && i % 3) || (k == 3 && i < n / 2); if (back) { d.push_back(Elt(x)); m.push_back(x); } else { d.push_front(Elt(x)); m.push_front(x); } if (k == 3 && i % 5 == 4) { auto r = d.pop_front(); int y = m.pop_front(); sym_check(bool(r) && r->v() == y, "pop_front yields the first element"); } }
        same(d, m);
        step(d, m, sym_choose(15, "op"), 8); same(d, m);
        Deque<Elt,8> e(d); same(e, m); sym_check(e == d, "a copy compares equal");
        while (m.n > 0) { auto r = k & 1 ? d.pop_front() : d.pop_back(); int y = k & 1 ? m.pop_front() : m.pop_back(); sym_check(bool(r) && r->v() == y, "elements come off in order"); if (!r) break; if (m.n % 16 == 0) same(d, m); }
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
