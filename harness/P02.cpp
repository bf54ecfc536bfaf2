//@ h_ss_ops   q=60 t=400 split=op0:19 need=heap,inline
//@ h_ss_pairs q=60 t=300 split=shape:6 need=end
//@ h_ss_ctors q=30 t=60 need=end
//@ h_ss_trivial q=30 t=100 split=op0:19 need=end
//@ h_ss_long q=60 split=n:3,op:19 t=60 need=end
//@bounds SmallStorage<T,2> and <T,4> with an owning element type and with a plain integer; a chosen pre-state (empty, inline, full inline, heap, heap shrunk below the inline capacity; in two-operand harnesses also a large heap state of nine elements), then up to 3 (quick) / 4 (thorough) arbitrary operations out of 19; element values symbolic; at most 24 elements (130 in long arrays)
//@assume allocation does not fail; self-move-assignment and inserting a reference to an element of the same container are outside the property
#include <optional>
#include <initializer_list>
#include <geomc/SmallStorage.h>
#include "elt.h"
using namespace geom;
#ifdef THOROUGH
#define NOPS 4
#else
#define NOPS 3
#endif
static int vv(const Elt& e) { return e.v(); }
static int vv(int e) { return e; }
static int val() { return sym_i32("v"); }
template <typename D> static void same(D& d, const Seq& m) {
    sym_check((long) d.size() == m.n, "size equals the number of stored elements");
    sym_check(d.capacity() >= d.size(), "capacity is at least the size");
    sym_check(d.empty() == (m.n == 0), "empty iff no elements");
    sym_check(d.end() - d.begin() == m.n, "iterator range spans the elements");
    sym_check(d.data() == d.begin(), "data is the first element");
    const D& c = d;
    for (int i = 0; i < m.n; ++i) sym_check(vv(d[i]) == m.a[i] && vv(c.begin()[i]) == m.a[i] && vv(c[i]) == m.a[i], "element i is the i-th of the sequence");
    if (m.n) sym_check(&c.front() == d.begin() && &c.back() == d.end() - 1, "front and back are the ends");
    if (m.n) sym_check(vv(d.front()) == m.a[0] && vv(d.back()) == m.a[m.n-1], "front and back are the ends");
}
template <typename D> static void build(D& d, Seq& m, int shape) {
    int n = (int[]){0, 1, 2, 3, 4, 9}[shape];
    for (int i = 0; i < n; ++i) { int v = val(); d.push_back(v); m.push_back(v); }
    if (shape == 4) for (int i = 0; i < 3; ++i) { d.pop_back(); m.pop_back(); }
}
template <typename D, typename T> static void step(D& d, Seq& m, int op) {
    switch (op) {
        case 0: { int v = val(); T e(v); auto& r = d.push_back(e); m.push_back(v); sym_check(vv(r) == v && &r == &d.back(), "push_back returns the new element"); break; }
        case 1: { int v = val(); auto& r = d.emplace_back(v); m.push_back(v); sym_check(vv(r) == v, "emplace_back returns the new element"); break; }
        case 2: { auto r = d.pop_back(); sym_check(bool(r) == (m.n > 0), "pop_back yields a value iff non-empty"); if (r) { int x = m.pop_back(); sym_check(vv(*r) == x, "pop_back yields the last element"); } break; }
        case 3: d.clear(); m.clear(); break;
        case 4: d.reserve(3); sym_check(d.capacity() >= 3, "reserve provides the capacity"); break;
        case 5: d.reserve(9); sym_check(d.capacity() >= 9, "reserve provides the capacity"); break;
        case 6: { int v = val(); d.resize(m.n + 2, v); m.push_back(v); m.push_back(v); break; }
        case 7: { size_t n = m.n > 2 ? m.n - 2 : 0; d.resize(n); m.n = n; break; }
        case 8: { D e(d); same(e, m); e.push_back(T(7)); break; }
        case 9: { D e(std::move(d)); same(e, m); Seq z; same(d, z); d.push_back(T(3)); d = std::move(e); break; }
        case 10: { D e; Seq t; for (int i = 0; i < 3; ++i) { int v = val(); t.push_back(v); e.push_back(v); } d = e; m.set(t); same(e, t); break; }
        case 11: { D e; Seq t; int v = val(); t.push_back(v); e.push_back(v); d = e; m.set(t); same(e, t); break; }
        case 12: { D e; Seq t; for (int i = 0; i < 5; ++i) { int v = val(); t.push_back(v); e.push_back(v); } d = std::move(e); m.set(t); Seq z; same(e, z); e.push_back(T(1)); break; }
        case 13: { D e; Seq t; int v = val(); t.push_back(v); e.push_back(v); d = std::move(e); m.set(t); Seq z; same(e, z); e.push_back(T(1)); break; }
        case 14: { D& r = d; d = r; break; }
        case 15: { if (m.n) { int v = val(); d[m.n-1] = T(v); m.a[m.n-1] = v; } break; }
        case 16: { D e(d); sym_check(e == d, "a copy compares equal"); int v = val(); e.push_back(T(v)); sym_check(not (e == d), "a longer sequence compares unequal"); if (m.n) { D f(d); f[m.n-1] = T(v); sym_check((f == d) == (v == m.a[m.n-1]), "equality compares all elements"); } break; }
        case 17: { d.resize(m.n); break; }
        case 18: { D e; e.reserve(11); d = e; m.clear(); break; }
    }
}
template <typename T, int N> static void ops(int n) {
    {
        using D = SmallStorage<T,N>;
        D d; Seq m;
        int op = sym_choose(19, "op0");
        build(d, m, sym_choose(5, "shape"));
        if (d.capacity() > N) sym_reach("heap"); else sym_reach("inline");
        for (int k = 0; k < n; ++k) {
            if (k) op = sym_choose(19, "op");
            step<D,T>(d, m, op);
            if (k == n - 1) same(d, m);
        }
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_ss_ops() { ops<Elt,2>(NOPS); }
extern "C" void h_ss_trivial() { ops<int,3>(2); }
extern "C" void h_ss_pairs() {
    {
        using D = SmallStorage<Elt,2>;
        D d; Seq m; D e; Seq t;
        build(d, m, sym_choose(6, "shape"));
        build(e, t, sym_choose(6, "shape2"));
        switch (sym_choose(5, "kind")) {
            case 0: d = e; m.set(t); same(e, t); break;
            case 1: d = std::move(e); m.set(t); t.clear(); same(e, t); break;
            case 2: { D f(e); same(f, t); same(e, t); d = f; m.set(t); same(f, t); break; }
            case 3: { D f(std::move(e)); same(f, t); Seq z; same(e, z); step<D,Elt>(f, t, sym_choose(19, "opf")); same(f, t); t.clear(); break; }
            case 4: { bool eq = m.n == t.n; for (int i = 0; eq && i < m.n; ++i) eq = m.a[i] == t.a[i]; sym_check((d == e) == eq, "equality is elementwise"); break; }
        }
        same(d, m);
        step<D,Elt>(d, m, sym_choose(19, "op1"));
        step<D,Elt>(e, t, sym_choose(4, "op2"));
        same(d, m); same(e, t);
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_ss_ctors() {
    {
        using D = SmallStorage<Elt,4>;
        Seq m; int n = (int[]){0, 2, 4, 5, 7}[sym_choose(5, "n")];
        Elt src[8];
        for (int i = 0; i < n; ++i) { int v = val(); src[i] = Elt(v); m.push_back(v); }
        D a(src, n); same(a, m);
        step<D,Elt>(a, m, sym_choose(19, "op")); same(a, m);
        int v = val(); Seq c; for (int i = 0; i < n; ++i) c.push_back(v);
        D b(Elt(v), n); same(b, c);
        step<D,Elt>(b, c, sym_choose(8, "op")); same(b, c);
        int x = val(), y = val();
        D l{Elt(x), Elt(y)}; Seq ml; ml.push_back(x); ml.push_back(y); same(l, ml);
        D l6{Elt(x), Elt(y), Elt(x), Elt(y), Elt(x)}; ml.push_back(x); ml.push_back(y); ml.push_back(x); same(l6, ml);
        l6.push_back(Elt(y)); ml.push_back(y); same(l6, ml);
        D z((size_t) n); Seq mz; for (int i = 0; i < n; ++i) mz.push_back(0); same(z, mz);
        z.push_back(Elt(y)); mz.push_back(y); same(z, mz);
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
// long arrays, edited twice and emptied
extern "C" void h_ss_long() {
    {
        using D = SmallStorage<Elt,8>;
        int n = (int[]){17, 65, 130}[sym_choose(3, "n")], v = val();
        D d; Seq m; for (int i = 0; i < n; ++i) { int x = i % 7 == 3 ? v : i; d.push_back(Elt(x)); m.push_back(x); }
        same(d, m); step<D,Elt>(d, m, sym_choose(19, "op")); same(d, m);
        D e; e.push_back(Elt(v)); D f(d); same(f, m); e = d; same(e, m); sym_check(e == d, "a copy compares equal"); D g; for (int i = 0; i < 20; ++i) g.push_back(Elt(i)); g = f; same(g, m); f = std::move(g); same(f, m); Seq z; same(g, z);
        d.reserve(m.n + 40); same(d, m); d.resize(m.n + 3, v); for (int i = 0; i < 3; ++i) m.push_back(v); same(d, m);
        while (m.n > 0) { auto r = d.pop_back(); int y = m.pop_back(); sym_check(bool(r) && r->v() == y, "elements come off in order"); if (!r) break; if (m.n % 16 == 0) same(d, m); }
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
