//@ h_unique_dyn   q=60 t=200 split=op0:9 need=end
//@ h_unique_fixed q=30 t=60 need=end
//@ h_shared       q=30 t=60 need=end
//@ h_wrapped      q=30 t=60 need=end
//@ h_generic      q=30 t=60 need=end
//@ h_large        q=60 t=60 split=n:4,k:6 need=end
//@bounds runtime-sized storage of 1..4 elements (also empty; 9, 32, 33 and 130 in large storage), fixed-size storage of 3, owning and scalar element types with symbolic values; sequences of up to 3 (quick) / 4 (thorough) copy/move/assign/write operations between two unique storages
//@assume allocation does not fail; self-move-assignment is outside the property
#include <geomc/Storage.h>
#include "elt.h"
using namespace geom;
#ifdef THOROUGH
#define NOPS 4
#else
#define NOPS 3
#endif
typedef UniqueStorage<Elt,0> U;
static void same(U& u, const Seq& m) {
    sym_check(u.size() == m.n, "size of a runtime-sized storage");
    const U& c = u;
    for (int i = 0; i < m.n; ++i) {
        sym_check(u[i].v() == m.a[i], "element i of a unique storage");
        sym_check(c[i].v() == m.a[i] && c.get()[i].v() == m.a[i] && u.get() + i == &u[i], "const access agrees");
    }
}
static int val() { return sym_i32("v"); }
static void fill(U& u, Seq& m) { m.n = u.size(); for (int i = 0; i < m.n; ++i) { m.a[i] = val(); u[i] = Elt(m.a[i]); } }
static void step(U& a, Seq& ma, U& b, Seq& mb, int op) {
    switch (op) {
        case 0: a = b; ma.set(mb); break;
        case 1: a = std::move(b); ma.set(mb); mb.clear(); break;
        case 2: { U t(a); same(t, ma); if (ma.n) { t[0] = Elt(5); } break; }
        case 3: { U t(std::move(a)); same(t, ma); Seq z; same(a, z); a = std::move(t); break; }
        case 4: { U& r = a; a = r; break; }
        case 5: { if (ma.n) { int v = val(); a[ma.n - 1] = Elt(v); ma.a[ma.n - 1] = v; } break; }
        case 6: { Elt src[3] = {Elt(val()), Elt(val()), Elt(val())}; U t(3, src); a = t; for (int i = 0; i < 3; ++i) ma.a[i] = src[i].v(); ma.n = 3; break; }
        case 7: { int x = val(), y = val(); U t({Elt(x), Elt(y)}); a = std::move(t); ma.n = 2; ma.a[0] = x; ma.a[1] = y; break; }
        case 8: { U t(std::move(b)); b = a; a = std::move(t); Seq s; s.set(ma); ma.set(mb); mb.set(s); break; }   // swap
    }
}
extern "C" void h_unique_dyn() {
    {
        int op = sym_choose(9, "op0");
        U a(sym_choose(3, "na")), b(1 + sym_choose(2, "nb"));
        Seq ma, mb;
        fill(a, ma); fill(b, mb);
        for (int k = 0; k < NOPS; ++k) {
            if (k) op = sym_choose(9, "op");
            step(a, ma, b, mb, op);
        }
        same(a, ma); same(b, mb);
        if (ma.n && mb.n) { a[0] = Elt(9); sym_check(b[0].v() == mb.a[0], "unique storages never share elements"); }
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
template <typename S> static void fixed_() {
    {
        Elt src[3] = {Elt(val()), Elt(val()), Elt(val())};
        int m[3] = {src[0].v(), src[1].v(), src[2].v()};
        S a(3, src), b(3);
        sym_check(a.size() == 3 && b.size() == 3, "size of a fixed storage");
        b = a;
        S c(a);
        src[1] = Elt(3);
        int w = val(); a[2] = Elt(w);
        for (int i = 0; i < 3; ++i) {
            sym_check(b[i].v() == m[i] && c[i].v() == m[i], "a copy of a fixed storage is independent");
            sym_check(a[i].v() == (i == 2 ? w : m[i]), "construction copies the source array");
        }
        const S& k = c;
        sym_check(k.get()[0].v() == m[0] && k[1].v() == m[1], "const access agrees");
        S d(std::move(c));
        for (int i = 0; i < 3; ++i) sym_check(d[i].v() == m[i], "moving keeps the elements");
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_unique_fixed() {
    if (sym_choose(2, "kind")) fixed_<UniqueStorage<Elt,3>>(); else fixed_<Storage<Elt,3>>();
}
extern "C" void h_shared() {
    {
        Elt src[3] = {Elt(val()), Elt(val()), Elt(val())};
        int m[3] = {src[0].v(), src[1].v(), src[2].v()};
        Storage<Elt,0> a(3, src);
        Storage<Elt,0> b(a);
        for (int i = 0; i < 3; ++i) sym_check(b[i].v() == m[i] && a[i].v() == m[i], "shared storage holds the source elements");
        src[0] = Elt(11);
        int w = val(), i = sym_choose(3, "i"); a[i] = Elt(w); m[i] = w;
        for (int j = 0; j < 3; ++j) sym_check(b[j].v() == m[j] && a.get()[j].v() == m[j], "copies of a shared storage alias the same elements");
        SizedStorage<Elt,0> s(2), t(3);
        s[0] = Elt(w); s[1] = Elt(m[0]);
        sym_check(s.size() == 2 && t.size() == 3, "sized storage reports its size");
        t = s;
        sym_check(t.size() == 2 && t[0].v() == w && t[1].v() == m[0], "assigning a shared storage adopts elements and size");
        { Storage<Elt,0> tmp(1); tmp[0] = Elt(w); a = tmp; }
        sym_check(a[0].v() == w, "elements outlive the storage they came from");
        SizedStorage<Elt,2> f; f[1] = Elt(3);
        sym_check(f.size() == 2, "fixed sized storage size");
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_wrapped() {
    {
        Elt src[4] = {Elt(val()), Elt(val()), Elt(val()), Elt(val())};
        WrappedStorage<Elt,0> w(4, src);
        WrappedStorage<Elt,3> f(3, src);
        sym_check(w.size() == 4 && f.size() == 3, "wrapped storage reports its dimension");
        sym_check(w.get() == src && f.get() == src, "wrapped storage does not copy");
        WrappedStorage<Elt,0> c(w);
        int v = val(), i = sym_choose(4, "i"); w[i] = Elt(v);
        sym_check(src[i].v() == v && c[i].v() == v && c.size() == 4, "writes go through to the wrapped array");
        if (i < 3) sym_check(f[i].v() == v, "writes go through to the wrapped array (fixed)");
        WrappedStorage<Elt,0> d(2, src + 2);
        d = w;
        sym_check(d.get() == src && d.size() == 4, "assignment rebinds the wrapper");
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
extern "C" void h_generic() {
    {
        int x = val(), y = val();
        Elt src[2] = {Elt(x), Elt(y)};
        GenericStorage<Elt,2,STORAGE_SHARED> a(2, src);
        GenericStorage<Elt,0,STORAGE_UNIQUE> b(2, src), b2(b);
        GenericStorage<Elt,2,STORAGE_UNIQUE> c(2, src);
        GenericStorage<Elt,0,STORAGE_WRAPPED> d(2, src);
        GenericStorage<Elt,0,STORAGE_SHARED> e(2, src), e2(e);
        GenericStorage<Elt,0,STORAGE_UNIQUE> l({Elt(x), Elt(y), Elt(x)});
        GenericStorage<Elt,3,STORAGE_SHARED> lf({Elt(x), Elt(y), Elt(x)});
        GenericStorage<Elt,0,STORAGE_SHARED> ld({Elt(x), Elt(y), Elt(x)});
        GenericStorage<Elt,3,STORAGE_UNIQUE> lu({Elt(x), Elt(y), Elt(x)});
        for (int i = 0; i < 3; ++i) sym_check(lf[i].v() == (i == 1 ? y : x) && ld[i].v() == (i == 1 ? y : x) && lu[i].v() == (i == 1 ? y : x), "initializer list construction");
        src[0] = Elt(7);
        sym_check(a[0].v() == x && b[0].v() == x && c[0].v() == x && e[0].v() == x && d[0].v() == 7, "policy decides whether elements are copied or referenced");
        sym_check(a[1].v() == y && b[1].v() == y && c[1].v() == y && e[1].v() == y && d[1].v() == y, "all elements present");
        b[1] = Elt(8); e[1] = Elt(8);
        sym_check(b2[1].v() == y, "unique policy: copies are independent");
        sym_check(e2[1].v() == 8, "shared policy: copies alias");
        sym_check(l.size() == 3 && l[0].v() == x && l[1].v() == y && l[2].v() == x, "initializer list construction");
        sym_check(b.size() == 2 && c.size() == 2 && d.size() == 2, "size");
        sym_reach("end");
    }
    sym_check(sym_live() == 0, "no storage is leaked");
}
// large storage: copies, moves and assignments between storages of unequal sizes
extern "C" void h_large() {
    {
        int n = (int[]){9, 32, 33, 130}[sym_choose(4, "n")], k = (int[]){0, 1, 8, 31, 40, 130}[sym_choose(6, "k")], v = val();
        U a(n), b(k); Seq ma, mb; ma.n = n; mb.n = k; for (int i = 0; i < n; ++i) { ma.a[i] = i % 7 == 3 ? v : i; a[i] = Elt(ma.a[i]); } for (int i = 0; i < k; ++i) { mb.a[i] = i % 5 == 2 ? v : -i; b[i] = Elt(mb.a[i]); }
        U c(a); same(c, ma); c = b; same(c, mb); same(b, mb); c = a; same(c, ma); if (k) { c = b; c[0] = Elt(5); same(b, mb); } b = std::move(a); same(b, ma); Seq z; same(a, z); b[n - 1] = Elt(v); ma.a[n - 1] = v; a = b; same(a, ma); U t(n, a.get()); same(t, ma);
        Storage<Elt,0> s(n, a.get()), r(s); for (int i = 0; i < n; ++i) sym_check(r[i].v() == ma.a[i], "shared storage holds the source elements"); s[n - 1] = Elt(4); sym_check(r[n - 1].v() == 4, "copies of a shared storage alias the same elements"); sym_check(a[n - 1].v() == v, "construction copies the source array");
        UniqueStorage<Elt,33> f(33, [&]{ static Elt e[33]; for (int i = 0; i < 33; ++i) e[i] = Elt(i == 20 ? v : i); return e; }()), g(f); g[32] = Elt(7); UniqueStorage<Elt,33> h(33); h = f; for (int i = 0; i < 33; ++i) sym_check(h[i].v() == (i == 20 ? v : i) && g[i].v() == (i == 32 ? 7 : i == 20 ? v : i), "a copy of a fixed storage is independent");
        sym_reach("end");
    }
}
