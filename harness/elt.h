#pragma once
#include "sym.h"
// value type owning heap memory: any missed / doubled construction, destruction or move shows up as a
// double free, use after free, leak, or a wrong value.
struct Elt {
    int* p;
    Elt(): p(new int(0)) {}
    Elt(int v): p(new int(v)) {}
    Elt(const Elt& o): p(new int(*o.p)) {}
    Elt(Elt&& o): p(o.p) { o.p = nullptr; }
    Elt& operator=(const Elt& o) { int v = *o.p; if (p) *p = v; else p = new int(v); return *this; }
    Elt& operator=(Elt&& o) { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Elt() { delete p; }
    int v() const { return *p; }
    bool operator==(const Elt& o) const { return *p == *o.p; }
    bool operator!=(const Elt& o) const { return *p != *o.p; }
};
// reference model of a bounded sequence
struct Seq {
    int a[160]; int n = 0;
    void push_back(int v) { a[n++] = v; }
    void push_front(int v) { for (int i = n; i > 0; --i) a[i] = a[i-1]; a[0] = v; ++n; }
    int pop_back() { return a[--n]; }
    int pop_front() { int v = a[0]; for (int i = 1; i < n; ++i) a[i-1] = a[i]; --n; return v; }
    void clear() { n = 0; }
    void set(const Seq& o) { n = o.n; for (int i = 0; i < n; ++i) a[i] = o.a[i]; }
};
