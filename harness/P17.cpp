//@ h_sets      mode=real q=60 t=200 split=n:3,w:6,axis:3 need=end
//@ h_sets_int  mode=real q=60 t=200 split=n:2,w:6 need=end
//@ h_box_pairs mode=real q=60 t=200 split=n:3 need=disjoint,overlap,inside
//@ h_exclude   mode=real q=60 t=200 split=n:2 need=end
//@ h_exclude2  mode=real q=60 t=600 need=end
//@ h_move      mode=real q=60 t=120 split=n:3,w:3,axis:3 need=end
//@ h_build     mode=real q=60 t=120 split=n:3 need=end
//@ h_build_int mode=real q=60 t=120 split=n:3 need=end
//@ h_build_int2 mode=real t=600 tier=thorough
//@ h_measure   mode=real q=60 t=120 split=n:3 need=end
//@ h_nearest   mode=real q=90 t=300 split=n:2,k:2,side:2 need=inside,outside
//@ h_nearest3f mode=real q=60 t=120 split=in:2 need=inside,outside
//@ h_nearest3  mode=real t=600 tier=thorough split=k:3,side:2 need=inside,outside
//@ h_support   mode=real q=60 t=120 split=n:3 need=end
//@ h_contact   mode=real q=60 t=200 split=n:3,w:3 need=apart,overlap,touching
//@ h_ray       mode=real q=60 t=200 split=zero0:2,zero1:2 need=hit,miss
//@ h_ray3      mode=real t=600 tier=thorough split=zero0:2,zero1:2,zero2:2 need=hit,miss
//@ h_fit       mode=real q=60 t=120 split=n:2 need=end
//@ h_slice     mode=real q=60 t=120 need=end
//@ h_special   mode=real q=60 t=120 split=n:3 need=end
//@ h_more      mode=real q=60 t=120 split=w:9,n:2,tab:3,axis:2 need=end
//@bounds boxes with any real (or 16-bit integer) bounds, including empty and degenerate ones where the operation defines them; one to three dimensions, and four with one symbolic axis
//@assume exact real arithmetic; scale factors are non-zero
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
#include "sym.h"
using namespace geom;
typedef double T;

#ifndef THOROUGH
#define THOROUGH 0
#endif
template <typename E, index_t N> struct G { typedef Rect<E,N> R; typedef typename R::point_t P; typedef PointType<E,N> pt;
    static E& at(P& p, index_t i) { return pt::iterator(p)[i]; } static E at(const P& p, index_t i) { return pt::iterator(p)[i]; } };
static void elem(T& x, const char* n) { x = sym_f64(n); }
static void elem(int& x, const char* n) { x = sym_i32(n); sym_assume((x >= -20000) & (x <= 20000)); }
#define USE(E,N) typedef G<E,N> g; typedef typename g::R R; typedef typename g::P P; (void) sizeof(R);
static int Axis = -1, Calls, Tab; // in space some checks vary one axis at a time
template <typename E, index_t N> typename G<E,N>::P pnt(const char* n) { typename G<E,N>::P p; static const int CT[3][8] = {{1, 5, 2, 7, 3, -2, 6, 4}, {1, 7, 2, 5, 3, 4, 6, 2}, {1, 5, 9, 3, 2, 4, -1, 6}}; const int* C = CT[Tab]; const int k = Calls++ % 8; for (index_t i = 0; i < N; ++i) if (Axis < 0 || Axis == i) elem(G<E,N>::at(p, i), n); else G<E,N>::at(p, i) = C[k]; return p; }
static void one_axis() { Axis = sym_choose(3, "axis"); }
template <typename E, index_t N> Rect<E,N> any(const char* n) { auto a = pnt<E,N>(n), b = pnt<E,N>(n); return Rect<E,N>(a, b); }
template <typename E, index_t N> Rect<E,N> full(const char* n) { USE(E,N) R r = any<E,N>(n); for (index_t i = 0; i < N; ++i) sym_assume(g::at(r.lo, i) <= g::at(r.hi, i)); return r; }
// membership by definition
template <typename E, index_t N> bool in(const Rect<E,N>& r, const typename G<E,N>::P& p) { bool b = true; for (index_t i = 0; i < N; ++i) b &= (G<E,N>::at(r.lo, i) <= G<E,N>::at(p, i)) & (G<E,N>::at(p, i) <= G<E,N>::at(r.hi, i)); return b; }
template <typename E, index_t N> bool none(const Rect<E,N>& r) { bool b = false; for (index_t i = 0; i < N; ++i) b |= G<E,N>::at(r.lo, i) > G<E,N>::at(r.hi, i); return b; }
static void eq(T a, T b, const char* m) { sym_check_eq(a, b, m); }
static void eq(int a, int b, const char* m) { sym_check(a == b, m); }
template <typename E, index_t N> void sameP(const typename G<E,N>::P& a, const typename G<E,N>::P& b, const char* m) { for (index_t i = 0; i < N; ++i) eq(G<E,N>::at(a, i), G<E,N>::at(b, i), m); }
template <typename E, index_t N> void sameR(const Rect<E,N>& a, const Rect<E,N>& b, const char* m) { sameP<E,N>(a.lo, b.lo, m); sameP<E,N>(a.hi, b.hi, m); }
#define DIMS(F) switch (sym_choose(3, "n")) { case 0: F(1); break; case 1: F(2); break; default: F(3); break; }

template <typename E, index_t N> void sets() {
    USE(E,N) R a = any<E,N>("a"), b = any<E,N>("b"); P p = pnt<E,N>("p"); const R ca = a;
        switch (sym_choose(6, "w")) {
    case 0: { R c = a & b; sym_check(in<E,N>(c, p) == (in<E,N>(a, p) & in<E,N>(b, p)), "intersection holds exactly the common points"); R d = a; d &= b; sameR<E,N>(d, c, "intersection in place"); } break;
    case 1: { R u = a | b, d = a; d |= b; sameR<E,N>(d, u, "union in place"); sym_check(!(in<E,N>(a, p) | in<E,N>(b, p)) | in<E,N>(u, p), "union covers both");
        for (index_t i = 0; i < N; ++i) { E l = g::at(u.lo, i), h = g::at(u.hi, i); sym_check((l == g::at(a.lo, i)) | (l == g::at(b.lo, i)), "union is tight"); sym_check((h == g::at(a.hi, i)) | (h == g::at(b.hi, i)), "union is tight"); } } break;
    case 2: { R v = ca | p, d = a; d |= p; sameR<E,N>(d, v, "extension in place"); sym_check(in<E,N>(v, p), "extended to contain the point"); sym_check((v == a) | !in<E,N>(a, p), "extending by a contained point changes nothing"); for (index_t i = 0; i < N; ++i) sym_check(((g::at(v.lo, i) == g::at(p, i)) | (g::at(v.lo, i) == g::at(a.lo, i))) & ((g::at(v.hi, i) == g::at(p, i)) | (g::at(v.hi, i) == g::at(a.hi, i))), "extension is tight"); } break;
    case 3: { P s[3] = {p, a.lo, b.hi}; R q = R::from_point_sequence(s, s + 3); for (int i = 0; i < 3; ++i) sym_check(in<E,N>(q, s[i]), "bounds of a sequence contain it"); for (index_t i = 0; i < N; ++i) sym_check(((g::at(q.lo, i) == g::at(p, i)) | (g::at(q.lo, i) == g::at(a.lo, i)) | (g::at(q.lo, i) == g::at(b.hi, i))) & ((g::at(q.hi, i) == g::at(p, i)) | (g::at(q.hi, i) == g::at(a.lo, i)) | (g::at(q.hi, i) == g::at(b.hi, i))), "bounds of a sequence are tight"); } break;
    case 4: sym_check(ca.contains(p) == in<E,N>(a, p), "contains a point exactly when every coordinate is between the bounds"); sym_check(R::contains(a.lo, a.hi, p) == in<E,N>(a, p), "range containment"); sym_check(a.is_empty() == none<E,N>(a), "empty exactly when some bounds are reversed"); break;
    default: { bool e = true; for (index_t i = 0; i < N; ++i) e &= (g::at(a.lo, i) == g::at(b.lo, i)) & (g::at(a.hi, i) == g::at(b.hi, i)); sym_check((a == b) == e, "equality"); sym_check((a != b) == !e, "inequality"); } break;
    } sym_reach("end");
}
extern "C" void h_sets() { switch (sym_choose(3, "n")) { case 0: sets<T,1>(); break; case 1: sets<T,2>(); break; default: one_axis(); sets<T,3>(); } }
extern "C" void h_sets_int() { if (sym_choose(2, "n")) sets<int,2>(); else sets<int,1>(); }
// relations between two boxes, against a common point
template <typename E, index_t N> void pairs() {
    USE(E,N) R a = any<E,N>("a"), b = any<E,N>("b"); bool touch = true; for (index_t i = 0; i < N; ++i) touch &= (g::at(a.lo, i) <= g::at(b.hi, i)) & (g::at(b.lo, i) <= g::at(a.hi, i)) & (g::at(a.lo, i) <= g::at(a.hi, i)) & (g::at(b.lo, i) <= g::at(b.hi, i));
    bool x = a.intersects(b); sym_check(x == touch, "intersects exactly when some point is in both"); sym_check(b.intersects(a) == x, "intersection is symmetric"); sym_check(!((a & b).is_empty()) == touch, "intersection is empty exactly when they do not intersect");
    bool c = a.contains(b), sub = true; for (index_t i = 0; i < N; ++i) sub &= (g::at(a.lo, i) <= g::at(b.lo, i)) & (g::at(b.hi, i) <= g::at(a.hi, i)); sym_check(c == (none<E,N>(b) | sub), "contains a box exactly when it contains all its points");
    if (!touch) sym_reach("disjoint"); else sym_reach("overlap"); if (sub & touch) sym_reach("inside");
}
extern "C" void h_box_pairs() { switch (sym_choose(3, "n")) { case 0: pairs<T,1>(); break; case 1: pairs<T,2>(); break; default: pairs<int,2>(); } }
template <typename E, index_t N> void exclude() {
    USE(E,N) R a = full<E,N>("a"), b = any<E,N>("b"), a0 = a; R c = a - b; sameR<E,N>(a, a0, "exclusion leaves its operand alone"); R d = a; d -= b; sameR<E,N>(d, c, "exclusion in place");
    const E z = std::is_integral<E>::value ? 1 : 0;
    for (index_t i = 0; i < N; ++i) { E al = g::at(a.lo, i), ah = g::at(a.hi, i), bl = g::at(b.lo, i), bh = g::at(b.hi, i), l = g::at(c.lo, i), h = g::at(c.hi, i);
        bool same = (l == al) & (h == ah); sym_check(!((bl > bh) | (bh < al) | (bl > ah)) | same, "excluding a disjoint or empty range has no effect"); sym_check((l > h) | ((l >= al) & (h <= ah)), "exclusion only removes");
        if (bl <= bh) { sym_check((l > h) | (l >= bh + z) | (h <= bl - z), "the excluded range is removed"); sym_check(!((al < bl) & (bl < ah) & (bh >= ah)) | ((l == al) & (h == bl - z)), "the part below remains"); sym_check(!((bl <= al) & (al < bh) & (bh < ah)) | ((l == bh + z) & (h == ah)), "the part above remains"); sym_check(!((al < bl) & (bh < ah)) | (l > h), "empty where the range would be split"); sym_check(!((bl < al) & (ah < bh)) | (l > h), "empty where the range is covered"); }
    } sym_reach("end");
}
extern "C" void h_exclude() { if (sym_choose(2, "n")) exclude<T,1>(); else exclude<int,1>(); }
extern "C" void h_exclude2() { exclude<T,2>(); }
template <index_t N> void move() {
    USE(T,N) R a = full<T,N>("a"), b = full<T,N>("b"), c; P p = pnt<T,N>("p"), d = pnt<T,N>("d"), q;
    switch (sym_choose(3, "w")) {
    case 0: c = a + d; sym_check(in<T,N>(c, p) == in<T,N>(a, p - d), "translation"); sameR<T,N>(d + a, c, "translation from the left"); q = d; { R e = a; e += d; sameR<T,N>(e, c, "translation in place"); e -= d; sameR<T,N>(e, a, "translation back"); sameR<T,N>(a - d, a + (-d), "translation by the opposite"); sym_check(in<T,N>(d - a, d - p) == in<T,N>(a, p), "a point less a box"); } break;
    case 1: for (index_t i = 0; i < N; ++i) sym_assume(g::at(d, i) != 0); c = a * d; sym_check(in<T,N>(c, p * d) == in<T,N>(a, p), "scaling"); { R e = a; e *= d; sameR<T,N>(e, c, "scaling in place"); R f = c / d; sameR<T,N>(f, a, "scaling back"); e = c; e /= d; sameR<T,N>(e, a, "scaling back in place"); } break;
    default: c = a.minkowski_sum(b); sameP<T,N>(c.lo, a.lo + b.lo, "sum of boxes"); sameP<T,N>(c.hi, a.hi + b.hi, "sum of boxes"); q = pnt<T,N>("q"); sym_check(!(in<T,N>(a, p) & in<T,N>(b, q)) | in<T,N>(c, p + q), "sum of boxes holds sums of points"); c = a.dilated(d); sameP<T,N>(c.lo, a.lo - d, "dilation"); sameP<T,N>(c.hi, a.hi + d, "dilation"); break;
    } sym_reach("end");
}
extern "C" void h_move() { switch (sym_choose(3, "n")) { case 0: move<1>(); break; case 1: move<2>(); break; default: one_axis(); move<3>(); } }
template <typename E, index_t N> void build() {
    USE(E,N) P c = pnt<E,N>("c"), d = pnt<E,N>("d"); const E z = std::is_integral<E>::value; R r; P ad; for (index_t i = 0; i < N; ++i) { E x = g::at(d, i); if (z) sym_assume(x != 0); g::at(ad, i) = x < 0 ? -x : x; }
    r = R::from_center(c, d); sameP<E,N>(r.dimensions(), ad, "box of given size"); sameP<E,N>(r.center(), c, "box around a centre"); sym_check(!r.is_empty(), "boxes from sizes are not empty"); 
    R s = R::from_size(d); P o{}; sameR<E,N>(s, R::from_center(o, d), "box around the origin"); R t = r.centered_on(o); sameR<E,N>(t, s, "moved to another centre");
    s = R::from_corner(c, d); sameP<E,N>(s.dimensions(), ad, "box of given size at a corner"); for (index_t i = 0; i < N; ++i) { sym_check(g::at(d, i) > 0 ? g::at(s.lo, i) == g::at(c, i) : g::at(s.hi, i) == g::at(c, i), "box at a corner"); }
    s = R::spanning_corners(c, d); t = R::from_center(c, c); t.set_corners(c, d); sameR<E,N>(s, t, "box between corners"); R ab = R(c, d).abs(); sameR<E,N>(s, ab, "reversed bounds exchanged"); for (index_t i = 0; i < N; ++i) { E l = g::at(c, i), h = g::at(d, i); sym_check((g::at(s.lo, i) <= l) & (g::at(s.lo, i) <= h) & (g::at(s.hi, i) >= l) & (g::at(s.hi, i) >= h), "box between corners"); sym_check(g::at(s.lo, i) + g::at(s.hi, i) == l + h, "box between corners"); }
    R v(c); sameP<E,N>(v.lo, c, "box of one point"); sameP<E,N>(v.hi, c, "box of one point"); 
    R w = s; P k = w.center(); w.set_dimensions(d); sameP<E,N>(w.center(), k, "resizing keeps the centre"); sameP<E,N>(w.dimensions(), ad, "resizing"); w = s.centered_on(s.center()); sameR<E,N>(w, s, "centred on its own centre"); sym_reach("end");
}
extern "C" void h_build() { switch (sym_choose(3, "n")) { case 0: build<T,1>(); break; case 1: build<T,2>(); break; default: build<T,3>(); } }
extern "C" void h_build_int() { index_t n = sym_choose(3, "n"); if (n) { Axis = n - 1; build<int,2>(); } else build<int,1>(); }
extern "C" void h_build_int2() { build<int,2>(); }
template <index_t N> void measure() {
    USE(T,N) R a = any<T,N>("a"); T v = 1; for (index_t i = 0; i < N; ++i) { T x = g::at(a.hi, i) - g::at(a.lo, i); v *= x < 0 ? 0 : x; sym_check_eq(g::at(a.dimensions(), i), x, "size"); sym_check_eq(g::at(a.center(), i), (g::at(a.hi, i) + g::at(a.lo, i)) / 2, "centre"); sym_check_eq(a.axis(i).lo, g::at(a.lo, i), "axis"); sym_check_eq(a.axis(i).hi, g::at(a.hi, i), "axis"); }
    sym_check_eq(a.volume(), v, "volume is the product of the sizes, zero if empty"); if (N < 3) { T len = a.length(), pw = 1; for (index_t i = 0; i < N; ++i) pw *= len; sym_check_eq(pw, v, "normalised size"); sym_check(len >= 0, "normalised size"); } P s = pnt<T,N>("s"), m = a.remap(s); for (index_t i = 0; i < N; ++i) sym_check_eq(g::at(m, i), g::at(a.lo, i) + g::at(s, i) * (g::at(a.hi, i) - g::at(a.lo, i)), "mapping from the unit interval");
    bool flat = false; for (index_t i = 0; i < N; ++i) flat |= g::at(a.lo, i) == g::at(a.hi, i); if (!flat) sameP<T,N>(a.unmap(m), s, "mapping to the unit interval and back"); sameP<T,N>(R::unit_interval.lo, P(T(0)), "unit interval"); sameP<T,N>(R::unit_interval.hi, P(T(1)), "unit interval"); sameP<T,N>(R::signed_unit_interval.lo, P(T(-1)), "signed unit interval"); sym_reach("end");
}
#define F(N) measure<N>()
extern "C" void h_measure() { DIMS(F) }
#undef F
// clip, project, signed distance: against an arbitrary competitor point
template <index_t N> void nearest() {
    USE(T,N) R a = full<T,N>("a"); P p = pnt<T,N>("p"), q = pnt<T,N>("q"); bool i = in<T,N>(a, p); P c = a.clip(p); sym_check(in<T,N>(a, c), "clipped into the box"); if (i) { sameP<T,N>(c, p, "contained points are not moved"); sym_reach("inside"); } else sym_reach("outside");
    T dc = PointType<T,N>::mag2(p - c), dq = 0; for (index_t k = 0; k < N; ++k) { T x = g::at(p, k) - g::at(q, k); dq += x * x; } sym_assume(in<T,N>(a, q)); sym_check(dc <= dq, "no point of the box is closer than the clipped point"); sym_check_eq(a.dist2(p), dc, "squared distance");
    P m = a.project(p); sym_check(in<T,N>(a, m), "projected onto the box"); bool edge = false; for (index_t k = 0; k < N; ++k) edge |= (g::at(m, k) == g::at(a.lo, k)) | (g::at(m, k) == g::at(a.hi, k)); sym_check(edge, "projected onto the boundary"); if (!i) sameP<T,N>(m, c, "outside points project to the nearest point of the box");
    T dm = PointType<T,N>::mag2(p - m); index_t k = sym_choose(N, "k"); g::at(q, k) = sym_choose(2, "side") ? g::at(a.hi, k) : g::at(a.lo, k); dq = 0; for (index_t j = 0; j < N; ++j) { T x = g::at(p, j) - g::at(q, j); dq += x * x; } sym_check(dm <= dq, "no point of the boundary is closer than the projection");
    T s = a.sdf(p); sym_check_eq(s * s, dm, "signed distance is the distance to the boundary"); sym_check(i ? s <= 0 : s > 0, "signed distance is negative inside");
}
extern "C" void h_nearest() { if (sym_choose(2, "n")) nearest<2>(); else nearest<1>(); }
extern "C" void h_nearest3f() { // a fixed box in space, every point
    typedef Vec<T,3> V; V p = pnt<T,3>("p"), c, lo(1, -2, 3), hi(4, 0, 8); Rect<T,3> a(lo, hi); bool i = true; T d2 = 0; for (int k = 0; k < 3; ++k) { T x = p[k]; i &= (lo[k] <= x) & (x <= hi[k]); c[k] = x < lo[k] ? lo[k] : x > hi[k] ? hi[k] : x; d2 += (x - c[k]) * (x - c[k]); } if (sym_choose(2, "in")) sym_assume(i); else sym_assume(!i);
    V m = a.project(p); T s = a.sdf(p); sameP<T,3>(a.clip(p), c, "clipped into the box"); sym_check_eq(a.dist2(p), d2, "squared distance"); if (!i) { sameP<T,3>(m, c, "outside points project to the nearest point of the box"); sym_check(s > 0, "signed distance is negative inside"); sym_check_eq(s * s, d2, "signed distance is the distance to the boundary"); sym_reach("outside"); return; }
    T e = p[0] - lo[0]; for (int k = 0; k < 3; ++k) { T x = p[k] - lo[k], y = hi[k] - p[k]; if (x < e) e = x; if (y < e) e = y; } int moved = 0; for (int k = 0; k < 3; ++k) { T x = m[k] - p[k]; if (x == 0) continue; ++moved; sym_check((m[k] == lo[k]) | (m[k] == hi[k]), "projected onto the boundary"); sym_check_eq(x * x, e * e, "no point of the boundary is closer than the projection"); } sym_check((moved == 1) | (e == 0), "projected onto the boundary"); sym_check_eq(s, -e, "signed distance is the distance to the boundary"); sym_reach("inside");
}
extern "C" void h_nearest3() { nearest<3>(); }
template <index_t N> void support() { USE(T,N) R a = full<T,N>("a"); P d = pnt<T,N>("d"), q = pnt<T,N>("q"), s = a.convex_support(d); T x = 0, y = 0; sym_assume(in<T,N>(a, q)); sym_check(in<T,N>(a, s), "support point is in the box"); for (index_t i = 0; i < N; ++i) { x += g::at(d, i) * g::at(s, i); y += g::at(d, i) * g::at(q, i); sym_check(g::at(d, i) * g::at(s, i) >= g::at(d, i) * g::at(q, i), "no point is further along the direction"); } sameR<T,N>(a.bounds(), a, "bounds of a box"); sym_reach("end"); }
#define F(N) support<N>()
extern "C" void h_support() { DIMS(F) }
#undef F
template <index_t N> void contact() {
    USE(T,N) R a = full<T,N>("a"), b = full<T,N>("b"); bool ov = true, touch = true, open = true; for (index_t i = 0; i < N; ++i) { ov &= (g::at(a.lo, i) < g::at(b.hi, i)) & (g::at(b.lo, i) < g::at(a.hi, i)); touch &= (g::at(a.lo, i) <= g::at(b.hi, i)) & (g::at(b.lo, i) <= g::at(a.hi, i)); }
    index_t w = sym_choose(3, "w"); if (w == 0) sym_assume(ov); else if (w == 1) sym_assume(!touch); else sym_assume(touch & !ov);
    auto r = a.contact_vector(b); P v = r.first; T d2 = 0; for (index_t i = 0; i < N; ++i) { T l = g::at(a.lo, i) + g::at(v, i), h = g::at(a.hi, i) + g::at(v, i); d2 += g::at(v, i) * g::at(v, i); sym_check((l <= g::at(b.hi, i)) & (g::at(b.lo, i) <= h), "moved into contact"); open &= (l < g::at(b.hi, i)) & (g::at(b.lo, i) < h); }
    sym_check(!open, "moved boxes do not overlap"); if (w == 2) { sym_check_eq(d2, 0, "touching boxes are not moved"); sym_reach("touching"); return; }
    sym_check(r.second == (w == 0), "whether the boxes overlap");
    for (index_t i = 0; i < N; ++i) { T x = g::at(b.hi, i) - g::at(a.lo, i), y = g::at(b.lo, i) - g::at(a.hi, i), z = g::at(v, i); if (w == 0) { sym_check(d2 <= x * x, "moves the shortest way out"); sym_check(d2 <= y * y, "moves the shortest way out"); } else sym_check(((x < 0) & (z == x)) | ((y > 0) & (z == y)) | ((x >= 0) & (y <= 0) & (z == 0)), "closes exactly the gaps"); }
    sym_reach(w ? "apart" : "overlap");
}
extern "C" void h_contact() { switch (sym_choose(3, "n")) { case 0: contact<1>(); break; case 1: contact<2>(); break; default: contact<3>(); } }
template <index_t N> void ray() {
    USE(T,N) R a = full<T,N>("a"); P o = pnt<T,N>("o"), d = pnt<T,N>("d"); for (index_t i = 0; i < N; ++i) if ((Axis < 0 || Axis == i) && sym_choose(2, i == 0 ? "zero0" : i == 1 ? "zero1" : "zero2")) g::at(d, i) = 0; T s = sym_f64("s"); Rect<T,1> h = a.intersect(Ray<T,N>(o, d)); P p; for (index_t i = 0; i < N; ++i) g::at(p, i) = g::at(o, i) + s * g::at(d, i); bool hit = in<T,N>(a, p); sym_check(((h.lo <= s) & (s <= h.hi)) == hit, "ray parameters in the interval are exactly those inside the box"); sym_check(h.contains(s) == hit, "ray parameters in the interval are exactly those inside the box"); if (hit) sym_reach("hit"); else sym_reach("miss");
}
extern "C" void h_ray() { ray<2>(); }
extern "C" void h_ray3() { ray<3>(); }
template <index_t N> void fit() {
    USE(T,N) R a = full<T,N>("a"), b = full<T,N>("b"); T k = 0; P da = a.dimensions(), db = b.dimensions(); for (index_t i = 0; i < N; ++i) sym_assume(g::at(da, i) > 0); R f = a.fitted_to(b); P df = f.dimensions(); bool tight = false; for (index_t i = 0; i < N; ++i) { sym_check(g::at(f.lo, i) <= g::at(b.lo, i), "fitted box contains the other"); sym_check(g::at(b.hi, i) <= g::at(f.hi, i), "fitted box contains the other"); sym_check_eq(g::at(df, i) * g::at(da, 0), g::at(df, 0) * g::at(da, i), "fitted box keeps the aspect"); tight |= g::at(df, i) == g::at(db, i); } sym_check(tight, "fitted box is minimal"); sym_reach("end");
}
extern "C" void h_fit() { if (sym_choose(2, "n")) fit<2>(); else fit<1>(); }
extern "C" void h_slice() {
    Rect<T,3> a = any<T,3>("a"); Rect<T,2> b = a(0, 2); sym_check_eq(b.lo.x, a.lo.x, "slice"); sym_check_eq(b.lo.y, a.lo.z, "slice"); sym_check_eq(b.hi.x, a.hi.x, "slice"); sym_check_eq(b.hi.y, a.hi.z, "slice"); Rect<T,1> c = a.axis(1); sym_check_eq(c.lo, a.lo.y, "axis"); Rect<T,3> d = b * c; sym_check_eq(d.lo.x, a.lo.x, "product"); sym_check_eq(d.lo.y, a.lo.z, "product"); sym_check_eq(d.hi.z, a.hi.y, "product"); sym_check_eq(d.lo.z, a.lo.y, "product"); sym_check_eq(d.hi.x, a.hi.x, "product"); Rect<T,2> e = c * c; sym_check_eq(e.lo.x, c.lo, "product"); sym_check_eq(e.hi.y, c.hi, "product");
    Rect<T,4> w = b * b; sym_check_eq(w.lo[2], b.lo.x, "product"); sym_check_eq(w.hi[3], b.hi.y, "product"); Rect<float,3> f = a; for (int i = 0; i < 3; ++i) { sym_check_eq(f.lo[i], a.lo[i], "conversion"); sym_check_eq(f.hi[i], a.hi[i], "conversion"); } Rect<T,3> p = a(2, 0, 1); sym_check_eq(p.lo.x, a.lo.z, "permuted axes"); sym_check_eq(p.hi.z, a.hi.y, "permuted axes"); sym_reach("end");
}
template <index_t N> void special() { USE(T,N) R a = any<T,N>("a"), e, f = R::full; P p = pnt<T,N>("p"); if (!none<T,N>(a)) { sym_check((a | e) == a, "union with the empty box changes nothing"); sym_check((e | a) == a, "union with the empty box changes nothing"); } sym_check(e.is_empty(), "a default box is empty"); sym_check(!e.contains(p), "the empty box contains nothing"); sym_check(R::empty.is_empty(), "the empty box is empty"); sym_check((e & a).is_empty(), "intersection with the empty box is empty"); sym_check(f.contains(p), "the full box contains everything"); sym_check((a & f) == a, "intersection with the full box changes nothing"); sym_check(f.contains(a), "the full box contains every box"); sym_check(!e.intersects(a), "the empty box intersects nothing"); R s(p); sym_check(s.contains(p), "box of one point contains it"); sym_check(!s.is_empty(), "box of one point is not empty"); sym_check(a.intersects(s) == a.contains(p), "intersects a point exactly when it contains it"); sym_reach("end"); }
#define F(N) special<N>()
extern "C" void h_special() { DIMS(F) }
// three and four dimensions, one axis at a time
template <index_t N> static void more(int w) { switch (w) { case 0: pairs<T,N>(); break; case 1: exclude<T,N>(); break; case 2: sets<T,N>(); break; case 3: nearest<N>(); break; case 4: support<N>(); break; case 5: ray<N>(); break; case 6: build<T,N>(); measure<N>(); break; case 7: special<N>(); fit<N>(); break; default: move<N>(); } sym_reach("end"); }
extern "C" void h_more() { int w = sym_choose(9, "w"), n = 3 + sym_choose(2, "n"); Tab = sym_choose(3, "tab"); Axis = THOROUGH ? sym_choose(4, "axis") : (n - 1) * sym_choose(2, "axis"); sym_assume(Axis < n); if (n == 3) more<3>(w); else more<4>(w); }
