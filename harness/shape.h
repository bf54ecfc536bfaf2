// Shared oracle helpers for shapes.
#pragma once
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include "sym.h"
using namespace geom;
typedef double T;
#ifndef THOROUGH
#define THOROUGH 0
#endif
template <index_t N> using V = Vec<T,N>;
template <index_t N> V<N> vec(const char* n) { V<N> v; for (index_t i = 0; i < N; ++i) v[i] = sym_f64(n); return v; }
template <index_t N> T dot(V<N> a, V<N> b) { T s = 0; for (index_t i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
template <index_t N> void same(V<N> a, V<N> b, const char* m) { for (index_t i = 0; i < N; ++i) sym_check_eq(a[i], b[i], m); }
template <index_t N> void unit(V<N> n, const char* m) { sym_check_eq(dot(n, n), 1, m); }
// a point of a ball of radius r around 0 / a unit direction (stereographic, all but one pole)
template <index_t N> V<N> dir(const char* n) { V<N> v; T d = 1; for (index_t i = 0; i + 1 < N; ++i) { v[i] = sym_f64(n); d += v[i] * v[i]; } for (index_t i = 0; i + 1 < N; ++i) v[i] = 2 * v[i] / d; v[N-1] = (d - 2) / d; return v; }
// every unit direction with a rational length: a sign-flipped stereographic image covers the pole
template <index_t N> V<N> anydir(const char* n) { V<N> v = dir<N>(n); return sym_choose(2, "flip") ? -v : v; }
template <index_t N> bool inbox(Rect<T,N> b, V<N> p) { bool r = true; for (index_t i = 0; i < N; ++i) r &= (b.lo[i] <= p[i]) & (p[i] <= b.hi[i]); return r; }
// an orthonormal frame: axis A, radial direction w (z completes it in 3-D)
template <index_t N> struct Frame { V<N> A, w, z; };
inline Frame<2> frame2() { Frame<2> f; f.A = dir<2>("a"); f.w = V<2>(-f.A.y, f.A.x); if (sym_choose(2, "side")) f.w = -f.w; return f; }
inline Frame<3> frame3() { Frame<3> f; V<2> u = dir<2>("w"); V<3> b(2, 1, -2), c(2, -2, 1); if (THOROUGH) { T p = sym_f64("q"), q = sym_f64("q"), r = sym_f64("q"), m = 1 + p * p + q * q + r * r; // Cayley rotation
    f.A = V<3>(1 + p * p - q * q - r * r, 2 * (p * q + r), 2 * (p * r - q)) / m; f.w = V<3>(2 * (p * q - r), 1 - p * p + q * q - r * r, 2 * (q * r + p)) / m; f.z = V<3>(2 * (p * r + q), 2 * (q * r - p), 1 - p * p - q * q + r * r) / m; return f; }
    f.A = V<3>(1, 2, 2) / 3; f.w = (b * u.x + c * u.y) / 3; f.z = (b * -u.y + c * u.x) / 3; return f; }
template <index_t N> Frame<N> frame() { if constexpr (N == 2) return frame2(); else return frame3(); }
