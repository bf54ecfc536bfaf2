// LINK: lib
//@ h_siphash      q=100 t=300 split=len:18 need=end v=3
//@ h_siphash_long tier=thorough t=300 split=len:8 need=end v=3
//@ h_hash_bytes   q=60 t=100 split=len:6 need=end v=3
//@ h_combine      q=60 t=100 need=end
//@ h_combine_many q=60 t=100 need=end
//@ h_equal_int    q=60 t=100 split=kind:6 need=end
//@ h_equal_fp     mode=fp q=60 t=100 split=kind:8 need=end
//@ h_equal_shape mode=fp q=60 t=100 split=kind:10 need=end
//@ h_distinct     q=100 t=200 split=kind:3 need=end
//@ h_tuple        q=60 t=100 need=end
//@ h_siphash_wide q=60 t=100 split=len:12 need=end v=3
//@bounds SipHash-2-4: every key and every message of length 0..17 (quick) / 0..33 (thorough) ; twelve longer lengths up to 520 with one key and the last nine bytes free, both digest widths; combining of all 64/32/16-bit hashes; object hashing over all 32-bit integer members and all finite 32-bit float bit patterns (zeros of either sign)
//@assume the standard library's own scalar and byte hashes are functions of their argument
#include <geomc/Hash.h>
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Ray.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/function/Dual.h>
#include "sym.h"
using namespace geom;
typedef uint64_t u64;
static u64 rot(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
// SipHash-2-4, written from its definition
struct Sip {
    u64 v[4];
    void round() {
        v[0] += v[1]; v[1] = rot(v[1], 13); v[1] ^= v[0]; v[0] = rot(v[0], 32);
        v[2] += v[3]; v[3] = rot(v[3], 16); v[3] ^= v[2];
        v[0] += v[3]; v[3] = rot(v[3], 21); v[3] ^= v[0];
        v[2] += v[1]; v[1] = rot(v[1], 17); v[1] ^= v[2]; v[2] = rot(v[2], 32);
    }
};
static void ref_sip(const uint8_t* m, size_t n, u64 k0, u64 k1, bool wide, u64 out[2]) {
    Sip s = {{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull}};
    if (wide) s.v[1] ^= 0xee;
    for (size_t w = 0; w <= n / 8; ++w) {
        u64 b = 0;
        for (size_t j = 0; j < 8 && w * 8 + j < n; ++j) b |= (u64) m[w * 8 + j] << (8 * j);
        if (w == n / 8) b |= (u64)(n & 0xff) << 56;
        s.v[3] ^= b; s.round(); s.round(); s.v[0] ^= b;
    }
    s.v[2] ^= wide ? 0xee : 0xff;
    for (int i = 0; i < 4; ++i) s.round();
    out[0] = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
    s.v[1] ^= 0xdd;
    for (int i = 0; i < 4; ++i) s.round();
    out[1] = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
}
static void sip_one(size_t n, size_t fixed = 0) { // the key and the first bytes of a long message are fixed
    uint8_t m[640]; u64 key[2] = {0x0123456789abcdef, 0xfedcba9876543210}; if (!fixed) { key[0] = sym_u64("k0"); key[1] = sym_u64("k1"); }
    for (size_t i = 0; i < n; ++i) m[i] = i < fixed ? (uint8_t)(i * 37 + i / 256 + 11) : sym_u8("m");
    u64 got[3] = {0, 0x55, 0x66}, ref[2];
    ref_sip(m, n, key[0], key[1], true, ref);
    detail::siphash(m, n, key, (uint8_t*) got, 16);
    sym_check(got[0] == ref[0] && got[1] == ref[1], "128-bit keyed digest is SipHash-2-4");
    sym_check(got[2] == 0x66, "the digest writes exactly its length");
    got[1] = 0x55;
    ref_sip(m, n, key[0], key[1], false, ref);
    detail::siphash(m, n, key, (uint8_t*) got, 8);
    sym_check(got[0] == ref[0], "64-bit keyed digest is SipHash-2-4");
    sym_check(got[1] == 0x55, "the digest writes exactly its length");
    sym_reach("end");
}
extern "C" void h_siphash() { sip_one(sym_choose(18, "len")); }
extern "C" void h_siphash_wide() { static const size_t L[] = {24, 33, 63, 64, 127, 128, 200, 255, 256, 257, 300, 520}; size_t n = L[sym_choose(12, "len")]; sip_one(n, n - 9); }
extern "C" void h_siphash_long() { sip_one(18 + 2 * sym_choose(8, "len")); }
extern "C" void h_hash_bytes() {
    typedef unsigned __int128 W;
    size_t n = sym_choose(6, "len") * 3;
    uint8_t a[16], b[17];
    for (size_t i = 0; i < n; ++i) b[i + 1] = a[i] = sym_u8("m");
    u64 n0 = sym_u64("n0"), n1 = sym_u64("n1"), ref[2];
    W nonce = (W) n1 << 64 | n0;
    W h = hash_bytes<W>(nonce, a, n);
    ref_sip(a, n, n0, n1, true, ref);
    sym_check((u64)(h >> 64) == ref[0] && (u64) h == ref[1], "wide byte hash is the keyed digest of the bytes");
    sym_check(hash_bytes<W>(nonce, b + 1, n) == h, "wide byte hash depends only on the bytes");
    sym_check(hash_bytes<size_t>(n0, a, n) == hash_bytes<size_t>(n0, b + 1, n), "byte hash depends only on the bytes");
    if (n0 != n1) sym_check(hash_bytes<size_t>(n0, a, n) != hash_bytes<size_t>(n1, a, n), "different nonces give different byte hashes");
    sym_reach("end");
}
template <typename H> static void comb(H a, H b, H c) {
    H h = hash_combine(a, b), g = hash_combine(a, c);
    sym_check((h == g) == (b == c), "combining is injective in the combined hash");
    sym_check(hash_combine_many(a, b, c) == hash_combine(a, hash_combine(b, c)), "combining many nests");
    sym_check(hash_combine_many(a) == a, "combining a single hash returns it");
}
extern "C" void h_combine() {
    static const u64 A[3] = {0, 1, 0x9e3779b97f4a7c15ull};
    comb<uint64_t>(A[sym_choose(3, "a")], sym_u64("b"), sym_u64("c"));
    comb<uint32_t>(sym_u32("d"), sym_u32("e"), sym_u32("f"));
    comb<uint16_t>(sym_u16("g"), sym_u16("h"), sym_u16("i"));
    sym_reach("end");
}
extern "C" void h_combine_many() {
    u64 a = sym_u64("a"), n = sym_choose(2, "n") * 0x9e3779b97f4a7c15ull;
    int v[3], w[3];
    for (int i = 0; i < 3; ++i) v[i] = sym_i32("v");
    for (int i = 0; i < 3; ++i) w[i] = i == 2 ? sym_i32("w") : v[i];
    u64 h = hash_array<int,u64>(n, v, 3), g = hash_array<int,u64>(n, w, 3);
    sym_check((h == g) == (v[2] == w[2]), "array hash distinguishes the last element");
    sym_check(hash_array<int,u64>(n, v, 0) == n, "array hash of nothing is the nonce");
    sym_check((hash_many<u64>(n, 7, v[1]) == hash_many<u64>(n, 7, w[2])) == (v[1] == w[2]), "hash_many distinguishes the last element");
    sym_check(hash<u64,u64>(a) == a, "a hash hashes to itself");
    sym_reach("end");
}
template <typename T> static void eq(const T& a, const T& b) {
    if (a == b) {
        sym_check(std::hash<T>()(a) == std::hash<T>()(b), "equal objects hash equal");
        sym_check(geom::hash<T, size_t>(a) == geom::hash<T, size_t>(b), "equal objects hash equal");
        sym_reach("end");
    }
}
extern "C" void h_equal_int() {
    int v[9], w[9];
    for (int& x : v) x = sym_i32("v");
    for (int& x : w) x = sym_i32("w");
    switch (sym_choose(6, "kind")) {
        case 0: eq(Vec<int,3>(v), Vec<int,3>(w)); break;
        case 1: eq(Rect<int,2>(Vec<int,2>(v), Vec<int,2>(v+2)), Rect<int,2>(Vec<int,2>(w), Vec<int,2>(w+2))); break;
        case 2: eq(Vec<int,5>(v), Vec<int,5>(w)); break;
        case 3: { SimpleMatrix<int,2,3> a(v), b(w); eq(a, b); break; }
        case 4: eq(Rect<int,1>(v[0], v[1]), Rect<int,1>(w[0], w[1])); break;
        case 5: eq(Vec<int,2>(v), Vec<int,2>(w)); break;
    }
}
static void finite(float x) { sym_assume(x == x && x < 1e30f && x > -1e30f); }
extern "C" void h_equal_fp() {
    float v[9], w[9];
    int k = sym_choose(8, "kind");
    int z = sym_choose(16, "zeros");      // which members are zeros of opposite sign
    for (int i = 0; i < (k == 5 ? 9 : 4); ++i) {
        if (z >> (i & 3) & 1) { v[i] = 0.0f; w[i] = -0.0f; }
        else if (i > 4) v[i] = w[i] = i; else { v[i] = w[i] = sym_f32("v"); finite(v[i]); }
    }
    switch (k) {
        case 0: eq(Vec<float,3>(v), Vec<float,3>(w)); break;
        case 1: eq(Rect<float,2>(Vec<float,2>(v), Vec<float,2>(v+2)), Rect<float,2>(Vec<float,2>(w), Vec<float,2>(w+2))); break;
        case 2: eq(Quat<float>(v[0],v[1],v[2],v[3]), Quat<float>(w[0],w[1],w[2],w[3])); break;
        case 3: eq(Sphere<float,3>(Vec<float,3>(v), v[3]), Sphere<float,3>(Vec<float,3>(w), w[3])); break;
        case 4: { SimpleMatrix<float,2,2> a(v), b(w); eq(a, b); break; }
        case 5: { AffineTransform<float,2> a, b; for (int i = 0; i < 9; ++i) { a.mat(i/3,i%3) = v[i]; b.mat(i/3,i%3) = w[i]; a.inv(i/3,i%3) = b.inv(i/3,i%3) = 0; } eq(a, b); break; }
        case 6: { Ray<float,2> a(Vec<float,2>(v), Vec<float,2>(v+2)), b(Vec<float,2>(w), Vec<float,2>(w+2)); if (a.origin == b.origin && a.direction == b.direction) { sym_check(std::hash<Ray<float,2>>()(a) == std::hash<Ray<float,2>>()(b), "equal objects hash equal"); sym_reach("end"); } break; }
        case 7: { Dual<float> a(v[0], v[1]), b(w[0], w[1]); if (v[0] == w[0] && v[1] == w[1]) { sym_check(std::hash<Dual<float>>()(a) == std::hash<Dual<float>>()(b), "equal objects hash equal"); sym_reach("end"); } break; }
    }
}
// shapes of every kind; unused vertices of a simplex do not count
extern "C" void h_equal_shape() {
    typedef Vec<float,2> V; typedef Vec<float,3> W; typedef Rect<float,2> R; float v[8], w[8]; int k = sym_choose(10, "kind"), z = sym_choose(16, "zeros");
    for (int i = 0; i < 8; ++i) if (z >> (i & 3) & 1) { v[i] = 0.0f; w[i] = -0.0f; } else { v[i] = sym_f32("v"); w[i] = v[i]; finite(v[i]); }
    switch (k) {
        case 0: { Plane<float,3> a, b; a.normal = W(v); a.d = v[3]; b.normal = W(w); b.d = w[3]; eq(a, b); break; }
        case 1: { Simplex<float,2> a, b; a.pts[0] = V(v); a.pts[1] = V(v + 2); a.pts[2] = V(v + 4); a.n = 3; b.pts[0] = V(w); b.pts[1] = V(w + 2); b.pts[2] = V(w + 4); b.n = 3; eq(a, b); break; }
        case 2: { Simplex<float,2> a, b; a.pts[0] = V(v); a.pts[1] = V(v + 2); a.pts[2] = V(7, 1); a.n = 2; b.pts[0] = V(w); b.pts[1] = V(w + 2); b.pts[2] = V(0, 3); b.n = 2; eq(a, b); break; }
        case 3: { Capsule<float,2> a, b; a.p0 = V(v); a.p1 = V(v + 2); a.radius = v[4]; b.p0 = V(w); b.p1 = V(w + 2); b.radius = w[4]; eq(a, b); break; }
        case 4: { Cylinder<float,2> a, b; a.p0 = V(v); a.p1 = V(v + 2); a.radius = v[4]; b.p0 = V(w); b.p1 = V(w + 2); b.radius = w[4]; eq(a, b); break; }
        case 5: eq(Dilated<R>(R(V(v), V(v + 2)), v[4]), Dilated<R>(R(V(w), V(w + 2)), w[4])); break;
        case 6: { typedef Sphere<float,2> S; typedef Rect<float,1> I; eq(Extruded<S>(S(V(v), v[2]), I(v[3], v[4])), Extruded<S>(S(V(w), w[2]), I(w[3], w[4]))); break; }
        case 7: { typedef Rect<float,1> I; eq(Frustum<R>(R(V(v), V(v + 2)), I(v[4], v[5])), Frustum<R>(R(V(w), V(w + 2)), I(w[4], w[5]))); break; }
        case 8: eq(Oriented<R>(R(V(v), V(v + 2))), Oriented<R>(R(V(w), V(w + 2)))); break;
        case 9: { typedef Sphere<float,2> S; Oriented<S> a(S(V(v), v[2])), b(S(V(w), w[2])); a.xf.mat(0, 2) = v[3]; b.xf.mat(0, 2) = w[3]; a.xf.mat(1, 2) = v[4]; b.xf.mat(1, 2) = w[4]; eq(a, b); break; }
    }
}
// small integer members never collide
extern "C" void h_distinct() {
    int v[4], w[4];
    for (int i = 0; i < 4; ++i) { v[i] = sym_range(0, 15, "v"); w[i] = sym_range(0, 15, "w"); }
    switch (sym_choose(3, "kind")) {
        case 0: { Vec<int,2> a(v), b(w); sym_check(a == b || std::hash<Vec<int,2>>()(a) != std::hash<Vec<int,2>>()(b), "different small vectors hash differently"); break; }
        case 1: { Vec<int,3> a(v), b(w); sym_check(a == b || std::hash<Vec<int,3>>()(a) != std::hash<Vec<int,3>>()(b), "different small vectors hash differently"); break; }
        case 2: { Rect<int,1> a(v[0],v[1]), b(w[0],w[1]); sym_check((v[0]==w[0]&&v[1]==w[1]) || std::hash<Rect<int,1>>()(a) != std::hash<Rect<int,1>>()(b), "different small ranges hash differently"); break; }
    }
    sym_reach("end");
}
extern "C" void h_tuple() {
    int x = sym_choose(3, "x") * 77 - 1, y = x; long z = sym_i64("z"), w = sym_i64("w");
    std::tuple<int,long> a(x, z), b(y, w);
    size_t ha = geom::hash<std::tuple<int,long>,size_t>(a), hb = geom::hash<std::tuple<int,long>,size_t>(b);
    if (x == y) sym_check((ha == hb) == (z == w), "tuple hash depends on the members");
    sym_reach("end");
}
