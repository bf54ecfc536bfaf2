From bb2e87d18131016664d00b3a63d6428ae329098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 001/190] fix: Deque copy constructor leaves inline storage
 behind a heap capacity

---
 geomc/Deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Deque.h b/geomc/Deque.h
index 928156e..58481f6 100644
--- a/geomc/Deque.h
+++ b/geomc/Deque.h
@@ -89,7 +89,7 @@ public:
     
     /// Construct a new circular buffer containing copies of all the items in `other`.
     Deque(const Deque<T,N>& other):
-            _data((other._size > N) ? (new storage_t[other._capacity]) : _buf),
+            _data((other._capacity > N) ? (new storage_t[other._capacity]) : _buf),
             _capacity(std::max(other._capacity, N)),
             _head(0),
             _size(other._size)
-- 
2.43.0


From 408f1054c07281fb39cbc496ea4d35fd560a705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 002/190] fix: SmallStorage reallocation moves elements past
 the end

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index 0adb2ce..e79e776 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -51,7 +51,7 @@ private:
             size_t new_capacity = std::max(n, _capacity * 2);
             storage_t* new_data = new storage_t[new_capacity];
             T* src = begin();
-            for (size_t i = 0; i < n; ++i) {
+            for (size_t i = 0; i < _size; ++i) {
                 new (new_data + i) T{std::move(src[i])};
                 src[i].~T(); // destroy the source
             }
-- 
2.43.0


From 026e0310a4a0938f4d9dae0cc089c4c737dec546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 003/190] fix: SmallStorage move constructor leaves destroyed
 elements in the source

---
 geomc/SmallStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/SmallStorage.h b/geomc/SmallStorage.h
index e79e776..f31ae7a 100644
--- a/geomc/SmallStorage.h
+++ b/geomc/SmallStorage.h
@@ -154,8 +154,8 @@ public:
             // empty the other container
             other._capacity = N;
             other._data     = other._buffer;
-            other._size     = 0;
         }
+        other._size = 0;
     }
     
     /// Destroy this array and its contents.
-- 
2.43.0


From 0859aa02dbf58d3c6c395e2b5bef5d285158a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 004/190] fix: complex sum/diff of products never compiled
 (real/imag are functions)

---
 geomc/function/functiondetail/UtilDetail.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index bc1437a..04e798a 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -135,10 +135,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i -
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r - cd_r, ab_i - cd_i};
     }
     
@@ -150,10 +150,10 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // (a.r * b.r - a.i * b.i) + (a.r * b.i + a.i * b.r)i +
         // (c.r * d.r - c.i * d.i) + (c.r * d.i + c.i * d.r)i
-        auto ab_r = geom::diff_of_products<T>(a.real, b.real, a.imag, b.imag);
-        auto cd_r = geom::diff_of_products<T>(c.real, d.real, c.imag, d.imag);
-        auto ab_i =  geom::sum_of_products<T>(a.real, b.imag, a.imag, b.real);
-        auto cd_i =  geom::sum_of_products<T>(c.real, d.imag, c.imag, d.real);
+        auto ab_r = geom::diff_of_products<T>(a.real(), b.real(), a.imag(), b.imag());
+        auto cd_r = geom::diff_of_products<T>(c.real(), d.real(), c.imag(), d.imag());
+        auto ab_i =  geom::sum_of_products<T>(a.real(), b.imag(), a.imag(), b.real());
+        auto cd_i =  geom::sum_of_products<T>(c.real(), d.imag(), c.imag(), d.real());
         return {ab_r + cd_r, ab_i + cd_i};
     }
     
@@ -164,19 +164,19 @@ struct _ImplFMADot<std::complex<T>, void> {
     {
         // todo: better...?
         // (a + bi) * (c + di) = (ac - bd) + (ad + bc)i
-        // auto ab_r = diff_of_products(a.real, b.real, a.imag, b.imag);
-        // auto ab_i =  sum_of_products(a.real, b.imag, a.imag, b.real);
-        // return {ab_r + c.real, ab_i + c.i};
+        // auto ab_r = diff_of_products(a.real(), b.real(), a.imag(), b.imag());
+        // auto ab_i =  sum_of_products(a.real(), b.imag(), a.imag(), b.real());
+        // return {ab_r + c.real(), ab_i + c.i};
         
         // or maybe try to kahanify this yourself...?
         
         // (a + bi) * (c + di) + (k_r + k_i i)
         // real: (ac - bd + k_r)
-        auto bd_k = geom::multiply_add<T>(-a.imag, b.imag, c.real);
-        auto real = geom::multiply_add<T>( a.real, b.real, bd_k);
+        auto bd_k = geom::multiply_add<T>(-a.imag(), b.imag(), c.real());
+        auto real = geom::multiply_add<T>( a.real(), b.real(), bd_k);
         // imag: (ad + bc + k_i)
-        auto bc_k = geom::multiply_add<T>(a.imag, b.real, c.imag);
-        auto imag = geom::multiply_add<T>(a.real, b.imag, bc_k);
+        auto bc_k = geom::multiply_add<T>(a.imag(), b.real(), c.imag());
+        auto imag = geom::multiply_add<T>(a.real(), b.imag(), bc_k);
         return {real, imag};
     }
 };
-- 
2.43.0


From 3ff2d49247d3744229132476058451ba22f92e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 005/190] fix: floor_div and ceil_div round wrongly for
 negative integers

---
 geomc/function/Utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Utils.h b/geomc/function/Utils.h
index c160ad2..1f74fa4 100644
--- a/geomc/function/Utils.h
+++ b/geomc/function/Utils.h
@@ -225,7 +225,8 @@ constexpr auto ceil_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::ceil(a / b);
     } else {
-        return (a + b - 1) / b;
+        // integer division truncates; round up if the exact quotient is positive and inexact
+        return a / b + T(a % b != 0 and (a % b < 0) == (b < 0));
     }
 }
 
@@ -250,7 +251,8 @@ constexpr auto floor_div(T a, T b) {
     if constexpr (not std::is_integral<T>()) {
         return std::floor(a / b);
     } else {
-        return (a + b) / b - 1;
+        // integer division truncates; round down if the exact quotient is negative and inexact
+        return a / b - T(a % b != 0 and (a % b < 0) != (b < 0));
     }
 }
 
-- 
2.43.0


From 73cf9612b6b9ae6fe895ef595efe9c0ba79c8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 006/190] fix: hashing a Ray did not compile (wrong explicit
 template argument)

---
 geomc/linalg/Ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9f9eb6e..9d2e8ce 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -143,7 +143,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Ray<T,N>, H> {
     H operator()(const Ray<T,N> &r) const {
         H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<Vec<T,N>,H>(nonce, r.origin, r.direction);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
     }
 };
 
-- 
2.43.0


From 58adb0d0d1d6701bf9ee514535be707bac4c5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 007/190] fix: hashing a tuple did not compile (helpers used
 before declaration)

---
 geomc/Hash.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geomc/Hash.h b/geomc/Hash.h
index 0d95480..3e0fdcc 100644
--- a/geomc/Hash.h
+++ b/geomc/Hash.h
@@ -11,6 +11,18 @@ namespace geom {
 template <typename T, typename H>
 H hash(const T& obj);
 
+template <std::unsigned_integral H>
+inline constexpr H hash_combine(H h0, H h1);
+
+template <typename H>
+inline constexpr H hash_combine_many(H h);
+
+template <typename H, typename... Hs>
+inline constexpr H hash_combine_many(H h, Hs... hashes);
+
+template <typename H>
+inline H hash_bytes(H nonce, const void* obj, size_t size);
+
 
 namespace detail {
 
-- 
2.43.0


From 990c2116c4e9c96cd39bcfa88898f878de5e2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 008/190] fix: difference of products of dual numbers did not
 compile

---
 geomc/function/functiondetail/UtilDetail.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/UtilDetail.h b/geomc/function/functiondetail/UtilDetail.h
index 04e798a..02cf7fe 100644
--- a/geomc/function/functiondetail/UtilDetail.h
+++ b/geomc/function/functiondetail/UtilDetail.h
@@ -99,7 +99,7 @@ struct _ImplFMADot<Dual<T,P>, void> {
         T dp = geom::sum_of_products<T>(a.x, b.dx, a.dx, b.x);
         T dq = geom::sum_of_products<T>(c.x, d.dx, c.dx, d.x);
         return Dual<T,P>(
-            geom::diff_of_products<T>(a, b, c, d),
+            geom::diff_of_products<T>(a.x, b.x, c.x, d.x),
             dp - dq);
     }
     
-- 
2.43.0


From b53997bf63d213251db5f38f62df400c317044f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 009/190] fix: in-place scaling of a dual number did not
 compile

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 35e9cb6..9a1a4f4 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -59,7 +59,7 @@ template <typename T, typename U, DiscontinuityPolicy Dp>
 requires requires(T t, U u) {
     {t * u} -> std::convertible_to<T>;
 }
-constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, T s) {
+constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, U s) {
     x.x  = x.x  * s;
     x.dx = x.dx * s;
     return x;
-- 
2.43.0


From 5a008aba0d0ca1d1c41c95e4c2cdf76f1e8e209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 010/190] fix: derivative of constant minus dual has the wrong
 sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 9a1a4f4..7381ea4 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -195,7 +195,7 @@ requires requires(T t, U u) {
 constexpr Dual<T,Dp> operator-(U s, const Dual<T,Dp>& d) { 
     return Dual<T,Dp>{
         s - d.x,
-        d.dx
+        -d.dx
     };
 }
 
-- 
2.43.0


From 2a5f32047577b2de59ff1d39318cd34afe62b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 011/190] fix: derivative of tan of a dual has the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 7381ea4..6c5613f 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -297,7 +297,7 @@ inline geom::Dual<T,P> cos(const geom::Dual<T,P> &d) {
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> tan(const geom::Dual<T,P> &d) {
     T c = std::cos(d.x);
-    return geom::Dual<T,P>(std::tan(d.x), -d.dx / (c*c));
+    return geom::Dual<T,P>(std::tan(d.x), d.dx / (c*c));
 }
 
 
-- 
2.43.0


From 263973af32ab4135abd3c67b8216f3700e4a4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 012/190] fix: derivative of exp of a dual has the wrong sign

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 6c5613f..a4baf31 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -360,7 +360,7 @@ inline geom::Dual<T,P> atan2(const geom::Dual<T,P> &y, const geom::Dual<T,P> &x)
 template <typename T, geom::DiscontinuityPolicy P>
 inline geom::Dual<T,P> exp(const geom::Dual<T,P> &d) {
     T e = std::exp(d.x);
-    return geom::Dual<T,P>(e, -d.dx * e);
+    return geom::Dual<T,P>(e, d.dx * e);
 }
 
 
-- 
2.43.0


From d650bc063b2bbf287289848a0c5038dda65c87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 013/190] fix: changing the policy of a dual replaced its value
 by its derivative

---
 geomc/function/functiondetail/DualImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index 0f04048..a56e4c8 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -148,7 +148,7 @@ struct Dual {
     
     /// Construct a Dual from one with a different discontinuity policy.
     template <DiscontinuityPolicy DP1>
-    constexpr Dual(const Dual<T,DP1>& d):x(d.dx), dx(d.dx) {}
+    constexpr Dual(const Dual<T,DP1>& d):x(d.x), dx(d.dx) {}
     
     /// Copy-construct a Dual
     constexpr Dual(const Dual& d) = default;
-- 
2.43.0


From 59a9a0f846d0dbd66e8c3ac9910b1897756ffa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 014/190] fix: max of duals returned a dual with the default
 policy

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index a4baf31..42ff75c 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -545,7 +545,7 @@ inline geom::Dual<T,P> max(const geom::Dual<T,P> &d1, const geom::Dual<T,P> &d2)
     } else {
         dx = gt ? d1.dx : d2.dx;
     }
-    return geom::Dual<T>(x,dx);
+    return geom::Dual<T,P>(x,dx);
 }
 
 
-- 
2.43.0


From 98c508f6a842eea56eb8e5bd4b6121cac4bb670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 015/190] fix: derivative of pow with respect to its base

---
 geomc/function/functiondetail/DualFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 42ff75c..6d90d7b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -395,7 +395,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
     T a_c = pow(base.x, xp.x);
     return geom::Dual<T,P>(
         a_c,
-        base.dx * xp.x * a_c / xp.x +
+        base.dx * xp.x * a_c / base.x +
         xp.dx * a_c * std::log(base.x)
     );
     
-- 
2.43.0


From 1cbe4e538146d1e052e708267b653dd5b2054a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 016/190] fix: pow of two duals was an ambiguous call

---
 geomc/function/functiondetail/DualFunctions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 6d90d7b..2425a4b 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -407,6 +407,7 @@ inline geom::Dual<T,P> pow(const geom::Dual<T,P> &base, const geom::Dual<T,P> &x
  * @related geom::Dual
  */
 template <typename T, typename U>
+requires std::convertible_to<U,T>
 inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
     T a_x = pow(base.x, xp);
     return geom::Dual<T>(
@@ -421,9 +422,10 @@ inline geom::Dual<T> pow(const geom::Dual<T> &base, U xp) {
  * @related geom::Dual
  */
 template <typename T, typename U, geom::DiscontinuityPolicy P>
+requires std::convertible_to<U,T>
 inline geom::Dual<T,P> pow(U base, const geom::Dual<T,P> &xp) {
     T a_x = pow(base, xp.x);
-    return geom::Dual<T>(
+    return geom::Dual<T,P>(
         a_x,
         xp.dx * a_x * std::log(base)
     );
-- 
2.43.0


From 712a62a23f6d907980989747fd4822c2c597f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 017/190] fix: in-place product and quotient of a dual with
 itself

---
 geomc/function/functiondetail/DualFunctions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/function/functiondetail/DualFunctions.h b/geomc/function/functiondetail/DualFunctions.h
index 2425a4b..926c3cf 100644
--- a/geomc/function/functiondetail/DualFunctions.h
+++ b/geomc/function/functiondetail/DualFunctions.h
@@ -47,10 +47,10 @@ constexpr Dual<T,Dp> operator*(U s, const Dual<T,Dp>& d) {
 /// Multiply and assign to dual.
 template <typename T, DiscontinuityPolicy Dp>
 constexpr Dual<T,Dp>& operator*=(Dual<T,Dp>& x, const Dual<T,Dp>& y) {
-    T x_x = x.x;
+    // product rule: x * dy + y * dx (y may alias x)
+    T dx = sum_of_products(x.x, y.dx, y.x, x.dx);
     x.x  = x.x * y.x;
-    // product rule: x * dy + y * dx
-    x.dx = sum_of_products(x_x, y.dx, y.x, x.dx);
+    x.dx = dx;
     return x;
 }
 
@@ -110,9 +110,10 @@ requires requires (T t, U u) {
     {t / u} -> std::convertible_to<T>;
 }
 constexpr Dual<T,Dp>& operator/=(Dual<T,Dp>& x, const Dual<U,Dp>& y) {
-    auto x_x = x.x;
+    // (y may alias x)
+    auto dx = diff_of_products(x.dx, y.x, x.x, y.dx) / (y.x * y.x);
     x.x  = x.x / y.x;
-    x.dx = diff_of_products(x.dx, y.x, x_x, y.dx) / (y.x * y.x);
+    x.dx = dx;
     return x;
 }
 
-- 
2.43.0


From e78af20d58ed9f325599fd0b1ad6eac8385ed52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 018/190] fix: vector reflection did not compile

---
 geomc/linalg/vecdetail/VecBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/VecBase.h b/geomc/linalg/vecdetail/VecBase.h
index 8348580..6cb5553 100644
--- a/geomc/linalg/vecdetail/VecBase.h
+++ b/geomc/linalg/vecdetail/VecBase.h
@@ -604,7 +604,7 @@ public:
      */
     self_t reflect_about(self_t normal) const {
         normal = normal.unit();
-        return this->neg() + normal * 2 * this->dot(normal);
+        return normal * 2 * this->dot(normal) - *static_cast<const self_t*>(this);
     }
 
     /**
-- 
2.43.0


From 16b485f557c1940ee42b34179b6507e9f7dc7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 019/190] fix: finiteness test of 2d vectors did not compile

---
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 68682b0..64b421c 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return is_real(detail::VecBase<T,2>::x) and is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotate(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
+            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
-- 
2.43.0


From 03c1184abd9388ad0cb73746d9255355d9234409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 020/190] fix: finiteness test of 3d vectors did not compile

---
 geomc/linalg/vecdetail/Vec3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index ee24996..f2620ba 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -352,9 +352,9 @@ namespace geom {
         
         /// @return `true` if no elements are an infinity or `NaN`.
         bool is_finite_real() const {
-            return is_real(this->x) and
-                   is_real(this->y) and
-                   is_real(this->z);
+            return detail::is_real(this->x) and
+                   detail::is_real(this->y) and
+                   detail::is_real(this->z);
         }
 
     private:
-- 
2.43.0


From 01ca9ac519140f5f571e560e40b33a6ed5fb4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 021/190] fix: 2d rotation about a point did not compile

---
 geomc/linalg/vecdetail/Vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 64b421c..ce5dad0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -145,7 +145,7 @@ namespace geom {
          * @param radians Angle of rotation.
          */
         Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotate(radians));
+            return center + (((*this) - center).rotated(radians));
         }
 
         /**
-- 
2.43.0


From 813ca723fc2f59af9f78ff3c897a3d12886da07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 022/190] fix: from_polar exchanged radius and angle

---
 geomc/linalg/vecdetail/Vec2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index ce5dad0..99335c0 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -162,8 +162,8 @@ namespace geom {
          */
         inline Vec<T,2> from_polar() const {
             Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::y * std::cos(detail::VecBase<T,2>::x);
-            v.y = detail::VecBase<T,2>::y * std::sin(detail::VecBase<T,2>::x);
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
             return v;
         }
 
-- 
2.43.0


From 0eb4bd61841217ac14c05ddd805a57b4a243d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 023/190] fix: 3d rotation about a center point

---
 geomc/linalg/vecdetail/Vec3.h | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index f2620ba..4a6d0a8 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -300,7 +300,7 @@ namespace geom {
         /** @return A copy of this vector rotated by angle `radians` about 
          * rotation axis `axis` and centerpoint `center`.
          */
-        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians){
+        inline Vec<T,3> rotate(Vec<T,3> axis, Vec<T,3> center, T radians) const {
             return rotate(axis.x, axis.y, axis.z, center.x, center.y, center.z, radians);
         }
         
@@ -308,31 +308,9 @@ namespace geom {
          * @return A copy of this vector rotated by angle `radians` about
          * the axis `(u, v, w)`, and centerpoint `(a, b, c)`.
          */
-        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians){
-            const T& x = this->x;
-            const T& y = this->y;
-            const T& z = this->z;
-            
-            T cc = std::cos(radians);
-            T ss = std::sin(radians);
-            T oneMcos = 1 - cc;
-            
-            T u2 = u * u;
-            T v2 = v * v;
-            T w2 = w * w;
-            T uxvywz = diff_of_products(u, x, v, y) - (w * z);
-            
-            T p0 = sum_of_products(b, v, c, w);
-            T p1 = sum_of_products(a, u, c, w);
-            T p2 = sum_of_products(a, u, b, v);
-            T q0 = diff_of_products(a, v2 + w2, u, p0 - uxvywz);
-            T q1 = diff_of_products(b, u2 + w2, v, p1 - uxvywz);
-            T q2 = diff_of_products(c, u2 + v2, w, p2 - uxvywz);
-            
-            return Vec<T,3>(
-                    q0 * oneMcos + x * cc + (-c*v + b*w - w*y + v*z) * ss,
-                    q1 * oneMcos + y * cc + ( c*u - a*w + w*x - u*z) * ss,
-                    q2 * oneMcos + z * cc + (-b*u + a*v - v*x + u*y) * ss);
+        Vec<T,3> rotate(T u, T v, T w, T a, T b, T c, T radians) const {
+            const Vec<T,3> ctr(a, b, c);
+            return ctr + (*this - ctr).rotate(u, v, w, radians);
         }
         
         /**
-- 
2.43.0


From 49478ff8aabe8d1e04cf5d93887642bee4abf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 024/190] fix: color unpacking did not compile

---
 geomc/linalg/vecdetail/Vec3.h |   6 +-
 geomc/linalg/vecdetail/Vec4.h | 296 +++++++++++++++++-----------------
 2 files changed, 151 insertions(+), 151 deletions(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 4a6d0a8..0849b05 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -52,9 +52,9 @@ namespace geom {
      */
     template <typename T> 
     Vec<T,3> from_rgb(int aRGB){
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
         return Vec<T,3>(r,g,b);
     }
 
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index 2116bac..b5c09ca 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T r = ((aRGB & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((aRGB & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T b =  (aRGB & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) / detail::_RGBChannelConversion<T>::factor;
-        T g = ((rgba & 0x00ff0000) >> 16) / detail::_RGBChannelConversion<T>::factor;
-        T b = ((rgba & 0x0000ff00) >> 8)  / detail::_RGBChannelConversion<T>::factor;
-        T a =  (rgba & 0x000000ff)        / detail::_RGBChannelConversion<T>::factor;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
-- 
2.43.0


From 10142f9ae152b5ddbe1aa952113c7795fe5fffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 025/190] fix: 3d rotation about an axis used z instead of x

---
 geomc/linalg/vecdetail/Vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/vecdetail/Vec3.h b/geomc/linalg/vecdetail/Vec3.h
index 0849b05..6b3e44a 100644
--- a/geomc/linalg/vecdetail/Vec3.h
+++ b/geomc/linalg/vecdetail/Vec3.h
@@ -277,7 +277,7 @@ namespace geom {
             // (expected to be within 5% of "naïve" performance)
             T p0 = sum_of_products(v, y, w, z);
             T p1 = sum_of_products(u, x, w, z);
-            T p2 = sum_of_products(u, z, v, y);
+            T p2 = sum_of_products(u, x, v, y);
             
             T q0 = diff_of_products(v, z, w, y);
             T q1 = diff_of_products(w, x, u, z);
-- 
2.43.0


From f50003ef998a62ed0e56733f2a6a169ad8a4f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 026/190] fix: quaternion brace initialization did not compile

---
 geomc/linalg/Quaternion.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 39e444e..0478c27 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -62,10 +62,8 @@ public:
      */
     Quat(const std::initializer_list<T>& items):
             detail::VecCommon< T,4,Quat<T>>(items.begin()) {
-        // items.size() not constexpr in c++11  D:<
-        static_assert(
-            items.size() == 4,
-            "Quaternion must be initialized with 4 elements");
+        // items.size() is not a constant expression here  D:<
+        assert(items.size() == 4); // Quaternion must be initialized with 4 elements
     }
     
     /*******************************
-- 
2.43.0


From dc9a3771cd43b48dbd100c63d5ffdba38e2aa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 027/190] fix: direction aligning quaternion rotated by the
 wrong angle and was not a unit quaternion

---
 geomc/linalg/Quaternion.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 0478c27..6392222 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -9,6 +9,7 @@
 #define QUATERNION_H_
 
 #include <cmath>
+#include <limits>
 #include <geomc/linalg/Vec.h>
 
 namespace geom {
@@ -99,9 +100,15 @@ public:
             const Vec<T,3>& v,
             const Vec<T,3>& alignWith)
     {
+        // (axis * sin(a), 1 + cos(a)) is a multiple of (axis * sin(a/2), cos(a/2))
         Vec<T,3> axis = v ^ alignWith;
-        T d = v.dot(alignWith);
-        return Quat<T>(axis, d);
+        T d = 1 + v.dot(alignWith);
+        if (d <= std::numeric_limits<T>::epsilon()) {
+            // opposite directions: half turn about any perpendicular axis
+            Vec<T,3> other = std::abs(v.x) < std::abs(v.y) ? Vec<T,3>::X_AXIS : Vec<T,3>::Y_AXIS;
+            return Quat<T>((v ^ other).unit(), 0);
+        }
+        return Quat<T>(axis, d).unit();
     }
 
     /*******************************
-- 
2.43.0


From a059e9214d717aa2f22c00f7862aa4d3311fe220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 028/190] fix: axis and angle of single precision quaternions
 did not compile

---
 geomc/linalg/Quaternion.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 6392222..d8a89a5 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -198,8 +198,8 @@ public:
      * `(x, y, z, radians)`.
      */
     Vec<T,4> to_axis_angle_rotation() const {
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
-        double alpha = 2 * std::acos(w_clamp);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
+        T alpha = 2 * std::acos(w_clamp);
         if (detail::VecBase<T,4>::x == 0 and 
             detail::VecBase<T,4>::y == 0 and
             detail::VecBase<T,4>::z == 0)
@@ -216,7 +216,7 @@ public:
      */
     Vec<T,3> to_angular_velocity() const {
         // assumes a unit quaternion.
-        T w_clamp = std::min(std::max(detail::VecBase<T,4>::w, -1.0), 1.0);
+        T w_clamp = std::min<T>(std::max<T>(detail::VecBase<T,4>::w, -1), 1);
         T alpha = 2 * std::acos(w_clamp);
         if (imag().is_zero()) {
             return Vec<T,3>::zeros;
-- 
2.43.0


From da7401fdcd2330727b241fd0cfdcdab4d6744b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 029/190] fix: quaternion rotation_scale did not compile

---
 geomc/linalg/Quaternion.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index d8a89a5..a3fa45f 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -232,7 +232,8 @@ public:
     // this may go the "long way" around. that what we want?
     Quat<T> rotation_scale(T t) const {
         // assumes a unit quaternion.
-        const T w = std::max(-1, std::min(Vec<T,4>::w, 1));
+        if (imag().is_zero()) return identity();
+        const T w = std::max<T>(-1, std::min<T>(detail::VecBase<T,4>::w, 1));
         T omega = std::acos(w);
         T theta = omega * t;
         return Quat<T>(std::sin(theta) * imag().unit(), std::cos(theta));
-- 
2.43.0


From 5ea82773f4dda0f3b6ed0731bfa67cc61a8bd411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 030/190] fix: quaternion slerp did not compile

---
 geomc/linalg/Quaternion.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index a3fa45f..4026d4f 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -246,7 +246,7 @@ public:
      * @param t Interpolation parameter between 0 and 1.
      * @return 
      */
-    Quat<T> slerp(const Quat<T> &q1, T t) const {
+    Quat<T> slerp(Quat<T> q1, T t) const {
         // assumed unit quaternion.
         const Quat<T> &q0 = *this;
         T dot = q0.dot(q1);
@@ -254,9 +254,10 @@ public:
             dot = -dot;
             q1 = -q1;
         }
-        dot = std::max(0, std::min<T>(1, dot)); //keep <dot> in the domain of acos.
+        dot = std::min<T>(1, dot); //keep <dot> in the domain of acos.
         T omega = std::acos(dot);
         T theta = omega * t;
+        if (omega == 0) return q0; // no rotation to interpolate
         Quat<T> q2 = (q1 - q0 * dot).unit();
         return std::cos(theta) * q0 + std::sin(theta) * q2;
     }
-- 
2.43.0


From 80784347a20163cb4ce87b7a733a11b64f03a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 031/190] fix: quaternion exp() and log() methods did not
 compile

---
 geomc/linalg/Quaternion.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 4026d4f..42f0e25 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -12,6 +12,12 @@
 #include <limits>
 #include <geomc/linalg/Vec.h>
 
+// the member functions need these declarations
+namespace std {
+    template <typename T> geom::Quat<T> exp(const geom::Quat<T>& q);
+    template <typename T> geom::Quat<T> log(const geom::Quat<T>& q);
+}
+
 namespace geom {
 
 /** @ingroup linalg 
-- 
2.43.0


From be85e93a9f4f57cff6dda9ea5cfe3db70717483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 032/190] fix: log of a real quaternion was not a number

---
 geomc/linalg/Quaternion.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 42f0e25..0b40da1 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -323,6 +323,10 @@ geom::Quat<T> log(const geom::Quat<T>& q) {
     T q_m = q.mag();
     T v_m = q.imag().mag();
     T k   = std::acos(q.w / q_m);
+    if (v_m == 0) {
+        // real quaternion; any axis will do for the half turn to a negative number.
+        return geom::Quat<T>(k, 0, 0, std::log(q_m));
+    }
     return geom::Quat<T>(k * q.imag() / v_m, std::log(q_m));
 }
 
-- 
2.43.0


From 73ef1f91a46984910684e6846d49222dc088d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 033/190] fix: pow of a real quaternion was not a number, and
 integer powers truncated the angle

---
 geomc/linalg/Quaternion.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Quaternion.h b/geomc/linalg/Quaternion.h
index 0b40da1..6e773ea 100644
--- a/geomc/linalg/Quaternion.h
+++ b/geomc/linalg/Quaternion.h
@@ -337,8 +337,8 @@ template <typename T, typename U>
 geom::Quat<T> pow(const geom::Quat<T> &q, U a) {
     T mag = q.mag();
     if (mag == 0) return geom::Quat<T>(0,0,0,1);
-    U theta = std::acos(q.real() / mag); // :(
-    geom::Vec<T,3> nhat = q.imag().unit();
+    T theta = std::acos(q.real() / mag); // :(
+    geom::Vec<T,3> nhat = q.imag().is_zero() ? geom::Vec<T,3>::X_AXIS : q.imag().unit();
     return std::pow(mag, a) * geom::Quat<T>(
         nhat * std::sin(a * theta), 
         std::cos(a * theta));
-- 
2.43.0


From 78567cbfa864d9a74255fb33c66830833a317083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 034/190] fix: distance from a point to a ray did not compile

---
 geomc/linalg/Ray.h | 316 ++++++++++++++++++++++-----------------------
 1 file changed, 158 insertions(+), 158 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 9d2e8ce..4df0e4f 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,158 +1,158 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2());
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2(p));
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        point_t b = p - origin;
+        T b2 = b.mag2();
+        T d  = direction.dot(b);
+        return b2 == 0 ? 0 : b2 - (d * d / b2);
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
-- 
2.43.0


From 2e77e79ebff4cb57ad0c0a9ef9d602fbca47eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 035/190] fix: squared distance from a point to a ray divided
 by the wrong length

---
 geomc/linalg/Ray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index 4df0e4f..d3789ab 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -91,8 +91,9 @@ public:
     inline T dist2(point_t p) const {
         point_t b = p - origin;
         T b2 = b.mag2();
+        T v2 = direction.mag2();
         T d  = direction.dot(b);
-        return b2 == 0 ? 0 : b2 - (d * d / b2);
+        return v2 == 0 ? b2 : b2 - (d * d / v2);
     }
     
 }; // class Ray
-- 
2.43.0


From 85ddc5f2879bdc5d01de82f6d78fa47029dc04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 036/190] fix: matrix * wide diagonal matrix read past the
 diagonal

---
 geomc/linalg/mtxdetail/MatrixMult.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 573c911..94ca43c 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -93,9 +93,10 @@ public:
     template <typename Md>
     static void mul(Md* d, const Mat& a, const geom::DiagMatrix<T,M,N>& b) {
         const T* dp = b.diagonal_begin();
-        for (index_t c = 0; c < b.cols(); ++c, ++dp) {
+        const index_t diag = std::min(b.rows(), b.cols());
+        for (index_t c = 0; c < b.cols(); ++c) {
             for (index_t r = 0; r < a.rows(); ++r) {
-                d->set(r,c, (*dp) * a(r,c));
+                d->set(r,c, c < diag ? dp[c] * a(r,c) : T(0));
             }
         }
     }
-- 
2.43.0


From eba5fa90e86343498992c97a554add0b9df250bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 037/190] fix: diagonal matrix * matrix multiplied by the wrong
 operand

---
 geomc/linalg/mtxdetail/MatrixMult.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 94ca43c..1ab0873 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -110,13 +110,14 @@ public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
     
-    // (M x N) * (N x a) -> (N x a)
+    // (M x N) * (N x a) -> (M x a)
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,M,N>& a, const Mat& b) {
         const T* dp = a.diagonal_begin();
-        for (index_t r = 0; r < b.rows(); ++r, ++dp) {
-            for (index_t c = 0; c < a.cols(); ++c) {
-                d->set(r,c, (*dp) * a(r,c));
+        const index_t diag = std::min(a.rows(), a.cols());
+        for (index_t r = 0; r < a.rows(); ++r) {
+            for (index_t c = 0; c < b.cols(); ++c) {
+                d->set(r,c, r < diag ? dp[r] * b(r,c) : T(0));
             }
         }
     }
-- 
2.43.0


From ed297e824a0f328c7d8f46e126dc0a51fc89fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 038/190] fix: products of two diagonal matrices, and of
 diagonal and permutation matrices, did not compile

---
 geomc/linalg/mtxdetail/MatrixMult.h | 63 +++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 1ab0873..36f096b 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -37,6 +37,31 @@ namespace detail {
         >::value \
     >::type
 
+// A diagonal matrix times a diagonal or permutation matrix has its own implementation
+// (or would otherwise be ambiguous):
+template <typename Mt>
+struct IsDiagOrPermuteMatrix {
+    static constexpr bool val = false;
+};
+
+template <typename T, index_t M, index_t N>
+struct IsDiagOrPermuteMatrix<geom::DiagMatrix<T,M,N>> {
+    static constexpr bool val = true;
+};
+
+template <index_t N>
+struct IsDiagOrPermuteMatrix<geom::PermutationMatrix<N>> {
+    static constexpr bool val = true;
+};
+
+#define REQUIRE_GENERAL_MATRIX_T(Mt) \
+    typename std::enable_if< \
+        std::is_base_of< \
+            geom::detail::MatrixBase<typename Mt::elem_t, Mt::ROWDIM, Mt::COLDIM, typename Mt::recurring_t>, \
+            Mt \
+        >::value and not geom::detail::IsDiagOrPermuteMatrix<Mt>::val \
+    >::type
+
 
 /************************************
  * Matrix mult implementations      *
@@ -84,7 +109,7 @@ public:
 
 // mtx * diag
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<Mat, geom::DiagMatrix<T,M,N>, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, Mat::ROWDIM, N> return_t;
@@ -105,7 +130,7 @@ public:
 
 // diag * mtx
 template <typename Mat, typename T, index_t M, index_t N>
-class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_MATRIX_T(Mat)> {
+class _ImplMtxMul<geom::DiagMatrix<T,M,N>, Mat, REQUIRE_GENERAL_MATRIX_T(Mat)> {
 public:
 
     typedef SimpleMatrix<T, M, Mat::COLDIM> return_t;
@@ -134,20 +159,23 @@ public:
     // diagonal destination matrix
     template <typename U, index_t I, index_t J>
     static void mul(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        d->set_zero();
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
     }
     
     template <typename U, index_t I, index_t J>
     static void mul_acc(geom::DiagMatrix<U,I,J>* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        T* pc = d->diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb, ++pc) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        U* pc = d->diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc += (*pa) * (*pb);
         }
     }
@@ -155,19 +183,21 @@ public:
     // arbitrary destination matrix
     template <typename Md>
     static void mul(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
         d->set_zero();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*pa) * (*pb));
         }
     }
     
     template <typename Md>
     static void mul_acc(Md* d, const geom::DiagMatrix<T,L,M1>& a, const geom::DiagMatrix<T,M2,N>& b) {
-        T* pa = a.diagonal_begin();
-        T* pb = b.diagonal_begin();
-        for (index_t i = 0; i < a.rows(); ++i, ++pa, ++pb) {
+        const T* pa = a.diagonal_begin();
+        const T* pb = b.diagonal_begin();
+        const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
+        for (index_t i = 0; i < diag; ++i, ++pa, ++pb) {
             d->set(i, i, (*d)(i,i) + (*pa) * (*pb));
         }
     }
@@ -415,6 +445,7 @@ public:
 //      can increment matrix ptr and use     v++ % N.
 
 #undef REQUIRE_MATRIX_T
+#undef REQUIRE_GENERAL_MATRIX_T
 
 }; // namespace geom
 }; // namespace detail
-- 
2.43.0


From 0da132c1ae96174f2334686fbbf92674e3f13167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 039/190] fix: product of permutations written to a dense
 matrix was transposed

---
 geomc/linalg/mtxdetail/MatrixMult.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 36f096b..65e1f2f 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -370,7 +370,7 @@ public:
         
         d->set_zero();
         for (index_t i = 0; i < a.rows(); i++) {
-            d->set(i, d_a[d_b[i]], 1);
+            d->set(d_a[d_b[i]], i, 1);
         }
     }
     
-- 
2.43.0


From d8af38772e0fdf0f6f8a8ca045dc2871943091f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 040/190] fix: product of permutation matrices kept a stale
 sign

---
 geomc/linalg/mtxdetail/MatrixMult.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index 65e1f2f..ca34d5e 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -390,6 +390,7 @@ public:
             d_rd[i] = s_b[s_a[i]];
             d_cd[i] = d_a[d_b[i]];
         }
+        d->_sign = 0;
     }
 };
 
-- 
2.43.0


From 33204692838746989bf7e3dd4142b81e685cc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 041/190] fix: sign of a permutation matrix returned no value
 when it was computed

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f066627..0b03a83 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -155,9 +155,8 @@ public:
             for (index_t i = 0; i < n; i++) {
                 row_dst[row_src[i]] = i;
             }
-        } else {
-            return _sign;
         }
+        return _sign;
     }
     
     
-- 
2.43.0


From 5f1e777a430ce42bccc283823ab66b26717705be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 042/190] fix: dereferencing a generic matrix row iterator did
 not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index 38ae378..ec11097 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -230,7 +230,7 @@ private:
     
     inline RefType dereference() const {
         // always make sure this is calling the function with the right const-ness!
-        return mtx->get(pt.row, pt.col);
+        return (*mtx)(pt.row, pt.col);
     }
     
 };
-- 
2.43.0


From 40f52aec22e8b1f25f56ac93065553fe05341d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 043/190] fix: comparing generic matrix row iterators did not
 compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index ec11097..d953e9b 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -208,7 +208,7 @@ private:
     
     friend class boost::iterator_core_access;
     
-    inline bool equal(const MtxColIterator<M,RefType>& other) const {
+    inline bool equal(const MtxRowIterator<M,RefType>& other) const {
         return (other.mtx == mtx) and (other.pt == pt);
     }
     
-- 
2.43.0


From 248772424f8b3707a9c69fc3fb817961a9d05e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 044/190] fix: overlapping matrix storage was reported as
 distinct unless nested

---
 geomc/linalg/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 90a6336..d1c4c0e 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -321,11 +321,11 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
         for (index_t j = 0; j < b.storage_token_count(); j++) {
             auto& tka = buf_a[i];
             auto& tkb = buf_b[j];
-            if (tka.lo < tkb.lo or tka.hi > tkb.hi) return false;
+            if (tka.lo == tkb.lo or (tka.lo < tkb.hi and tkb.lo < tka.hi)) return true;
         }
     }
     
-    return true;
+    return false;
 }
 
 template <typename T, index_t N>
-- 
2.43.0


From e648d404df37abd6143cde83454a8e0afb8b3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 045/190] fix: multiplying a vector into a destination vector
 did not compile

---
 geomc/linalg/Matrix.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index d1c4c0e..8ee8a70 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -328,9 +328,26 @@ inline bool mtx_aliases_storage(const Ma& a, const Mb& b) {
     return false;
 }
 
-template <typename T, index_t N>
-inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,N>& b) {
-    return a.begin() == b.begin();
+template <typename T, index_t N, index_t M>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Vec<T,M>& b) {
+    return a.begin() < b.end() and b.begin() < a.end();
+}
+
+template <typename T, index_t N, typename Mb>
+inline bool mtx_aliases_storage(const Vec<T,N>& a, const Mb& b) {
+    typename Mb::storagebuffer_t buf_b = b.get_storage_token_buffer();
+    b.get_storage_tokens(buf_b.get());
+    const void* lo = a.begin();
+    const void* hi = a.end();
+    for (index_t i = 0; i < b.storage_token_count(); i++) {
+        if (lo < buf_b[i].hi and buf_b[i].lo < hi) return true;
+    }
+    return false;
+}
+
+template <typename Ma, typename T, index_t N>
+inline bool mtx_aliases_storage(const Ma& a, const Vec<T,N>& b) {
+    return mtx_aliases_storage(b, a);
 }
 
 
-- 
2.43.0


From 81e4da69c5d3655c5582828e26ddc4043c62f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 046/190] fix: transpose into aliased storage transposed twice

---
 geomc/linalg/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index 8ee8a70..b03c7fb 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -687,6 +687,7 @@ transpose(Md *into, const Mx &m) {
         return_t buf = detail::_ImplMtxInstance<return_t>::instance(m.cols(), m.rows());
         txpose_t::transpose(&buf, m);
         detail::_mtxcopy(into, buf);
+        return;
     }
 #endif
     txpose_t::transpose(into, m);
-- 
2.43.0


From bd4bf515dce0b4fcf186dfec65b7dbe69221abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 047/190] fix: row access of a diagonal or permutation matrix
 did not compile

---
 geomc/linalg/mtxdetail/MatrixIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixIterator.h b/geomc/linalg/mtxdetail/MatrixIterator.h
index d953e9b..ce04c06 100644
--- a/geomc/linalg/mtxdetail/MatrixIterator.h
+++ b/geomc/linalg/mtxdetail/MatrixIterator.h
@@ -314,7 +314,7 @@ struct _ImplMtxReftype {
 
 template <typename M, typename T>
 struct _ImplMtxConstRowtype {
-    typedef MtxRowIterator<M, const T> const_row_iterator;
+    typedef MtxRowIterator<const M, const T> const_row_iterator;
 };
 
 template <typename M, typename T>
-- 
2.43.0


From f1ccd89002eca826949a207cef05b81f434c2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 048/190] fix: LU decomposition ignored the last pivot

---
 geomc/linalg/LUDecomp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/LUDecomp.h b/geomc/linalg/LUDecomp.h
index 54689af..e25a486 100644
--- a/geomc/linalg/LUDecomp.h
+++ b/geomc/linalg/LUDecomp.h
@@ -116,7 +116,7 @@ index_t decomp_lup(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
@@ -202,7 +202,7 @@ index_t decomp_plu(T* m, index_t rows, index_t cols, index_t* reorder, bool* par
     
     detail::MxWrap<T,RowMajor> mx = {m, rows, cols};
     
-    for (index_t i = 0; i < n - 1; i++) {
+    for (index_t i = 0; i < n; i++) {
         // find pivot
         T biggest = std::abs(mx.elem(i,i));
         index_t pvt = i;
-- 
2.43.0


From a5427b4cb7d74632934d42a4e5687f56956a496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 049/190] fix: 4x4 determinant did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index fe052b9..3e229ee 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -86,7 +86,7 @@ inline T det3x3(
 /// Compute the 4x4 matrix determinant.
 template <typename T>
 T det4x4(const T m[16]) {
-    const detail::_m4x4<T>& v = *reinterpret_cast<detail::_m4x4<T>*>(m);
+    const detail::_m4x4<T>& v = *reinterpret_cast<const detail::_m4x4<T>*>(m);
     return 
         diff_of_products(
             v.a, det3x3(v.f, v.g, v.h,  v.j, v.k, v.l,  v.n, v.o, v.p),
-- 
2.43.0


From eab8b493eb916d5d691566aed91ddf9a037272fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 050/190] fix: determinant from LU multiplied elements off the
 diagonal

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 3e229ee..ef8f79b 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -121,7 +121,7 @@ T det_destructive(T* m, index_t n) {
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonals, if A is triangular
     for (index_t i = 0; i < n; ++i) {
-        d *= m[i * i];
+        d *= m[i * (n + 1)];
     }
     return d;
 }
-- 
2.43.0


From 07e58a5518e2398b163fa9a5ce3ed7351f2153d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 051/190] fix: determinant of a matrix larger than 4x4 did not
 compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index ef8f79b..8803336 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -140,13 +140,13 @@ template <typename T>
 T detNxN(const T* m, index_t n) {
     bool odd;
     SmallStorage<T, 64> buf(m, n * n);
-    if (decomp_plu(buf.get(), n, n, nullptr, &odd) != 0) return 0;
+    if (decomp_plu(buf.begin(), n, n, nullptr, &odd) != 0) return 0;
     T d = odd ? -1 : 1;
     // det(A) is the product of its diagonal elems, if A is triangular
     // and det(AB) = det(A) * det(B). So if M = LU,
     // because `L` has unit diagonal, det(M) is just the diagonal elements of `U`.
     for (index_t i = 0; i < n; ++i) {
-        d *= buf[i * i];
+        d *= buf[i * (n + 1)];
     }
     return d;
 }
-- 
2.43.0


From 61435c67c763d8a35d91a3dd2f08def9d73109ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 052/190] fix: determinant of 5x5 and dynamic matrices did not
 compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 8803336..c1aedc3 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -166,7 +166,7 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 inline T det(const SimpleMatrix<T, M, N, Lyt, P>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     if (M * N == 0 and m.rows() != m.cols()) return 0;
-    return det(m.data_begin(), m.rows());
+    return detNxN(m.data_begin(), m.rows());
 }
 
 // 2x2 matrix det
-- 
2.43.0


From a08be78f340f8c5f69c2681089f85d6534944488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 053/190] fix: determinant of a diagonal matrix did not compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index c1aedc3..0ba59bf 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -202,7 +202,7 @@ T det(const DiagMatrix<T,N,M>& m) {
     static_assert(N * M == 0 or M == N, "Determinant only defined for square matrices.");
     T d = 1;
     if (m.rows() != m.cols()) return 0;
-    for (T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
+    for (const T* a = m.diagonal_begin(); a != m.diagonal_end(); ++a) {
         d *= *a;
     }
     return d;
-- 
2.43.0


From b6c303cbcc67443d5a4763e736679dd215de5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 054/190] fix: determinant of a permutation matrix did not
 compile

---
 geomc/linalg/mtxdetail/MatrixDet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixDet.h b/geomc/linalg/mtxdetail/MatrixDet.h
index 0ba59bf..be94e7a 100644
--- a/geomc/linalg/mtxdetail/MatrixDet.h
+++ b/geomc/linalg/mtxdetail/MatrixDet.h
@@ -224,7 +224,7 @@ template <index_t N>
 inline index_t det(const PermutationMatrix<N>& m) {
     index_t n = m.rows();
     SmallStorage<index_t,(N > 32 ? N : 32)> p(m.getRowSources(), n);
-    return permutation_sign(p.get(), n);
+    return permutation_sign(p.begin(), n);
 }
 
 /// @} // ingroup matrix
-- 
2.43.0


From cc6c5726cbd148ff3947b4af552fe35114354fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 055/190] fix: identity of a non-square matrix had ones off the
 diagonal

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 0ab80ab..3dda3dc 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -500,9 +500,9 @@ public:
      */
     void set_identity() {
         set_zero();
-        T *last = data_end();
-        for (T *p = data_begin(); p < last; p += cols() + 1) {
-            *p = 1;
+        const index_t n = std::min(rows(), cols());
+        for (index_t i = 0; i < n; ++i) {
+            set(i, i, 1);
         }
     }
     
-- 
2.43.0


From bc31bdf68cef951f04b0faff692969125aa9bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 056/190] fix: as_transpose() did not compile

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 3dda3dc..28e0b8c 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -489,10 +489,15 @@ public:
     SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> 
     as_transpose() const {
 #endif
-        return 
-        SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED>(
-            data.get(), cols(), rows()
-        );
+        typedef SimpleMatrix<T,N,M, (Lyt == ROW_MAJOR) ? COL_MAJOR : ROW_MAJOR, STORAGE_WRAPPED> txpose_t;
+        T* p = const_cast<T*>(data.get());
+        if constexpr (M != 0 and N != 0) {
+            return txpose_t(p);
+        } else if constexpr (M != 0 or N != 0) {
+            return txpose_t(p, M == 0 ? rows() : cols());
+        } else {
+            return txpose_t(p, cols(), rows());
+        }
     }
     
     /**
-- 
2.43.0


From 151759c8e8f7d781f1c05abb47a310b4efed8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 057/190] fix: inverse of a diagonal matrix did not compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index 2aa16ee..f708d13 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -378,7 +378,7 @@ public:
     template <typename Md>
     static bool inv(Md *into, const geom::DiagMatrix<T,M,N>& m) {
         into->set_zero(); // for newly allocated matrices, redundant. oh well.
-        T *p = m.diagonal_begin();
+        const T *p = m.diagonal_begin();
         for (index_t i = 0; p != m.diagonal_end(); ++i, ++p) {
             T elem = *p;
             if (elem == 0) return false;
@@ -386,6 +386,18 @@ public:
         }
         return true;
     }
+    
+    template <typename U, index_t P, index_t Q>
+    static bool inv(geom::DiagMatrix<U,P,Q> *into, const geom::DiagMatrix<T,M,N>& m) {
+        // `into` and `m` may be the same matrix
+        const T *p = m.diagonal_begin();
+        U *d = into->diagonal_begin();
+        for (; p != m.diagonal_end(); ++p, ++d) {
+            if (*p == 0) return false;
+            *d = 1 / *p;
+        }
+        return true;
+    }
 };
 
 // inverse of permutation matrix is its transpose.
-- 
2.43.0


From 60600762ba404f4c820d7a887979720d434307cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 058/190] fix: inverse of dynamically sized matrices did not
 compile

---
 geomc/linalg/mtxdetail/MatrixInv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixInv.h b/geomc/linalg/mtxdetail/MatrixInv.h
index f708d13..ffdec60 100644
--- a/geomc/linalg/mtxdetail/MatrixInv.h
+++ b/geomc/linalg/mtxdetail/MatrixInv.h
@@ -270,7 +270,7 @@ struct _ImplMtxInvRaw<T,0> {
                 // make a buffer with the same layout as the output
                 static constexpr MatrixLayout Lyt = Md::Layout;
                 SmallStorage<T,64> buf(n * n); // try not to alloc
-                WrapperMatrix<T,0,0,Lyt> bmx(buf.get(), n, n);
+                WrapperMatrix<T,0,0,Lyt> bmx(buf.begin(), n, n);
                 detail::_mtxcopy(&bmx, m);
                 return geom::invNxN(into->data_begin(), bmx.data_begin(), n);
         }
-- 
2.43.0


From 36d1fd1ab385a15b9e14fdfae64a909183da785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 059/190] fix: Cholesky decomposition of column-major matrices
 did not compile

---
 geomc/linalg/Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Cholesky.h b/geomc/linalg/Cholesky.h
index cfa7b18..9ce6903 100644
--- a/geomc/linalg/Cholesky.h
+++ b/geomc/linalg/Cholesky.h
@@ -85,7 +85,7 @@ cholesky(SimpleMatrix<T,M,N,Lyt,P>* m) {
     if (M * N == 0 and m->rows() != m->cols()) {
         return false;
     }
-    return cholesky<T,true>(m->begin(), m->rows());
+    return cholesky<T,Lyt == ROW_MAJOR>(m->data_begin(), m->rows());
 }
 #endif
 
-- 
2.43.0


From 6de43fb12a1004c6bd24320fbc12c3781cc4ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 060/190] fix: orthogonal() failed for independent vectors with
 dependent leading coordinates

---
 geomc/linalg/Orthogonal.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index ec11bdf..593cbed 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -76,7 +76,8 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
     std::copy(v0, v0 + N * (N-1), m);
     
     bool parity_swap = false;
-    if (decomp_plu(m, N-1, N, P, &parity_swap) > 0) {
+    // (pivot columns, since independent rows may have dependent leading columns)
+    if (decomp_lup(m, N-1, N, P, &parity_swap) > 0) {
         // matrix is singular; nullity is > 1. return 0 vector.
         return Vec<T,N>();
     }
@@ -90,7 +91,12 @@ Vec<T,N> orthogonal(const Vec<T,N> v[N-1]) {
         o[r] /= mx(r,r);
     }
     
-    return o;
+    // put the coordinates back in order.
+    Vec<T,N> out;
+    for (index_t i = 0; i < N; i++) {
+        out[P[i]] = o[i];
+    }
+    return out;
 }
 
 
-- 
2.43.0


From 9320e6400f4966baf094255c923410c8c9c644e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 061/190] fix: nullspace() failed for independent vectors with
 dependent leading coordinates

---
 geomc/linalg/Orthogonal.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Orthogonal.h b/geomc/linalg/Orthogonal.h
index 593cbed..51c7dce 100644
--- a/geomc/linalg/Orthogonal.h
+++ b/geomc/linalg/Orthogonal.h
@@ -144,7 +144,8 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     }
     
     T       m[N * (N-2)]; // <--  N-2 is the max # bases
-    index_t P[N - 2];     //     (N-1 and N cases handled above)
+                          //     (N-1 and N cases handled above)
+    index_t P[N];
             T* n0 = null_basis[0].begin();
     const T* b0 = bases[0].begin();
     
@@ -160,7 +161,8 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
     
     // get V to row-echelon form
     bool parity_swap = false;
-    if (decomp_plu(m, n, N, P, &parity_swap) > 0) return false;
+    // (pivot columns, since independent rows may have dependent leading columns)
+    if (decomp_lup(m, n, N, P, &parity_swap) > 0) return false;
     
     // foreach null space basis
     for (index_t b = 0; b < N - n; b++) {
@@ -174,6 +176,11 @@ bool nullspace(const Vec<T,N> bases[], index_t n, Vec<T,N> null_basis[]) {
             }
             x_i /= V(r, r);
         }
+        // put the coordinates back in order.
+        Vec<T,N> x = null_basis[b];
+        for (index_t i = 0; i < N; i++) {
+            null_basis[b][P[i]] = x[i];
+        }
     }
     
     return true;
-- 
2.43.0


From fedad4632bb5f87a0ec66dd8015b0393bffb83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 062/190] fix: transpose of a wrapped matrix did not compile

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index 5239760..c312cdd 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -113,7 +113,8 @@ template <typename T, index_t M, index_t N, MatrixLayout Lyt, StoragePolicy P>
 struct _ImplMtxTxpose<geom::SimpleMatrix<T,M,N,Lyt,P> > {
     
     typedef geom::SimpleMatrix<T,M,N,Lyt,P> Mx;
-    typedef geom::SimpleMatrix<T,N,M,Lyt,P> return_t;
+    // (a wrapped matrix has no storage of its own to give to the result)
+    typedef geom::SimpleMatrix<T,N,M,Lyt,P == STORAGE_WRAPPED ? STORAGE_UNIQUE : P> return_t;
     
     
     // xxx: this is masked by alias checking, which will duplicate
-- 
2.43.0


From 40ee4154022256f10e0fc2ca7054f195bbae9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 063/190] fix: copying between static and dynamic permutation
 matrices did not compile

---
 geomc/linalg/mtxdetail/MatrixCopy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixCopy.h b/geomc/linalg/mtxdetail/MatrixCopy.h
index cf99651..eb80029 100644
--- a/geomc/linalg/mtxdetail/MatrixCopy.h
+++ b/geomc/linalg/mtxdetail/MatrixCopy.h
@@ -21,8 +21,8 @@ namespace detail {
     }
 
 
-    template <index_t N>
-    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<N>& src) {
+    template <index_t N, index_t M>
+    inline void _mtxcopy(geom::PermutationMatrix<N>* into, const geom::PermutationMatrix<M>& src) {
         into->setRowSources(src.getRowSources());
     }
 
-- 
2.43.0


From 09ec12a295ad4cefcf54e8284cd2dbda20280c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 064/190] fix: product into a runtime-sized destination did not
 check the inner dimensions

---
 geomc/linalg/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/Matrix.h b/geomc/linalg/Matrix.h
index b03c7fb..3d21815 100644
--- a/geomc/linalg/Matrix.h
+++ b/geomc/linalg/Matrix.h
@@ -493,6 +493,10 @@ mul(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
@@ -537,6 +541,10 @@ mul_acc(Md *into, const Ma &a, const Mb &b) {
     typedef typename mult_t::return_t buffer_t;
     
 #ifdef GEOMC_MTX_CHECK_DIMS
+    // do the source matrix dimensions agree?
+    if ((A::COLDIM == DYNAMIC_DIM or B::ROWDIM == DYNAMIC_DIM) and A::cols(a) != B::rows(b)) {
+        throw DimensionMismatchException(A::rows(a), A::cols(a), B::rows(b), B::cols(b));
+    }
     // trial orientation adaptors:
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_ROW> Dr;
     typedef detail::_ImplMtxAdaptor<Md, detail::ORIENT_VEC_COL> Dc;
-- 
2.43.0


From 43c8fc6b2ecbc9823c09fa61e6de1b32b0310f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 065/190] fix: decrementing a grid iterator skipped the last
 cell of each row

---
 geomc/shape/GridIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 8452fa8..b4b4fd2 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -145,7 +145,7 @@ private:
         for (index_t i = dim_first;
                 i != dim_end and --(pt[i]) < region.lo[i];
                 i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i] - 1;
+            if (i != dim_last) pt[i] = region.hi[i];
         }
     }
     
-- 
2.43.0


From dcec54b961e9f023924b63d6d7c212e0152000d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 066/190] fix: advancing a grid iterator ignored its position
 and the region's origin

---
 geomc/shape/GridIterator.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index b4b4fd2..528587b 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -150,17 +150,16 @@ private:
     }
     
     inline void advance(index_t n) {
-        point_t dest = point_t(0);
-        point_t dim  = region.dimensions();
-        index_t vol  = region.volume();
-        
-        for (index_t i = dim_last; i != dim_first - dim_increment; i -= dim_increment) {
-            vol     = vol / dim[i];
-            dest[i] = n / vol;
-            n       = n % vol;
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            index_t lo  = region.lo[i];
+            index_t dim = (index_t) region.hi[i] - lo + 1;
+            if (dim <= 0) return; // empty region
+            // offset along this axis, carrying (rounding down) into the next one
+            index_t k = (index_t) pt[i] - lo + n;
+            n = k / dim - (k % dim < 0 ? 1 : 0);
+            pt[i] = lo + k - n * dim;
         }
-        
-        pt = dest;
+        pt[dim_last] += n;
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
-- 
2.43.0


From 4771b5f076216c9d914b736283c184d8e7e54a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 067/190] fix: one-dimensional grid iterator bounds, order and
 begin()

---
 geomc/shape/GridIterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 528587b..d1956a6 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -205,7 +205,7 @@ class GridIterator<T,1,Order> :
 
 public:
 
-    static const ArrayOrder order;
+    static constexpr ArrayOrder order = Order;
     typedef typename PointType<T,1>::point_t point_t;
     
     const Rect<T,1> region;
@@ -215,11 +215,11 @@ public:
             region(r),
             pt(region.lo) {}
     GridIterator(const point_t &lo, const point_t &hi):
-            region(lo, hi + 1),
+            region(lo, hi - 1),
             pt(lo) {}
     
     inline GridIterator<T,1,Order> begin() const {
-        GridIterator<T,1> other = *this;
+        GridIterator<T,1,Order> other = *this;
         other.pt = region.lo;
         return other;
     }
-- 
2.43.0


From a8a919bc4fda371af0613fc1e84bba3e82fd4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 068/190] fix: copying a matrix region did not compile

---
 geomc/linalg/mtxdetail/MatrixFunctionImpl.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
index c312cdd..23379dc 100644
--- a/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
+++ b/geomc/linalg/mtxdetail/MatrixFunctionImpl.h
@@ -20,9 +20,8 @@ namespace geom {
 
 template <typename Ms, typename Md>
 inline void copyMatrixRegion(const Ms& src, Md& dst, const MatrixRegion& src_region, const Vec<index_t,2>& dst_begin){
-    std::pair<typename Ms::region_iterator, typename Ms::region_iterator> p = src.region(src_region);
-    MatrixRegion dst_region = MatrixRegion(dst_begin, dst_begin + src_region.dimensions());
-    std::copy(p[0], p[1], dst.region(dst_region));
+    MatrixRegion dst_region = MatrixRegion::from_corner(dst_begin, src_region.dimensions());
+    std::copy(src.region_begin(src_region), src.region_end(src_region), dst.region_begin(dst_region));
 }
 
 /// Transpose a square matrix
-- 
2.43.0


From 290c65e0339ae9505009b3d05e03165d68dbe178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 069/190] fix: constructing a fixed-size matrix from a
 differently sized one wrote out of bounds

---
 geomc/linalg/mtxtypes/SimpleMatrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/linalg/mtxtypes/SimpleMatrix.h b/geomc/linalg/mtxtypes/SimpleMatrix.h
index 28e0b8c..fbf469f 100644
--- a/geomc/linalg/mtxtypes/SimpleMatrix.h
+++ b/geomc/linalg/mtxtypes/SimpleMatrix.h
@@ -277,6 +277,14 @@ protected:
     template <typename Mx>
     FlatMatrixBase(const Mx& m):
             data(m.rows() * m.cols()) {
+#ifdef GEOMC_MTX_CHECK_DIMS
+        if ((M != DYNAMIC_DIM and m.rows() != M) or (N != DYNAMIC_DIM and m.cols() != N)) {
+            throw DimensionMismatchException(
+                M != DYNAMIC_DIM ? M : m.rows(),
+                N != DYNAMIC_DIM ? N : m.cols(),
+                m.rows(), m.cols());
+        }
+#endif
         Dimension<M>::set(n_rows, m.rows());
         Dimension<N>::set(n_cols, m.cols());
         detail::_mtxcopy(this, m);
-- 
2.43.0


From 6c56a3ad1602d14c42940398624594e09b190beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 070/190] fix: iterating an empty grid visited cells or never
 ended

---
 geomc/shape/GridIterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index d1956a6..0531ecb 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -121,7 +121,7 @@ public:
         other.pt = region.lo;
         // one beyond the highest cell. i.e. first cell in
         // (N-1)D block just beyond the end of this region. 
-        other.pt[dim_last] = region.hi[dim_last] + 1;
+        if (not region.is_empty()) other.pt[dim_last] = region.hi[dim_last] + 1;
         return other;
     }
     
@@ -226,7 +226,8 @@ public:
     
     inline GridIterator<T,1,Order> end() const {
         GridIterator<T,1,Order> other = *this;
-        other.pt = region.hi + 1;
+        if (not region.is_empty()) other.pt = region.hi + 1;
+        else                       other.pt = region.lo;
         return other;
     }
     
-- 
2.43.0


From dde8864f599a771e2e0de8d51abed6197e84430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 071/190] fix: sign of a permutation counted one transposition
 too many per cycle

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index 0b03a83..f9480f5 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -485,7 +485,7 @@ index_t permutation_sign(index_t* p, index_t n) {
         do {
             // source of the new element at this position:
             index_t next = p[cur];
-            odd = not odd;
+            if (next != i) odd = not odd; // a k-cycle is (k - 1) transpositions
             // mark this element as visited by mapping it to itself
             p[cur] = cur;
             // ...and then proceed
-- 
2.43.0


From 55718ea2588352abc1081c7826d758b4b007d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 072/190] fix: aligning opposite directions did not reverse
 most directions

---
 geomc/linalg/AffineTransform.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index ed72436..61a9ac7 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -437,6 +437,20 @@ inline void rotmat(
     rotmat(into, axis.x, axis.y, axis.z, ctr.x, ctr.y, ctr.z, theta);
 }
 
+// write into the upper left 3x3 of `into` a half turn about an axis perpendicular to `dir`.
+template <typename T, typename Mx>
+inline void _rotmat_half_turn(Mx* into, const Vec<T,3>& dir) {
+    const Vec<T,3> a = std::abs(dir.x) < std::abs(dir.z) ? 
+        Vec<T,3>(0, -dir.z, dir.y) :
+        Vec<T,3>(-dir.y, dir.x, 0);
+    const T k = 2 / a.mag2();
+    for (index_t r = 0; r < 3; ++r) {
+        for (index_t c = 0; c < 3; ++c) {
+            into->set(r, c, a[r] * a[c] * k - (r == c ? 1 : 0));
+        }
+    }
+}
+
 // rotation aligning `dir` with `alignWith`.
 // modified from http://www.iquilezles.org/www/articles/noacos/noacos.htm
 template <typename T>
@@ -451,7 +465,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) _rotmat_half_turn(into, dir);
         return;
     }
     
@@ -477,7 +491,7 @@ SimpleMatrix<T,3,3> rotmat_direction_align(
     if (std::abs(c) == 1) {
         SimpleMatrix<T,3,3> out;
         // 180 degree case:
-        if (c < 0) { out.set(0, 0, -1); out.set(2, 2, -1); }
+        if (c < 0) _rotmat_half_turn(&out, dir);
         return out;
     }
     
@@ -571,7 +585,7 @@ inline void rotmat_direction_align(
     // handle poles
     if (std::abs(c) == 1) {
         into->set_identity();
-        if (c < 0) { into->set(0,0,-1); into->set(2,2,-1); }
+        if (c < 0) _rotmat_half_turn(into, dir);
         return;
     }
     
-- 
2.43.0


From 231010471c1a43ae89bbc39aa4786f38cea9978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 073/190] fix: resizing a transform lost the translation of its
 inverse

---
 geomc/linalg/AffineTransform.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/linalg/AffineTransform.h b/geomc/linalg/AffineTransform.h
index 61a9ac7..5cd993a 100644
--- a/geomc/linalg/AffineTransform.h
+++ b/geomc/linalg/AffineTransform.h
@@ -184,6 +184,7 @@ public:
             }
             // keep translation components in the homogenous column
             xf.mat(i,M) = static_cast<U>(mat(i,N));
+            xf.inv(i,M) = static_cast<U>(inv(i,N));
         }
         // this ought to be 1, but let's be pedantic
         xf.mat(M,M) = mat(N,N);
-- 
2.43.0


From f9f6706ab50851ace4c975e14ce4322fe44568c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 074/190] fix: extending a constant box by a point did not
 compile

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index cb2192a..9776ebf 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -300,7 +300,7 @@ public:
      *
      * @return A Rect fully containing `this` and the point `p`.
      */
-    Rect<T,N> operator|(const point_t& p) {
+    Rect<T,N> operator|(const point_t& p) const {
         // point union
         return Rect<T,N>(
             std::min(lo, p),
-- 
2.43.0


From 5b48832a2d1f6db1ee12543a3b874a241f295405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 075/190] fix: abs() of a box did not compile

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 9776ebf..ed9555e 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -723,8 +723,8 @@ public:
      */
     Rect<T,N> abs() const {
         Rect<T,N> out;
-        T* lo_i     = ptype::iterator(lo);
-        T* hi_i     = ptype::iterator(hi);
+        const T* lo_i = ptype::iterator(lo);
+        const T* hi_i = ptype::iterator(hi);
         T* out_lo_i = ptype::iterator(out.lo);
         T* out_hi_i = ptype::iterator(out.hi);
         for (index_t i = 0; i < N; ++i) {
-- 
2.43.0


From 7fa1651fda1d2cd84c3b718163b2eb156590cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 076/190] fix: slicing a box to another dimension did not
 compile

---
 geomc/shape/Rect.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index ed9555e..0f545d9 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -244,8 +244,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
@@ -265,8 +265,8 @@ public:
         const T* lo_p = ptype::iterator(lo);
         const T* hi_p = ptype::iterator(hi);
         Rect<T,M> out {
-            point_t{ lo_p[indices]...},
-            point_t{ hi_p[indices]...}
+            typename Rect<T,M>::point_t{ lo_p[indices]...},
+            typename Rect<T,M>::point_t{ hi_p[indices]...}
         };
         return out;
     }
-- 
2.43.0


From d95dd2b6948946817c8affc32e64bd3fece3e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 077/190] fix: signed distance to a one-dimensional box did not
 compile

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 0f545d9..6fca68e 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -865,7 +865,7 @@ public:
      */
     T sdf(point_t p) const {
         T sign = contains(p) ? -1 : 1;
-        return sign * project(p).dist(p);
+        return sign * ptype::mag(project(p) - p);
     }
 
     /**
-- 
2.43.0


From dee57cabaed13d9b58740c221eba746a2ac425e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 078/190] fix: boxes sharing boundary points did not intersect,
 and empty boxes did

---
 geomc/shape/Rect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 6fca68e..1eea8fc 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -625,9 +625,9 @@ public:
      */
     bool intersects(const Rect<T,N>& box) const {
         for (index_t axis = 0; axis < N; axis++) {
-            // disjoint on this axis?
-            if (ptype::iterator(hi)[axis]     <= ptype::iterator(box.lo)[axis] or
-                ptype::iterator(box.hi)[axis] <= ptype::iterator(lo)[axis]) {
+            // disjoint on this axis? (boundaries are inclusive, and either range may be empty)
+            if (std::max(ptype::iterator(lo)[axis], ptype::iterator(box.lo)[axis]) >
+                std::min(ptype::iterator(hi)[axis], ptype::iterator(box.hi)[axis])) {
                 return false;
             }
         }
-- 
2.43.0


From cb90699749c2e6fa34b0e831207d320f2c7d1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 079/190] fix: a box did not contain some empty boxes

---
 geomc/shape/Rect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 1eea8fc..396a9a6 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -598,6 +598,7 @@ public:
      * `this`.
      */
     bool contains(const Rect<T,N>& box) const {
+        if (box.is_empty()) return true;
         for (index_t axis = 0; axis < N; axis++) {
             // inner box must not protrude along any axis
             if (ptype::iterator(box.lo)[axis] < ptype::iterator(lo)[axis] or
-- 
2.43.0


From 7656bcca2d8e8afa5a04cac3add35f75e667bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 080/190] fix: excluding a range from a box changed the box and
 returned the empty one

---
 geomc/shape/Rect.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 396a9a6..f784214 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -415,7 +415,7 @@ public:
      * @param other Range to be excluded from the range of this `Rect`.
      * @return A new `Rect` whose range does not overlap `other`.
      */
-    Rect<T,N> operator-(const Rect<T,N>& other) {
+    Rect<T,N> operator-(const Rect<T,N>& other) const {
         // todo: instead of returning empty() when an interval is split in two,
         //   choose the larger
         // todo: make an exclude_signed() and handle empty-interval case,
@@ -423,17 +423,26 @@ public:
         //   •   a  - (-b) =   a + b
         //   • (-a) -   b  = -(a + b)
         //   • (-a) - (-b) = -(a - b)
-        Rect<T,N> out;
+        const T edge = std::is_integral<T>::value ? 1 : 0;
+        Rect<T,N> out = *this;
         for (index_t i = 0; i < N; ++i) {
             T b_lo = ptype::iterator(other.lo)[i];
             T a_lo = ptype::iterator(lo)[i];
             T a_hi = ptype::iterator(hi)[i];
             T b_hi = ptype::iterator(other.hi)[i];
-            if (b_lo > b_hi) continue;
-            bool pick_lo = b_lo < a_lo;
-            bool pick_hi = b_hi > a_hi;
-            ptype::iterator(lo)[i] = pick_lo ? a_hi : std::min(a_hi, b_lo);
-            ptype::iterator(hi)[i] = pick_hi ? a_lo : std::max(b_hi, a_lo);
+            // nothing to exclude?
+            if (b_lo > b_hi or b_hi < a_lo or b_lo > a_hi) continue;
+            bool keep_lo = b_lo > a_lo;
+            bool keep_hi = b_hi < a_hi;
+            if (keep_lo == keep_hi) {
+                // split in two, or covered entirely
+                ptype::iterator(out.lo)[i] = std::numeric_limits<T>::max();
+                ptype::iterator(out.hi)[i] = std::numeric_limits<T>::lowest();
+            } else if (keep_lo) {
+                ptype::iterator(out.hi)[i] = b_lo - edge;
+            } else {
+                ptype::iterator(out.lo)[i] = b_hi + edge;
+            }
         }
         return out;
     }
-- 
2.43.0


From 7c9d176e5b4ac191c5acac8a55342fb031a261b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 081/190] fix: center of an integer box with negative
 coordinates was off by one

---
 geomc/shape/Rect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index f784214..eb9ad13 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -663,7 +663,12 @@ public:
      * @return The center point of this region.
      */
     point_t center() const {
-        return (hi + lo + endpoint_measure) / 2;
+        if constexpr (std::is_integral<T>::value) {
+            // (hi + lo) may be negative, where integer division would round up
+            return lo + dimensions() / 2;
+        } else {
+            return (hi + lo) / 2;
+        }
     }
 
     /**
-- 
2.43.0


From 49cd6819322b961d648ea68e0439a764de608292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 082/190] fix: integer boxes constructed from negative
 dimensions had the wrong size

---
 geomc/shape/Rect.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index eb9ad13..ffb11da 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -137,6 +137,10 @@ public:
             typename Rect<T,N>::point_t c,
             typename Rect<T,N>::point_t dims)
     {
+        for (index_t i = 0; i < N; ++i) {
+            T& d = ptype::iterator(dims)[i];
+            if (d < 0) d = -d;
+        }
         return Rect<T,N>::spanning_corners(
             c -  dims / 2,
             c + (dims - endpoint_measure) / 2
@@ -153,9 +157,15 @@ public:
             typename Rect<T,N>::point_t corner,
             typename Rect<T,N>::point_t dims)
     {
+        for (index_t i = 0; i < N; ++i) {
+            // both corners are included
+            const T edge = std::is_integral<T>::value ? 1 : 0;
+            T& d = ptype::iterator(dims)[i];
+            d = (d < 0) ? d + edge : d - edge;
+        }
         return Rect<T,N>::spanning_corners(
             corner,
-            corner + dims - endpoint_measure);
+            corner + dims);
     }
 
     /**
-- 
2.43.0


From be9fd3fcfa358f7aa834595a66c7bada64b78988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 083/190] fix: resizing an integer box gave it the wrong size

---
 geomc/shape/Rect.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index ffb11da..1d52a35 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -712,11 +712,7 @@ public:
         // [0|1|2|3|4]
         // [0|1|2|3]
 
-        // xxx fixme for int types
-        dim = std::abs(dim);
-        point_t diff = (dim - dimensions()) / 2;
-        lo = lo - diff;
-        hi = hi + diff;
+        *this = from_center(center(), dim);
     }
 
     /**
-- 
2.43.0


From ca2f5aa00107d20439eb7269ed78f5ef38f1805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 084/190] fix: projecting a point to a box gave a corner
 instead of the nearest boundary point

---
 geomc/shape/Rect.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 1d52a35..40ac2c2 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -869,15 +869,25 @@ public:
      * `clip()` leaves `p` unchanged if it lies in the Rect's interior.
      */
     point_t project(point_t p) const {
+        if (not contains(p)) return clip(p);
         T* p_i = ptype::iterator(p);
         const T* lo_i = ptype::iterator(lo);
         const T* hi_i = ptype::iterator(hi);
+        // find the face nearest to p
+        index_t axis = 0;
+        T d_best = 0;
+        T coord  = 0;
         for (index_t i = 0; i < N; ++i) {
-            // for each coordinate, find the extrumum which is closest to p
-            T d_lo = std::abs(p_i[i] - lo_i[i]);
-            T d_hi = std::abs(p_i[i] - hi_i[i]);
-            p_i[i] = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            T d_lo = p_i[i] - lo_i[i];
+            T d_hi = hi_i[i] - p_i[i];
+            T d    = std::min(d_lo, d_hi);
+            if (i == 0 or d < d_best) {
+                axis   = i;
+                d_best = d;
+                coord  = (d_lo < d_hi) ? lo_i[i] : hi_i[i];
+            }
         }
+        p_i[axis] = coord;
         return p;
     }
 
-- 
2.43.0


From 3d477c766e2b40597f50eb002ad3eb8c629e60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 085/190] fix: shortest contact distance between boxes was
 truncated to an integer

---
 geomc/shape/Rect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index 40ac2c2..bd54f46 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -942,8 +942,8 @@ public:
         point_t v;
         bool overlap[N];
         bool all_overlap = true;
-        index_t shortest_axis;
-        index_t shortest_val = std::numeric_limits<T>::max();
+        index_t shortest_axis = 0;
+        T shortest_val = std::numeric_limits<T>::max();
         for (index_t i = 0; i < N; ++i) {
             auto r0 = this->axis(i);
             auto r1 = other.axis(i);
-- 
2.43.0


From 2c7da0894e49b89e31a24b928db8add8f1503647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 086/190] fix: projection to a capsule and its normal did not
 compile

---
 geomc/shape/Capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Capsule.h b/geomc/shape/Capsule.h
index 3765eb8..96b52d0 100644
--- a/geomc/shape/Capsule.h
+++ b/geomc/shape/Capsule.h
@@ -61,7 +61,7 @@ public:
         point_t v    = p  - p0;
         point_t axis = p1 - p0;
         T frac = v.dot(axis) / axis.mag2();
-        return p0 + axis * clamp(frac, 0, 1);
+        return p0 + axis * clamp<T>(frac, 0, 1);
     }
     
     /**
-- 
2.43.0


From 18f709348618e74e91ecd7002d8071e97f86f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 087/190] fix: sphere intersection ignored the radius of the
 other sphere

---
 geomc/shape/Sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 01f5821..53fa9c2 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -70,7 +70,8 @@ public:
      * @return `true` if `s` overlaps with this sphere's volume, false otherwise.
      */
     bool intersects(Sphere s) const {
-        return ptype::mag2(center - s.center) <= r * r;
+        T r_sum = r + s.r;
+        return ptype::mag2(center - s.center) <= r_sum * r_sum;
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-- 
2.43.0


From b359b9255ecda12e9fd0ec1159dbf4d1b7acb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 088/190] fix: sphere-box intersection ignored the center of
 the sphere

---
 geomc/shape/Sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Sphere.h b/geomc/shape/Sphere.h
index 53fa9c2..e97aa13 100644
--- a/geomc/shape/Sphere.h
+++ b/geomc/shape/Sphere.h
@@ -75,7 +75,7 @@ public:
     }
     
     bool intersects(const Rect<T,N>& rect) const {
-        return rect.dist2(r) <= r * r;
+        return rect.dist2(center) <= r * r;
     }
     
     point_t convex_support(point_t d) const {
-- 
2.43.0


From a672c9226ab4a0b5527658e08d8306ac1a1d2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 089/190] fix: transforming a plane moved it to the wrong place

---
 geomc/shape/Plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index a134e65..31d5f49 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -150,10 +150,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d; // a point on the plane
+        Vec<T,N> p0 = origin(); // a point on the plane
         Vec<T,N> p1 = xf.apply(p0); // the new position of that point
         normal = xf.apply_normal(normal).unit(); // construct a plane with transformed normal
-        d = p1.dot(normal); // and transformed position
+        d = -p1.dot(normal); // and transformed position
     }
     
     /**
@@ -161,10 +161,10 @@ public:
      * @param xf An affine transformation.
      */
     void apply_inverse(const AffineTransform<T,N> &xf) {
-        Vec<T,N> p0 = normal*d;
+        Vec<T,N> p0 = origin();
         Vec<T,N> p1 = xf.apply_inverse(p0);
         normal = xf.apply_inverse_normal(normal).unit();
-        d = p1.dot(normal);
+        d = -p1.dot(normal);
     }
     
     /**
-- 
2.43.0


From 9fb122aca2fdcc618d8e3d4fd02a5cefb426978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 090/190] fix: plane-sphere intersection was inverted

---
 geomc/shape/Plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 31d5f49..2a349e0 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -182,7 +182,7 @@ public:
      * @return `true` if and only if this plane passes through `s`.
      */
     inline bool intersects(const Sphere<T,N> &s) const {
-        return distance(s.center) >= s.r;
+        return std::abs(distance(s.center)) <= s.r;
     }
     
     /**
-- 
2.43.0


From 20fabe677dc341c057d39c6dd99f5afdd714c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 091/190] fix: plane never intersected a convex hull

---
 geomc/shape/Plane.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Plane.h b/geomc/shape/Plane.h
index 2a349e0..472c51b 100644
--- a/geomc/shape/Plane.h
+++ b/geomc/shape/Plane.h
@@ -193,14 +193,15 @@ public:
      * otherwise,
      */
     bool intersects(const Vec<T,N> *hull, index_t npts) const {
-        bool negative;
+        bool negative = false;
         for (index_t i = 0; i < npts; i++){
             T dist = distance(hull[i]);
+            if (dist == 0) return true;
             if (i > 0){
                 // if a point lies on the plane, or another point lies on the
                 // other side of the plane, then this shape crosses the plane.
-                if (dist == 0 || ((dist < 0) != negative)){
-                    return false;
+                if ((dist < 0) != negative){
+                    return true;
                 }
             } else {
                 negative = dist < 0;
-- 
2.43.0


From 075ad5a6b1a44de01160cd1d416f8e4b5946b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 092/190] fix: cylinder did not contain the points of its far
 cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index e1cb579..b4a867b 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -64,7 +64,7 @@ class Cylinder:
         T d  = a.dot(b);
         T x2 = d * d / a2;
         bool in_r = b2 - x2 <= radius * radius;
-        bool in_caps = x2 < a2 and d >= 0;
+        bool in_caps = d >= 0 and d <= a2;
         return in_r and in_caps;
     }
     
-- 
2.43.0


From 50084fcf6d0c2beb6fc50e5532a7252ed6b58e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 093/190] fix: distance to a cylinder was zero everywhere
 inside it

---
 geomc/shape/Cylinder.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index b4a867b..c02deda 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -91,15 +91,15 @@ class Cylinder:
         T r = std::sqrt(b2 - x2) - radius;
         // signed fractional distance along the axis to the nearest cap
         s = std::max(-s, (s - 1));
-        // sdf is negative (inside shape) iff (s, r) in the negative quadrant
-        T sign = (s < 0 and r < 0) ? -1 : 1;
+        // inside the shape, the distance is to the nearer of the cap and the wall
+        if (s < 0 and r < 0) return std::max(s * std::sqrt(a2), r);
         // clamped coordinates, to project orthogonally to the wall/cap
         s = std::max(s, (T)0);
         r = std::max(r, (T)0);
         // squared axis-parallel distance to cap
         x2 = s * s * a2;
-        // signed distance to the surface point
-        return sign * std::sqrt(r * r + x2);
+        // distance to the surface point
+        return std::sqrt(r * r + x2);
     }
     
     Vec<T,N> project(Vec<T,N> p) const {
-- 
2.43.0


From 6394a4fee8b9ad81f5044ea9278a675d55d13871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 094/190] fix: projecting a point on the axis of a cylinder
 gave NaN

---
 geomc/shape/Cylinder.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index c02deda..bd8bbdb 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -102,6 +102,24 @@ class Cylinder:
         return std::sqrt(r * r + x2);
     }
     
+private:
+    
+    // unit radial vector for a point at `radial` from the axis `a`, `r_dist` away.
+    // a point on the axis is equally near to the wall in all directions.
+    static Vec<T,N> _radial(const Vec<T,N>& a, const Vec<T,N>& radial, T r_dist) {
+        if (r_dist != 0) return radial / r_dist;
+        // choose the direction closest to the coordinate axis least aligned with `a`
+        index_t i_min = 0;
+        for (index_t i = 1; i < N; ++i) {
+            if (std::abs(a[i]) < std::abs(a[i_min])) i_min = i;
+        }
+        Vec<T,N> e;
+        e[i_min] = 1;
+        return (e - e.project_on(a)).unit();
+    }
+
+public:
+    
     Vec<T,N> project(Vec<T,N> p) const {
         // axis of the cylinder
         Vec<T,N> a = p1 - p0;
@@ -117,7 +135,7 @@ class Cylinder:
         // distance of p to the axis
         T r_dist = std::sqrt(b2 - x2);
         // unit length radial vector
-        Vec<T,N> r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = _radial(a, p - p0 - s * a, r_dist);
         // adjust `r` and `s` to lie on the cylinder boundary
         if (s < 0 or s > 1) {
             // p projects onto the cap
@@ -149,7 +167,7 @@ class Cylinder:
         // distance of p to the axis
         T r_dist = std::sqrt(b2 - x2);
         // unit length radial vector
-        auto r = (p - p0 - s * a) / r_dist;
+        Vec<T,N> r = _radial(a, p - p0 - s * a, r_dist);
         // choose the outward direction
         Vec<T,N> n;
         if (s < 0 or s > 1) {
-- 
2.43.0


From fa8a3ee8bd9566597288c355761513583e8552b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 095/190] fix: normal beyond the far cap of a cylinder pointed
 from the near cap

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index bd8bbdb..9016d9b 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -174,7 +174,7 @@ public:
             // p projects onto the cap
             if (r_dist > radius) {
                 // p projects onto the rim of the cap
-                n = p - (r * radius + p0);
+                n = p - (r * radius + (s < 0 ? p0 : p1));
             } else {
                 // p projects to the cap face; normal is axial
                 n = s < 0 ? -a : a;
-- 
2.43.0


From a61e2026d36ac75a45874fe1bea13fdd7e8ed178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 096/190] fix: support point of a cylinder along its axis was
 NaN

---
 geomc/shape/Cylinder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 9016d9b..95fe396 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -212,7 +212,9 @@ public:
     
     Vec<T,N> convex_support(Vec<T,N> d) const {
         Vec<T,N> a = p1 - p0;
-        Vec<T,N> perp = (d - d.project_on(a)).unit() * radius;
+        Vec<T,N> perp = d - d.project_on(a);
+        // (all points of the cap are furthest along the axis)
+        if (not perp.is_zero()) perp = perp.unit() * radius;
         return (d.dot(a) > 0 ? p1 : p0) + perp;
     }
     
-- 
2.43.0


From 347634f33a13058c64b09fcfdd6b51a66a93648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 097/190] fix: ray along the wall of a cylinder missed it

---
 geomc/shape/Cylinder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Cylinder.h b/geomc/shape/Cylinder.h
index 95fe396..c5ba68e 100644
--- a/geomc/shape/Cylinder.h
+++ b/geomc/shape/Cylinder.h
@@ -241,7 +241,7 @@ public:
         // construct an interval holding the ray's overlap with the infinite cylinder
         if (k0 != 0 and quadratic_solve(roots, k0, k1, k2)) {
             interval = Rect<T,1>::spanning_corners(roots[0], roots[1]);
-        } else if (k2 < 0) {
+        } else if (k2 <= 0) {
             // if there is no intersection, then it might be the case that 
             // the ray points exactly down the interior of the cylinder, which
             // can only happen if the ray origin is inside too (k2 < 0). also
-- 
2.43.0


From 427f19ff617da2f9bfa382ae2d035ee74ed9280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 098/190] fix: normal of an extruded shape did not compile

---
 geomc/shape/Extruded.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 72ce502..4013862 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -104,7 +104,7 @@ public:
                 T wall_dist = std::abs(base.sdf(p_base));
                 if (cap_dist < wall_dist) {
                     // the cap is nearest. use its normal
-                    return {Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1};
+                    return Vec<T,N>(Vec<T,N-1>{}, (cap_h >= height.hi) ? 1 : -1);
                 }
             }
             // the wall is nearest, use its normal
@@ -113,7 +113,7 @@ public:
             // p beyond the top or bottom cap
             if (inside_base) {
                 // p directly above or below a cap
-                return {Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1};
+                return Vec<T,N>(Vec<T,N-1>{}, (h >= height.hi) ? 1 : -1);
             } else {
                 // p is outside the base shape
                 Vec<T,N> cap_pt {
-- 
2.43.0


From 704c33683721927168ade8ab0ab861ab41577930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 099/190] fix: dilated shape did not contain its surface

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8757cd9..8ddd7c6 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -77,7 +77,7 @@ public:
     
     /// Point containment test.
     bool contains(Vec<T,N> p) const {
-        return sdf(p) < 0;
+        return sdf(p) <= 0;
     }
     
     /// Signed distance function.
-- 
2.43.0


From 9d1f36026301b8b7bf45d3009ec0f580ba8b24db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 100/190] fix: dilation of a wrapped shape was uninitialised

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 8ddd7c6..c791f59 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -66,7 +66,7 @@ public:
     Dilated():dilation((T)0) {}
     
     /// Wrap `s` with zero dilation.
-    Dilated(const Shape& s):shape(s) {}
+    Dilated(const Shape& s):shape(s), dilation((T)0) {}
     
     /// Dilate `s` by the amount `dilation`.
     Dilated(const Shape& s, T dilation):shape(s), dilation(dilation) {}
-- 
2.43.0


From c044d76f54cb18c315a7c8b53df0fb00513038f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 101/190] fix: dilate() did not compile

---
 geomc/shape/Dilated.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index c791f59..4beb744 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -126,7 +126,7 @@ public:
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s, std::max(dilation, 0));
+    return Dilated<Shape>(s, std::max<typename Shape::elem_t>(dilation, 0));
 }
 
 /**
@@ -135,7 +135,7 @@ inline Dilated<Shape> dilate(const Shape& s, typename Shape::elem_t dilation) {
  */
 template <typename Shape>
 inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dilation) {
-    return Dilated<Shape>(s.shape, std::max(s.dilation + dilation, 0));
+    return Dilated<Shape>(s.shape, std::max<typename Shape::elem_t>(s.dilation + dilation, 0));
 }
 
 /**
@@ -160,7 +160,7 @@ inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
  */
 template <typename T, index_t N>
 inline Sphere<T,N> dilate(const Sphere<T,N>& s, T dilation) {
-    return Sphere<T,N>(s.center, std::max(s.r + dilation, 0));
+    return Sphere<T,N>(s.center, std::max<T>(s.r + dilation, 0));
 }
 
 /**
-- 
2.43.0


From 4077ae29dbed7cd3443cc715c0bf8885c51e0a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 102/190] fix: rays through the tip of a frustum, along its
 axis, parallel to its side, or in its base plane missed or hit wrongly

---
 geomc/shape/Frustum.h | 101 ++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 59 deletions(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 38c1f43..0d085f3 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -92,6 +92,18 @@ public:
         return base.contains(p.template resized<N-1>());
     }
     
+private:
+    
+    // range of s for which (a + s * b) >= 0.
+    static Rect<T,1> _nonnegative_range(T a, T b) {
+        if (b == 0) return a >= 0 ? Rect<T,1>::full : Rect<T,1>::empty;
+        return b > 0
+            ? Rect<T,1>(-a / b, std::numeric_limits<T>::max())
+            : Rect<T,1>(std::numeric_limits<T>::lowest(), -a / b);
+    }
+
+public:
+    
     /// Ray-shape intersection.
     Rect<T,1> intersect(const Ray<T,N>& ray) const {
         // todo: check N=2 case
@@ -113,28 +125,24 @@ public:
         // which is closest to the origin is a multiple of this point)
         // todo: this can probably be optimized:
         Vec<T,N> o_base = z_plus.project_on(ray.direction) + z_plus.project_on(o_ortho);
-        // project V to the h=0 plane
-        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
         
         // handle degenerate cases
-        if (o_base[N-1] == 0) {
-            // the ray lies in the h=0 plane
-            if (o_base == (T)0) [[unlikely]] {
-                // the ray passes through the origin, and intersects the
-                // frustum tip, if it's included in the height range
-                T s = ray.direction.fraction_on(ray.origin);
-                return Rect<T,1>(s, s) & slab_range;
-            } else {
-                // the ray does not pass through the origin
-                return Rect<T,1>::empty;
+        if (o_ortho == (T)0) {
+            // ray passes through the origin. the intersection with the infinite frustum
+            // is full iff the ray is inside it; else the ray can only hit the tip.
+            T h = ray.direction[N-1];
+            if (h != 0 and base.contains((ray.direction / h).template resized<N-1>())) {
+                return slab_range;
             }
-        } else if (v_base == (T)0) {
-            // ray passes through the origin. the frustum intersection is full iff the ray is 
-            // inside the the frustum; else it is empty.
-            return base.contains(o_base.template resized<N-1>())
-                ? slab_range         // full range  & slab_range
-                : Rect<T,1>::empty;  // empty range & slab_range
+            T s = -ray.origin.fraction_on(ray.direction);
+            return Rect<T,1>(s, s) & slab_range;
+        } else if (o_base == (T)0) {
+            // the ray lies in the h=0 plane, and does not pass through the origin
+            return Rect<T,1>::empty;
         }
+        // project V (or O, if V projects to a point) to the h=0 plane
+        Vec<T,N> v_base = ray.direction - ray.direction.project_on(o_base);
+        if (v_base == (T)0) v_base = o_ortho;
         // put `o` onto the h=1 plane
         o_base /= o_base[N-1];
         
@@ -151,48 +159,23 @@ public:
             return Rect<T,1>::empty;
         }
         
-        /* find the hit point `p` on the h=0 plane; the final hit point `q` will lie on some 
-           multiple of `p`. The trick is to write `p` and `q` as a points in the (o,v) basis,
-           and compute the multiple of `v` that takes us to a multiple of `p`.
-           We are solving this geometrical problem:
-           
-               origin
-                  •        ⎫      ⎫
-                 ╱ ╲       │      ⎬ p_y
-                ╱   • p    ⎬ 1.0  ⎭
-               ╱     ·     │
-            o •───────•──> ⎭
-                      q  v
-              
-              ╰──────────╯ 1.0
-                  ╰───╯    k * p_x
-              ╰───╯        o_x
-              ╰───────╯    s   <<< want to find this
-        */
-        Vec<T,N> lo {ray_base.at_multiple(s.lo), 1};
-        Vec<T,N> hi {ray_base.at_multiple(s.hi), 1};
-        T o_x    = ray.origin.fraction_on(ray.direction);
-        T p_lo_y = lo.fraction_on(o_ortho);
-        T p_hi_y = hi.fraction_on(o_ortho);
-        T p_lo_x = lo.fraction_on(ray.direction);
-        T p_hi_x = hi.fraction_on(ray.direction);
+        // write the ray in the basis (o_base, v_base). `o_base` is on the h=1 plane and `v_base` is
+        // on the h=0 plane, so the ray point `q = h * o_base + k * v_base` is at height `h`,
+        // and it projects to the base at `k / h`. it is inside the infinite frustum iff:
+        //
+        //    s.lo * h <= k <= s.hi * h    (above the origin)
+        //    s.lo * h >= k >= s.hi * h    (below the origin)
+        //
+        // each side of which bounds the ray parameter.
+        T sign = clipped_height().lo < 0 ? -1 : 1;
+        T h0 = sign * ray.origin[N-1];
+        T dh = sign * ray.direction[N-1];
+        T k0 = sign * ray.origin.fraction_on(v_base);
+        T dk = sign * ray.direction.fraction_on(v_base);
+        Rect<T,1> above = _nonnegative_range(k0 - s.lo * h0, dk - s.lo * dh);
+        Rect<T,1> below = _nonnegative_range(s.hi * h0 - k0, s.hi * dh - dk);
+        s = above & below;
         
-        // construct the interval of overlap with the infinite frustum.
-        s = Rect<T,1>::spanning_corners(
-            p_lo_x / p_lo_y - o_x,
-            p_hi_x / p_hi_y - o_x
-        );
-        
-        T h0 = ray.origin[N-1] + s.lo * ray.direction[N-1];
-        T h1 = ray.origin[N-1] + s.hi * ray.direction[N-1];
-        if ((h0 < 0) != (h1 < 0)) {
-            // if the two hits are on either side of h=0, then the interval is inverted.
-            // (we have already handled the ray through the origin case).
-            // which of the two half-infinite intervals should be intersected with the slab?
-            s = (slab_range.lo < 0)
-                ? Rect<T,1>(std::numeric_limits<T>::lowest(), s.lo)
-                : Rect<T,1>(s.hi, std::numeric_limits<T>::max());
-        }
         // intersect the slab with the frustum interval.
         return s & slab_range;
     }
-- 
2.43.0


From 1af79ff91a7e421da1231db757f32e5b1a06bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 103/190] fix: shapes wrapping a convex shape were convex only
 if it was ray-intersectable

---
 geomc/shape/Dilated.h  | 2 +-
 geomc/shape/Extruded.h | 2 +-
 geomc/shape/Frustum.h  | 2 +-
 geomc/shape/Oriented.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 4beb744..78ce85f 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -192,7 +192,7 @@ template <typename Shape>
 struct implements_shape_concept<Dilated<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @}  // addtogroup traits
diff --git a/geomc/shape/Extruded.h b/geomc/shape/Extruded.h
index 4013862..fe1ec7f 100644
--- a/geomc/shape/Extruded.h
+++ b/geomc/shape/Extruded.h
@@ -244,7 +244,7 @@ template <typename Shape>
 struct implements_shape_concept<Extruded<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value
+        implements_shape_concept<Shape, Convex>::value
     >
 {};
 
diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index 0d085f3..c7b8f6f 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -283,7 +283,7 @@ template <typename Shape>
 struct implements_shape_concept<Frustum<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 
diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 7dda825..05fc655 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -346,7 +346,7 @@ template <typename Shape>
 struct implements_shape_concept<Oriented<Shape>, Convex> : 
     public std::integral_constant<
         bool,
-        implements_shape_concept<Shape, RayIntersectable>::value>
+        implements_shape_concept<Shape, Convex>::value>
 {};
 
 /// @} // addtogroup traits
-- 
2.43.0


From 2f87b4bc78516116c59c6432b10901508b803a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 104/190] fix: dilating a plane moved it against its normal

---
 geomc/shape/Dilated.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Dilated.h b/geomc/shape/Dilated.h
index 78ce85f..630cca2 100644
--- a/geomc/shape/Dilated.h
+++ b/geomc/shape/Dilated.h
@@ -147,7 +147,7 @@ inline Dilated<Shape> dilate(const Dilated<Shape>& s, typename Shape::elem_t dil
  */
 template <typename T, index_t N>
 inline Plane<T,N> dilate(Plane<T,N> p, T dilation) {
-    p.d += dilation;
+    p.d -= dilation;
     return p;
 }
 
-- 
2.43.0


From 01644fbefbc545f52bab74f9f1f2ae960b00ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 105/190] fix: volume of a reflected box was negative

---
 geomc/shape/Oriented.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index 05fc655..c0a4afc 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -229,7 +229,8 @@ public:
                 mx(j,i) = s * xf.mat(j,i);
             }
         }
-        return det_destructive(mx.data_begin(), N);
+        // (the transform may be a reflection)
+        return std::abs(det_destructive(mx.data_begin(), N));
     }
     
 }; // class Oriented<Rect>
-- 
2.43.0


From e44a0e7e7bbc99451cbec663e9eeff532c0989dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 106/190] fix: tracing a simplex tested unsolved coordinates
 and returned one out of range

---
 geomc/shape/Simplex.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index c9e6222..0dbf9e0 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -571,8 +571,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     
     // linear solve
     Vec<T,N> x = ray.origin - verts[0];
-    index_t skip = uv ? 0 : N - 1;
-    if (not linear_solve(bases, 1, &x, skip)) return false;
+    if (not linear_solve(bases, 1, &x)) return false;
     
     // inside simplex?
     T sum = 0;
@@ -583,7 +582,7 @@ inline bool trace_simplex(const Vec<T,N> verts[N], const Ray<T,N>& ray, Vec<T,N-
     if (sum > 1) return false;
     
     // output result
-    *s  = x[N];
+    *s  = x[N - 1];
     if (uv) *uv = x.template resized<N-1>();
     return true;
 }
-- 
2.43.0


From a4eb3d5037f0a1f9e7fe35511670d8933720aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 107/190] fix: ray-simplex intersection skipped the remaining
 faces when the interval was a single point

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 0dbf9e0..2739ba7 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -236,7 +236,7 @@ public:
             if (linear_solve(m, 2, B)) {
                 // intersect all the ranges of s for which 0 <= w_i <= 1.
                 Rect<T,1> interval = Rect<T,1>::full;
-                for (index_t i = 0; i < N + 1 and interval.hi > interval.lo; ++i) {
+                for (index_t i = 0; i < N + 1 and interval.hi >= interval.lo; ++i) {
                     // w_i = p_i + k_i * s
                     // solve for w_i = 0 and w_i = 1:
                     T p_i = B[0][i];
-- 
2.43.0


From f3034f64e636ccb162e59c8ca25a244e0fc4f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 108/190] fix: facing test ignored some coordinates of a
 simplex that does not span the space

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 2739ba7..8d8ab12 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -320,7 +320,7 @@ public:
                 
                 // check that the coordinates of `p` are inside the simplex
                 T sum = 0;
-                for (index_t i = n_null; i < n_bases; ++i) {
+                for (index_t i = n_null; i < N; ++i) {
                     sum += x[i];
                     if (x[i] < 0 or sum > 1) return false;
                 }
-- 
2.43.0


From 2320c9dcd584ed6b0202dbf6815ef857c2e0fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 109/190] fix: measure of a simplex was negative

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 8d8ab12..4686ef2 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -383,7 +383,7 @@ public:
             if (n == 3) return (pts[1] - pts[0]).cross(pts[2] - pts[0]).mag() / 2;
         }
         // full volume
-        if (n == N + 1) return volume();
+        if (n == N + 1) return std::abs(volume());
         // otherwise, construct the basis of the simplex.
         // we'll use it to compute the volume
         Vec<T,N> bases[N];
-- 
2.43.0


From 46115dd3336c9b0d3b5e3b200c99b43089cb72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 110/190] fix: measure of a simplex used one basis vector too
 many

---
 geomc/shape/Simplex.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 4686ef2..8646872 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -397,12 +397,13 @@ public:
         // divided by n factorial. i suspect the gram matrix could probably
         // be computed more efficiently, because it's symmetric
         T buf[N * N];
-        WrapperMatrix<T,0,0> b {buf, n, n};
-        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n};
-        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n};
-        // (n x n) = (n x N) * (N x n)
+        const index_t n_bases = n - 1;
+        WrapperMatrix<T,0,0> b {buf, n_bases, n_bases};
+        WrapperMatrix<T,0,N,MatrixLayout::ROW_MAJOR> m0 {m, n_bases};
+        WrapperMatrix<T,N,0,MatrixLayout::COL_MAJOR> m1 {m, n_bases};
+        // (n_bases x n_bases) = (n_bases x N) * (N x n_bases)
         mul(&b, m0, m1);
-        return std::sqrt(std::abs(det_destructive(buf, n))) / k;
+        return std::sqrt(std::abs(det_destructive(buf, n_bases))) / k;
     }
     
     /**
-- 
2.43.0


From 5e2baba8a3b6fbfbafc22db0033062b132d07757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 111/190] fix: intersection test of convex shapes did not
 compile

---
 geomc/shape/Shape.h      | 8 +++++---
 geomc/shape/ShapeTypes.h | 5 +++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/geomc/shape/Shape.h b/geomc/shape/Shape.h
index dec8734..e4d71c9 100644
--- a/geomc/shape/Shape.h
+++ b/geomc/shape/Shape.h
@@ -119,13 +119,15 @@ class Convex : public Bounded<T,N,Derived> {
     /**
      * @brief Convex shape overlap test.
      * 
+     * `geomc/shape/Intersect.h` must be included in order to use this method.
+     * 
      * @return True if and only if this convex shape overlaps `other`; false otherwise.
      */
     template <typename Shape>
     bool intersects(const Convex<T,N,Shape>& other) const {
-        return gjk_intersect(
-            as_any_convex(*this),
-            as_any_convex(other));
+        return geom::intersects(
+            as_any_convex(static_cast<const Derived&>(*this)),
+            as_any_convex(static_cast<const Shape&>(other)));
     }
     
     /**
diff --git a/geomc/shape/ShapeTypes.h b/geomc/shape/ShapeTypes.h
index c3e3cf4..c86e51e 100644
--- a/geomc/shape/ShapeTypes.h
+++ b/geomc/shape/ShapeTypes.h
@@ -57,6 +57,11 @@ namespace geom {
     template <typename T, index_t N> class AnyConvex;
     template <typename Shape>        class AnyConvexImpl;
     
+    template <typename T, index_t N>
+    bool intersects(const AnyConvex<T,N>& shape_a, const AnyConvex<T,N>& shape_b);
+    template <typename Shape>
+    inline AnyConvexImpl<Shape> as_any_convex(const Shape& s);
+    
     // shapes
     template <typename T, index_t N> class Plane;
     template <typename T, index_t N> class Sphere;
-- 
2.43.0


From 170c2ac8c7bcdf4b08fc604bdf946d9b90c55081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 112/190] fix: boxes could not be intersected in more than
 three dimensions

---
 geomc/shape/shapedetail/SeparatingAxis.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/shapedetail/SeparatingAxis.h b/geomc/shape/shapedetail/SeparatingAxis.h
index 48894a7..b08f03d 100644
--- a/geomc/shape/shapedetail/SeparatingAxis.h
+++ b/geomc/shape/shapedetail/SeparatingAxis.h
@@ -150,9 +150,10 @@ class RectAxisHelper<T,2> : public RectAxisHelperBase<T,2> {
 
 template <typename T, index_t N, typename Enable=void>
 class RectIntersector {
+    public:
     
     static inline bool intersect(const Oriented<Rect<T,N> >& b0, const Rect<T,N>& b1) {
-        return gjk_intersect(b0, b1);
+        return geom::intersects(as_any_convex(b0), as_any_convex(b1));
     }
 };
 
-- 
2.43.0


From ab3f27159b908d2df8904a0b1ab5f3bdc22e6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 113/190] fix: oriented box intersection test was not const

---
 geomc/shape/Oriented.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Oriented.h b/geomc/shape/Oriented.h
index c0a4afc..9e32fc8 100644
--- a/geomc/shape/Oriented.h
+++ b/geomc/shape/Oriented.h
@@ -204,7 +204,7 @@ public:
      * @param b1 OritentedRect to test against.
      * @return `true` if and only if `this` overlaps with `b1`; `false` otherwise.
      */
-    bool intersects(const Oriented< Rect<T,N> >& b1) {
+    bool intersects(const Oriented< Rect<T,N> >& b1) const {
         // we will make ourselves axis-aligned; this is the same as applying
         // the inverse of our xf. We apply the inverse of xf to b1 too,
         // to preserve the relationhip between the us. From this, we
-- 
2.43.0


From b669dd7057a5432d53d89909065382f2f902875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 114/190] fix: a reused Intersector reported overlap forever
 after shapes had overlapped

---
 geomc/shape/Intersect.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index 9cb0f1e..a01c5ca 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -46,6 +46,10 @@ public:
         const AnyConvex<T,N>& shape_a,
         const AnyConvex<T,N>& shape_b)
     {
+        if (not (separation_axis.mag2() > 0)) {
+            // the shapes overlapped in the previous test, which leaves no axis to begin with
+            separation_axis = Vec<T,N>::unit_x;
+        }
         // `a` is a point on the minkowski difference
         Vec<T,N> a = shape_a.convex_support( separation_axis) -
                      shape_b.convex_support(-separation_axis);
@@ -56,6 +60,12 @@ public:
         cur_simplex->insert(a);
         
         iterations = 0;
+        if (d.is_zero()) {
+            // the origin is a vertex of the minkowski difference; there is no search direction
+            separation_axis = d;
+            was_degenerate  = false;
+            return true;
+        }
         while (true) {
             iterations += 1;
             a = shape_a.convex_support( d) - 
-- 
2.43.0


From c5b0cb149e72b1536bc75b7dfba0806727bf4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 115/190] fix: a copied Intersector used the simplexes of the
 original

---
 geomc/shape/Intersect.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/geomc/shape/Intersect.h b/geomc/shape/Intersect.h
index a01c5ca..5785975 100644
--- a/geomc/shape/Intersect.h
+++ b/geomc/shape/Intersect.h
@@ -31,16 +31,11 @@ struct Intersector {
 #endif
 
 protected:
-    // two "buffers":
-    Simplex<T,N> simplex_a;
-    Simplex<T,N> simplex_b;
-    // front and back buffer:
-    Simplex<T,N>* cur_simplex  = &simplex_a;
-    Simplex<T,N>* next_simplex = &simplex_b;
+    Simplex<T,N> cur_simplex;
 
 public:
 
-    const Simplex<T,N>& simplex() const { return *cur_simplex; }
+    const Simplex<T,N>& simplex() const { return cur_simplex; }
     
     bool intersects(
         const AnyConvex<T,N>& shape_a,
@@ -56,8 +51,8 @@ public:
         // `d` is the previous search direction
         Vec<T,N> d = -a;
         // initialize the simplex with a single point:
-        cur_simplex->n = 0;
-        cur_simplex->insert(a);
+        cur_simplex.n = 0;
+        cur_simplex.insert(a);
         
         iterations = 0;
         if (d.is_zero()) {
@@ -71,33 +66,33 @@ public:
             a = shape_a.convex_support( d) - 
                 shape_b.convex_support(-d);
             T k = a.dot(d);
-            if (k < 0 or a == cur_simplex->pts[cur_simplex->n - 1]) {
+            if (k < 0 or a == cur_simplex.pts[cur_simplex.n - 1]) {
                 // we tried to search as far as we could in direction `d`,
                 // but got no closer to the origin. 
                 separation_axis = -a.project_on(d);
                 // return whether the origin is inside the minkowski difference
                 return k >= 0;
             }
-            cur_simplex->insert(a);
+            cur_simplex.insert(a);
             // project the origin onto the simplex,
             // putting the projection face into `next_simplex`
             detail::SimplexProjection<T,N> proj {
-                *cur_simplex,
+                cur_simplex,
                 {}, // origin
                 detail::ProjectionOp::CLIP,
                 detail::SimplexFaces::SKIP_BACKFACE
             };
             d = proj.normal_direction();
-            *next_simplex  = proj.projected_face();
+            Simplex<T,N> next_simplex = proj.projected_face();
             was_degenerate = proj.result.is_degenerate;
             
 #if DEBUG_INTERSECTION
             if (debug_file) {
-                emit_splex_stage(debug_file, *cur_simplex, *next_simplex, a, -d);
+                emit_splex_stage(debug_file, cur_simplex, next_simplex, a, -d);
             }
 #endif
-            std::swap(cur_simplex, next_simplex);
-            if (cur_simplex->n == N + 1 or d.is_zero()) {
+            cur_simplex = next_simplex;
+            if (cur_simplex.n == N + 1 or d.is_zero()) {
                 // the simplex is full, and the origin is inside it.
                 separation_axis = d;
                 return true;
-- 
2.43.0


From 7ca3003cd14e521182d63475f8037fe0259e4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 116/190] fix: raster domain was not aligned with the extreme
 data points

---
 geomc/function/Raster.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index d6fa9cd..9ab1b0e 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -431,7 +431,8 @@ public:
 protected:
     
     inline coord_t toGridSpace(const coord_t &pt) const {
-        return (coord_t)m_extent * m_domain.unmap(pt);
+        // the domain extremes coincide with the most extreme data points
+        return ((coord_t)m_extent - (coord_t)1) * m_domain.unmap(pt);
     }
     
     template <EdgeBehavior Edge>
-- 
2.43.0


From 055e51d18acb08320062c8f8842fc5ae085d1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 117/190] fix: rasters extrapolated at negative coordinates

---
 geomc/function/Raster.h                      |  6 +++---
 geomc/function/functiondetail/RasterDetail.h | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 9ab1b0e..85cce3a 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -289,12 +289,12 @@ public:
         
         switch (interp) {
         case INTERP_NEAREST:
-            gridPt = grid_t(pt + coord_t(0.5));
+            gridPt = detail::grid_floor<I,M>(pt + coord_t(0.5));
             return sample_discrete(gridPt, edge);
         case INTERP_LINEAR:
         {
             sample_t buf_l[1<<M];
-            gridPt = (grid_t)pt;
+            gridPt = detail::grid_floor<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
@@ -305,7 +305,7 @@ public:
         case INTERP_CUBIC:
         {
             sample_t buf_c[1<<(2*M)];
-            gridPt = (grid_t)pt;
+            gridPt = detail::grid_floor<I,M>(pt);
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index 041874b..b78b370 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -73,6 +73,19 @@ public:
  *************************/
 
 
+// greatest grid point which is not above `pt` along any axis.
+template <typename I, index_t N>
+inline typename PointType<index_t,N>::point_t grid_floor(const typename PointType<I,N>::point_t& pt) {
+    typename PointType<index_t,N>::point_t out;
+    const I* p = PointType<I,N>::iterator(pt);
+    index_t* o = PointType<index_t,N>::iterator(out);
+    for (index_t i = 0; i < N; ++i) {
+        o[i] = (index_t) std::floor(p[i]);
+    }
+    return out;
+}
+
+
 template <typename I, typename O, index_t N, index_t Channels, EdgeBehavior Edge, Interpolation Interp>
 class _ImplRasterSample {
     // pass
@@ -86,7 +99,7 @@ public:
     typedef typename Raster<I,O,N,Channels>::sample_t sample_t;
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
-        grid_t gridPt = grid_t(pt + coord_t(0.5));
+        grid_t gridPt = grid_floor<I,N>(pt + coord_t(0.5));
         return r->template sample_discrete<Edge>(gridPt);
     }
 };
@@ -100,7 +113,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<N];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = grid_floor<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
@@ -119,7 +132,7 @@ public:
     
     static inline sample_t sample(const Raster<I,O,N,Channels> *r, const coord_t &pt) {
         sample_t buf[1<<(2*N)];
-        grid_t gridPt = (grid_t)pt;
+        grid_t gridPt = grid_floor<I,N>(pt);
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-- 
2.43.0


From 06e3cda06cd9d9b1884d66554a25efb245672ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 118/190] fix: sampling a raster with dynamic edge and
 interpolation did not compile and overran its buffer

---
 geomc/function/Raster.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 85cce3a..4bc0943 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -278,14 +278,14 @@ public:
     /**
      * Sample this Raster at `pt`.
      * 
-     * @param pt Point to sample.
+     * @param p Point to sample.
      * @param edge Edge sampling behavior.
      * @param interp Sample interpolation strategy.
      * @return Sampled data.
      */
-    sample_t sample(const coord_t &pt, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
+    sample_t sample(const coord_t &p, EdgeBehavior edge=EDGE_CLAMP, Interpolation interp=INTERP_LINEAR) const {
         grid_t gridPt;
-        pt = toGridSpace(pt);
+        coord_t pt = toGridSpace(p);
         
         switch (interp) {
         case INTERP_NEAREST:
@@ -298,9 +298,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 2^M sample pts into a contiguous buffer
-            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(2)), edge);
+            copy(buf_l, Rect<index_t,M>(gridPt, gridPt + grid_t(1)), edge);
             
-            return interp_linear(s.begin(), buf_l, M);
+            return interp_linear(PointType<I,M>::iterator(s), buf_l, M);
         }
         case INTERP_CUBIC:
         {
@@ -309,9 +309,9 @@ public:
             coord_t s = pt - ((coord_t)gridPt);
             
             // copy surrounding 4^M sample pts into a contiguous buffer
-            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(3)), edge);
+            copy(buf_c, Rect<index_t,M>(gridPt - grid_t(1), gridPt + grid_t(2)), edge);
             
-            return interp_cubic(s.begin(), buf_c, M);
+            return interp_cubic(PointType<I,M>::iterator(s), buf_c, M);
         }
         default:
             return m_abyss;
@@ -371,7 +371,7 @@ public:
             return m_abyss;
         }
         
-        return sample_t(m_data.get() + offs);
+        return PointType<O,N>::from_ptr(m_data.get() + offs);
     }
     
     /**
-- 
2.43.0


From d51c53ec43a5142b144a317775224d24710ec2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 119/190] fix: one-dimensional rasters could not be
 interpolated

---
 geomc/function/functiondetail/RasterDetail.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index b78b370..c066082 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -117,7 +117,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 2^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt, gridPt + grid_t(1)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt, gridPt + grid_t(1)));
         
         return interp_linear(PointType<I,N>::iterator(s), buf, N);
     }
@@ -136,7 +136,7 @@ public:
         coord_t s = pt - ((coord_t)gridPt);
         
         // copy surrounding 4^N sample pts into a contiguous buffer
-        r->template copy<Edge>(buf, Rect<typename grid_t::elem_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
+        r->template copy<Edge>(buf, Rect<index_t, N>(gridPt - grid_t(1), gridPt + grid_t(2)));
         
         return interp_cubic(PointType<I,N>::iterator(s), buf, N);
     }
-- 
2.43.0


From a5936768dee49a20630f6694c2ded025f440756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 120/190] fix: mirroring across a single sample divided by
 zero, and large coordinates were truncated

---
 geomc/function/functiondetail/RasterDetail.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/functiondetail/RasterDetail.h b/geomc/function/functiondetail/RasterDetail.h
index c066082..6698ab1 100644
--- a/geomc/function/functiondetail/RasterDetail.h
+++ b/geomc/function/functiondetail/RasterDetail.h
@@ -44,8 +44,9 @@ public:
     static inline index_t coord(index_t c, index_t max) {
         c = std::abs(c);
         max -= 1;
-        int cyc = c/max;
-        int i   = c%max;
+        if (max <= 0) return 0;
+        index_t cyc = c/max;
+        index_t i   = c%max;
         return ((cyc & 1) == 0)?(i):(max-i);
     }
 };
-- 
2.43.0


From dd276edc0f548d13f3c4aa02886fd0bf35a0e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 121/190] fix: raster sample count was multiplied by the number
 of channels

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 4bc0943..293cc7b 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -425,7 +425,7 @@ public:
      * Number of grid sample points in this raster.
      */
     inline index_t samplecount() const {
-        return m_size;
+        return m_size / N;
     }
     
 protected:
-- 
2.43.0


From 40e4a5df412e916cb619ffe9ed9b3eb0e243ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 122/190] fix: value outside a raster was uninitialised instead
 of zero

---
 geomc/function/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/Raster.h b/geomc/function/Raster.h
index 293cc7b..9c1da3a 100644
--- a/geomc/function/Raster.h
+++ b/geomc/function/Raster.h
@@ -128,7 +128,7 @@ protected:
     grid_t    m_extent;
     index_t   m_size;
     boost::shared_array<O> m_data;
-    sample_t  m_abyss;
+    sample_t  m_abyss = sample_t((O)0);
     Rect<I,M> m_domain;
     
 public:
-- 
2.43.0


From 1cb34704dda5aea0d610740eca08d44475cae3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 123/190] fix: restore the line endings of files that earlier
 fixes converted

---
 geomc/linalg/Ray.h            | 318 ++++++++++++++---------------
 geomc/linalg/vecdetail/Vec2.h | 370 +++++++++++++++++-----------------
 geomc/linalg/vecdetail/Vec4.h | 296 +++++++++++++--------------
 3 files changed, 492 insertions(+), 492 deletions(-)

diff --git a/geomc/linalg/Ray.h b/geomc/linalg/Ray.h
index d3789ab..2f95a94 100644
--- a/geomc/linalg/Ray.h
+++ b/geomc/linalg/Ray.h
@@ -1,159 +1,159 @@
-#pragma once
-
-#ifdef GEOMC_USE_STREAMS
-#include <iostream>
-#endif
-
-#include <geomc/linalg/LinalgTypes.h>
-#include <geomc/linalg/Vec.h>
-
-
-namespace geom {
-
-/**
- * @brief Ray class.
- * @tparam T Coordinate type.
- * @tparam N Dimensionality.
- * @ingroup linalg
- */
-template <typename T, index_t N>
-class Ray {
-public:
-    /**
-     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
-     * if `N` is greater than 1; or a `T` if `N` is 1.
-     */
-    typedef typename PointType<T,N>::point_t point_t;
-    /// Origin of ray.
-    point_t origin;
-    /// Direction of ray.
-    point_t direction;
-
-    /*************************
-     * Structors             *
-     *************************/
-    
-    /// Construct a ray through the origin directed along the +x axis.
-    Ray():origin((T)0),direction((T)0) {
-        direction[0] = 1; //x axis
-    }
-    
-    /// Construct a ray through the point `o` with direction `v`.
-    Ray(point_t o, point_t v):
-        origin(o),
-        direction(v) {}
-
-    /*************************
-     * Operators             *
-     *************************/
-
-    /// Return a ray pointing in the opposite direction.
-    Ray<T,N> operator-() const {
-        return {origin, -direction};
-    }
-
-    /*************************
-     * Public Methods        *
-     *************************/
-    
-    /// Change the dimensionality of this Ray.
-    template <index_t M>
-    inline Ray<T,M> resized() const {
-        return Ray<T,M>(
-            origin.   template resized<M>(),
-            direction.template resized<M>());
-    }
-
-    /// Return the point along this ray's direction, at distance `d` from the ray origin.
-    inline point_t at_distance(T d) const {
-        return origin + direction.unit() * d;
-    }
-
-    /// Return the point `origin + s * direction`.
-    inline point_t at_multiple(T s) const {
-        return origin + direction * s;
-    }
-    
-    /**
-     * @brief Find the point on the ray nearest to `p` by orhtogonally
-     * projecting `p` onto it.
-     */
-    inline point_t project(point_t p) const {
-        return (p - origin).project_on(direction) + origin;
-    }
-    
-    /// Signed distance from `p` to the nearest point on the ray.
-    inline T sdf(point_t p) const {
-        return std::sqrt(dist2(p));
-    }
-    
-    /// Compute the square of the distance from `p` to the nearest point on the ray.
-    inline T dist2(point_t p) const {
-        point_t b = p - origin;
-        T b2 = b.mag2();
-        T v2 = direction.mag2();
-        T d  = direction.dot(b);
-        return v2 == 0 ? b2 : b2 - (d * d / v2);
-    }
-    
-}; // class Ray
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
-    return r.at_multiple(s);
-}
-
-
-/**
- * Ray multiple.
- * @return `(r.origin + s * r.direction)`.
- * @related Ray
- * @ingroup linalg
- */
-template <typename T, index_t N>
-inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
-    return r.at_multiple(s);
-}
-    
-#ifdef GEOMC_USE_STREAMS
-    
-/** @ingroup linalg
- * Ray stream output, in the form:
- * 
- *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
- * where `x` is the origin and `v` is the direction.
- * @related Ray
- */
-template <typename T, index_t N>
-inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
-    stream << "<" << r.origin << " + s * " << r.direction << ">";
-    return stream;
-}
-
-#endif // GEOMC_USE_STREAMS
-
-
-template <typename T, index_t N, typename H>
-struct Digest<Ray<T,N>, H> {
-    H operator()(const Ray<T,N> &r) const {
-        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
-        return geom::hash_many<H>(nonce, r.origin, r.direction);
-    }
-};
-
-} // namespace geom
-
-
-template <typename T, index_t N>
-struct std::hash<geom::Ray<T,N>> {
-    size_t operator()(const geom::Ray<T,N> &v) const {
-        return geom::hash<geom::Ray<T,N>, size_t>(v);
-    }
-};
+#pragma once
+
+#ifdef GEOMC_USE_STREAMS
+#include <iostream>
+#endif
+
+#include <geomc/linalg/LinalgTypes.h>
+#include <geomc/linalg/Vec.h>
+
+
+namespace geom {
+
+/**
+ * @brief Ray class.
+ * @tparam T Coordinate type.
+ * @tparam N Dimensionality.
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+class Ray {
+public:
+    /**
+     * @brief The type of a point with the same dimension as this ray; a `Vec<T,N>`
+     * if `N` is greater than 1; or a `T` if `N` is 1.
+     */
+    typedef typename PointType<T,N>::point_t point_t;
+    /// Origin of ray.
+    point_t origin;
+    /// Direction of ray.
+    point_t direction;
+
+    /*************************
+     * Structors             *
+     *************************/
+    
+    /// Construct a ray through the origin directed along the +x axis.
+    Ray():origin((T)0),direction((T)0) {
+        direction[0] = 1; //x axis
+    }
+    
+    /// Construct a ray through the point `o` with direction `v`.
+    Ray(point_t o, point_t v):
+        origin(o),
+        direction(v) {}
+
+    /*************************
+     * Operators             *
+     *************************/
+
+    /// Return a ray pointing in the opposite direction.
+    Ray<T,N> operator-() const {
+        return {origin, -direction};
+    }
+
+    /*************************
+     * Public Methods        *
+     *************************/
+    
+    /// Change the dimensionality of this Ray.
+    template <index_t M>
+    inline Ray<T,M> resized() const {
+        return Ray<T,M>(
+            origin.   template resized<M>(),
+            direction.template resized<M>());
+    }
+
+    /// Return the point along this ray's direction, at distance `d` from the ray origin.
+    inline point_t at_distance(T d) const {
+        return origin + direction.unit() * d;
+    }
+
+    /// Return the point `origin + s * direction`.
+    inline point_t at_multiple(T s) const {
+        return origin + direction * s;
+    }
+    
+    /**
+     * @brief Find the point on the ray nearest to `p` by orhtogonally
+     * projecting `p` onto it.
+     */
+    inline point_t project(point_t p) const {
+        return (p - origin).project_on(direction) + origin;
+    }
+    
+    /// Signed distance from `p` to the nearest point on the ray.
+    inline T sdf(point_t p) const {
+        return std::sqrt(dist2(p));
+    }
+    
+    /// Compute the square of the distance from `p` to the nearest point on the ray.
+    inline T dist2(point_t p) const {
+        point_t b = p - origin;
+        T b2 = b.mag2();
+        T v2 = direction.mag2();
+        T d  = direction.dot(b);
+        return v2 == 0 ? b2 : b2 - (d * d / v2);
+    }
+    
+}; // class Ray
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(const Ray<T,N> r, T s) {
+    return r.at_multiple(s);
+}
+
+
+/**
+ * Ray multiple.
+ * @return `(r.origin + s * r.direction)`.
+ * @related Ray
+ * @ingroup linalg
+ */
+template <typename T, index_t N>
+inline typename PointType<T,N>::point_t operator*(T s, const Ray<T,N> r) {
+    return r.at_multiple(s);
+}
+    
+#ifdef GEOMC_USE_STREAMS
+    
+/** @ingroup linalg
+ * Ray stream output, in the form:
+ * 
+ *     <(x0, x1, x2, ... ), (v0, v1, v2, ...)>
+ * where `x` is the origin and `v` is the direction.
+ * @related Ray
+ */
+template <typename T, index_t N>
+inline std::ostream &operator<< (std::ostream &stream, const Ray<T,N> &r) {
+    stream << "<" << r.origin << " + s * " << r.direction << ">";
+    return stream;
+}
+
+#endif // GEOMC_USE_STREAMS
+
+
+template <typename T, index_t N, typename H>
+struct Digest<Ray<T,N>, H> {
+    H operator()(const Ray<T,N> &r) const {
+        H nonce = geom::truncated_constant<H>(0xc5ca6b58d6ca9853, 0x8af9e7e642670825);
+        return geom::hash_many<H>(nonce, r.origin, r.direction);
+    }
+};
+
+} // namespace geom
+
+
+template <typename T, index_t N>
+struct std::hash<geom::Ray<T,N>> {
+    size_t operator()(const geom::Ray<T,N> &v) const {
+        return geom::hash<geom::Ray<T,N>, size_t>(v);
+    }
+};
diff --git a/geomc/linalg/vecdetail/Vec2.h b/geomc/linalg/vecdetail/Vec2.h
index 99335c0..7513aea 100644
--- a/geomc/linalg/vecdetail/Vec2.h
+++ b/geomc/linalg/vecdetail/Vec2.h
@@ -1,185 +1,185 @@
-#pragma once
-
-/*
- * Vec2.h
- *
- *  Created on: May 9, 2009
- *      Author: Tim Babb
- */
-
-#include <cmath>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /** @ingroup linalg
-     *  @brief 2D specialization of vector class.
-     * 
-     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y}     // conventional Euclidean coordinate names
-     *     v.{s,t}     // conventional parameterization coordinate names
-     *     v.{row,col} // matrix coordinate names
-     * 
-     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
-     * `row` all refer to the same element.
-     * 
-     * Take special note that, in accordance with convention, `row` refers to the
-     * vertical position of a matrix element, despite being the first coordinate.
-     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
-     * horizontal coordinate. For this reason it is **inadviseable to interchange 
-     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
-     */
-    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
-
-    public:
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
-        
-        /// @brief (1, 0) vector constant
-        static const Vec<T,2> X_AXIS;
-        /// @brief (0, 1) vector constant
-        static const Vec<T,2> Y_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-        
-        /// Construct vector with both elements set to 0.
-        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
-        
-        /// Construct a vector with both elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
-
-        /// Construct a vector with elements `(x, y)`.
-        constexpr Vec(T x, T y) {
-            detail::VecBase<T,2>::x = x;
-            detail::VecBase<T,2>::y = y;
-        }
-        
-        /// Construct a vector with elements copied from the 2-element array `v`.
-        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
-        
-        /*===========================*
-         * Convenience Arithmetic    *
-         *===========================*/
-        
-        //do not hide these; we want to overload them:
-        using detail::VecCommon< T, 2, Vec<T,2> >::add;
-        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
-        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
-        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
-
-        /// Addition. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> add(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
-        }
-
-        /// Subtraction. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> sub(T dx, T dy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
-        }
-
-        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
-        inline Vec<T,2> scale(T sx, T sy) const {
-            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
-        }
-
-        /// Dot product with the vector `(x1, y1)`.
-        inline T dot(T x1, T y1) const {
-            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
-        }
-
-        /// @return A new vector with the X component reflected.
-        inline Vec<T,2> reflected_x() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
-        }
-        
-        /// @return A new vector with the Y component reflected.
-        inline Vec<T,2> reflected_y() const {
-            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
-        }
-
-        /// @return `true` if no elements are an infinity or `NaN`.
-        bool is_finite_real() const {
-            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
-        }
-        
-        /*===========================*
-         * 2D Geometry               *
-         *===========================*/
-
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees counterclockwise.
-         */
-        
-        Vec<T,2> left_perpendicular() const {
-            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
-        }
-        
-        /**
-         * @return A vector perpendicular to `this`, created by a rotation of 
-         * 90 degrees clockwise.
-         */
-        Vec<T,2> right_perpendicular() const {
-            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
-        }
-
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians`.
-         * @param radians Rotation angle in radians
-         */
-        Vec<T,2> rotated(T radians) const {
-            T sint = std::sin(radians);
-            T cost = std::cos(radians);
-            return Vec<T,2>(cost * this->x - sint * this->y,
-                            sint * this->x + cost * this->y);
-        }
-        
-        /**
-         * @return A vector rotated counterclockwise by the angle `radians` about
-         * the point `center`.
-         * @param center Center of rotation.
-         * @param radians Angle of rotation.
-         */
-        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
-            return center + (((*this) - center).rotated(radians));
-        }
-
-        /**
-         * @return The polar coordinates `(r, angle)` for this cartesian point,
-         * with `angle` in radians.
-         */
-        inline Vec<T,2> to_polar() const {
-            return Vec<T,2>(this->mag(), angle());
-        }
-        
-        /**
-         * @return The cartesian `(x, y)` coordinates of this point interpreted
-         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
-         */
-        inline Vec<T,2> from_polar() const {
-            Vec<T,2> v;
-            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
-            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
-            return v;
-        }
-
-        /**
-         * @return The angle in radians to this vector from the x-axis, between 0 
-         * and `2 * pi`.
-         */
-        inline T angle() const {
-            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
-            if (theta < 0) theta += 2 * M_PI;
-            return theta;
-        }
-
-    }; //end Vec2 definition
-    
-    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
-    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
-
-} //end namespace geom
+#pragma once
+
+/*
+ * Vec2.h
+ *
+ *  Created on: May 9, 2009
+ *      Author: Tim Babb
+ */
+
+#include <cmath>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /** @ingroup linalg
+     *  @brief 2D specialization of vector class.
+     * 
+     * `Vec<T,2>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y}     // conventional Euclidean coordinate names
+     *     v.{s,t}     // conventional parameterization coordinate names
+     *     v.{row,col} // matrix coordinate names
+     * 
+     * with the latter scheme intended for use as matrix coordinates. `x`, `s`, and
+     * `row` all refer to the same element.
+     * 
+     * Take special note that, in accordance with convention, `row` refers to the
+     * vertical position of a matrix element, despite being the first coordinate.
+     * This means that `row`, a vertical coordinate, aliases `x`, a traditionally 
+     * horizontal coordinate. For this reason it is **inadviseable to interchange 
+     * usage** of the "matrix coordinate" and "Euclidean" naming schemes.
+     */
+    template <typename T> class Vec<T,2> : public detail::VecCommon< T, 2, Vec<T,2> > {
+
+    public:
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,2,Vec<T,2>>::operator==;
+        
+        /// @brief (1, 0) vector constant
+        static const Vec<T,2> X_AXIS;
+        /// @brief (0, 1) vector constant
+        static const Vec<T,2> Y_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+        
+        /// Construct vector with both elements set to 0.
+        constexpr Vec():detail::VecCommon< T, 2, Vec<T,2> >() {}
+        
+        /// Construct a vector with both elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon< T, 2, Vec<T,2> >(a) {}
+
+        /// Construct a vector with elements `(x, y)`.
+        constexpr Vec(T x, T y) {
+            detail::VecBase<T,2>::x = x;
+            detail::VecBase<T,2>::y = y;
+        }
+        
+        /// Construct a vector with elements copied from the 2-element array `v`.
+        constexpr Vec(const T v[2]):detail::VecCommon< T, 2, Vec<T,2> >(v){}
+        
+        /*===========================*
+         * Convenience Arithmetic    *
+         *===========================*/
+        
+        //do not hide these; we want to overload them:
+        using detail::VecCommon< T, 2, Vec<T,2> >::add;
+        using detail::VecCommon< T, 2, Vec<T,2> >::sub;
+        using detail::VecCommon< T, 2, Vec<T,2> >::scale;
+        using detail::VecCommon< T, 2, Vec<T,2> >::dot;
+
+        /// Addition. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> add(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x + dx, detail::VecBase<T,2>::y + dy);
+        }
+
+        /// Subtraction. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> sub(T dx, T dy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x - dx, detail::VecBase<T,2>::y - dy);
+        }
+
+        /// Scalar multiplication. Convenience function with separate args for `x` and `y`.
+        inline Vec<T,2> scale(T sx, T sy) const {
+            return Vec<T,2>(detail::VecBase<T,2>::x*sx, detail::VecBase<T,2>::y*sy);
+        }
+
+        /// Dot product with the vector `(x1, y1)`.
+        inline T dot(T x1, T y1) const {
+            return detail::VecBase<T,2>::x*x1 + detail::VecBase<T,2>::y*y1;
+        }
+
+        /// @return A new vector with the X component reflected.
+        inline Vec<T,2> reflected_x() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::x, detail::VecBase<T,2>::y);
+        }
+        
+        /// @return A new vector with the Y component reflected.
+        inline Vec<T,2> reflected_y() const {
+            return Vec<T,2>(detail::VecBase<T,2>::x, -detail::VecBase<T,2>::y);
+        }
+
+        /// @return `true` if no elements are an infinity or `NaN`.
+        bool is_finite_real() const {
+            return detail::is_real(detail::VecBase<T,2>::x) and detail::is_real(detail::VecBase<T,2>::y);
+        }
+        
+        /*===========================*
+         * 2D Geometry               *
+         *===========================*/
+
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees counterclockwise.
+         */
+        
+        Vec<T,2> left_perpendicular() const {
+            return Vec<T,2>(-detail::VecBase<T,2>::y, detail::VecBase<T,2>::x);
+        }
+        
+        /**
+         * @return A vector perpendicular to `this`, created by a rotation of 
+         * 90 degrees clockwise.
+         */
+        Vec<T,2> right_perpendicular() const {
+            return Vec<T,2>(detail::VecBase<T,2>::y, -detail::VecBase<T,2>::x);
+        }
+
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians`.
+         * @param radians Rotation angle in radians
+         */
+        Vec<T,2> rotated(T radians) const {
+            T sint = std::sin(radians);
+            T cost = std::cos(radians);
+            return Vec<T,2>(cost * this->x - sint * this->y,
+                            sint * this->x + cost * this->y);
+        }
+        
+        /**
+         * @return A vector rotated counterclockwise by the angle `radians` about
+         * the point `center`.
+         * @param center Center of rotation.
+         * @param radians Angle of rotation.
+         */
+        Vec<T,2> rotate(Vec<T,2> center, T radians) const {
+            return center + (((*this) - center).rotated(radians));
+        }
+
+        /**
+         * @return The polar coordinates `(r, angle)` for this cartesian point,
+         * with `angle` in radians.
+         */
+        inline Vec<T,2> to_polar() const {
+            return Vec<T,2>(this->mag(), angle());
+        }
+        
+        /**
+         * @return The cartesian `(x, y)` coordinates of this point interpreted
+         * as polar coordinates, with `this[0] = r` and `this[1] = radians`.
+         */
+        inline Vec<T,2> from_polar() const {
+            Vec<T,2> v;
+            v.x = detail::VecBase<T,2>::x * std::cos(detail::VecBase<T,2>::y);
+            v.y = detail::VecBase<T,2>::x * std::sin(detail::VecBase<T,2>::y);
+            return v;
+        }
+
+        /**
+         * @return The angle in radians to this vector from the x-axis, between 0 
+         * and `2 * pi`.
+         */
+        inline T angle() const {
+            T theta = (T)(std::atan2(detail::VecBase<T,2>::y,detail::VecBase<T,2>::x));
+            if (theta < 0) theta += 2 * M_PI;
+            return theta;
+        }
+
+    }; //end Vec2 definition
+    
+    template <typename T> const Vec<T,2> Vec<T,2>::X_AXIS = Vec<T,2>(1,0);
+    template <typename T> const Vec<T,2> Vec<T,2>::Y_AXIS = Vec<T,2>(0,1);
+
+} //end namespace geom
diff --git a/geomc/linalg/vecdetail/Vec4.h b/geomc/linalg/vecdetail/Vec4.h
index b5c09ca..ddedb0d 100644
--- a/geomc/linalg/vecdetail/Vec4.h
+++ b/geomc/linalg/vecdetail/Vec4.h
@@ -1,148 +1,148 @@
-/*
- * Vec4.h
- *
- *  Created on: Feb 22, 2009
- *      Author: Tim Babb
- */
-
-#ifndef VECTOR4D_H_
-#define VECTOR4D_H_
-
-#include <cctype>
-#include <algorithm>
-#include <geomc/linalg/vecdetail/VecBase.h>
-
-namespace geom {
-
-    /*===========================*
-     * Global Functions          *
-     *===========================*/
-
-    template <typename T> const Vec<T,4> from_argb(int aRGB) {
-        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    template <typename T> const Vec<T,4> from_rgba(int rgba) {
-        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
-        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
-        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
-        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
-        return Vec<T,4>(r,g,b,a);
-    }
-
-    /*===========================*
-     * Vector Class              *
-     *===========================*/
-
-    /** @ingroup linalg
-     *  @brief 4D specialization of vector class.
-     * 
-     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
-     * 
-     *     v.{x,y,z,w} // conventional Euclidean coordinate names
-     *     v.{s,t,u,v} // conventional parameterization coordinate names
-     *     v.{r,g,b,a} // conventional color tuple coordinate names
-     * 
-     * with `x`, `s`, and `r` all referring to the same element.
-     */
-    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
-    public:
-        
-        /// @brief (1, 0, 0, 0) constant
-        static const Vec<T,4> X_AXIS;
-        /// @brief (0, 1, 0, 0) constant
-        static const Vec<T,4> Y_AXIS;
-        /// @brief (0, 0, 1, 0) constant
-        static const Vec<T,4> Z_AXIS;
-        /// @brief (0, 0, 0, 1) constant
-        static const Vec<T,4> W_AXIS;
-
-        /*===========================*
-         * Structors                 *
-         *===========================*/
-
-        
-        /// Construct vector with all elements set to 0.
-        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
-        
-        /// Construct a vector with elements `(x, y, z, w)`.
-        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
-
-        /// Construct a vector with elements copied from the 4-element array `v`.
-        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
-
-        /**
-         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
-         * and `w` as the final element.
-         */
-        template <typename U>
-        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xyz.x, xyz.y, xyz.z, w
-        } {}
-        
-        template <typename U>
-        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
-            xy.x, xy.y, z, w
-        } {}
-
-        /// Construct a vector with all elements set to `a`.
-        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
-        
-        /*===========================*
-         * Arithmetic                *
-         *===========================*/
-
-        // to prevent c++20 ambiguity warnings:
-        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
-        
-        using detail::VecCommon< T, 4, Vec<T,4> >::add;
-        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
-        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
-        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
-
-        /// @return `(dx, dy, dz, dw)` added with `this`
-        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
-                            detail::VecBase<T,4>::y+dy, 
-                            detail::VecBase<T,4>::z+dz, 
-                            detail::VecBase<T,4>::w+dw);
-        }
-        
-        /// @return `(dx, dy, dz, dw)` subtracted from `this`
-        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
-            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
-                            detail::VecBase<T,4>::y-dy, 
-                            detail::VecBase<T,4>::z-dz, 
-                            detail::VecBase<T,4>::w-dw);
-        }
-        
-        /// @return Element-wise scaled copy
-        Vec<T,4> scale(T a, T b, T c, T d) const {
-            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
-                            b*detail::VecBase<T,4>::y, 
-                            c*detail::VecBase<T,4>::z, 
-                            d*detail::VecBase<T,4>::w);
-        }
-
-        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
-        T dot(T xx, T yy, T zz, T ww) const {
-            return (detail::VecBase<T,4>::x * xx) + 
-                   (detail::VecBase<T,4>::y * yy) + 
-                   (detail::VecBase<T,4>::z * zz) + 
-                   (detail::VecBase<T,4>::w * ww);
-        }
-        
-    }; //end Vec4 definition
-    
-    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
-    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
-
-} //end namespace geom
-
-#endif /* VECTOR4D_H_ */
+/*
+ * Vec4.h
+ *
+ *  Created on: Feb 22, 2009
+ *      Author: Tim Babb
+ */
+
+#ifndef VECTOR4D_H_
+#define VECTOR4D_H_
+
+#include <cctype>
+#include <algorithm>
+#include <geomc/linalg/vecdetail/VecBase.h>
+
+namespace geom {
+
+    /*===========================*
+     * Global Functions          *
+     *===========================*/
+
+    template <typename T> const Vec<T,4> from_argb(int aRGB) {
+        T a = ((aRGB & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T r = ((aRGB & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((aRGB & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T b =  (aRGB & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    template <typename T> const Vec<T,4> from_rgba(int rgba) {
+        T r = ((rgba & 0xff000000) >> 24) * detail::_RGBChannelConversion<T>::scale;
+        T g = ((rgba & 0x00ff0000) >> 16) * detail::_RGBChannelConversion<T>::scale;
+        T b = ((rgba & 0x0000ff00) >> 8)  * detail::_RGBChannelConversion<T>::scale;
+        T a =  (rgba & 0x000000ff)        * detail::_RGBChannelConversion<T>::scale;
+        return Vec<T,4>(r,g,b,a);
+    }
+
+    /*===========================*
+     * Vector Class              *
+     *===========================*/
+
+    /** @ingroup linalg
+     *  @brief 4D specialization of vector class.
+     * 
+     * `Vec<T,4>`'s elements may be accessed under these equivalent naming schemes:
+     * 
+     *     v.{x,y,z,w} // conventional Euclidean coordinate names
+     *     v.{s,t,u,v} // conventional parameterization coordinate names
+     *     v.{r,g,b,a} // conventional color tuple coordinate names
+     * 
+     * with `x`, `s`, and `r` all referring to the same element.
+     */
+    template <typename T> class Vec<T,4> : public detail::VecCommon< T, 4, Vec<T,4> > {
+    public:
+        
+        /// @brief (1, 0, 0, 0) constant
+        static const Vec<T,4> X_AXIS;
+        /// @brief (0, 1, 0, 0) constant
+        static const Vec<T,4> Y_AXIS;
+        /// @brief (0, 0, 1, 0) constant
+        static const Vec<T,4> Z_AXIS;
+        /// @brief (0, 0, 0, 1) constant
+        static const Vec<T,4> W_AXIS;
+
+        /*===========================*
+         * Structors                 *
+         *===========================*/
+
+        
+        /// Construct vector with all elements set to 0.
+        constexpr Vec():detail::VecCommon<T, 4, Vec<T,4>>() {}
+        
+        /// Construct a vector with elements `(x, y, z, w)`.
+        constexpr Vec(T x, T y, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{x,y,z,w} {}
+
+        /// Construct a vector with elements copied from the 4-element array `v`.
+        constexpr Vec(const T v[4]):detail::VecCommon<T, 4, Vec<T,4>>(v) {};
+
+        /**
+         * @brief Construct a vector with `(x, y, z)` taken from the 3D vector `xyz`,
+         * and `w` as the final element.
+         */
+        template <typename U>
+        constexpr Vec(Vec<U,3> xyz, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xyz.x, xyz.y, xyz.z, w
+        } {}
+        
+        template <typename U>
+        constexpr Vec(Vec<U,2> xy, T z, T w):detail::VecCommon<T, 4, Vec<T,4>>{
+            xy.x, xy.y, z, w
+        } {}
+
+        /// Construct a vector with all elements set to `a`.
+        constexpr Vec(T a):detail::VecCommon<T, 4, Vec<T,4>>(a) {}
+        
+        /*===========================*
+         * Arithmetic                *
+         *===========================*/
+
+        // to prevent c++20 ambiguity warnings:
+        using detail::VecCommon<T,4,Vec<T,4>>::operator==;
+        
+        using detail::VecCommon< T, 4, Vec<T,4> >::add;
+        using detail::VecCommon< T, 4, Vec<T,4> >::sub;
+        using detail::VecCommon< T, 4, Vec<T,4> >::scale;
+        using detail::VecCommon< T, 4, Vec<T,4> >::dot;
+
+        /// @return `(dx, dy, dz, dw)` added with `this`
+        Vec<T,4> add(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x+dx, 
+                            detail::VecBase<T,4>::y+dy, 
+                            detail::VecBase<T,4>::z+dz, 
+                            detail::VecBase<T,4>::w+dw);
+        }
+        
+        /// @return `(dx, dy, dz, dw)` subtracted from `this`
+        Vec<T,4> sub(T dx, T dy, T dz, T dw) const {
+            return Vec<T,4>(detail::VecBase<T,4>::x-dx, 
+                            detail::VecBase<T,4>::y-dy, 
+                            detail::VecBase<T,4>::z-dz, 
+                            detail::VecBase<T,4>::w-dw);
+        }
+        
+        /// @return Element-wise scaled copy
+        Vec<T,4> scale(T a, T b, T c, T d) const {
+            return Vec<T,4>(a*detail::VecBase<T,4>::x, 
+                            b*detail::VecBase<T,4>::y, 
+                            c*detail::VecBase<T,4>::z, 
+                            d*detail::VecBase<T,4>::w);
+        }
+
+        /// @return Dot product of `this` with the vector `(xx, yy, zz, ww)`
+        T dot(T xx, T yy, T zz, T ww) const {
+            return (detail::VecBase<T,4>::x * xx) + 
+                   (detail::VecBase<T,4>::y * yy) + 
+                   (detail::VecBase<T,4>::z * zz) + 
+                   (detail::VecBase<T,4>::w * ww);
+        }
+        
+    }; //end Vec4 definition
+    
+    template <typename T> const Vec<T,4> Vec<T,4>::X_AXIS = Vec<T,4>(1,0,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Y_AXIS = Vec<T,4>(0,1,0,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::Z_AXIS = Vec<T,4>(0,0,1,0);
+    template <typename T> const Vec<T,4> Vec<T,4>::W_AXIS = Vec<T,4>(0,0,0,1);
+
+} //end namespace geom
+
+#endif /* VECTOR4D_H_ */
-- 
2.43.0


From a70f5b0b68b0bb364ef2b8291a660628a4de096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 124/190] fix: bounded random integers were not uniform for
 bounds above half of the range

---
 geomc/random/Random.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b5a053e..223b391 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -11,10 +11,6 @@
 
 #include <geomc/random/Random.h>
 
-#define INT_SIGNBIT       (1 << std::numeric_limits<int>::digits)
-#define LONG_SIGNBIT      (1L << std::numeric_limits<long>::digits)
-#define LONG_LONG_SIGNBIT (1LL << std::numeric_limits<long long>::digits)
-
 using namespace std;
 using namespace geom;
 
@@ -193,9 +189,8 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
         bits = rand<unsigned int>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & INT_SIGNBIT) & ~(lo+(hi-1)) );
+        // while this chunk does not fit in the range of possible values:
+    } while (lo > std::numeric_limits<unsigned int>::max() - (hi - 1));
     return val;
 }
 
@@ -216,9 +211,8 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
         bits = rand<unsigned long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        // while this chunk does not fit in the range of possible values:
+    } while (lo > std::numeric_limits<unsigned long>::max() - (hi - 1));
     return val;
 }
 
@@ -239,9 +233,8 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
         bits = rand<unsigned long long>();
         val = bits % hi;
         lo = bits - val;
-        //while this chunk wraps around to zero:
-        //i.e. lo sign bit is 1, end-of-chunk sign bit is 0
-    } while ( (lo & LONG_LONG_SIGNBIT) & ~(lo+(hi-1)) );
+        // while this chunk does not fit in the range of possible values:
+    } while (lo > std::numeric_limits<unsigned long long>::max() - (hi - 1));
     return val;
 }
 
-- 
2.43.0


From b853782a9c396f4a55f6cfc7a0f68e50c2fc5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 125/190] fix: empty random range divided by zero

---
 geomc/random/Random.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 223b391..3016a3e 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -184,6 +184,8 @@ template <> double Random::rand<double>() {
 
 template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
     unsigned int bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned int>();
@@ -206,6 +208,8 @@ template <> int Random::rand<int>(int hi) {
 
 template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
     unsigned long bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long>();
@@ -228,6 +232,8 @@ template <> long Random::rand<long>(long hi) {
 
 template <> unsigned long long Random::rand<unsigned long long>(unsigned long long hi) {
     unsigned long long bits, val, lo;
+    
+    if (hi == 0) return 0;
 
     do {
         bits = rand<unsigned long long>();
-- 
2.43.0


From 8d199d921523bf5689c9bbef3b4669ce3323834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 126/190] fix: random integers were out of range when the range
 is wider than the type

---
 geomc/random/Random.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index 3016a3e..c409693 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -199,7 +199,7 @@ template <> unsigned int Random::rand<unsigned int>(unsigned int hi) {
 
 template <> int Random::rand<int>(int hi) {
     if (hi < 0) {
-        return -rand<unsigned int>(-hi);
+        return -rand<unsigned int>(-(unsigned int)hi);
     } else {
         return rand<unsigned int>(hi);
     }
@@ -223,7 +223,7 @@ template <> unsigned long Random::rand<unsigned long>(unsigned long hi) {
 
 template <> long Random::rand<long>(long hi) {
     if (hi < 0) {
-        return -rand<unsigned long>(-hi);
+        return -rand<unsigned long>(-(unsigned long)hi);
     } else {
         return rand<unsigned long>(hi);
     }
@@ -247,7 +247,7 @@ template <> unsigned long long Random::rand<unsigned long long>(unsigned long lo
 
 template <> long long Random::rand<long long>(long long hi) {
     if (hi < 0) {
-        return -rand<unsigned long long>(-hi);
+        return -rand<unsigned long long>(-(unsigned long long)hi);
     } else {
         return rand<unsigned long long>(hi);
     }
@@ -273,13 +273,15 @@ template <> double Random::rand<double>(double hi) {
 
 template <> int Random::rand<int>(int lo, int hi) {
     int lo1 = min(hi,lo);
-    return rand<int>(max(hi,lo) - lo1) + lo1;
+    unsigned int range = (unsigned int)max(hi,lo) - (unsigned int)lo1;
+    return rand<unsigned int>(range) + (unsigned int)lo1;
 }
 
 
 template <> long long Random::rand<long long>(long long lo, long long hi) {
     long long lo1 = min(hi,lo);
-    return rand<long long>(max(hi,lo) - lo1) + lo1;
+    unsigned long long range = (unsigned long long)max(hi,lo) - (unsigned long long)lo1;
+    return rand<unsigned long long>(range) + (unsigned long long)lo1;
 }
 
 
-- 
2.43.0


From 59f49e30f30a615f5e01f0f010e1d9cd8a36003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 127/190] fix: random floating point numbers could round past
 the end of the range

---
 geomc/random/Random.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index c409693..b01eb4e 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -286,12 +286,16 @@ template <> long long Random::rand<long long>(long long lo, long long hi) {
 
 
 template <> float Random::rand<float>(float lo, float hi) {
-    return (hi-lo)*rand<float>() + lo;
+    float v = (hi-lo)*rand<float>() + lo;
+    // do not round past the end of the range
+    return lo <= hi ? min(v, hi) : max(v, hi);
 }
 
 
 template <> double Random::rand<double>(double lo, double hi) {
-    return (hi-lo)*rand<double>() + lo;
+    double v = (hi-lo)*rand<double>() + lo;
+    // do not round past the end of the range
+    return lo <= hi ? min(v, hi) : max(v, hi);
 }
 
 /// @} //ingroup random
-- 
2.43.0


From df20637c085fa8022c075738e7c90a807ed540fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 128/190] fix: reseeding a generator kept buffered bits from
 before

---
 geomc/random/LCRand.cpp | 1 +
 geomc/random/MTRand.cpp | 1 +
 geomc/random/Xorshiro.h | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/geomc/random/LCRand.cpp b/geomc/random/LCRand.cpp
index b48b96c..3cd2dda 100644
--- a/geomc/random/LCRand.cpp
+++ b/geomc/random/LCRand.cpp
@@ -24,6 +24,7 @@ uint32_t LCRand::rand32(){
 
 void LCRand::rseed(uint64_t seed){
     state = seed;
+    _bitsleft = 0;
 }
 
 } /* namespace geom */
diff --git a/geomc/random/MTRand.cpp b/geomc/random/MTRand.cpp
index a889d89..17064d1 100644
--- a/geomc/random/MTRand.cpp
+++ b/geomc/random/MTRand.cpp
@@ -71,4 +71,5 @@ void MTRand::rseed(uint64_t seed){
         mt_buffer[i] = seeder.rand32();
     }
     mt_index = 0;
+    _bitsleft = 0;
 }
diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index aaaa804..23fdef1 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -39,6 +39,7 @@ public:
         s[1] = splitmix64(&x);
         s[2] = splitmix64(&x);
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     template <typename F>
@@ -52,6 +53,7 @@ public:
         s[2] = splitmix64(&x);
         x = entropy();
         s[3] = splitmix64(&x);
+        _bitsleft = 0;
     }
     
     void seed(const uint64_t entropy[4]) {
@@ -59,6 +61,7 @@ public:
         s[1] = entropy[1];
         s[2] = entropy[2];
         s[3] = entropy[3];
+        _bitsleft = 0;
     }
     
     uint64_t rand64() {
-- 
2.43.0


From 1eff548250a84d150c8ef8f004def3018abcbab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 129/190] fix: xoshiro generator could not be seeded from an
 array of entropy

---
 geomc/random/Xorshiro.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomc/random/Xorshiro.h b/geomc/random/Xorshiro.h
index 23fdef1..82a7221 100644
--- a/geomc/random/Xorshiro.h
+++ b/geomc/random/Xorshiro.h
@@ -4,6 +4,8 @@
 #include <chrono>
 #include <geomc/random/Random.h>
 
+#include <type_traits>
+
 namespace geom {
 
 
@@ -43,7 +45,7 @@ public:
     }
     
     template <typename F>
-    void seed(F&& entropy) {
+    void seed(F&& entropy) requires std::is_invocable_v<F> {
         // wangjangle the entropy a bit; this ensures (e.g.) that there are no zeros
         uint64_t x = entropy();
         s[0] = splitmix64(&x);
-- 
2.43.0


From e618a0428259a122b0b5d4bcbb503c53cad24143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 130/190] fix: random sampling of shapes did not compile and
 ignored the given shape

---
 geomc/random/SampleGeometry.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index f0cec05..525f591 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <random>
-#include <geomc/shape/ShapeTypes.h>
+#include <geomc/shape/Rect.h>
+#include <geomc/shape/Sphere.h>
+#include <geomc/shape/Simplex.h>
 
 namespace geom {
     
@@ -11,7 +13,7 @@ namespace geom {
 /// Implements the RandomDistribution concept
 template <typename Shape>
 struct ShapeDistribution {
-    typedef Shape::point_t result_type;
+    typedef typename Shape::point_t result_type;
     typedef Shape          param_type;
     Shape shape;
     
@@ -29,9 +31,9 @@ struct SampleShape {};
 
 template <typename T, index_t N>
 struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
-    Simplex<T,N> shape;
+    using ShapeDistribution<Simplex<T,N>>::shape;
     
-    SampleShape(const Simplex<T,N>& s):ShapeDistribution(s) {}
+    SampleShape(const Simplex<T,N>& s):ShapeDistribution<Simplex<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -57,8 +59,8 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
-    Rect<T,N> shape;
-    SampleShape(const Rect<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Rect<T,N>>::shape;
+    SampleShape(const Rect<T,N>& s):ShapeDistribution<Rect<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
@@ -74,14 +76,18 @@ struct SampleShape<Rect<T,N>> : public ShapeDistribution<Rect<T,N>> {
 
 template <typename T, index_t N>
 struct SampleShape<Sphere<T,N>> : public ShapeDistribution<Sphere<T,N>> {
-    Sphere<T,N> shape;
-    SampleShape(const Sphere<T,N>& s):ShapeDistribution(s) {}
+    using ShapeDistribution<Sphere<T,N>>::shape;
+    SampleShape(const Sphere<T,N>& s):ShapeDistribution<Sphere<T,N>>(s) {}
     
     template <typename Generator>
     Vec<T,N> operator()(Generator& rng) {
         std::uniform_real_distribution<T> u(0,1);
-        Vec<T,N> p = rnd<T,N>(rng).unit();
-        p = p * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
+        std::normal_distribution<T> gauss(0,1);
+        Vec<T,N> p;
+        for (index_t i = 0; i < N; ++i) {
+            p[i] = gauss(rng);
+        }
+        p = p.unit() * shape.r * std::pow(u(rng), 1/(T)N) + shape.center;
         return p;
     }
 };
-- 
2.43.0


From 22ba8d6859765a2f061f7c62a43bccd8edb43962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 131/190] fix: random points of a partial simplex used unset
 vertices

---
 geomc/random/SampleGeometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/random/SampleGeometry.h b/geomc/random/SampleGeometry.h
index 525f591..fb66eb3 100644
--- a/geomc/random/SampleGeometry.h
+++ b/geomc/random/SampleGeometry.h
@@ -42,13 +42,13 @@ struct SampleShape<Simplex<T,N>> : public ShapeDistribution<Simplex<T,N>> {
         std::exponential_distribution<T> e(1);
         T s[N + 1];
         T sum = 0;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = e(rng);
             s[i] = xi;
             sum += xi;
         }
         Vec<T,N> p;
-        for (index_t i = 0; i < N + 1; ++i) {
+        for (index_t i = 0; i < shape.n; ++i) {
             T xi = s[i] / sum;
             p += xi * shape.pts[i];
         }
-- 
2.43.0


From 098417428faff31f2e9285f235b406b0587aad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 132/190] fix: random unit vector could be undefined

---
 geomc/random/RandomTools.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index d7c2d60..ffb0a07 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -132,13 +132,15 @@ public:
     template <index_t N> 
     Vec<T,N> unit() {
         Vec<T,N> v;
+        T m2;
         do {
             for (index_t i = 0; i < N; i++) {
                 // pick a point inside the unit cube
                 v[i] = this->rng->template rand<T>(-1,1);
             }
-            // discard points outside the unit ball
-        } while (v.mag2() > 1);
+            m2 = v.mag2();
+            // discard points outside the unit ball, and points with no direction
+        } while (m2 > 1 or m2 == 0);
         return v.unit(); // return point on ball surface
     }
     
-- 
2.43.0


From c3b860f924f95ce5ae210cd7858d2dbff86513e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 133/190] fix: random points in a ball of given radius were not
 uniformly distributed

---
 geomc/random/RandomTools.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index ffb0a07..b6a7747 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -179,8 +179,7 @@ public:
      */
     template <index_t N> 
     inline Vec<T,N> solidball(T radius) {
-        T r = std::pow(this->rng->template rand<T>(), ((T)1)/N);
-        return solidball<N>() * r * radius;
+        return solidball<N>() * radius;
     }
     
     /**
-- 
2.43.0


From ee43f15a4ecfc6922859875663a6a224f9c83b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 134/190] fix: random points of shells and arcs did not cover
 the range of radii

---
 geomc/random/RandomTools.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index b6a7747..21f2cad 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -193,7 +193,7 @@ public:
      */
     template <index_t N> 
     Vec<T,N> shell(T minradius, T maxradius) {
-        T radius = std::pow(this->rng->template rand<T>(minradius/maxradius, 1), ((T)1)/N);
+        T radius = std::pow(this->rng->template rand<T>(std::pow(minradius/maxradius, (T)N), 1), ((T)1)/N);
         return this->unit<N>() * radius * maxradius;
     }
     
@@ -287,7 +287,8 @@ public:
      * distributed throughout the volume.
      */
     inline Vec<T,3> solidcap(Vec<T,3> dir, T half_angle_radians, T minR, T maxR) {
-        T r = this->rng->template rand<T>(minR / maxR, 1);
+        T k = minR / maxR;
+        T r = this->rng->template rand<T>(k * k * k, 1);
         r = maxR * std::cbrt(r);
         return r * this->cap(dir, half_angle_radians);
     }
@@ -377,7 +378,8 @@ public:
     Vec<T,2> solidarc(T min_radians, T max_radians,
                       T min_radius,  T max_radius) {
         T angle = this->rng->template rand<T>(min_radians, max_radians);
-        T len   = max_radius * std::sqrt(this->rng->template rand<T>(min_radius / max_radius, 1));
+        T k     = min_radius / max_radius;
+        T len   = max_radius * std::sqrt(this->rng->template rand<T>(k * k, 1));
         return Vec<T,2>(len,angle).from_polar();
     }
     
-- 
2.43.0


From be10137d034df3e364e2a477a1ea2585f5a00400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 135/190] fix: random cap around the negative z axis was on the
 wrong side

---
 geomc/random/RandomTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/random/RandomTools.h b/geomc/random/RandomTools.h
index 21f2cad..40411f9 100644
--- a/geomc/random/RandomTools.h
+++ b/geomc/random/RandomTools.h
@@ -273,7 +273,7 @@ public:
     inline Vec<T,3> cap(Vec<T,3> dir, T half_angle_radians) {
         Vec<T,3> v = this->cap(half_angle_radians);
         Vec<T,3> rotAxis = Vec<T,3>(0,0,1).cross(dir);
-        if (rotAxis.is_zero()) return v;
+        if (rotAxis.is_zero()) return dir.z < 0 ? -v : v;
         return v.rotate(rotAxis, std::acos(dir.z/dir.mag()));
     }
     
-- 
2.43.0


From b8f93a08e0b406ad2b0c21ced9b847d1090a649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 136/190] fix: random long integers had only 32 random bits

---
 geomc/random/Random.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomc/random/Random.cpp b/geomc/random/Random.cpp
index b01eb4e..2ee7d8e 100644
--- a/geomc/random/Random.cpp
+++ b/geomc/random/Random.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <assert.h>
+#include <limits.h>
 #include <algorithm>
 #include <limits>
 
-- 
2.43.0


From 21e4dcf92a918316326be60ff08003066771cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 137/190] fix: gradient of one-dimensional noise was
 uninitialised

---
 geomc/function/PerlinNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 684470c..4773389 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -164,7 +164,7 @@ public:
                 f[pair] = mix(t, a, b);
                 
                 // apply the multivariate chain rule:
-                point_t w;
+                point_t w = point_t();
                 // dt/dx is only nonzero along the current axis:
                 T* w_i  = pointtype::iterator(w) + axis;
                 //        dmix_dt(t, ...) * dt/dx
-- 
2.43.0


From 78417671562c0736b1c6c14eaf14b665239ae3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 138/190] fix: signed overflow when choosing the gradient of a
 lattice point

---
 geomc/function/PerlinNoise.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/PerlinNoise.h b/geomc/function/PerlinNoise.h
index 4773389..73aa48c 100644
--- a/geomc/function/PerlinNoise.h
+++ b/geomc/function/PerlinNoise.h
@@ -183,14 +183,14 @@ public:
 protected:
     
     inline const point_t& get_grid_gradient(const grid_t& pt) const {
-        index_t idx = 0;
+        uint64_t hash = 0;
         for (index_t i = 0; i < N; ++i) {
             // do an iterated linear congruential scramble, using Knuth's constants:
             // xxx: todo: make portable
-            index_t k = gridtype::iterator(pt)[i];
-            idx = 6364136223846793005LL * (k + idx) + 1442695040888963407LL;
+            uint64_t k = gridtype::iterator(pt)[i];
+            hash = 6364136223846793005ULL * (k + hash) + 1442695040888963407ULL;
         }
-        idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
+        index_t idx = hash % PERLIN_NUM_GRADIENTS;
         
         // xxx: todo: confirm the above is okay and delete this:
         // idx = positive_mod(idx, (index_t) PERLIN_NUM_GRADIENTS);
-- 
2.43.0


From 359f65aa7a8098725c723818fdf16ccf61a8f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 139/190] fix: SphericalHarmonics read beyond the bands of a
 smaller ZonalHarmonics

---
 geomc/function/SphericalHarmonics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 8fc86c8..9e6dfc1 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -190,7 +190,7 @@ class SphericalHarmonics {
         const index_t b = Bands > 0 ? std::min(zh.bands(), Bands) : zh.bands();
         Dimension<Bands>::set(n_bands, b);
         clear();
-        for (index_t l = 0; l < bands(); l++) {
+        for (index_t l = 0; l < std::min(bands(), zh.bands()); l++) {
             T k = std::sqrt((4*pi) / (2 * l + 1));
             T p = zh.coeff(l);
             T v = p * k;
@@ -213,8 +213,10 @@ class SphericalHarmonics {
         clear();
         project(new_axis, 1);
         for (index_t l = 0; l < bands(); l++) {
+            // bands missing from `zh` are zero
+            T k = l < zh.bands() ? zh.coeff(l) : (T)0;
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= zh.coeff(l) * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= k * std::sqrt((4*pi) / (2 * l + 1));
             }
         }
     }
-- 
2.43.0


From 082e501e49b178a6199031a0d384039e91b18efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 140/190] fix: re-oriented zonal function was scaled wrongly in
 each band

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 9e6dfc1..cd3ee82 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -216,7 +216,7 @@ class SphericalHarmonics {
             // bands missing from `zh` are zero
             T k = l < zh.bands() ? zh.coeff(l) : (T)0;
             for (index_t m = -l; m <= l; m++) {
-                coeff(l,m) *= k * std::sqrt((4*pi) / (2 * l + 1));
+                coeff(l,m) *= k * (4*pi) / (2 * l + 1);
             }
         }
     }
-- 
2.43.0


From 1e19d4e4552af98231dc613ff82f9fd9f297b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 141/190] fix: normalizing a spherical harmonic did not give it
 a unit integral

---
 geomc/function/SphericalHarmonics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index cd3ee82..2d58c36 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -287,9 +287,10 @@ class SphericalHarmonics {
      * If the integral is currently 0, no change will be made.
      */
     void normalize() {
-        T nh = coeffs[0];
+        // integral of the DC basis function is sqrt(4 * pi)
+        T nh = coeffs[0] * std::sqrt(4 * boost::math::constants::pi<T>());
         if (nh == 0) return;
-        for (index_t i = 1; i < size(); i++) {
+        for (index_t i = 0; i < size(); i++) {
             coeffs[i] /= nh;
         }
     }
-- 
2.43.0


From 77d06805bdc10e9128a50c3b275764128f25e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 142/190] fix: constant added to a spherical harmonic was added
 at the wrong scale

---
 geomc/function/SphericalHarmonics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 2d58c36..4c97123 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -529,7 +529,8 @@ class SphericalHarmonics {
      * @param k Bias.
      */
     SphericalHarmonics<T,Bands>& operator+=(T k) {
-        coeffs[0] += k;
+        // value of the DC basis function is 1 / sqrt(4 * pi)
+        coeffs[0] += k * std::sqrt(4 * boost::math::constants::pi<T>());
         return *this;
     }
     
-- 
2.43.0


From 24a546fd1a1533c77c60a0797262ad21a4020bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 143/190] fix: sum of two spherical harmonics was never
 computed or returned

---
 geomc/function/SphericalHarmonics.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 4c97123..95a80b2 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -549,11 +549,10 @@ class SphericalHarmonics {
      * Construct a SphericalHarmonics function which is the sum of this and another.
      */
     SphericalHarmonics<T,Bands> operator+(const SphericalHarmonics<T,Bands> &sh) {
-        index_t n = std::max(sh.size(), size());
-        SphericalHarmonics<T,Bands> out(n);
-        for (index_t i; i < n; i++) {
-            out.coeffs[i] = coeffs[i] + sh.coeffs[i];
-        }
+        SphericalHarmonics<T,Bands> out(std::max(sh.bands(), bands()));
+        out += *this;
+        out += sh;
+        return out;
     }
     
     /**
-- 
2.43.0


From 61706bc50540d70f6053fbfe868898c9ee4b8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 144/190] fix: zonal function built from spherical harmonics
 was scaled wrongly (NaN in band zero)

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 95a80b2..695bd95 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -618,7 +618,7 @@ class ZonalHarmonics {
         const T pi = boost::math::constants::pi<T>();
         Dimension<Bands>::set(n_bands,sh.bands());
         for (index_t l = 0; l < bands(); l++) {
-            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l - 1) / (4 * pi));
+            coeffs[l] = sh.coeff(l,0) * std::sqrt((2*l + 1) / (4 * pi));
         }
     }
     
-- 
2.43.0


From 3ff8109121b9bfc28dad74d7e4f23ac2faca14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 145/190] fix: inner product of zonal functions read beyond the
 smaller one

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 695bd95..6a20829 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -664,7 +664,7 @@ class ZonalHarmonics {
     T dot(const ZonalHarmonics<T,B> &zh) const {
         T sum = 0;
         const index_t n = std::min(bands(), zh.bands());
-        for (index_t i = 0; i < bands(); i++) {
+        for (index_t i = 0; i < n; i++) {
             sum += coeff(i) * zh.coeff(i);
         }
         return sum;
-- 
2.43.0


From b959f328c63685c56a6f526456bf513cab3036f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 146/190] fix: one-band lambertian kernel had two bands

---
 geomc/function/SphericalHarmonics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 6a20829..9a56a17 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -688,7 +688,7 @@ class ZonalHarmonics {
         clear();
         T fac = 1;
         coeffs[0] = 0.25;
-        if (bands() > 1) {
+        if (ct > 1) {
             coeffs[1] = 0.5;
             for (index_t n = 2; n < ct; n += 2) { // odd bands are 0.
                 fac *= n * (n - 1);
-- 
2.43.0


From a4340ccbd9b9031c236c785091c59dac295b9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 147/190] fix: sample projected to a zonal function used the
 wrong polynomials

---
 geomc/function/SphericalHarmonics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 9a56a17..13749c7 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -765,11 +765,11 @@ class ZonalHarmonics {
         if (bands() > 1) coeffs[1] = x * val;
         T p_0 = 1;
         T p_1 = x;
-        for (index_t i = 1; i < bands(); i++) {
-            T p_i = (2 * i + 1) * x * p_1 - i * p_0 / ((T)i + 1);
+        for (index_t i = 1; i < bands() - 1; i++) {
+            T p_i = ((2 * i + 1) * x * p_1 - i * p_0) / ((T)i + 1);
             p_0 = p_1;
             p_1 = p_i;
-            coeffs[i] = val * p_i;
+            coeffs[i + 1] = val * p_i;
         }
     }
     
-- 
2.43.0


From d1ace7affc5a4603c92f47309194fc6db405f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 148/190] fix: convolution by a zonal kernel did not convolve
 the functions

---
 geomc/function/SphericalHarmonics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index 13749c7..b7a6900 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -305,7 +305,7 @@ class SphericalHarmonics {
         for (index_t l = 0; l < bands(); l++) {
             for (index_t m = -l; m <= l; m++) {
                 if (l < zh.bands())
-                    coeff(l,m) *= zh.coeff(l);
+                    coeff(l,m) *= zh.coeff(l) * 4 * boost::math::constants::pi<T>() / (2 * l + 1);
                 else
                     coeff(l,m)  = 0;
             }
@@ -779,8 +779,8 @@ class ZonalHarmonics {
      */
     void convolve(const ZonalHarmonics<T,Bands> &kernel) {
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
-            coeffs[l] *= k * kernel.coeffs[l];
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
+            coeffs[l] *= l < kernel.bands() ? k * kernel.coeffs[l] : (T)0;
         }
     }
     
@@ -796,7 +796,7 @@ class ZonalHarmonics {
         // xxx debug
         //std::cout << "diffusing to " << t << "\n";
         for (index_t l = 0; l < bands(); l++) {
-            T k = std::sqrt((boost::math::constants::pi<T>() * 4) / (2 * l + 1));
+            T k = (boost::math::constants::pi<T>() * 4) / (2 * l + 1);
             T m = k * coeffs[l];
             coeffs[l] = detail::cpow(m, t) / k;
             //std::cout << m << " --> " << coeffs[l] * k << "\n";
-- 
2.43.0


From 04367ca21282e77b76bd086ad3905e74539a7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 149/190] fix: normalizing a zonal function did not give it a
 unit integral

---
 geomc/function/SphericalHarmonics.h | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/geomc/function/SphericalHarmonics.h b/geomc/function/SphericalHarmonics.h
index b7a6900..3400f05 100644
--- a/geomc/function/SphericalHarmonics.h
+++ b/geomc/function/SphericalHarmonics.h
@@ -807,27 +807,15 @@ class ZonalHarmonics {
     /**
      * Ensure the integral over the entire sphere is 1. 
      * If the integral is currently 0, no change will be made.
-     */ /*
+     */
     void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>());
+        T k  = 4 * boost::math::constants::pi<T>();
         T nh = coeffs[0] * k;
         if (nh == 0) return;
         coeffs[0] = 1 / k;
         for (index_t i = 1; i < bands(); i++) {
             coeffs[i] /= nh;
         }
-    }*/
-    
-    // xxx debug
-    void normalize() {
-        T k  = std::sqrt(4 * boost::math::constants::pi<T>() / 3);
-        T nh = coeffs[1] * k;
-        if (nh == 0) return;
-        coeffs[1] = 1 / k;
-        for (index_t i = 0; i < bands(); i++) {
-            if ( i == 1) continue;
-            coeffs[i] /= nh;
-        }
     }
     
     /**
-- 
2.43.0


From ba19a1028a05a4773ecca80a91e0b6c55e02e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 150/190] fix: path parameter outside of the path was converted
 to an integer (undefined when negative or large)

---
 geomc/function/Path.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/function/Path.h b/geomc/function/Path.h
index 447129b..3653e11 100644
--- a/geomc/function/Path.h
+++ b/geomc/function/Path.h
@@ -60,7 +60,6 @@ public:
     Path(){}
 
     Vec<T,N> eval(T t){
-        size_t n = t;
         size_t sz = knots.size();
         
         //degenerate cases
@@ -68,11 +67,12 @@ public:
             return Vec<T,N>();
         } else if (t < 0){ 
             return knots[0].at_multiple(t);
-        } else if (n >= sz - 1){
+        } else if (t >= sz - 1){
             T t_0 = t - sz + 1;
             return knots[sz - 1].at_multiple(t_0);
         }
         
+        size_t n = t;
         T t_0 = t - n;
         Ray<T,N> &r0 = knots[n];
         Ray<T,N> &r1 = knots[n+1];
-- 
2.43.0


From b521cb93b8db4aa4f9ad11a702c1d486a8c8872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 151/190] fix: query of a bin lattice by a rectangle did not
 compile

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 408cebe..8924b3f 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -274,7 +274,7 @@ public:
     }
 
     region_iterator query(Rect<T,N> region){
-        return region_iterator(*this, binRegion(region));
+        return region_iterator(this, binRegion(region));
     }
 
     region_iterator query(point_t pt, T radius){
-- 
2.43.0


From 19d8aafc31eac5a3fafedaebc77e8fd8dcecb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 152/190] fix: query of a bin lattice missed items on the upper
 boundary of the region

---
 geomc/shape/BinLatticePartition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 8924b3f..d0619ec 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -307,7 +307,7 @@ public:
         //high coordinate is, as always, one beyond the maximum cell to check
         return Rect<index_t,N>(
                 (bin_t)((r.lo / _cellsize).floor()),
-                (bin_t)((r.hi / _cellsize).ceil())
+                (bin_t)((r.hi / _cellsize).floor()) + bin_t(1)
         );
     }
 
-- 
2.43.0


From 495dda2e39a6c1dbf8e9fbf6fbc8b07a9833981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 153/190] fix: query of a bin lattice by an empty region
 returned items

---
 geomc/shape/BinLatticePartition.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index d0619ec..9882115 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -125,6 +125,10 @@ public:
                 grid(grid),
                 cellblock(region),
                 off_end(false){
+            if (region.is_empty()) {
+                off_end = true;
+                return;
+            }
             cur_cell_iter = grid->_cells.find(region.lo);
             if (cur_cell_iter == grid->_cells.end() and !gotoNextNonemptyCell(region.lo)){
                 off_end = true;
-- 
2.43.0


From abc4df00af7d70cff82c3530f655101a0de41ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 154/190] fix: exhausted query of a bin lattice compared equal
 to its last item

---
 geomc/shape/BinLatticePartition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/shape/BinLatticePartition.h b/geomc/shape/BinLatticePartition.h
index 9882115..6c575d8 100644
--- a/geomc/shape/BinLatticePartition.h
+++ b/geomc/shape/BinLatticePartition.h
@@ -185,8 +185,8 @@ public:
         }
 
         bool equal(region_iterator const & other) const {
-            if (off_end and other.off_end){
-                return true;
+            if (off_end or other.off_end){
+                return off_end == other.off_end;
             } else {
                 return other.cur_cell_iter == cur_cell_iter;
             }
-- 
2.43.0


From 09497de1db8404b21947c08f1b9b637550f8d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 155/190] fix: inserting several tree nodes did not compile

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 4928a47..533037d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1103,7 +1103,7 @@ public:
         // todo: this->_storage->_nodes.reserve(n_items);
         NodeRef prev_end_node  = this->end()._root;
         NodeRef first_new_node = this->_storage->_nodes.insert(
-            n, base_t::Node(this->_storage, p, *(i_begin++)));
+            n, typename base_t::Node(this->_storage, p, *(i_begin++)));
         NodeRef last_new_node  = first_new_node;
         
         // transfer ownership of the parent's items to the first child.
@@ -1119,7 +1119,7 @@ public:
         index_t ct = 1;
         for (NodeItemIterator i = i_begin; i != i_end; ++i, ++ct) {
             last_new_node = this->_storage->_nodes.insert(
-                n, base_t::Node(this->_storage, p, *i));
+                n, typename base_t::Node(this->_storage, p, *i));
         }
         
         // adjust child endpoints if necessary
-- 
2.43.0


From d71886a3c3e56f2af48bdd79b47c1396e6cc59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 156/190] fix: inserting several items into a tree did not
 compile

---
 geomc/Tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 533037d..9df7398 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1252,7 +1252,7 @@ public:
     template <typename LeafItemIterator>
     item_iterator insert_items(
             const item_iterator& insert_before,
-            const LeafItemIterator  begin_item,
+                  LeafItemIterator  begin_item,
             const LeafItemIterator& end_item,
             index_t* new_item_count=nullptr) const {
         // todo: it would be great if we could protect against the user
@@ -1270,8 +1270,8 @@ public:
         // retrieve parent and insert point
         NodeRef n = this->_root;
         ItemRef insert_pt = insert_before;
-        if (n.n_items == 0) {
-            insert_pt = item_successor(n);
+        if (n->n_items == 0) {
+            insert_pt = this->item_successor(n);
         }
         
         // insert the first item
-- 
2.43.0


From 8d15fc58cb733df87bfc617f2d076ff9630bcca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 157/190] fix: erasing an item of a tree did not compile

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 9df7398..08c8332 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1488,8 +1488,8 @@ public:
             // this is a linear check; if we *knew* we were the parent, the
             // entire operation would be log(n). laaaaame.
             bool found = false;
-            for (item_iterator i = n->items_begin(); 
-                    i != n->items_end(); 
+            for (item_iterator i = this->items_begin(); 
+                    i != this->items_end(); 
                     ++i) {
                 if (i == item) {
                     found = true;
-- 
2.43.0


From 796e69e8f6889e53eda38ed7dbc3f993932f29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 158/190] fix: iteration over the descendants of a tree node
 did not compile

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 08c8332..45c79cd 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -715,7 +715,7 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return _root->child_first;
+        return self_t(_root->child_first, _storage);
     }
     
     
-- 
2.43.0


From 362c2a6cc4fc87f74b264e9b06bd66db79856da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 159/190] fix: constant iterators of a tree did not compile

---
 geomc/Tree.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 45c79cd..0fbc524 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -173,8 +173,9 @@ class Tree {
         
     };
     
-    std::list<Node>     _nodes;
-    std::list<LeafItem> _items;
+    // access is controlled by Subtree / ConstSubtree, which both hold `NodeRef`s.
+    mutable std::list<Node>     _nodes;
+    mutable std::list<LeafItem> _items;
     
 public:
     
@@ -409,6 +410,10 @@ protected:
 template <typename NodeItem, typename LeafItem, bool Const=true>
 class SubtreeBase {
     
+    friend class Tree<NodeItem, LeafItem>;
+    friend class Subtree<NodeItem, LeafItem>;
+    friend class ConstSubtree<NodeItem, LeafItem>;
+    
 protected:
     
     typedef Tree<NodeItem, LeafItem>  Storage;
@@ -919,6 +924,11 @@ protected:
     // curiously recurring pattern is weird :[
     ConstSubtree(const base_t& other):base_t(other) {}
     
+    ConstSubtree(
+            const typename base_t::NodeRef& root,
+            typename base_t::StorageRef storage):
+        base_t(root, storage) {}
+    
     ConstSubtree() {}
     
 public:
-- 
2.43.0


From 48f44d7d1a154273f14505ac643591c7e8689c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 160/190] fix: adopting a tree node did not compile

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 0fbc524..1b517be 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1355,7 +1355,7 @@ public:
         // insert all the items
         // (also updates the boundary items; etc.)
         // new node is now a valid leaf with a buncha items:
-        ItemRef first_new_item = n.insert_items(
+        new_node.insert_items(
             other_subtree.items_begin(),
             other_subtree.items_end());
         
-- 
2.43.0


From c37d8f313c49b2bd01528cf3ed9d3935150faba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 161/190] fix: successor of a tree node with children was its
 own first child

---
 geomc/Tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 1b517be..cbb75bf 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -867,7 +867,8 @@ protected:
             NodeRef off_end_child = ancestor->child_last; 
             if (ancestor->n_children > 0) ++off_end_child;
             // look for a populated node to the right of us
-            for (NodeRef c = child; c != off_end_child; ++c) {
+            // (not including `child`, whose own descendents we are hopping over)
+            for (NodeRef c = std::next(child); c != off_end_child; ++c) {
                 if (c->n_children > 0) {
                     successor = c->child_first;
                     break;
-- 
2.43.0


From fde2d7b75c83c4f56f5eaeca299fd735d6591e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 162/190] fix: first and last items of inner tree nodes were
 lost by edits below them

---
 geomc/Tree.h | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index cbb75bf..a84dbf6 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -360,35 +360,27 @@ protected:
             ItemRef new_last,
             index_t delta_items) {
         
-        NodeRef prev_child = _nodes.end();
         NodeRef n = leaf;
         
-        ItemRef old_first = n->items_first;
-        ItemRef old_last  = n->items_last;
-        
         // update ancestors' item count and boundary items
         while (n != _nodes.end()) {
             n->n_items += delta_items;
             
             if (n->n_items == 0) {
                 n->items_first = n->items_last = _items.end();
+            } else if (n == leaf) {
+                n->items_first = new_first;
+                n->items_last  = new_last;
             } else {
-                // If we ascended from an edge node, that node certainly
-                // controls (or used to control) our edge item. 
-                // But it might have also controlled our edge item if the 
-                // edge sibling doesn't have any items. In this case,
-                // its previous edge item will also be ours.
-                if (n->child_first == prev_child or 
-                        n->items_first == old_first) {
-                    n->items_first = new_first;
-                }
-                if (n->child_last == prev_child or
-                        n->items_last == old_last) {
-                    n->items_last = new_last;
-                }
+                // our edge items belong to our outermost children which have items.
+                NodeRef c = n->child_first;
+                while (c->n_items == 0) ++c;
+                n->items_first = c->items_first;
+                c = n->child_last;
+                while (c->n_items == 0) --c;
+                n->items_last = c->items_last;
             }
             
-            prev_child = n;
             n = n->parent;
         }
     }
-- 
2.43.0


From 14d633d387fa1dc17ede7ec470b8b87b33ffd106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 163/190] fix: tree built from a range of items had an item
 count of one

---
 geomc/Tree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index a84dbf6..5df1d2d 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -203,9 +203,11 @@ public:
         NodeRef node = _nodes.begin();
         
         // assign items to root
-        node->items_first = _items.begin();
-        node->items_last  = _items.end(); --(node->items_last);
-        node->n_items     = _nodes.size();
+        if (not _items.empty()) {
+            node->items_first = _items.begin();
+            node->items_last  = std::prev(_items.end());
+        }
+        node->n_items = _items.size();
     }
     
     
-- 
2.43.0


From 9808f12339df77ab4655ea3058e316be61d6d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 164/190] fix: copied and moved trees referred to the source
 tree

---
 geomc/Tree.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5df1d2d..8309156 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -185,8 +185,16 @@ public:
     }
     
     
-    /// Default move constructor.
-    Tree(Tree<NodeItem, LeafItem>&& other) = default;
+    /// Move constructor. `other` becomes an empty tree.
+    Tree(Tree<NodeItem, LeafItem>&& other):
+            _nodes(std::move(other._nodes)),
+            _items(std::move(other._items)) {
+        // off-end iterators are those of the list that owns them
+        recalculate_tree();
+        other._nodes.clear();
+        other._items.clear();
+        other._nodes.push_back(Node(&other, other._nodes.end()));
+    }
     
     
     /**
@@ -345,6 +353,7 @@ protected:
     
     inline void recalculate_tree() {
         NodeRef n = _nodes.begin();
+        n->parent      = _nodes.end();
         n->child_first = std::next(n);
         n->child_last  = _nodes.end(); --(n->child_last);
         n->items_first = _items.begin();
-- 
2.43.0


From 9686fb16551aefc0a671f6d761e2013e8fe1a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 165/190] fix: nodes beyond a leaf were skipped when a copied
 tree was linked

---
 geomc/Tree.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 8309156..2d9c384 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1655,13 +1655,12 @@ protected:
         // next unassigned leaf item:
         ItemRef begin_items = this->_root->items_first;
         // last / most recent assigned leaf item in the list: 
-        ItemRef last_item   = begin_items; --last_item;
-        NodeRef end_child   = this->node_successor(this->_root);
+        ItemRef last_item   = begin_items;
         
         // in essence we "build" the tree by simply taking ownership of 
         // the nodes/items that already exist. we walk over the nodes in 
-        // tree order, which means that child nodes are taken in order too.
-        for (NodeRef node = this->_root; node != end_child; ) {
+        // depth-first order, which means that child nodes are taken in order too.
+        for (NodeRef node = this->_root; ; ) {
             node->child_first = node->child_last = 
                 (node->n_children > 0) ? begin_child : this->_storage->_nodes.end();
             node->items_first = node->items_last = 
@@ -1690,16 +1689,15 @@ protected:
                     begin_items = last_item = node->items_last; ++begin_items;
                 }
                     
-                // fixup the items_end along the right edge of this subtree.
-                NodeRef descendent = node;
-                for (NodeRef ancestor = node->parent;
-                        ancestor != this->_root;
-                        descendent = ancestor, ancestor = ancestor->parent) {
-                    if (ancestor->n_items > 0) ancestor->items_last = last_item;
+                // ascend from the last of a node's children, which completes that node.
+                while (node != this->_root and node == node->parent->child_last) {
+                    node = node->parent;
+                    if (node->n_items > 0) node->items_last = last_item;
                 }
+                if (node == this->_root) break;
                 
-                // done populating this tree. populate the next sibling tree.
-                node = this->node_successor(node);
+                // populate the next sibling tree.
+                ++node;
             }
         }
     }
-- 
2.43.0


From feca6a18f606a636afe1fc3a3eb9e932b218d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 166/190] fix: iteration over the descendants of a leaf node
 was not empty

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 2d9c384..9af356b 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -723,7 +723,7 @@ public:
      * nodes in this subtree, beginning with the first child of this node.
      */
     inline self_t subtree_begin() const {
-        return self_t(_root->child_first, _storage);
+        return _root->n_children > 0 ? self_t(_root->child_first, _storage) : subtree_end();
     }
     
     
-- 
2.43.0


From c21a0d641c06736bfa6f5081b402fdea9305e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 167/190] fix: erasing an item of a tree lost the items after
 it

---
 geomc/Tree.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 9af356b..1d6998f 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1512,20 +1512,22 @@ public:
             }
             
             if (found) {
+                const bool is_first = item == n->items_first;
+                const bool is_last  = item == n->items_last;
                 ItemRef next_item = this->_storage->_items.erase(item);
                 ItemRef prev_item = next_item; --prev_item;
                 
                 // figure out the new begin / end items
                 ItemRef new_begin, new_end;
-                if (item == n->items_first) {
+                if (is_first) {
                     new_begin = next_item;
                 } else {
                     new_begin = n->items_first;
                 }
-                if (item == n->items_last) {
+                if (is_last) {
                     new_end = prev_item;
                 } else {
-                    new_end = prev_item;
+                    new_end = n->items_last;
                 }
                 
                 this->_storage->update_boundary_items(
@@ -1535,7 +1537,7 @@ public:
                     -1);
                 
                 ok  = true;
-                ret = next_item;
+                ret = is_last ? this->items_end() : next_item;
             }
         }
         
-- 
2.43.0


From b4f453cb16b242849399f5f8ce924d5e745a2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 168/190] fix: clearing a tree node used its items after they
 were freed

---
 geomc/Tree.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 1d6998f..5b52611 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1558,12 +1558,8 @@ public:
             ItemRef endpt = n->items_last; ++endpt;
             
             // delete the items
-            ItemRef next_item;
-            index_t n_deleted = 0;
-            for (next_item = n->items_first; next_item != endpt; ++next_item) {
-                this->_storage->_items.erase(next_item);
-                ++n_deleted;
-            }
+            const index_t n_deleted = n->n_items;
+            ItemRef next_item = this->_storage->_items.erase(n->items_first, endpt);
             ItemRef prev_item = next_item; --prev_item;
             
             // update item boundaries / counts
-- 
2.43.0


From 954cb4b8c9162ab426cffaa52ecc1790b36e5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 169/190] fix: inserting a tree node read the parent of an
 off-end node

---
 geomc/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5b52611..ab2764b 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1024,7 +1024,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and n != this->end()._root) return this->end();
+        if (n != this->end()._root and n->parent != p) return this->end();
         
         // set the insert point for empty nodes
         if (parent_childless) {
@@ -1105,7 +1105,7 @@ public:
         
         // check invalid cases
         if (n == this->_storage->_nodes.begin())       return this->end();
-        if (n->parent != p and this->end()._root != n) return this->end();
+        if (n != this->end()._root and n->parent != p) return this->end();
         if (i_begin == i_end)                          return this->end();
         
         // set the insert point for empty nodes
-- 
2.43.0


From ff855fcb2c40d75ed2014a8c72ce84435a206832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 170/190] fix: erasing an only child of a tree node did not
 return the end

---
 geomc/Tree.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index ab2764b..2c32204 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -1590,6 +1590,8 @@ public:
         child.clear();
         
         NodeRef x = child._root;
+        const bool is_first = this->_root->child_first == x;
+        const bool is_last  = this->_root->child_last  == x;
         NodeRef next_node = this->_storage->_nodes.erase(x);
         NodeRef prev_node = next_node; --prev_node;
         
@@ -1600,14 +1602,14 @@ public:
             this->_root->child_first = 
                 this->_root->child_last = 
                     this->_storage->_nodes.end();
-        } else if (this->_root->child_first == x) {
+        } else if (is_first) {
             this->_root->child_first = next_node;
-        } else if (this->_root->child_last == x) {
+        } else if (is_last) {
             this->_root->child_last = prev_node;
         }
         
         if (success) *success = true;
-        return self_t(next_node, this->_storage);
+        return is_last ? this->end() : self_t(next_node, this->_storage);
     }
     
     
-- 
2.43.0


From a815bd9940de21933e7a6df8110414fe7a864e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 171/190] fix: search for the parent of a tree item left the
 subtree or skipped nodes

---
 geomc/Tree.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 2c32204..5c9b8bd 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -765,13 +765,16 @@ public:
      */
     self_t find_parent(const const_item_iterator& i) const {
         NodeRef subtree_last = node_successor(_root);
-        for (NodeRef n = _root; n != subtree_last; ++n) {
+        for (NodeRef n = _root; n != subtree_last; ) {
             if (n->n_children == 0 and n->n_items > 0) {
                 ItemRef end_item = n->items_last; ++end_item;
                 for (ItemRef j = n->items_first; j != end_item; ++j) {
                     if (j == i) return self_t(n, _storage);
                 }
             }
+            // the siblings of `_root` lie between it and its descendents
+            if (n == _root) n = subtree_begin()._root;
+            else            ++n;
         }
         return this->end();
     }
@@ -792,30 +795,31 @@ public:
      */
     template <bool BoundingFn(const NodeItem&, const LeafItem&)>
     self_t find_parent(const const_item_iterator& i) const {
-        NodeRef cur_root     = _root;
-        NodeRef subtree_last = node_successor(_root);
-        while (cur_root != subtree_last) {
+        NodeRef cur_root = _root;
+        while (true) {
             if (BoundingFn(cur_root->data, *i)) {
                 // cur_root may contain `i`
                 if (cur_root->n_children > 0) {
                     // recurse
                     cur_root = cur_root->child_first;
-                } else {
+                    continue;
+                } else if (cur_root->n_items > 0) {
                     // look for item
                     ItemRef end_item = cur_root->items_last; ++end_item;
                     for (ItemRef j = cur_root->items_first; j != end_item; ++j) {
                         // found it
                         if (j == i) return self_t(cur_root, _storage);
                     }
-                    // our current node is a leaf, so there is no subtree to jump over.
-                    ++cur_root;
                 }
-            } else {
-                // check next sibling
-                cur_root = node_successor(cur_root);
             }
+            // `i` is not below `cur_root`. pop out of it, and check the next sibling
+            while (cur_root != _root and cur_root == cur_root->parent->child_last) {
+                cur_root = cur_root->parent;
+            }
+            if (cur_root == _root) break;
+            ++cur_root;
         }
-        return this->end();;
+        return this->end();
     }
     
     
-- 
2.43.0


From c884c2ed981f180f42fb4e591511585241dc8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 172/190] fix: tree query ended at the first grandchild of its
 root

---
 geomc/Tree.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 5c9b8bd..9bce77c 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -517,6 +517,7 @@ public:
         Key        _key;
         BoundingFn _bound;
         TestFn     _test;
+        bool       _done; // `_root.end()` may be a descendent of `_root`, so we can't rely on it
         
     public:
         
@@ -526,24 +527,27 @@ public:
                 _root(start),
                 _key(key),
                 _bound(bound),
-                _test(test) {
+                _test(test),
+                _done(false) {
             find_result();
         }
         
         /// Return true if this iterator points to the subtree at `other`.
         bool operator==(const I& other) const {
-            return other == _item;
+            return other == _root.end() ? _done : (not _done and other == _item);
         }
         
         /// Return true if this iterator does not point to the subtree at `other`.
         bool operator!=(const I& other) const {
-            return other != _item;
+            return not (*this == other);
         }
         
         /// Find the next result at or beyond the Subtree `other`.
         QueryIterator& operator=(const I& other) {
             _item = other;
+            _done = other == other.tree().end();
             find_result();
+            return *this;
         }
     
     private:
@@ -552,20 +556,23 @@ public:
             if (_item.node_count() > 0 and _bound(_item, _key)) {
                 // descend into tree
                 _item = _item.begin();
-            } else if (_item == _root) {
-                _item = _root.end();
             } else {
                 // nothing further for us here. pop back out.
                 // while item is the last child of its parent, ascend:
-                while (_item._root == _item.parent()._root->child_last and _item.parent() != _root) {
+                while (_item != _root and _item._root == _item.parent()._root->child_last) {
                     _item = _item.parent();
                 }
-                ++_item;
+                if (_item == _root) {
+                    _item = _root.end();
+                    _done = true;
+                } else {
+                    ++_item;
+                }
             }
         }
         
         void find_result() {
-            while (_item != _root.end() and _item != _item.tree().end() and not _test(_item, _key)) {
+            while (not _done and not _test(_item, _key)) {
                 next_candidate();
             }
         }
@@ -578,7 +585,7 @@ public:
         }
         
         bool equal(const QueryIterator& other) const {
-            return _item == other._item;
+            return _done == other._done and _item == other._item;
         }
         
         const I& dereference() const {
-- 
2.43.0


From 576fac04d3048ca64a6b3a294156c9351fb10943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 173/190] fix: search for the next tree item to the right of
 the current node, not within it

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 9bce77c..6306bc7 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -909,7 +909,7 @@ protected:
                 node = parent, parent = node->parent) {
             if (parent->n_children != 0) {
                 NodeRef end_c = parent->child_last; ++end_c;
-                for (NodeRef c = node; c != end_c; ++c) {
+                for (NodeRef c = std::next(node); c != end_c; ++c) {
                     if (c->n_items > 0) {
                         return c->items_first;
                     }
-- 
2.43.0


From ef10adab9c3948d5660b07186daff99307f2075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 174/190] fix: swapping a row or column of a permutation with
 itself flipped its sign

---
 geomc/linalg/mtxtypes/PermutationMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/mtxtypes/PermutationMatrix.h b/geomc/linalg/mtxtypes/PermutationMatrix.h
index f9480f5..309f278 100644
--- a/geomc/linalg/mtxtypes/PermutationMatrix.h
+++ b/geomc/linalg/mtxtypes/PermutationMatrix.h
@@ -339,7 +339,7 @@ public:
         dst[src[b]] = a;
         // swap a/b
         std::swap(src[a], src[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
@@ -358,7 +358,7 @@ public:
         src[dst[b]] = a;
         // swap a/b
         std::swap(dst[a], dst[b]);
-        _sign *= -1;
+        if (a != b) _sign *= -1;
     }
     
     /**
-- 
2.43.0


From 2d576e8a53ba2b3c3a40075ae32b15a3e9b5c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 175/190] fix: hashing a simplex compiles (it hashes its
 vertices)

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 8646872..1dd07e2 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -599,7 +599,7 @@ template <typename T, index_t N, typename H>
 struct Digest<Simplex<T,N>, H> {
     H operator()(const Simplex<T,N>& s) const {
         H nonce = geom::truncated_constant<H>(0x8159bb983f797983, 0xe8904e94430f7555);
-        return geom::hash_array<H>(nonce, s.pts, s.n);
+        return geom::hash_array<Vec<T,N>,H>(nonce, s.pts, s.n);
     }
 };
 
-- 
2.43.0


From 6be5f4685440f10d180c049984e7df621bd18564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 176/190] fix: iterating, copying or comparing an empty
 column-major matrix divided by zero

---
 geomc/linalg/mtxdetail/MatrixLayout.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geomc/linalg/mtxdetail/MatrixLayout.h b/geomc/linalg/mtxdetail/MatrixLayout.h
index ddc2eb9..ed7c610 100644
--- a/geomc/linalg/mtxdetail/MatrixLayout.h
+++ b/geomc/linalg/mtxdetail/MatrixLayout.h
@@ -44,6 +44,7 @@ struct TransposeIterator :
     inline pointer_t offs() const {
         // handle "off-end" correctly:
         index_t s = major * minor;
+        if (s == 0) return base; // empty matrix
         index_t j = i % s;
         index_t k = i / s;
         // compute transposed offset:
@@ -83,6 +84,7 @@ struct TransposeIterator :
         // note the symmetry: this is the same as offs(), but major & minor are swapped.
         // that scans: to invert a transpose, transpose again!
         index_t   s = major * minor;
+        if (s == 0) return 0; // empty matrix
         index_t   q = other.p - base;
         index_t   j = q % s;
         index_t   k = q / s;
-- 
2.43.0


From cd66e37a313d252dd5afe60b3f6b5e8af688610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 177/190] fix: multiplying a diagonal matrix in place by a
 diagonal matrix gave zero

---
 geomc/linalg/mtxdetail/MatrixMult.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomc/linalg/mtxdetail/MatrixMult.h b/geomc/linalg/mtxdetail/MatrixMult.h
index ca34d5e..1c9fcee 100644
--- a/geomc/linalg/mtxdetail/MatrixMult.h
+++ b/geomc/linalg/mtxdetail/MatrixMult.h
@@ -163,10 +163,11 @@ public:
         const T* pb = b.diagonal_begin();
         U* pc = d->diagonal_begin();
         const index_t diag = std::min(a.diagonal_end() - pa, b.diagonal_end() - pb);
-        d->set_zero();
+        // `d` may alias an operand: write each product in place, then clear the rest
         for (index_t i = 0; i < diag; ++i, ++pa, ++pb, ++pc) {
             *pc = (*pa) * (*pb);
         }
+        std::fill(pc, d->diagonal_end(), U(0));
     }
     
     template <typename U, index_t I, index_t J>
-- 
2.43.0


From 1410f5e030e6e549805f906256249783b4daad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 178/190] fix: constructing a tree from a subtree did not
 compile

---
 geomc/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Tree.h b/geomc/Tree.h
index 6306bc7..c5f8719 100644
--- a/geomc/Tree.h
+++ b/geomc/Tree.h
@@ -229,7 +229,7 @@ public:
     
     /// Construct a new tree from the given subtree.
     Tree(const ConstSubtree<NodeItem, LeafItem>& other):
-            _nodes(other.subtree_begin(), other.subtree_end()),
+            _nodes(other.subtree_begin()._root, other.subtree_end()._root),
             _items(other.items_begin(), other.items_end()) {
         // make a root (we only added the children)
         _nodes.push_front(*other._root);
-- 
2.43.0


From 98f16ff37c6dfc75afbb08126cc7783fe1382a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 179/190] fix: constructing a runtime-sized shared storage from
 a list did not compile

---
 geomc/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c0d7be2..c3ab2ad 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -405,7 +405,7 @@ struct GenericStorage : public Storage<T,N> {
     GenericStorage(index_t n):type(n) {}
     
     GenericStorage(std::initializer_list<T> list):type(list.size()) {
-        std::copy(list.begin(), list.end(), type::data);
+        std::copy(list.begin(), list.end(), this->get());
     }
 
 #ifdef PARSING_DOXYGEN
-- 
2.43.0


From 8bc6bb22b55762fb0741ca7b040732a703551032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 180/190] fix: drawing a random dual number did not compile

---
 geomc/function/Dual.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geomc/function/Dual.h b/geomc/function/Dual.h
index be5c152..84ce24d 100644
--- a/geomc/function/Dual.h
+++ b/geomc/function/Dual.h
@@ -1,4 +1,11 @@
 #pragma once
 
+// seen by Random.h, which brings in random duals iff both libraries are in use
+#define GEOMC_DUAL_H
+
 #include <geomc/function/functiondetail/DualImpl.h>
 #include <geomc/function/functiondetail/DualFunctions.h>
+
+#ifdef GEOMC_RANDOM_H_
+#include <geomc/function/functiondetail/RandomDual.h>
+#endif
-- 
2.43.0


From 736646b6818eb8fb054d08a954e389ba842b7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 181/190] fix: constructing a vector of five or more elements
 from a list did not compile

---
 geomc/linalg/Vec.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index dbaee90..200132f 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -8,6 +8,7 @@
 #ifndef VEC_H_
 #define VEC_H_
 
+#include <cassert>
 #include <type_traits>
 
 #include <geomc/Hash.h>
@@ -327,10 +328,8 @@ public:
     Vec(const std::initializer_list<T>& items):
         detail::VecCommon< T,N,Vec<T,N> >(items.begin())
     {
-#if __cplusplus >= 201402L
-        // items.size() not constexpr in c++11  D:<
-        static_assert(items.size() == N, "Vector must be initialized with N items");
-#endif
+        // items.size() is not a constant expression here  D:<
+        assert(items.size() == N); // Vector must be initialized with N items
     }
 #endif
     
-- 
2.43.0


From 9aced3d79f097ae0e234f2bc727cffa0316c93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 182/190] fix: constructing a vector from a matrix column did
 not compile

---
 geomc/linalg/Vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index 200132f..5685b0c 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -312,7 +312,7 @@ public:
     template <typename Mx, typename Ref>
     Vec(detail::MtxColIterator<Mx,Ref> mtx_col) {
         T *p = this->begin();
-        const index_t n = std::min(N, mtx_col->mtx->cols());
+        const index_t n = std::min(N, mtx_col.mtx->rows() - mtx_col.pt.row);
         for (index_t i = 0; i < n; i++, p++, mtx_col++) {
             *p = *mtx_col;
         }
-- 
2.43.0


From 0cb6291046f5441703b9d291ed7cf45916c3da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 183/190] fix: projecting a constant or temporary point to a
 simplex did not compile

---
 geomc/shape/Simplex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 1dd07e2..2540ea9 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -469,7 +469,7 @@ public:
     }
     
     
-    Vec<T,N> project(Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
+    Vec<T,N> project(const Vec<T,N>& p, Simplex<T,N>* face=nullptr) const {
         detail::SimplexProjection<T,N> proj {
             *this,
             p,
-- 
2.43.0


From c162011826c78bcc4b586a04392a75cf87d7e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 184/190] fix: constructing a shared matrix from a list did not
 compile

---
 geomc/Storage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geomc/Storage.h b/geomc/Storage.h
index c3ab2ad..327cdbb 100644
--- a/geomc/Storage.h
+++ b/geomc/Storage.h
@@ -121,6 +121,10 @@ struct Storage {
     Storage(index_t n, const T* srcdata) { std::copy(srcdata, srcdata + N, data); }
     /// Construct a new storage array and fill with `N` elements from `srcdata` (static size only).
     explicit Storage(const T* srcdata)   { std::copy(srcdata, srcdata + N, data); }
+    /// Construct a new storage array and fill it with the elements of `srcdata`.
+    Storage(std::initializer_list<T> srcdata) {
+        std::copy(srcdata.begin(), srcdata.end(), data);
+    }
     
     /// Return a pointer to the first element in the storage array.
     inline       T* get()       { return data; }
@@ -144,6 +148,10 @@ struct Storage<T,DYNAMIC_DIM> {
                     data(new T[n]) {
         std::copy(srcdata, srcdata + n, data.get());
     }
+    Storage(std::initializer_list<T> srcdata):
+                    data(new T[srcdata.size()]) {
+        std::copy(srcdata.begin(), srcdata.end(), data.get());
+    }
 
     inline       T* get()       { return data.get(); }
     inline const T* get() const { return data.get(); }
-- 
2.43.0


From 035bc256dc6fbfd6a26408b976eed03d9a327c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 185/190] fix: comparing constant dual numbers did not compile

---
 geomc/function/functiondetail/DualImpl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geomc/function/functiondetail/DualImpl.h b/geomc/function/functiondetail/DualImpl.h
index a56e4c8..45f57c3 100644
--- a/geomc/function/functiondetail/DualImpl.h
+++ b/geomc/function/functiondetail/DualImpl.h
@@ -170,17 +170,17 @@ struct Dual {
     // comparison
     
     /// Equality of primal component
-    inline bool operator==(const Dual<T,Dp> &d) { return x == d.x; }
+    inline bool operator==(const Dual<T,Dp> &d) const { return x == d.x; }
     /// Inequality of primal component
-    inline bool operator!=(const Dual<T,Dp> &d) { return x != d.x; }
+    inline bool operator!=(const Dual<T,Dp> &d) const { return x != d.x; }
     /// Greater-or-equal-to comparison of primal component
-    inline bool operator>=(const Dual<T,Dp> &d) { return x >= d.x; }
+    inline bool operator>=(const Dual<T,Dp> &d) const { return x >= d.x; }
     /// Less-or-equal-to comparison of primal component
-    inline bool operator<=(const Dual<T,Dp> &d) { return x <= d.x; }
+    inline bool operator<=(const Dual<T,Dp> &d) const { return x <= d.x; }
     /// Greater-than comparison of primal component
-    inline bool operator> (const Dual<T,Dp> &d) { return x  > d.x; }
+    inline bool operator> (const Dual<T,Dp> &d) const { return x  > d.x; }
     /// Less-than comparison of primal component
-    inline bool operator< (const Dual<T,Dp> &d) { return x  < d.x; }
+    inline bool operator< (const Dual<T,Dp> &d) const { return x  < d.x; }
     
     /// Post-increment
     Dual<T,Dp> operator++(int) {
-- 
2.43.0


From 3b09350845918e68320b3792356122d816c6287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 186/190] fix: scaling a vector of duals by a dual did not
 compile

---
 geomc/linalg/Vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomc/linalg/Vec.h b/geomc/linalg/Vec.h
index 5685b0c..33fb7f9 100644
--- a/geomc/linalg/Vec.h
+++ b/geomc/linalg/Vec.h
@@ -53,7 +53,7 @@ namespace geom {
 #endif
 template <typename V, typename U> 
 inline typename std::enable_if<
-            std::is_scalar<U>::value and detail::IsVector<V>::value,
+            (std::is_scalar<U>::value or std::is_same<U, typename V::elem_t>::value) and detail::IsVector<V>::value,
         V>::type 
 operator* (const V &v, U d) {
     V r;
@@ -77,7 +77,7 @@ operator* (const V &v, U d) {
 #endif
 template <typename V, typename U> 
 inline typename std::enable_if<
-        std::is_scalar<U>::value and detail::IsVector<V>::value, 
+        (std::is_scalar<U>::value or std::is_same<U, typename V::elem_t>::value) and detail::IsVector<V>::value, 
         V>::type 
 operator* (U d, const V &v) {
     V r;
-- 
2.43.0


From c2817ecb0e52556e32a039bbb91d94a7ce453410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:32 +0000
Subject: [PATCH 187/190] fix: simplex normals were not unit length, and
 pointed inward for inside points

---
 geomc/shape/Simplex.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geomc/shape/Simplex.h b/geomc/shape/Simplex.h
index 2540ea9..ea6a35c 100644
--- a/geomc/shape/Simplex.h
+++ b/geomc/shape/Simplex.h
@@ -465,7 +465,12 @@ public:
             p,
             detail::ProjectionOp::PROJECT
         };
-        return proj.normal_direction();
+        if (proj.result.contains or proj.result.distance2 == 0) {
+            // the point is inside or on the surface, and does not lie on the
+            // outer side of its nearest face; use the face's outward normal
+            return proj.result.face.normal().with_length(1);
+        }
+        return proj.normal_direction().with_length(1);
     }
     
     
-- 
2.43.0


From e7c3bd3d8b7b68d8f138806fbfae58e948572a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:53 +0000
Subject: [PATCH 188/190] fix: fix: support points of a frustum over a
 one-dimensional base

---
 geomc/shape/Frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Frustum.h b/geomc/shape/Frustum.h
index c7b8f6f..402eeca 100644
--- a/geomc/shape/Frustum.h
+++ b/geomc/shape/Frustum.h
@@ -186,7 +186,7 @@ public:
         
         // find the appropriate direction to check in shape-space.
         base_point_t d_s = sign * d.template resized<N-1>();
-        if (d_s == (T)0) d_s[0] = 1;  // ← pick an arbitrary direction
+        if (d_s == (T)0) PointType<T,N-1>::iterator(d_s)[0] = 1;  // ← pick an arbitrary direction
         
         // find the relevant point on the base shape, and place it on the h=1 plane
         Vec<T,N> p(base.convex_support(d_s), 1);
-- 
2.43.0


From fd3212226500282a724fe3c7413133ae84df8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 189/190] fix: fix: stepping back and differences of grid
 iterators over unsigned or narrow coordinates

---
 geomc/shape/GridIterator.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/geomc/shape/GridIterator.h b/geomc/shape/GridIterator.h
index 0531ecb..5a22095 100644
--- a/geomc/shape/GridIterator.h
+++ b/geomc/shape/GridIterator.h
@@ -142,11 +142,12 @@ private:
     }
     
     inline void decrement() {
-        for (index_t i = dim_first;
-                i != dim_end and --(pt[i]) < region.lo[i];
-                i += dim_increment) {
-            if (i != dim_last) pt[i] = region.hi[i];
+        for (index_t i = dim_first; i != dim_last; i += dim_increment) {
+            // (compare first: an unsigned coordinate cannot pass below zero)
+            if (pt[i] > region.lo[i]) { --(pt[i]); return; }
+            pt[i] = region.hi[i];
         }
+        --(pt[dim_last]);
     }
     
     inline void advance(index_t n) {
@@ -163,13 +164,14 @@ private:
     }
     
     inline index_t distance_to(const GridIterator<T,N,Order> &other) const {
-        point_t dim  = region.dimensions(); 
-        point_t jump = other.pt - pt;
         index_t dist = 0;
         index_t vol  = 1;
         for (index_t i = dim_first; i != dim_end; i += dim_increment) {
-            dist += vol * jump[i];
-            vol  *= std::max(dim[i], (T)0);
+            // (signed differences, whatever the sign and width of T)
+            index_t dim  = (index_t) region.hi[i] - (index_t) region.lo[i] + 1;
+            index_t jump = (index_t) other.pt[i]  - (index_t) pt[i];
+            dist += vol * jump;
+            vol  *= std::max(dim, (index_t) 0);
         }
         return dist;
     }
@@ -252,7 +254,7 @@ private:
     }
     
     inline index_t distance_to(const GridIterator<T,1,Order> &other) const {
-        return other.pt - pt;
+        return (index_t) other.pt - (index_t) pt;
     }
     
     inline const point_t& dereference() const {
-- 
2.43.0


From 452a149dbb71f2c6e9c64eb1351cb08d771792fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:04 +0000
Subject: [PATCH 190/190] fix: subtracting a box from a point

---
 geomc/shape/Rect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomc/shape/Rect.h b/geomc/shape/Rect.h
index bd54f46..6129064 100644
--- a/geomc/shape/Rect.h
+++ b/geomc/shape/Rect.h
@@ -1047,7 +1047,7 @@ inline Rect<T,N> operator+(typename Rect<T,N>::point_t p, const Rect<T,N>& r) {
 
 template <typename T, index_t N>
 inline Rect<T,N> operator-(typename Rect<T,N>::point_t p, const Rect<T,N>& r) {
-    return r - p;
+    return Rect<T,N>(p - r.hi, p - r.lo);
 }
 
 
-- 
2.43.0

