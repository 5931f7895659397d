From 749bb318f27c7afcef00abc5ebe6b7df4e59148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 01/19] fix: Add64/Sub64 lost the carry when the second operand
 is all ones

sum < x misses the carry for y = 2^64-1 with carry in (sum == x), and the
borrow likewise.  Compute both from the operands' top bits, as the Go
original does.
---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From f379b36372033dde46431ff4840bb396d5435962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 02/19] fix: squaring helpers of the portable back end dropped
 a carry into the top word

madd2s, madd1s, madd2sb and madd1sb discarded the carry out of the middle
word, so the portable _square returned a wrong result when it occurred.
---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..dac1543 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 5f5be40e00f3e4519b4cd8ca1f0800f8be991a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 03/19] fix: scalar::add rejected or misplaced the final carry

The carry out of the widest operand belongs in word N and fits when NC > N;
it was written to word N+1 and rejected unless NC > N+1.
---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From 4c0f3cbb986b1f80be915e75ad279fcd4b122a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 04/19] fix: bn_divn_safe misbehaved when the dividend is
 smaller than the divisor

bn_divn_low indexes before its buffers (and crashed) when normalisation makes
the divisor longer than the dividend; a smaller dividend is its own remainder.
---
 include/bls12-381/scalar.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index fabfe83..c9a2d62 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -228,6 +228,14 @@ void bn_divn_safe(std::array<uint64_t, N>& c, std::array<uint64_t, M>& d, const
     memcpy(dividend.data(), a.data(), N * sizeof(uint64_t));
     memcpy(modulus.data(), b.data(), M * sizeof(uint64_t));
     
+    // bn_divn_low requires the dividend to be at least as large as the modulus
+    if(scalar::cmp<N+2>(dividend, modulus) < 0)
+    {
+        c.fill(0);
+        memcpy(d.data(), a.data(), M * sizeof(uint64_t));
+        return;
+    }
+
     // Relic implementation needs extra buffer space
     std::array<uint64_t, N+2> quotient = {};
     std::array<uint64_t, N+2> remainder = {};
-- 
2.43.0


From ca119577461800766687a856903307977aecff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 05/19] fix: fp6::frobeniusMap of power 3 wrote into c0 and did
 not conjugate c1, c2

---
 src/fp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..5bde592 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,9 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
+            c.c1.c0 = c1.c1;
             c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From d8a6c8206e4320c0a8d6269421b26e1571d0c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 06/19] fix: fp12 Frobenius maps read out of bounds for powers
 of 12 and above

---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 5bde592..374c65e 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1489,7 +1489,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1502,7 +1502,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1513,7 +1513,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1526,7 +1526,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From 594fcce8e2e8905df85b7be3a90826be77b435e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 07/19] fix: isQuadraticNonResidue reported zero as a
 non-residue

---
 src/fp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 374c65e..fa61abb 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -334,7 +334,7 @@ bool fp::sqrt(fp& c) const
 bool fp::isQuadraticNonResidue() const
 {
     fp result = exp(pMinus1Over2);
-    return !result.isOne();
+    return !result.isOne() && !isZero();
 }
 
 // Returns whether or not this element is strictly lexicographically larger than its negation.
-- 
2.43.0


From 5abb8c135c44353c8e5f17dd78e8ff5c51947004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 08/19] fix: hexToBytes read past the end of strings shorter
 than two characters

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From f5e78e57d61c3ff8f1a53babe942b6452e02b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 09/19] fix: compressed encoding of infinity depended on its x
 and y coordinates

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..2b59335 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -180,7 +180,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -898,7 +898,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 7dfd21f186e9e6e504be1a9cc4b6fdfa775bb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 10/19] fix: compressed decoding accepted x coordinates not
 below the modulus

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 2b59335..b306115 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From 48c8414a2ab15b5f52f2bc3abc2f4df949557290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 11/19] fix: compressed decoding accepted non-canonical
 encodings of infinity

---
 src/g.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index b306115..6d8e419 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <bls12-381/bls12-381.hpp>
 
 using namespace std;
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: no other bit may be set
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // the encoding of infinity is unique: no other bit may be set
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From 903c96abf9a6ecf518219145a6073304e9e328f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 12/19] fix: g1::mapToCurve returned a point off the curve for
 the kernel of the isogeny

---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 6d8e419..e0ccf67 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    // points in the kernel of the isogeny map to infinity; (0, 0) is not on the curve
+    if(x.isZero() && y.isZero())
+    {
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From 370c3bb104623e467e520a8f943956f9022614e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 13/19] fix: fromMessage used an uninitialised buffer for tags
 longer than 255 bytes

---
 src/signatures.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..cd7628e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -500,7 +500,20 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    const uint8_t* dst_data = reinterpret_cast<const uint8_t*>(dst.data());
+    size_t dst_len = dst.length();
+    uint8_t dst_hash[32];
+    if(dst_len > 255)
+    {
+        // https://www.rfc-editor.org/rfc/rfc9380#section-5.3.3
+        sha256 sha;
+        sha.update("H2C-OVERSIZE-DST-");
+        sha.update(dst_data, dst_len);
+        sha.digest(dst_hash);
+        dst_data = dst_hash;
+        dst_len = sizeof(dst_hash);
+    }
+    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), dst_data, dst_len);
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From 0f62d092c7b5482406c807253fb9224becf7e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 14/19] fix: xmd_sh256 took the message length as int, so
 messages of 2 GiB and more were misread

---
 include/bls12-381/signatures.hpp | 2 +-
 src/signatures.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..f05b82b 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -20,7 +20,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 );
diff --git a/src/signatures.cpp b/src/signatures.cpp
index cd7628e..2e55111 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -445,7 +445,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 )
-- 
2.43.0


From ae3b1fb8809fb3e2b4f2b00ecb3d032ca2935bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 15/19] fix: hkdf256_expand leaked its buffers when it refused
 an output length of zero

---
 src/signatures.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 2e55111..9849c1e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -98,16 +98,16 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+
     for(size_t i = 1; i <= N; i++)
     {
         if(i == 1)
-- 
2.43.0


From a2b708ee1ce93bd367dbf7a634d8a43d7d50b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 16/19] fix: key generation and HKDF-Expand ignored failed
 allocations

---
 src/signatures.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 9849c1e..088a9cb 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -1,5 +1,6 @@
 #include <bls12-381/bls12-381.hpp>
 #include "sha256.hpp"
+#include <new>
 #include <set>
 
 using namespace std;
@@ -108,20 +109,35 @@ int hkdf256_expand(
     uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
     uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
 
+    if(hmacInput1 == NULL || hmacInput == NULL)
+    {
+        //throw invalid_argument("hkdf256_expand: could not allocate memory!");
+        free(hmacInput1);
+        free(hmacInput);
+        return -1;
+    }
+
     for(size_t i = 1; i <= N; i++)
     {
+        int r;
         if(i == 1)
         {
             memcpy(hmacInput1, info, infoLen);
             hmacInput1[infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
             memcpy(hmacInput + 32, info, infoLen);
             hmacInput[32 + infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+        }
+        if(0 != r)
+        {
+            free(hmacInput1);
+            free(hmacInput);
+            return r;
         }
         size_t to_write = L - bytesWritten;
         if(to_write > 32)
@@ -186,6 +202,10 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     uint8_t saltLen = 20;
 
     uint8_t *ikmHkdf = reinterpret_cast<uint8_t*>(malloc(seed.size() + 1));
+    if(ikmHkdf == NULL)
+    {
+        throw bad_alloc();
+    }
     memcpy(ikmHkdf, &seed[0], seed.size());
     ikmHkdf[seed.size()] = 0;
 
@@ -201,7 +221,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     array<uint64_t, 4> sk;
     while(true)
     {
-        hkdf256_extract_expand(
+        int r = hkdf256_extract_expand(
             okmHkdf.data(),
             L,
             ikmHkdf,
@@ -211,6 +231,11 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
             keyInfoHkdf,
             infoLen + 2
         );
+        if(0 != r)
+        {
+            free(ikmHkdf);
+            throw bad_alloc();
+        }
 
         // Make sure private key is less than the curve order
         array<uint64_t, 6> skBn = scalar::fromBytesBE<6>(span<uint8_t, 48>(okmHkdf.begin(), okmHkdf.end()));
@@ -246,7 +271,11 @@ void ikm_to_lamport_sk(
 {
     // Expands the ikm to 255*HASH_LEN bytes for the lamport sk
     const uint8_t info[1] = {};
-    hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    int r = hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    if(0 != r)
+    {
+        throw bad_alloc();
+    }
 }
 
 void parent_sk_to_lamport_pk(
-- 
2.43.0


From 66116e2cec2318e3413c2b848d15bb9929638f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 17/19] fix: sha256::toString returned truncated text when an
 allocation failed

---
 src/sha256.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sha256.cpp b/src/sha256.cpp
index 735c273..ed0d703 100644
--- a/src/sha256.cpp
+++ b/src/sha256.cpp
@@ -180,6 +180,7 @@ void sha256::revert(array<uint8_t, 32>& hash)
 string sha256::toString(const array<uint8_t, 32>& digest)
 {
     stringstream s;
+    s.exceptions(ios_base::badbit); // report failed allocations instead of truncating the text
     s << setfill('0') << hex;
 
     for(uint8_t i = 0 ; i < 32 ; i++)
-- 
2.43.0


From 3c019d40d72a9ba995b766115e6dc6fc68ea0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 18/19] fix: field and point constants were zero when the
 library was used from static initialisers

---
 include/bls12-381/fp.hpp | 24 ++++++++++----------
 include/bls12-381/g.hpp  | 12 +++++-----
 src/fp.cpp               | 48 ----------------------------------------
 src/g.cpp                | 24 --------------------
 4 files changed, 18 insertions(+), 90 deletions(-)

diff --git a/include/bls12-381/fp.hpp b/include/bls12-381/fp.hpp
index 7feb0d0..315f9bb 100644
--- a/include/bls12-381/fp.hpp
+++ b/include/bls12-381/fp.hpp
@@ -30,9 +30,9 @@ class fp
 public:
     std::array<uint64_t, 6> d;
 
-    fp();
-    explicit fp(const std::array<uint64_t, 6>& d);
-    fp(const fp& e);
+    constexpr fp() : d{0, 0, 0, 0, 0, 0} {}
+    explicit constexpr fp(const std::array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]} {}
+    constexpr fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]} {}
     static std::optional<fp> fromBytesBE(const std::span<const uint8_t, 48> in,
                                          const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp> fromBytesLE(const std::span<const uint8_t, 48> in,
@@ -118,9 +118,9 @@ public:
     fp c0;
     fp c1;
 
-    fp2();
-    explicit fp2(const std::array<fp, 2>& e2);
-    fp2(const fp2& e);
+    constexpr fp2() : c0(fp()), c1(fp()) {}
+    explicit constexpr fp2(const std::array<fp, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp2(const fp2& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp2> fromBytesBE(const std::span<const uint8_t, 96> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp2> fromBytesLE(const std::span<const uint8_t, 96> in,
@@ -179,9 +179,9 @@ public:
     fp2 c1;
     fp2 c2;
 
-    fp6();
-    explicit fp6(const std::array<fp2, 3>& e3);
-    fp6(const fp6& e);
+    constexpr fp6() : c0(fp2()), c1(fp2()), c2(fp2()) {}
+    explicit constexpr fp6(const std::array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2]) {}
+    constexpr fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2) {}
     static std::optional<fp6> fromBytesBE(const std::span<const uint8_t, 288> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp6> fromBytesLE(const std::span<const uint8_t, 288> in,
@@ -229,9 +229,9 @@ public:
     fp6 c0;
     fp6 c1;
 
-    fp12();
-    explicit fp12(const std::array<fp6, 2>& e2);
-    fp12(const fp12& e);
+    constexpr fp12() : c0(fp6()), c1(fp6()) {}
+    explicit constexpr fp12(const std::array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp12(const fp12& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp12> fromBytesBE(const std::span<const uint8_t, 576> in,
                                            const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp12> fromBytesLE(const std::span<const uint8_t, 576> in,
diff --git a/include/bls12-381/g.hpp b/include/bls12-381/g.hpp
index ab53a7a..1f9c2e4 100644
--- a/include/bls12-381/g.hpp
+++ b/include/bls12-381/g.hpp
@@ -20,9 +20,9 @@ public:
     fp y;
     fp z;
 
-    g1();
-    explicit g1(const std::array<fp, 3>& e3);
-    g1(const g1& e);
+    constexpr g1() : x(fp()), y(fp()), z(fp()) {}
+    explicit constexpr g1(const std::array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g1(const g1& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g1> fromJacobianBytesBE(const std::span<const uint8_t, 144> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g1> fromJacobianBytesLE(const std::span<const uint8_t, 144> in,
@@ -86,9 +86,9 @@ public:
     fp2 y;
     fp2 z;
 
-    g2();
-    explicit g2(const std::array<fp2, 3>& e3);
-    g2(const g2& e);
+    constexpr g2() : x(fp2()), y(fp2()), z(fp2()) {}
+    explicit constexpr g2(const std::array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g2(const g2& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g2> fromJacobianBytesBE(const std::span<const uint8_t, 288> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g2> fromJacobianBytesLE(const std::span<const uint8_t, 288> in,
diff --git a/src/fp.cpp b/src/fp.cpp
index fa61abb..6246dba 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -5,18 +5,6 @@ using namespace std;
 namespace bls12_381
 {
 
-fp::fp() : d{0, 0, 0, 0, 0, 0}
-{
-}
-
-fp::fp(const array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]}
-{
-}
-
-fp::fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]}
-{
-}
-
 optional<fp> fp::fromBytesBE(const span<const uint8_t, 48> in, const conv_opt opt)
 {
     // We decided to always validate the input here. But we reserve the flag.
@@ -453,18 +441,6 @@ const array<uint64_t, 6> fp::pMinus3Over4 = {
     0x0680'447a'8e5f'f9a6
 };
 
-fp2::fp2() : c0(fp()), c1(fp())
-{
-}
-
-fp2::fp2(const array<fp, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp2::fp2(const fp2& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp2> fp2::fromBytesBE(const span<const uint8_t, 96> in, const conv_opt opt)
 {
     optional<fp> c1 = fp::fromBytesBE(span<const uint8_t, 48>(&in[ 0], 48), opt);
@@ -813,18 +789,6 @@ const fp2 fp2::psiY = fp2({
     }),
 });
 
-fp6::fp6() : c0(fp2()), c1(fp2()), c2(fp2())
-{
-}
-
-fp6::fp6(const array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2])
-{
-}
-
-fp6::fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2)
-{
-}
-
 optional<fp6> fp6::fromBytesBE(const span<const uint8_t, 288> in, const conv_opt opt)
 {
     optional<fp2> c2 = fp2::fromBytesBE(span<const uint8_t, 96>(&in[  0], 96), opt);
@@ -1226,18 +1190,6 @@ const array<fp2, 6> fp6::frobeniusCoeffs62 = array<fp2, 6>({
     }),
 });
 
-fp12::fp12() : c0(fp6()), c1(fp6())
-{
-}
-
-fp12::fp12(const array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp12::fp12(const fp12& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp12> fp12::fromBytesBE(const span<const uint8_t, 576> in, const conv_opt opt)
 {
     optional<fp6> c1 = fp6::fromBytesBE(span<const uint8_t, 288>(&in[  0], 288), opt);
diff --git a/src/g.cpp b/src/g.cpp
index e0ccf67..c31efdf 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -6,18 +6,6 @@ using namespace std;
 namespace bls12_381
 {
 
-g1::g1() : x(fp()), y(fp()), z(fp())
-{
-}
-
-g1::g1(const array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g1::g1(const g1& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g1> g1::fromJacobianBytesBE(const span<const uint8_t, 144> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
@@ -729,18 +717,6 @@ const g1 g1::BASE = g1({
 
 const array<uint64_t, 1> g1::cofactorEFF = {0xd201000000010001};
 
-g2::g2() : x(fp2()), y(fp2()), z(fp2())
-{
-}
-
-g2::g2(const array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g2::g2(const g2& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g2> g2::fromJacobianBytesBE(const span<const uint8_t, 288> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
-- 
2.43.0


From 2b46ad87361f39f84294d3c71cb6093a8e9326d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 19/19] fix: signatures made during start-up or exit of the
 process used an empty or destroyed domain tag

---
 src/signatures.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 088a9cb..4ca2946 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -2,6 +2,7 @@
 #include "sha256.hpp"
 #include <new>
 #include <set>
+#include <string_view>
 
 using namespace std;
 
@@ -9,8 +10,11 @@ namespace bls12_381
 {
 
 // Domain Separation Tags
-const string CIPHERSUITE_ID = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
-const string POP_CIPHERSUITE_ID = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
+// (constants without constructor or destructor for internal use, so that they are valid during start-up and exit of the process)
+static constexpr string_view SIG_TAG = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
+static constexpr string_view POP_TAG = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
+const string CIPHERSUITE_ID(SIG_TAG);
+const string POP_CIPHERSUITE_ID(POP_TAG);
 
 int hkdf256_hmac(
     uint8_t *mac,
@@ -523,9 +527,9 @@ int xmd_sh256(
 }
 
 
-g2 fromMessage(
+static g2 hashToG2(
     std::span<const uint8_t> msg,
-    const string& dst
+    string_view dst
 )
 {
     uint8_t buf[4 * 64];
@@ -568,12 +572,20 @@ g2 fromMessage(
     return p.add(q).clearCofactor();
 }
 
+g2 fromMessage(
+    std::span<const uint8_t> msg,
+    const string& dst
+)
+{
+    return hashToG2(msg, dst);
+}
+
 g2 sign(
     const array<uint64_t, 4>& sk,
     std::span<const uint8_t> msg
 )
 {
-    g2 p = fromMessage(msg, CIPHERSUITE_ID);
+    g2 p = hashToG2(msg, SIG_TAG);
     return p.scale(sk);
 }
 
@@ -585,7 +597,7 @@ bool verify(
 {
     vector<tuple<g1, g2>> v;
     pairing::add_pair(v, g1::one().negate(), signature);
-    const g2 hashedPoint = fromMessage(message, CIPHERSUITE_ID);
+    const g2 hashedPoint = hashToG2(message, SIG_TAG);
     pairing::add_pair(v, pubkey, hashedPoint);
 
     if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
@@ -662,7 +674,7 @@ bool aggregate_verify(
         {
             return false;
         }
-        pairing::add_pair(v, pubkeys[i], fromMessage(messages[i], CIPHERSUITE_ID));
+        pairing::add_pair(v, pubkeys[i], hashToG2(messages[i], SIG_TAG));
     }
 
     // 1 =? prod e(pubkey[i], hash[i]) * e(-g1, aggSig)
@@ -673,7 +685,7 @@ g2 pop_prove(const array<uint64_t, 4>& sk)
 {
     g1 pk = public_key(sk);
     array<uint8_t, 96> msg = pk.toAffineBytesLE(from_mont::yes);
-    g2 hashed_key = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_CIPHERSUITE_ID);
+    g2 hashed_key = hashToG2(vector<uint8_t>(msg.begin(), msg.end()), POP_TAG);
     return hashed_key.scale(sk);
 }
 
@@ -683,7 +695,7 @@ bool pop_verify(
 )
 {
     array<uint8_t, 96> msg = pubkey.toAffineBytesLE(from_mont::yes);
-    const g2 hashedPoint = fromMessage(vector<uint8_t>(msg.begin(), msg.end()), POP_CIPHERSUITE_ID);
+    const g2 hashedPoint = hashToG2(vector<uint8_t>(msg.begin(), msg.end()), POP_TAG);
 
     if(!pubkey.isOnCurve() || !pubkey.inCorrectSubgroup())
     {
-- 
2.43.0

