From 0416cd69ad5afb32bb306d2a92ffa6ffd336732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 01/25] fix: poly1305 adds the key part s modulo 2^128, not in
 the field

---
 .../src/chacha20_poly1305/poly1305.rs         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..1df02fb 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -55,18 +55,22 @@ fn poly_inner(m: &ByteSeq, r: FieldElement) -> FieldElement {
 }
 
 pub fn poly(m: &ByteSeq, key: Key) -> Tag {
-    let s_elem = FieldElement::from_secret_literal(U128_from_le_bytes(U128Word::from_sub(
-        &key, BLOCKSIZE, BLOCKSIZE,
-    )));
+    let s = U128_from_le_bytes(U128Word::from_sub(&key, BLOCKSIZE, BLOCKSIZE));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
-    // Note that n might be less than 16 byte -> zero-pad; but might also be
+    // The tag is (a + s) mod 2^128, where a is the accumulator mod 2^130-5. The
+    // addition of s must not be reduced by the field's modulus.
+    // Note that a might be less than 16 byte -> zero-pad; but might also be
     // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    let a_v = a.to_public_byte_seq_le();
+    let mut a_128 = U128Word::new();
+    for i in 0..min(BLOCKSIZE, a_v.len()) {
+        a_128[i] = U8::classify(a_v[i]);
+    }
+    let n_v = U128_to_le_bytes(U128_from_le_bytes(a_128) + s);
     let mut tag = Tag::new();
-    for i in 0..min(tag.len(), n_v.len()) {
-        tag[i] = n_v[i];
+    for i in 0..BLOCKSIZE {
+        tag[i] = n_v[i].declassify();
     }
     tag
 }
-- 
2.43.0


From 07f4c36c61312c02438870504f90b149ccd7c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 02/25] fix: SHA-256 pads messages whose length is a multiple
 of the block size

---
 spec-examples/src/sha2/sha2.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..fef67ec 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -166,28 +166,32 @@ pub fn hash(msg: &ByteSeq) -> Digest {
         0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
         0x5be0cd19,
     ]);
+    // The bytes after the last full block. This is empty when the message
+    // length is a multiple of the block size.
+    let mut last_block = Block::new();
+    let mut last_block_len = 0;
     for i in 0..msg.num_chunks(BLOCK_SIZE) {
         let (block_len, block) = msg.get_chunk(BLOCK_SIZE, i);
         if block_len < BLOCK_SIZE {
-            // Add padding for last block
-            let mut last_block = Block::new();
-            let block = Block::new().update_start(&block);
-            last_block = last_block.update(0, &block);
-            last_block[block_len] = U8(0x80);
-            let len_bist: U64 = (msg.len() * 8).into();
-            if block_len < BLOCK_SIZE - LEN_SIZE {
-                last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
-                h = compress(last_block, h);
-            } else {
-                let mut pad_block = Block::new();
-                pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
-                h = compress(last_block, h);
-                h = compress(pad_block, h);
-            }
+            last_block = Block::new().update_start(&block);
+            last_block_len = block_len;
         } else {
             let compress_input = Block::new().update_start(&block);
             h = compress(compress_input, h);
         }
     }
+
+    // Add padding for last block
+    last_block[last_block_len] = U8(0x80);
+    let len_bist: U64 = (msg.len() * 8).into();
+    if last_block_len < BLOCK_SIZE - LEN_SIZE {
+        last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(last_block, h);
+    } else {
+        let mut pad_block = Block::new();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(last_block, h);
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From abeed5c1dc754996e9eed4884291d01a00a7e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 03/25] fix: BLAKE2b finalises messages whose length is a
 multiple of the block size

---
 spec-examples/src/blake2/blake2b.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..97d99ad 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -177,12 +177,18 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    let num_chunks = data.num_chunks(128);
+    if num_chunks == 0 {
+        // The empty message is one block of zeroes.
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
+    for i in 0..num_chunks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i < num_chunks - 1 {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
+            // This is the last block, even when it is full.
             // Pad last bits of data to a full block.
             t = inc_counter(t, Word::PublicVersion::from_literal(block_len as u128));
             let compress_input = ByteSeq::new(128).update_start(&block);
-- 
2.43.0


From 051a5b4eb2ca50eadd8341723208fa73c888ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 04/25] fix: X25519 secret_to_public builds a base point of the
 right length

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From b9a52a62a6eaf78e5a3a785bb578a2432b57efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 05/25] fix: HKDF expand accepts the largest output length
 255*HASH_LEN

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From ef600952e4c46290881b6199c98ab03874cb3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 06/25] fix: bounded integers accept their maximum value

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..3b872bd 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 4a008d866636e18c79404c4a1f4fdedab08d5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 07/25] fix: from_signed_literal keeps the sign of negative
 literals

---
 abstract-integers/src/abstract_int.rs | 2 +-
 abstract-integers/src/nat_mod.rs      | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3b872bd..a1579c3 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..012e3eb 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -67,11 +67,13 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
-                if big_x > $name::max().into() {
+                let big_x = BigInt::from(x);
+                let max: BigInt = $name::max().into();
+                if big_x > max || big_x < -max.clone() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let reduced: BigInt = ((big_x % max.clone()) + max.clone()) % max;
+                $name(reduced.into())
             }
         }
     };
-- 
2.43.0


From c15c2304afd0b7f4b5cee9b4092869634d66b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 08/25] fix: from_literal reduces a literal equal to the
 modulus

---
 abstract-integers/src/nat_mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index 012e3eb..2062838 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,8 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let base: $base = big_x.into();
+                base.into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From 590fa079683ac96b4cf7c083e982836f935d818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 09/25] fix: remove debug output from the library and
 ChaCha20-Poly1305

---
 hacspec/src/machine_integers.rs                         | 2 --
 hacspec/src/math_util.rs                                | 1 -
 hacspec/src/poly.rs                                     | 1 -
 spec-examples/src/chacha20_poly1305/chacha20poly1305.rs | 2 --
 4 files changed, 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..f1128c8 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,12 +17,10 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
                 let mut tmp = self;
                 while tmp < rhs {
                     tmp += n;
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
                 (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..498beeb 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -28,7 +28,6 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
     let mut new_t = T::ONE;
     let mut new_r = x;
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..7e11970 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -420,7 +420,6 @@ macro_rules! poly {
             /// Invert this polynomial.
             /// **Panics** if the polynomial is not invertible.
             fn inv(self) -> Self {
-                println!("inv {:?}", self);
                 Self::from_vec(extended_euclid(&self.poly, &self.irr, self.n).unwrap())
             }
 
diff --git a/spec-examples/src/chacha20_poly1305/chacha20poly1305.rs b/spec-examples/src/chacha20_poly1305/chacha20poly1305.rs
index b100866..1d7cc31 100644
--- a/spec-examples/src/chacha20_poly1305/chacha20poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/chacha20poly1305.rs
@@ -32,7 +32,6 @@ pub fn encrypt(key: Key, iv: IV, aad: &ByteSeq, msg: &ByteSeq) -> Result<(ByteSe
     let cipher_text = match chacha(key, iv, msg) {
         Ok(c) => c,
         Err(r) => {
-            println!("Error encrypting chacha20: {}", r);
             return Err(r);
         }
     };
@@ -56,7 +55,6 @@ pub fn decrypt(
         match chacha(key, iv, cipher_text) {
             Ok(c) => Ok(c),
             Err(r) => {
-                println!("Error decrypting chacha20: {}", r);
                 Err(r)
             }
         }
-- 
2.43.0


From e1200c5e6200f2095c764cfc2b1a5e4377162d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 10/25] fix: sub_mod and signed modulo neither loop nor
 overflow on unreduced operands

---
 hacspec/src/machine_integers.rs | 10 ++++++----
 hacspec/src/math_util.rs        |  6 +-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index f1128c8..3454a77 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,11 +17,13 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                let mut tmp = self;
-                while tmp < rhs {
-                    tmp += n;
+                let a = self % n;
+                let b = rhs % n;
+                if a >= b {
+                    a - b
+                } else {
+                    n - (b - a)
                 }
-                (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 498beeb..1ecdb5d 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -9,11 +9,7 @@ use crate::prelude::*;
 #[inline]
 #[cfg_attr(feature="use_attributes", library(internal))]
 pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
-    let mut ret = x % n;
-    while ret < 0 {
-        ret += n;
-    }
-    ret
+    x.rem_euclid(n)
 }
 
 /// Extended euclidean algorithm to compute the inverse of x in ℤ/n
-- 
2.43.0


From 9593f8c1e0cb0c41fffde923ce2e321ec684ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 11/25] fix: inversion modulo n neither overflows nor takes n
 rounds

---
 hacspec/src/math_util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 1ecdb5d..315cd3b 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -39,7 +39,9 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
 
         let tmp = new_t.clone();
         // XXX: a little hacky
-        let tmp_prod = q * new_t;
+        // Reduce the product. Otherwise the loop below can take up to n rounds
+        // and the product can overflow.
+        let tmp_prod = q.mul_mod(new_t, n);
         let mut tmp_t = t;
         while tmp_t.less_than(tmp_prod) {
             tmp_t = tmp_t + n;
-- 
2.43.0


From 0a2ae3d5c14fd5e910b70fce981b13076f6c053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 12/25] fix: polynomial division reduces the quotient
 coefficients

---
 hacspec/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 7e11970..3a8fac3 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -176,7 +176,7 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             rem[idx].div(c) // XXX: Update once we change to Numeric
         } else {
             // divide by using inverse mod n
-            rem[idx] * T::inv(c, n)
+            rem[idx].mul_mod(T::inv(c, n), n)
         };
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
-- 
2.43.0


From 61a7c57ff5ee4133293e11a9a76aab17784f4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 13/25] fix: inversion mod n handles negative operands and
 refuses a modulus that is not positive

---
 hacspec/src/math_util.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 315cd3b..50f8a4a 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -14,15 +14,20 @@ pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
 
 /// Extended euclidean algorithm to compute the inverse of x in ℤ/n
 ///
-/// **Panics** if x is not invertible.
+/// **Panics** if x is not invertible or n is not positive.
 ///
 #[inline]
 #[cfg_attr(feature="use_attributes", library(internal))]
 pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T {
+    if n.less_than(T::ONE) {
+        panic!("The modulus has to be positive, got {:x?}", n);
+    }
+
     let mut t = T::ZERO;
     let mut r = n;
     let mut new_t = T::ONE;
-    let mut new_r = x;
+    // Reduce x such that a negative x is handled as well.
+    let mut new_r = x.modulo(n);
 
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
@@ -38,15 +43,9 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
         r = tmp;
 
         let tmp = new_t.clone();
-        // XXX: a little hacky
-        // Reduce the product. Otherwise the loop below can take up to n rounds
-        // and the product can overflow.
+        // Reduce the product and the difference. Otherwise they can overflow.
         let tmp_prod = q.mul_mod(new_t, n);
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
+        new_t = t.sub_mod(tmp_prod, n);
         t = tmp;
     }
 
-- 
2.43.0


From e5624848fef3d55a504752226ed3073021bd722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 14/25] fix: comparison bit masks of signed integers set all
 bits

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 3454a77..a15a5a3 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From 3c6788911feda726c27c3ccf7f9fe4bd8ccc7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 15/25] fix: rotations of signed integers do not drag in copies
 of the sign bit

---
 hacspec/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..76621fa 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -106,16 +106,22 @@ pub trait Integer: Numeric {
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_left(self, n: u32) -> Self {
-        // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        if n == 0 {
+            return self;
+        }
+        // Clear the sign bits that shifting a signed integer right drags in.
+        let wrapped = (self >> (Self::NUM_BITS - n)) & !(!Self::ZERO << n);
+        (self << n) | wrapped
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
-        // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        if n == 0 {
+            return self;
+        }
+        self.rotate_left(Self::NUM_BITS - n)
     }
 }
 
-- 
2.43.0


From 5c8651e3a7f863795d71f7138070dbb1712fad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 16/25] fix: xor of public sequences keeps the length of its
 operands

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..beaa647 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.len() == rhs.len());
+        let mut out = Self::create(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From 18e8fd8cb0c7124fb5eb4e96c73852c28ad0177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 17/25] fix: inverses modulo a composite or unit modulus are
 computed or refused, not made up

---
 abstract-integers/src/abstract_int.rs | 32 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index a1579c3..69afba5 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -132,12 +132,36 @@ macro_rules! abstract_int {
 macro_rules! abstract_public {
     ($name:ident) => {
         impl $name {
+            /// Inverse of self modulo modval (0 for 0), for any positive modval.
+            ///
+            /// **Warning**: panics if a non-zero self is not invertible.
             #[allow(dead_code)]
             pub fn inv(self, modval: Self) -> Self {
-                let biguintmodval : BigInt = modval.into();
-                let m = &biguintmodval - BigInt::from(2u32);
-                let s: BigInt = (self).into();
-                s.modpow(&m, &biguintmodval).into()
+                let n: BigInt = modval.into();
+                let zero = BigInt::from(0u32);
+                if n <= zero {
+                    panic!("the modulus {} is not positive", n);
+                }
+                let s: BigInt = self.into();
+                // Extended Euclidean algorithm
+                let mut r = n.clone();
+                let mut new_r = ((s % &n) + &n) % &n;
+                let mut t = BigInt::from(0u32);
+                let mut new_t = BigInt::from(1u32);
+                let is_zero = new_r == zero;
+                while new_r != zero {
+                    let q = &r / &new_r;
+                    let tmp_r = &r - &q * &new_r;
+                    r = new_r;
+                    new_r = tmp_r;
+                    let tmp_t = &t - &q * &new_t;
+                    t = new_t;
+                    new_t = tmp_t;
+                }
+                if r > BigInt::from(1u32) && !is_zero {
+                    panic!("{} is not invertible modulo {}", self, n);
+                }
+                ((t + &n) % &n).into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From c6b2c5fc30ee38f04442eb66b69fddbfa361a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 18/25] fix: polynomials refuse a coefficient one past their
 length instead of dropping it

---
 hacspec/src/poly.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 3a8fac3..8745847 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -425,8 +425,7 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0


From fc616bc0c6961627cad3e7df05e0ef581e373e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 19/25] fix: multiplication and division of polynomials over
 the integers

---
 hacspec/src/poly.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 8745847..a043f85 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,11 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            out[adx.0 + bdx.0] = if n.equal(T::default()) {
+                out[adx.0 + bdx.0] + *adx.1 * *bdx.1
+            } else {
+                out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n)
+            };
         }
     }
     out
@@ -178,7 +182,9 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             // divide by using inverse mod n
             rem[idx].mul_mod(T::inv(c, n), n)
         };
-        if t.equal(T::default()) && !rem[idx].equal(T::default()) {
+        // In ℤ the leading coefficients have to divide each other exactly.
+        let inexact = n.equal(T::default()) && !(t * c).equal(rem[idx]);
+        if inexact || (t.equal(T::default()) && !rem[idx].equal(T::default())) {
             panic!("Can't divide these two polynomials");
         }
         let s = monomial(t, dist - i - 1);
-- 
2.43.0


From 09b4162ea11de4cca9f5c9bd85ee8a4953a3c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 20/25] fix: hex parsers refuse signs inside the digits

---
 abstract-integers/src/abstract_int.rs | 2 ++
 hacspec/src/array.rs                  | 2 ++
 hacspec/src/util.rs                   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 69afba5..ef6804c 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,8 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                // from_str_radix takes a sign as well.
+                assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..ed7f996 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,8 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                // from_str_radix takes a sign as well.
+                assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..46acf35 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,8 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    // from_str_radix takes a sign as well.
+    assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 1da7685446c74cdcb55ece704e8713d630f27976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 21/25] fix: hex of a signed bounded integer without a sign is
 positive, not zero

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index ef6804c..18ec2cc 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -369,7 +369,7 @@ macro_rules! abstract_signed {
                 let sign = match sign {
                     "+" => Sign::Plus,
                     "-" => Sign::Minus,
-                    "" => Sign::NoSign,
+                    "" => Sign::Plus,
                     _ => panic!("from_hex requires the first argument to be + or -")
                 };
                 BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
-- 
2.43.0


From f8f7e2687272ce897c3596096fd686eda8c3bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 22/25] fix: get_byte works for U8

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 76621fa..ef449bf 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -271,7 +271,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From a529d7697269fa8e9451490ec0934bc5b85fb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 23/25] fix: bounded signed integers refuse values below their
 range at any width

---
 abstract-integers/src/abstract_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 18ec2cc..57e8620 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -73,6 +73,7 @@ macro_rules! abstract_int {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
                 assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x >= -max_value, "{} is too small for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 8551b012309f5caae75aae7d4c0f8fd8b15c1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 24/25] fix: sub-sequence range is checked before its memory is
 allocated

---
 hacspec/src/seq.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hacspec/src/seq.rs b/hacspec/src/seq.rs
index 3df31c1..2ad29c9 100644
--- a/hacspec/src/seq.rs
+++ b/hacspec/src/seq.rs
@@ -57,6 +57,8 @@ macro_rules! declare_seq_with_contents_constraints_impl {
 
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             pub fn from_sub<A: SeqTrait<T>>(input: &A, start: usize, len: usize) -> Self {
+                // Check the range before allocating memory for it.
+                assert!(start <= input.len() && len <= input.len() - start, "the range is not part of the input");
                 let mut a = Self::new(len);
                 a = a.update_sub(0, input, start, len);
                 a
-- 
2.43.0


From 7cb51eed8704a859415ca439fd9374dd310120f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 25/25] fix: modular sums and products do not overflow for
 large moduli

add_mod and mul_mod of the machine integers computed the sum or product in
the type itself (i128 for signed types), so that a modulus of more than half
the type's width panicked, or gave a wrong residue without overflow checks.
---
 hacspec/src/machine_integers.rs | 21 ++++++++++++++-------
 hacspec/src/math_util.rs        | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index a15a5a3..5eaeed8 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -28,12 +28,12 @@ macro_rules! implement_public_unsigned_mi {
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn add_mod(self, rhs: Self, n: Self) -> Self {
-                (self + rhs) % n
+                unsigned_add_mod(self as u128, rhs as u128, n as u128) as $t
             }
             /// `(self * rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn mul_mod(self, rhs: Self, n: Self) -> Self{
-                (self * rhs) % n
+                unsigned_mul_mod(self as u128, rhs as u128, n as u128) as $t
             }
             /// `(self ^ exp) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -56,17 +56,24 @@ macro_rules! implement_public_signed_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                signed_mod(self as i128 - rhs as i128, n as i128) as $t
+                // Reduce both first. Otherwise the difference can overflow.
+                let s = signed_mod(self as i128, n as i128);
+                let o = signed_mod(rhs as i128, n as i128);
+                signed_mod(s - o, n as i128) as $t
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn add_mod(self, rhs: Self, n: Self) -> Self {
-                signed_mod(self as i128 + rhs as i128, n as i128) as $t
+                let s = signed_mod(self as i128, n as i128) as u128;
+                let o = signed_mod(rhs as i128, n as i128) as u128;
+                unsigned_add_mod(s, o, (n as i128).unsigned_abs()) as $t
             }
             /// `(self * rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn mul_mod(self, rhs: Self, n: Self) -> Self{
-                signed_mod(self as i128 * rhs as i128, n as i128) as $t
+                let s = signed_mod(self as i128, n as i128) as u128;
+                let o = signed_mod(rhs as i128, n as i128) as u128;
+                unsigned_mul_mod(s, o, (n as i128).unsigned_abs()) as $t
             }
             /// `(self ^ exp) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -255,7 +262,7 @@ macro_rules! implement_secret_unsigned_mi {
                 let s = <$t>::declassify(self);
                 let o = <$t>::declassify(rhs);
                 let n = <$t>::declassify(n);
-                Self::from((s + o) % n)
+                Self::from(s.add_mod(o, n))
             }
             /// `(self * rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -263,7 +270,7 @@ macro_rules! implement_secret_unsigned_mi {
                 let s = <$t>::declassify(self);
                 let o = <$t>::declassify(rhs);
                 let n = <$t>::declassify(n);
-                Self::from((s * o) % n)
+                Self::from(s.mul_mod(o, n))
             }
             /// `(self ^ exp) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 50f8a4a..026b48e 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -12,6 +12,38 @@ pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
     x.rem_euclid(n)
 }
 
+/// `(a + b) % n`, also when the sum doesn't fit into an `u128`.
+#[inline]
+#[cfg_attr(feature="use_attributes", library(internal))]
+pub(crate) fn unsigned_add_mod(a: u128, b: u128, n: u128) -> u128 {
+    let (a, b) = (a % n, b % n);
+    if a < n - b {
+        a + b
+    } else {
+        a - (n - b)
+    }
+}
+
+/// `(a * b) % n`, also when the product doesn't fit into an `u128`.
+#[inline]
+#[cfg_attr(feature="use_attributes", library(internal))]
+pub(crate) fn unsigned_mul_mod(a: u128, b: u128, n: u128) -> u128 {
+    if let Some(product) = a.checked_mul(b) {
+        return product % n;
+    }
+    // Double and add.
+    let (mut a, mut b) = (a % n, b);
+    let mut out = 0;
+    while b > 0 {
+        if b & 1 == 1 {
+            out = unsigned_add_mod(out, a, n);
+        }
+        a = unsigned_add_mod(a, a, n);
+        b >>= 1;
+    }
+    out
+}
+
 /// Extended euclidean algorithm to compute the inverse of x in ℤ/n
 ///
 /// **Panics** if x is not invertible or n is not positive.
-- 
2.43.0

