From d4eced7d9be5cc331a11254c65efad146565d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 01/15] fix: convert 384/512-bit digests to words in 8-byte
 chunks

The conversion split the digest into 4-byte chunks and always panicked.
---
 src/sha/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha/hash.rs b/src/sha/hash.rs
index d914300..18c1f38 100644
--- a/src/sha/hash.rs
+++ b/src/sha/hash.rs
@@ -124,7 +124,7 @@ fn bytes_to_u32s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u32; W] {
 
 fn bytes_to_u64s<const B: usize, const W: usize>(bytes: [u8; B]) -> [u64; W] {
     let mut words = [0; W];
-    for (i, chunk) in bytes.chunks_exact(4).enumerate() {
+    for (i, chunk) in bytes.chunks_exact(8).enumerate() {
         let chunk = <[u8; 8]>::try_from(chunk).unwrap();
         words[i] = u64::from_be_bytes(chunk);
     }
-- 
2.43.0


From ff05ae16ce560912200aca3d46e5664b51a51c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 02/15] fix: shifting zero left by whole bytes must stay zero

It stored leading zero bytes, so the result was unequal to zero and
bits_used panicked on it.
---
 src/big/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0019e9a..15bca85 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -269,7 +269,7 @@ impl ShlAssign<u32> for BigUint {
             self.trim_trailing_zeroes()
         }
 
-        if steps > 0 {
+        if steps > 0 && !self.bytes.is_empty() {
             self.bytes
                 .splice(0..0, std::iter::repeat_n(0, steps as usize));
         }
-- 
2.43.0


From 318f7b75ddf0450c0b664584c804794a5ab6cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 03/15] fix: shifting right past the end gives zero instead of
 a panic

---
 src/big/uint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 15bca85..c32f9d2 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -281,7 +281,8 @@ impl ShrAssign<u32> for BigUint {
         if rhs >= 8 {
             let steps = rhs / 8;
 
-            self.bytes.splice(0..steps as usize, []);
+            let dropped = (steps as usize).min(self.bytes.len());
+            self.bytes.splice(0..dropped, []);
 
             rhs -= steps * 8;
         }
-- 
2.43.0


From dda547290f11d1ea3cb40f5748893f6a77d6233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 04/15] fix: bits_used must not panic after update cleared the
 top byte

---
 src/big/uint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index c32f9d2..c0b57a1 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -59,12 +59,12 @@ impl BigUint {
     }
 
     pub fn bits_used(&self) -> u32 {
-        if self.bytes.is_empty() {
+        // leading zero bytes can be present after a call to update
+        let Some(last_idx) = self.bytes.iter().rposition(|&b| b != 0) else {
             return 0;
-        }
+        };
 
         let mut bits_used = 0;
-        let last_idx = self.bytes.len() - 1;
         bits_used += last_idx as u32 * 8;
         bits_used += self.bytes[last_idx].ilog2() + 1;
         bits_used
-- 
2.43.0


From 4d121a1757bd26e3c690b68f8e6443f45a9d0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 05/15] fix: refuse negative differences and remainders by zero

Subtracting a larger number returned a wrong number or (in release
builds) tried to allocate without bound, and a remainder by zero
returned the dividend.
---
 src/big/uint.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index c0b57a1..0e1d7f8 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -196,6 +196,8 @@ impl PartialOrd for BigUint {
 
 impl SubAssign<&BigUint> for BigUint {
     fn sub_assign(&mut self, rhs: &BigUint) {
+        assert!(*rhs <= *self, "attempt to subtract with overflow");
+
         let curr_bits_used = self.bits_used();
 
         // ensure there is enough space for the upcoming addition
@@ -233,6 +235,11 @@ impl Sub<&BigUint> for BigUint {
 
 impl RemAssign<&BigUint> for BigUint {
     fn rem_assign(&mut self, rhs: &BigUint) {
+        assert!(
+            rhs.bits_used() != 0,
+            "attempt to calculate the remainder with a divisor of zero"
+        );
+
         if rhs.bits_used() > self.bits_used() {
             return;
         }
-- 
2.43.0


From 4df04081cef30a673c57990370392fcf2072c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 06/15] fix: accept the empty RC5 key

RC5 allows keys of 0 to 255 bytes, but key expansion panicked on the
empty one.
---
 src/rc/rc5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rc/rc5.rs b/src/rc/rc5.rs
index a6aa350..5b2e235 100644
--- a/src/rc/rc5.rs
+++ b/src/rc/rc5.rs
@@ -16,13 +16,14 @@ impl RC5 {
     }
 
     fn expand_key(key: &[u8], r: u8) -> Vec<u32> {
-        let c = key.len().div_ceil(4);
+        let c = key.len().div_ceil(4).max(1);
         let mut l: Vec<u32> = Vec::with_capacity(c);
         for chunk in key.chunks(4) {
             let mut word = [0_u8; 4];
             word[..chunk.len()].copy_from_slice(chunk);
             l.push(u32::from_le_bytes(word));
         }
+        l.resize(c, 0); // an empty key is a single zero word
 
         let t = 2 * (r as usize + 1);
         let mut s: Vec<u32> = Vec::with_capacity(t);
-- 
2.43.0


From dfc531f7bc8ae7621503d9eff1fadc846b80e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:36 +0000
Subject: [PATCH 07/15] fix: refuse blocks that padding could not have produced

PKCS unpadding accepted a zero padding byte and inconsistent padding
bytes, bit unpadding accepted non-zero bytes after the marker.
---
 src/pad.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pad.rs b/src/pad.rs
index 0c654da..80cf0a9 100644
--- a/src/pad.rs
+++ b/src/pad.rs
@@ -17,7 +17,8 @@ impl<const N: usize> BitPadding<N> {
     pub fn unpad(&self, last_block: Block<N>) -> (Block<N>, usize) {
         let len = last_block
             .iter()
-            .rposition(|&b| b == 0x80)
+            .rposition(|&b| b != 0)
+            .filter(|&i| last_block[i] == 0x80)
             .expect("missing marker byte (0x80)");
         let mut block = last_block;
         block[len..].fill(0);
@@ -47,7 +48,11 @@ impl<const N: usize> PkcsPadding<N> {
         if amt as usize > N {
             panic!("padding byte is too big");
         }
-        N - amt as usize
+        let len = N - amt as usize;
+        if amt == 0 || block[len..].iter().any(|&b| b != amt) {
+            panic!("padding bytes are inconsistent");
+        }
+        len
     }
 }
 
-- 
2.43.0


From d8d0bdc6071eca63441a3579f32f3923999231c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 08/15] fix: reject malformed ASN.1 lengths instead of
 panicking

Long-form lengths that are truncated or longer than 16 bytes and empty
bit strings panicked, and lengths of 2^64 and more were truncated to 64
bits and accepted.
---
 src/pem/asn1.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 21e7255..59fca33 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -16,11 +16,15 @@ impl Asn1 {
         let tag = bytes[0];
         let (rest, length) = if bytes[1] & 0x80 != 0 {
             let length_bytes = (bytes[1] & !0x80) as usize;
+            if length_bytes > 16 || bytes.len() < 2 + length_bytes {
+                return Err(format!("tag ({tag}) had an invalid length"));
+            }
             let mut length = 0u128.to_be_bytes();
             length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
             (
                 &bytes[(2 + length_bytes)..],
-                <u128>::from_be_bytes(length) as usize,
+                usize::try_from(<u128>::from_be_bytes(length))
+                    .map_err(|_| format!("tag ({tag}) had an invalid length"))?,
             )
         } else {
             (&bytes[2..], bytes[1] as usize)
@@ -36,6 +40,7 @@ impl Asn1 {
         let asn1 = match tag {
             0x02 => Asn1::Integer(rest[..length].to_owned()),
             0x04 => Asn1::OctetString(rest[..length].to_owned()),
+            0x03 if length == 0 => return Err("bit string had no content".to_string()),
             0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
-- 
2.43.0


From 5ba7264b354009483dc770bdfed81527f0dcb049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 09/15] fix: bound the nesting depth and memory of ASN.1
 parsing

Deeply nested sequences overflowed the stack, and every level copied
the rest of the input.
---
 src/pem/asn1.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pem/asn1.rs b/src/pem/asn1.rs
index 59fca33..3e48196 100644
--- a/src/pem/asn1.rs
+++ b/src/pem/asn1.rs
@@ -8,8 +8,14 @@ pub enum Asn1 {
     Sequence(Vec<Asn1>),
 }
 
+// limits the recursion, so that hostile input cannot exhaust the stack
+const MAX_DEPTH: usize = 128;
+
 impl Asn1 {
-    fn parse_from_bytes(bytes: &[u8]) -> Result<(Asn1, &[u8]), String> {
+    fn parse_from_bytes(bytes: &[u8], depth: usize) -> Result<(Asn1, &[u8]), String> {
+        if depth > MAX_DEPTH {
+            return Err("too many nested sequences".to_string());
+        }
         if bytes.len() <= 1 {
             return Err("tag had no length".to_string());
         }
@@ -45,10 +51,10 @@ impl Asn1 {
             0x05 => Asn1::Null,
             0x06 => Asn1::ObjectIdentifier(rest[..length].to_owned()),
             0x30 => {
-                let mut left = &*rest[..length].to_owned();
+                let mut left = &rest[..length];
                 let mut elements = Vec::new();
                 while !left.is_empty() {
-                    let (asn1, rest) = Asn1::parse_from_bytes(left).map_err(|e| format!("failed to parse sequence: {}", e))?;
+                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                     elements.push(asn1);
                     left = rest;
                 }
@@ -65,7 +71,7 @@ impl TryFrom<&[u8]> for Asn1 {
     type Error = String;
 
     fn try_from(bytes: &[u8]) -> Result<Self, Self::Error> {
-        let (asn1, left) = Asn1::parse_from_bytes(bytes)?;
+        let (asn1, left) = Asn1::parse_from_bytes(bytes, 1)?;
 
         if !left.is_empty() {
             return Err("extra bytes at the end".to_string());
-- 
2.43.0


From 390d840a3ea315f61bed604b35ab686588fca642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 10/15] fix: OAEP decoding reports wrong lengths as an error

It panicked on blocks that are too short or do not have the given
length, and could allocate memory for any given length.
---
 src/rsa/oaep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 0df957d..04f8ec7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -57,6 +57,9 @@ where
         encoded_message: &[u8],
         n_len: usize,
     ) -> Result<Vec<u8>, &'static str> {
+        if encoded_message.len() != n_len || n_len < 2 * N + 2 {
+            return Err("wrong length");
+        }
         if encoded_message[0] != 0 {
             return Err("first byte is not 0");
         }
-- 
2.43.0


From edb7817781bc588f2e24c8fe93d47db7e15cebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 11/15] fix: refuse RSA moduli that do not fit in 128 bits

In release builds the product wrapped around and an unusable key pair
was returned.
---
 src/rsa/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 5a94121..792489b 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -45,7 +45,7 @@ pub fn create_keys(p: BigUint, q: BigUint, e: BigUint) -> (PrivateKey, PublicKey
     let q: u128 = q.as_u128().unwrap();
     let e: u128 = e.as_u128().unwrap();
 
-    let n = p * q;
+    let n = p.checked_mul(q).expect("the modulus must fit in 128 bits");
 
     let l = lcm(p - 1, q - 1);
     let d = inverse(e, l).unwrap();
-- 
2.43.0


From 2c1f3462fb74384337fa33bb93f5af3edbb8e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 12/15] fix: RSA ciphertexts are always as long as the modulus

Leading zero bytes of the ciphertext were dropped, and decryption used
the length of the ciphertext as the length of the modulus, so about one
in 256 messages could not be decrypted (more for moduli whose top byte
is small).
---
 src/rsa/mod.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 792489b..716b373 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -119,17 +119,19 @@ impl TryFrom<PEM> for PublicKey {
 
 impl RsaEncryption {
     pub fn encrypt_message(&self, plaintext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let m = padding.encode(
-            b"",
-            plaintext,
-            (self.modulo.bits_used() - 1) as usize / 8 + 1,
-        );
+        let n_len = self.modulo_len();
+        let m = padding.encode(b"", plaintext, n_len);
         let m = BigUint::from_be_bytes(m);
         assert!(
             m < self.modulo,
             "the padding scheme did not put a zero as the first byte"
         );
-        self.encrypt(m).to_be_bytes()
+        to_be_bytes_padded(&self.encrypt(m), n_len)
+    }
+
+    /// the length of the modulus in bytes
+    fn modulo_len(&self) -> usize {
+        (self.modulo.bits_used() - 1) as usize / 8 + 1
     }
 
     pub fn encrypt(&self, m: BigUint) -> BigUint {
@@ -137,13 +139,17 @@ impl RsaEncryption {
     }
 
     pub fn decrypt_message(&self, ciphertext: &[u8], padding: impl PaddingScheme) -> Vec<u8> {
-        let mut m: Vec<u8> = std::iter::repeat_n(0, ciphertext.len()).collect();
-        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
-        let dec = d.to_be_bytes();
-        let start = m.len() - dec.len();
-        m[start..].copy_from_slice(&dec);
+        let n_len = self.modulo_len();
+        assert_eq!(
+            ciphertext.len(),
+            n_len,
+            "the ciphertext must be as long as the modulus"
+        );
+        let m = self.decrypt(BigUint::from_be_bytes(ciphertext));
 
-        padding.decode(b"", &m, m.len()).unwrap()
+        padding
+            .decode(b"", &to_be_bytes_padded(&m, n_len), n_len)
+            .unwrap()
     }
 
     pub fn decrypt(&self, c: BigUint) -> BigUint {
@@ -151,6 +157,13 @@ impl RsaEncryption {
     }
 }
 
+fn to_be_bytes_padded(a: &BigUint, len: usize) -> Vec<u8> {
+    let bytes = a.to_be_bytes();
+    let mut res = vec![0; len - bytes.len()];
+    res.extend_from_slice(&bytes);
+    res
+}
+
 fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
     let mut r = BigUint::from(0);
     let mut a = a.clone();
-- 
2.43.0


From 04006ee281c57dc44f6d62d2db43e38aff9196a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 13/15] fix: refuse RSA ciphertexts that are not smaller than
 the modulus

RFC 8017 requires it; adding the modulus to a ciphertext gave another
ciphertext of the same message.
---
 src/rsa/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsa/mod.rs b/src/rsa/mod.rs
index 716b373..487aa42 100644
--- a/src/rsa/mod.rs
+++ b/src/rsa/mod.rs
@@ -145,7 +145,9 @@ impl RsaEncryption {
             n_len,
             "the ciphertext must be as long as the modulus"
         );
-        let m = self.decrypt(BigUint::from_be_bytes(ciphertext));
+        let c = BigUint::from_be_bytes(ciphertext);
+        assert!(c < self.modulo, "the ciphertext is out of range");
+        let m = self.decrypt(c);
 
         padding
             .decode(b"", &to_be_bytes_padded(&m, n_len), n_len)
-- 
2.43.0


From fdfad96993a06e961869540856d52627fbb523e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:37 +0000
Subject: [PATCH 14/15] fix: subtract numbers whose high bits were cleared

---
 src/big/uint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index 0e1d7f8..eec5c26 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -203,8 +203,11 @@ impl SubAssign<&BigUint> for BigUint {
         // ensure there is enough space for the upcoming addition
         let mut inv = Vec::with_capacity(self.bytes.len() + 1);
 
-        let offset = inv.capacity() - rhs.bytes.len();
-        for i in 0..rhs.bytes.len() {
+        // leading zero bytes (see update) could make rhs longer than self
+        let rhs_len = rhs.bits_used().div_ceil(8) as usize;
+
+        let offset = inv.capacity() - rhs_len;
+        for i in 0..rhs_len {
             inv.push(!rhs.bytes[i]);
         }
         for _ in 0..offset {
-- 
2.43.0


From d5cd19a15ee2d522cc7480af1c6018fce42d054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:39 +0000
Subject: [PATCH 15/15] fix: leading zero bytes left by update are not part of
 a number

---
 src/big/uint.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/big/uint.rs b/src/big/uint.rs
index eec5c26..4e43037 100644
--- a/src/big/uint.rs
+++ b/src/big/uint.rs
@@ -3,11 +3,17 @@ use std::{
     ops::{AddAssign, RemAssign, ShlAssign, ShrAssign, Sub, SubAssign},
 };
 
-#[derive(Debug, PartialEq, Eq, Clone)]
+#[derive(Debug, Eq, Clone)]
 pub struct BigUint {
     bytes: Vec<u8>,
 }
 
+impl PartialEq for BigUint {
+    fn eq(&self, other: &Self) -> bool {
+        self.significant_bytes() == other.significant_bytes()
+    }
+}
+
 impl BigUint {
     pub fn from_be_bytes<B: AsRef<[u8]>>(bytes: B) -> Self {
         let bytes = bytes.as_ref();
@@ -47,17 +53,24 @@ impl BigUint {
     }
 
     pub fn as_u128(&self) -> Result<u128, String> {
-        if self.bytes.len() > 16 {
+        let significant = self.significant_bytes();
+        if significant.len() > 16 {
             return Err(format!(
                 "expected at most 16 bytes, but got {}",
-                self.bytes.len()
+                significant.len()
             ));
         }
         let mut bytes = [0; 16];
-        bytes[..self.bytes.len()].copy_from_slice(&self.bytes);
+        bytes[..significant.len()].copy_from_slice(significant);
         Ok(<u128>::from_le_bytes(bytes))
     }
 
+    /// without the leading zero bytes that can be present after a call to update
+    fn significant_bytes(&self) -> &[u8] {
+        let len = self.bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+        &self.bytes[..len]
+    }
+
     pub fn bits_used(&self) -> u32 {
         // leading zero bytes can be present after a call to update
         let Some(last_idx) = self.bytes.iter().rposition(|&b| b != 0) else {
@@ -109,7 +122,7 @@ impl BigUint {
     }
 
     pub fn to_be_bytes(&self) -> Vec<u8> {
-        self.bytes.iter().rev().cloned().collect()
+        self.significant_bytes().iter().rev().cloned().collect()
     }
 }
 
-- 
2.43.0

