From c3e39a6a7c155788e3b5d30ba79601eb9d315280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:26 +0000
Subject: [PATCH 01/32] fix: do not read past the end of a 24-byte AES key

---
 src/aes/aes_amd64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_amd64.rs b/src/aes/aes_amd64.rs
index abddbe2..26f1c37 100644
--- a/src/aes/aes_amd64.rs
+++ b/src/aes/aes_amd64.rs
@@ -113,7 +113,7 @@ impl AES {
     #[target_feature(enable = "aes", enable = "sse2")]
     unsafe fn key_schedule_192(key: &[u8], enc: &mut Vec<march::__m128i>) {
         let mut temp1 = march::_mm_loadu_si128(transmute(key.as_ptr()));
-        let mut temp3= march::_mm_loadu_si128(transmute(key.as_ptr().offset(16)));
+        let mut temp3= march::_mm_loadl_epi64(transmute(key.as_ptr().offset(16)));
         enc.push(temp1);
         let key_temp= temp3;
         let mut temp2= march::_mm_aeskeygenassist_si128 (temp3,0x1);
-- 
2.43.0


From 36df6364bd7a6924f0d6daf966d82401433d47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:26 +0000
Subject: [PATCH 02/32] fix: start SHA-512/t with a zero length and mask its
 last byte correctly

---
 src/sha/sha512.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sha/sha512.rs b/src/sha/sha512.rs
index a272922..9140fbe 100644
--- a/src/sha/sha512.rs
+++ b/src/sha/sha512.rs
@@ -207,6 +207,7 @@ impl SHA512T {
             let mut _x = Vec::new();
             sha_.checksum(&mut _x);
             sha_.is_checked = false;
+            sha_.len = 0;
             Some(
                 SHA512T {
                     sha_,
@@ -239,7 +240,7 @@ impl Digest for SHA512T {
         match digest.pop() {
             Some(x) => {
                 let y = if rom > 0 {
-                    (x >> (8 - rom)) << rom
+                    (x >> (8 - rom)) << (8 - rom)
                 } else {
                     x
                 };
-- 
2.43.0


From 655ccb8e58c0b3dc8775764ca5dfedac4256d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:29 +0000
Subject: [PATCH 03/32] fix: pad only up to the next block boundary

When the data plus the 0x80 marker already filled a whole number of blocks,
the default padding appended another block of zeros. Stream decryption only
removes padding from the last block, so such messages could not be decrypted.
---
 src/cipher_mode/padding.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 58f1990..6d5cab8 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -28,13 +28,9 @@ impl<C: Cipher> DefaultPadding<C> {
 impl<C: Cipher> Padding for DefaultPadding<C> {
     fn padding(&self, buf: &mut Vec<u8>) {
         buf.push(0x80);
-        let old_len = buf.len();
-        if self.block_size < old_len {
-            buf.resize(old_len + (self.block_size - (old_len % self.block_size)), 0);
-        } else if self.block_size > old_len {
-            buf.resize(self.block_size, 0);
-        } else {
-            buf.resize(self.block_size << 1, 0);
+        let rem = buf.len() % self.block_size;
+        if rem > 0 {
+            buf.resize(buf.len() + (self.block_size - rem), 0);
         }
     }
 
-- 
2.43.0


From 59d4ce44c11823ea010dcd6402de364cf7b69822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:29 +0000
Subject: [PATCH 04/32] fix: refuse data that does not end in a valid padding

Removing the default padding skipped over trailing bytes that were neither
0x00 nor 0x80, and then cut the data at the wrong place.
---
 src/cipher_mode/padding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cipher_mode/padding.rs b/src/cipher_mode/padding.rs
index 6d5cab8..03e62cd 100644
--- a/src/cipher_mode/padding.rs
+++ b/src/cipher_mode/padding.rs
@@ -42,6 +42,8 @@ impl<C: Cipher> Padding for DefaultPadding<C> {
             } else if e == 0x80 {
                 buf.truncate(buf.len() - len - 1);
                 return Ok(buf.len());
+            } else {
+                break;
             }
         }
         
-- 
2.43.0


From ac05fe952f105aaf70b20f78ccc224c9304518f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:29 +0000
Subject: [PATCH 05/32] fix: chain the padded last block in CBC encryption

The block made from the trailing bytes and the padding was encrypted without
being combined with the previous ciphertext block.
---
 src/cipher_mode/cbc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 3c71d60..aa11742 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -152,9 +152,12 @@ impl<C, P, IV> Cipher for CBC<C, P, IV>
         let mut data = tmp.as_slice();
         while !data.is_empty() {
             let len = std::cmp::min(block_len, data.len());
-            let tmp = &data[..len];
-            match self.cipher.encrypt(txt, tmp) {
+            cur_iv.truncate(len);
+            Self::xor_iv(&data[..len], &mut cur_iv);
+            match self.cipher.encrypt(txt, cur_iv.as_slice()) {
                 Ok(_) => {
+                    cur_iv.clear();
+                    cur_iv.extend_from_slice(txt.as_slice());
                     dst.append(txt);
                     data = &data[len..];
                 },
-- 
2.43.0


From 7e7c2616957e430a76dae0abc88a43b7c1b90b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:29 +0000
Subject: [PATCH 06/32] fix: return a finished CBC encryption stream to its
 initial vector

Without padding the chaining value was left over from the previous message,
so the next message on the same stream was not encrypted from the initial
vector.
---
 src/cipher_mode/cbc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index aa11742..056b762 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -307,8 +307,7 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
             Self::xor_iv(txt, tmp, &self.ij);
             match self.cbc.cipher.encrypt(&mut self.ij, txt.as_slice()) {
                 Ok(_) => {
-                    self.pond.append(&mut self.ij);
-                    self.ij.extend(self.cbc.cur_iv.iter());
+                    self.pond.extend(self.ij.iter());
                     data = &data[len..];
                 },
                 Err(e) => {
@@ -318,6 +317,8 @@ impl<C, P, IV> EncryptStream for CBCEncrypt<C, P, IV>
         }
         
         self.data.clear();
+        self.ij.clear();
+        self.ij.extend(self.cbc.cur_iv.iter());
         Ok(Pond::new(&mut self.pond, true))
     }
 }
-- 
2.43.0


From fa98a8ae31fcda597f8bbf42064efef9956fd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:30 +0000
Subject: [PATCH 07/32] fix: let an empty ECB or CBC decryption stream finish

Finishing without any data handed the empty block to the cipher and failed,
although the encryption stream produces exactly that for an empty message
without padding.
---
 src/cipher_mode/cbc.rs | 12 +++++++++++-
 src/cipher_mode/ecb.rs | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cipher_mode/cbc.rs b/src/cipher_mode/cbc.rs
index 056b762..b985eca 100644
--- a/src/cipher_mode/cbc.rs
+++ b/src/cipher_mode/cbc.rs
@@ -80,6 +80,15 @@ impl<C, P, IV> CBC<C, P, IV>
         }
     }
     
+    /// the block a decryption stream ends with, none if the stream was empty
+    fn decrypt_last(&self, txt: &mut Vec<u8>, block: &[u8]) -> Result<(), CryptoError> {
+        if block.is_empty() {
+            Ok(())
+        } else {
+            self.cipher.decrypt(txt, block).map(|_| {})
+        }
+    }
+    
     pub fn encrypt_stream(self) -> CBCEncrypt<C, P, IV> {
         CBCEncrypt {
             pond: Vec::with_capacity(self.cipher.block_size().unwrap_or(1)),
@@ -363,7 +372,8 @@ impl<C, P, IV> DecryptStream for CBCDecrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.cbc.get_buf();
-        match self.cbc.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        match self.cbc.decrypt_last(txt, self.data.as_slice()) {
             Ok(_) => {
                 txt.iter_mut().zip(self.ij.iter()).for_each(|(a, &b)| {
                     *a ^= b;
diff --git a/src/cipher_mode/ecb.rs b/src/cipher_mode/ecb.rs
index 7640665..257f983 100644
--- a/src/cipher_mode/ecb.rs
+++ b/src/cipher_mode/ecb.rs
@@ -75,6 +75,15 @@ impl<C: Cipher, P: Padding> ECB<C, P> {
         }
     }
     
+    /// the block a decryption stream ends with, none if the stream was empty
+    fn decrypt_last(&self, txt: &mut Vec<u8>, block: &[u8]) -> Result<(), CryptoError> {
+        if block.is_empty() {
+            Ok(())
+        } else {
+            self.cipher.decrypt(txt, block).map(|_| {})
+        }
+    }
+    
     pub fn encrypt_stream(self) -> ECBEncrypt<C, P> {
         ECBEncrypt {
             data: Vec::with_capacity(self.cipher.block_size().unwrap_or(1)),
@@ -305,7 +314,8 @@ impl<C, P> DecryptStream for ECBDecrypt<C, P>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         let txt = self.ecb.get_buf();
-        match self.ecb.cipher.decrypt(txt, self.data.as_slice()) {
+        txt.clear();
+        match self.ecb.decrypt_last(txt, self.data.as_slice()) {
             Ok(_) => {
                 if let Err(e) = self.ecb.padding.unpadding(txt) {
                     Err(e)
-- 
2.43.0


From 8e3a54ae3affbe66081e91d60ed82612696e530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:30 +0000
Subject: [PATCH 08/32] fix: refuse a partial CFB segment instead of dropping
 it

Without padding, encrypting data that is not a whole number of segments
returned success with the trailing bytes missing.
---
 src/cipher_mode/cfb.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index 97961de..a432a7c 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -121,6 +121,16 @@ impl<C, P, IV> CFB<C, P, IV>
         }
     }
     
+    /// `len` must be a whole number of segments
+    fn check_segments(&self, len: usize) -> Result<(), CryptoError> {
+        if len % self.s != 0 {
+            Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
+                format!("Wrong data len: {}, the data length(in bytes) should be a multiple of {}", len, self.s)))
+        } else {
+            Ok(())
+        }
+    }
+    
     fn encrypt_inner(&self, ij: &mut Vec<u8>, dst: &mut Vec<u8>, mut data: &[u8]) -> Result<usize, CryptoError> {
         let oj = self.get_buf();
         while data.len() >= self.s {
@@ -199,15 +209,13 @@ impl<C, P, IV> Cipher for CFB<C, P, IV>
         let mut data = plaintext_block[(plaintext_block.len() - remain)..plaintext_block.len()].to_vec();
         
         self.padding.padding(&mut data);
+        self.check_segments(data.len())?;
 
         self.encrypt_inner(&mut ij, dst, data.as_slice())
     }
 
     fn decrypt(&self, dst: &mut Vec<u8>, cipher_block: &[u8]) -> Result<usize, CryptoError> {
-        if cipher_block.len() % self.s != 0 {
-            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter,
-                format!("Wrong ciphertext len: {}, the ciphertext block length(in bytes) should be equal to {}", cipher_block.len(), self.s)));
-        }
+        self.check_segments(cipher_block.len())?;
         
         dst.clear();
         let mut ij = self.cur_iv.clone();
@@ -284,6 +292,7 @@ impl<C, P, IV> EncryptStream for CFBEncrypt<C, P, IV>
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
         self.cfb.padding.padding(&mut self.data);
+        self.cfb.check_segments(self.data.len())?;
 
         if let Err(e) = self.cfb.encrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
-- 
2.43.0


From 4222a322f54670bce7e0156fdcffe8f9f42bde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:30 +0000
Subject: [PATCH 09/32] fix: keep the last block back in CFB stream decryption

All segments were decrypted and handed out as they arrived, so the padding
could no longer be removed when the output had been drawn off. A partial last
segment caused a panic.
---
 src/cipher_mode/cfb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cipher_mode/cfb.rs b/src/cipher_mode/cfb.rs
index a432a7c..25baeb6 100644
--- a/src/cipher_mode/cfb.rs
+++ b/src/cipher_mode/cfb.rs
@@ -314,7 +314,9 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
             self.data.extend_from_slice(data);
         }
         
-        let bound = self.data.len() - (self.data.len() % self.cfb.s);
+        // the last block may carry the padding, it is kept until the stream is finished
+        let bound = self.data.len().saturating_sub(self.cfb.cur_iv.len());
+        let bound = bound - (bound % self.cfb.s);
         let data = &self.data.as_slice()[..bound];
         
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, data) {
@@ -330,6 +332,7 @@ impl<C, P, IV> DecryptStream for CFBDecrypt<C, P, IV>
     }
 
     fn finish(&mut self) -> Result<Pond, CryptoError> {
+        self.cfb.check_segments(self.data.len())?;
         if let Err(e) = self.cfb.decrypt_inner(&mut self.ij, &mut self.pond, self.data.as_slice()) {
             Err(e)
         } else {
-- 
2.43.0


From 6809de2ba1258faf9957fe050fb695332e185ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:03 +0000
Subject: [PATCH 10/32] fix: report the bytes written when ZUC only uses
 buffered keystream

A message served completely from the keystream left over by the previous call
was encrypted, but the reported length was zero.
---
 src/zuc/zuc_cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zuc/zuc_cipher.rs b/src/zuc/zuc_cipher.rs
index 2223a2a..61dec07 100644
--- a/src/zuc/zuc_cipher.rs
+++ b/src/zuc/zuc_cipher.rs
@@ -103,7 +103,7 @@ impl Cipher for ZUCCipher {
         self.get_key().truncate(self.get_key().len() - len);
         
         if plaintext_block.is_empty() {
-            return Ok(0);
+            return Ok(dst.len());
         }
 
         let len = (plaintext_block.len() + 3) >> 2;
-- 
2.43.0


From 01c0e9cc9ba62a2e1b6b49b972693d95311a6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:03 +0000
Subject: [PATCH 11/32] fix: keep the ZUC MAC state across writes and checksums

Every write drew new key words and restarted the bit position, so a message
written in pieces, or an empty one, got a wrong code. Asking for the checksum
again changed it, because it was never marked as computed.
---
 src/zuc/zuc_mac.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/zuc/zuc_mac.rs b/src/zuc/zuc_mac.rs
index 0f91371..b128e85 100644
--- a/src/zuc/zuc_mac.rs
+++ b/src/zuc/zuc_mac.rs
@@ -38,7 +38,8 @@ impl ZUCMac {
             iv[15] = iv[7];
 
             match ZUC::from_slice(ck, iv.as_ref()) {
-                Ok(z) => {
+                Ok(mut z) => {
+                    let (key0, key1) = (z.zuc(), z.zuc());
                     let mut tmp = [0u8; 16];
                     tmp.iter_mut().zip(ck.iter()).for_each(|(e, &k)| {
                         *e = k;
@@ -47,8 +48,8 @@ impl ZUCMac {
                         zuc: z,
                         ck: tmp,
                         iv,
-                        key0: 0,
-                        key1: 0,
+                        key0,
+                        key1,
                         length: 0,
                         t: 0,
                         is_check: false,
@@ -82,10 +83,8 @@ impl Digest for ZUCMac {
         
         let bound = data.len() << 3;
         
-        self.key0 = self.zuc.zuc();
-        self.key1 = self.zuc.zuc();
         for i in 0..bound {
-            let rem = i & 31;
+            let rem = (self.length + i) & 31;
             if Self::is_one(data, i) {
                 if rem == 0 {
                     self.t ^= self.key0;
@@ -112,7 +111,7 @@ impl Digest for ZUCMac {
                 self.t ^= (self.key0 << rem) | (self.key1 >> (32 - rem));
                 self.t ^= self.zuc.zuc();
             }
-
+            self.is_check = true;
         }
         
         digest.clear();
@@ -121,9 +120,10 @@ impl Digest for ZUCMac {
 
     fn reset(&mut self) {
         self.zuc.set_slice(self.ck.as_ref(), self.iv.as_ref()).unwrap();
-        self.key0 = 0;
-        self.key1 = 0;
+        self.key0 = self.zuc.zuc();
+        self.key1 = self.zuc.zuc();
         self.length = 0;
         self.t = 0;
+        self.is_check = false;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 65b133afe760d081f8640f086d69d1bdd751de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 12/32] Add constructors for keys and curves behind the
 verif_hooks cfg

Only compiled with RUSTFLAGS="--cfg verif_hooks"; lets verification harnesses
build RSA keys and curves from their parts.
---
 src/elliptic/elliptic.rs |  9 ++++++++-
 src/rsa/rsa.rs           | 19 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5074b4a..5c43e2f 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -484,4 +484,11 @@ impl Clone for CurveParams {
             name: self.name.clone(),
         }
     }
-}
\ No newline at end of file
+}
+/// construction of a curve from its parameters, only for verification harnesses
+#[cfg(verif_hooks)]
+impl CurveParams {
+    pub fn verif_from_parts(p: BigInt, n: BigInt, b: BigInt, gx: BigInt, gy: BigInt, bit_size: usize) -> Self {
+        Self { p, n, b, gx, gy, bit_size, name: String::from("verif") }
+    }
+}
diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 5d56232..6b88b71 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -584,4 +584,21 @@ impl Debug for PrivateKey {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self)
     }
-}
\ No newline at end of file
+}
+/// construction of keys from their parts, only for verification harnesses
+#[cfg(verif_hooks)]
+impl PrivateKey {
+    /// `crt` selects the second private key representation (with precomputed values)
+    pub fn verif_from_parts(n: &BigInt, e: &BigInt, d: &BigInt, primes: &Vec<BigInt>, crt: bool) -> Result<Self, CryptoError> {
+        let mut key = Self::from_bigint_uncheck(n, e, d, primes)?;
+        if crt {
+            key.precomputed = PrecomputedValues::new(primes[0].clone(), primes[1].clone(), d.clone(), &primes.as_slice()[2..]);
+        }
+        Ok(key)
+    }
+    
+    /// (n, d, primes)
+    pub fn verif_parts(&self) -> (&BigInt, &BigInt, &[BigInt]) {
+        (&self.pk.n, &self.d, self.primes.as_slice())
+    }
+}
-- 
2.43.0


From 2fc5a231cbbb6c3e644aa6474102bd78ccdfa66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 13/32] fix: refuse an RSA ciphertext equal to the modulus

The private operation must refuse every integer not below the modulus, but the
modulus itself passed the range test.
---
 src/rsa/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 6b88b71..f0df11d 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -246,7 +246,7 @@ impl PrivateKey {
     /// RSADP: RSA decrypt primitive  
     /// if `rd` is some, then enabled RSA blinding
     pub fn decrypt<R: IterSource<u32>>(&self, c: &BigInt, rd: Option<&mut R>) -> Result<BigInt, CryptoError> {
-        if c > &self.pk.n {
+        if c >= &self.pk.n {
             return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "The cipher text integer is too big"));
         }
         
-- 
2.43.0


From 2436d93a9cf12195b03a3c4f5ed1f2ea9a698f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 14/32] fix: draw another RSA blinding factor if the first has
 no inverse

mod_inverse does not report a missing inverse as NaN, so a factor sharing a
prime with the modulus gave a wrong plaintext.
---
 src/rsa/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index f0df11d..96867fd 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -274,7 +274,10 @@ impl PrivateKey {
                     };
                     
                     let mi = r.mod_inverse(self.pk.n.clone());
-                    if !mi.is_nan() {
+                    // r has no inverse if it shares a factor with n
+                    let mut unit = r.clone() * mi.clone();
+                    unit.rem_euclid_assign(self.pk.n.clone());
+                    if unit == 1u32 {
                         break (r, Some(mi));
                     }
                 };
-- 
2.43.0


From bff9a0daed18953d1f008c3aded352fd055e16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 15/32] fix: reduce before subtracting in the RSA CRT
 recombination

A difference below minus the prime (second prime more than twice the first, or
any further prime) was not brought into range and gave a wrong plaintext.
---
 src/rsa/rsa.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rsa/rsa.rs b/src/rsa/rsa.rs
index 96867fd..70e7602 100644
--- a/src/rsa/rsa.rs
+++ b/src/rsa/rsa.rs
@@ -301,7 +301,7 @@ impl PrivateKey {
                 c.exp(&self.precomputed.d_p, &self.primes[0]),
                 c.exp(&self.precomputed.d_q, &self.primes[1]),
             );
-            m1 -= m2.clone();
+            m1 -= m2.rem_euclid(self.primes[0].clone());
             if m1.signnum().unwrap() < 0 {
                 m1 += self.primes[0].clone();
             }
@@ -313,12 +313,12 @@ impl PrivateKey {
             // m1 as m
             for (values, prime) in self.precomputed.crt_values.iter().zip(self.primes.iter().skip(2)) {
                 let mut m_i = c.exp(&values.exp, prime);
-                m_i -= m1.clone();
-                m_i *= values.coeff.clone();
-                m_i.rem_euclid_assign(prime.clone());
+                m_i -= m1.rem_euclid(prime.clone());
                 if m_i.signnum().unwrap() < 0 {
                     m_i += prime.clone();
                 }
+                m_i *= values.coeff.clone();
+                m_i.rem_euclid_assign(prime.clone());
                 
                 m_i *= values.r.clone();
                 m1 += m_i;
-- 
2.43.0


From 96985d64e273c7b204e877a2edcad725be246c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 16/32] fix: refuse OAEP ciphertexts shorter than the modulus

---
 src/rsa/oaep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 851c5e9..8a72dc7 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -103,7 +103,7 @@ impl<H, R> OAEPInner<H, R>
         kp.public_key().is_valid()?;
         
         let (k, h_len) = (kp.public_key().modulus_len(), (self.hf.bits_len() + 7) >> 3);
-        if k < cipher_text.len() || k < ((h_len << 1) + 2) {
+        if k != cipher_text.len() || k < ((h_len << 1) + 2) {
             return Err(CryptoError::new(CryptoErrorKind::InvalidPublicKey, "The public key modulus is too short"));
         }
         
-- 
2.43.0


From b88a1bebcd85e46229bc61a074a4d6be37304848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 17/32] fix: refuse OAEP blocks without the 0x01 separator

A block of only zero bytes after the label hash decrypted to an empty message.
---
 src/rsa/oaep.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rsa/oaep.rs b/src/rsa/oaep.rs
index 8a72dc7..fa07d59 100644
--- a/src/rsa/oaep.rs
+++ b/src/rsa/oaep.rs
@@ -143,16 +143,22 @@ impl<H, R> OAEPInner<H, R>
         }
         
         let (rest_bound, mut idx) = ((db_bound.0 + h_len, db_bound.1), db_bound.0 + h_len);
+        let mut is_separated = false;
         for &x in (&em[(rest_bound.0)..(rest_bound.1)]).iter() {
             idx += 1;
             if x != 0x00 {
                 if x != 0x01 {
                     return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
                 }
+                is_separated = true;
                 break;
             }
         }
         
+        if !is_separated {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid message encoding format"));
+        }
+        
         msg.clear();
         msg.extend((&em[idx..]).iter());
         Ok(())
-- 
2.43.0


From 28c76a07722ea26b7a4e53604fe6b104264eabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 18/32] fix: encrypt empty messages with RSAES-PKCS1-v1_5

The result was an empty ciphertext, which decryption refuses.
---
 src/rsa/pkcs1.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 244e54f..20a92eb 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -39,9 +39,6 @@ impl<H, R> PKCS1Inner<H, R>
     
     fn encrypt(&mut self, cipher: &mut Vec<u8>, msg: &[u8]) -> Result<(), CryptoError> {
         cipher.clear();
-        if msg.is_empty() {
-            return Ok(());
-        }
         
         self.kp.public_key().is_valid()?;
         
-- 
2.43.0


From 6d605e1e0ef532f37c60b0d0356d708803f5190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 19/32] fix: fail RSAES-PKCS1-v1_5 encryption if the random
 source ends

The block was encrypted with too few padding bytes.
---
 src/rsa/pkcs1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 20a92eb..8673735 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -64,6 +64,9 @@ impl<H, R> PKCS1Inner<H, R>
             }
         }
         em.truncate(bound);
+        if em.len() != bound {
+            return Err(CryptoError::new(CryptoErrorKind::InnerErr, "The random source does not provide enough padding"));
+        }
         em.push(0x00);
         em.extend(msg.iter());
         
-- 
2.43.0


From 38be7f9df756ed9e51192a9e7ca24209d33eca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 20/32] fix: check length and range of an RSASSA-PKCS1-v1_5
 signature

RFC 8017 8.2.2 requires the length of the modulus and a representative below
the modulus.
---
 src/rsa/pkcs1.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 8673735..96798b1 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -182,7 +182,14 @@ impl<H, R> PKCS1Inner<H, R>
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "The public key modulus length is too short"));
         }
         
+        if sign.len() != k {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature length doesn't match"));
+        }
+        
         let c = BigInt::from_be_bytes(sign);
+        if &c >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature representative out of range"));
+        }
         let m = self.kp.public_key().encrypt(&c);
         let mut em = m.to_be_bytes();
         let old_len = em.len();
-- 
2.43.0


From f2a96a777707bc27ea5243e16e7b3966516f9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 21/32] fix: report an error for hashes without PKCS1
 identifier instead of panicking

---
 src/rsa/pkcs1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa/pkcs1.rs b/src/rsa/pkcs1.rs
index 96798b1..7f396a7 100644
--- a/src/rsa/pkcs1.rs
+++ b/src/rsa/pkcs1.rs
@@ -243,7 +243,7 @@ impl<H, R> PKCS1Inner<H, R>
         } else if TypeId::of::<H>() == TypeId::of::<SHA512>() {
             Ok(vec![0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40])
         } else {
-            unreachable!(format!("not suuport {}", std::any::type_name::<H>()));
+            Err(CryptoError::new(CryptoErrorKind::NotSupportUsage, format!("{} is not currently supported", std::any::type_name::<H>())))
         }
     }
     
-- 
2.43.0


From 49817a78c806e36aa769e71f5e04746a7d0dacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 22/32] fix: mask the leading bits of a PSS block correctly in
 verification

The shift amounts overflowed, which panicked in checked builds and refused
valid signatures for many modulus lengths otherwise.
---
 src/rsa/pss.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 4a8b5c0..164a290 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -220,7 +220,7 @@ impl<H, R> PSS<H, R>
         let (db_start, db_end) = (0, em_len - h_len - 1);
         let (h_start, h_end) = (db_end, em_len - 1);
         
-        if (em[0] & (0xffu8 << (8 - ((em_len << 3) - em_bits)))) != 0 {
+        if (em[0] & !(0xffu8 >> ((em_len << 3) - em_bits))) != 0 {
             return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Invalid head tag"));
         }
         
@@ -228,7 +228,7 @@ impl<H, R> PSS<H, R>
         let h = &em[h_start..h_end];
         Self::mgf1_xor(db.as_mut_slice(), h, &mut self.hf);
         
-        db[0] &= 0xff >> ((em_len >> 3) - em_bits);
+        db[0] &= 0xff >> ((em_len << 3) - em_bits);
 
         for &e in db.iter().take(em_len - h_len - self.salt_len() - 2) {
             if e != 0x00 {
-- 
2.43.0


From 75e059ebc5a5f9dff575fa5aabddfc0bbe375bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 23/32] fix: fail PSS signing if the random source ends

A shorter salt gave a signature that does not verify.
---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index 164a290..e33576f 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -287,6 +287,9 @@ impl<H, R> PSS<H, R>
             x.to_be_bytes().iter().for_each(|&y| {salt.push(y);});
         });
         salt.truncate(salt_len);
+        if salt.len() != salt_len {
+            return Err(CryptoError::new(CryptoErrorKind::InnerErr, "The random source does not provide enough salt"));
+        }
         
         self.sign_with_salt(sign, m_hash, salt.as_slice())
     }
-- 
2.43.0


From 2aafecb63d5ceacebcd17f90f790ae2e5d12a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:41 +0000
Subject: [PATCH 24/32] fix: refuse PSS signatures not below the modulus

---
 src/rsa/pss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsa/pss.rs b/src/rsa/pss.rs
index e33576f..54a8e13 100644
--- a/src/rsa/pss.rs
+++ b/src/rsa/pss.rs
@@ -302,6 +302,9 @@ impl<H, R> PSS<H, R>
         }
         
         let s = BigInt::from_be_bytes(sign);
+        if &s >= self.kp.public_key().modulus() {
+            return Err(CryptoError::new(CryptoErrorKind::VerificationFailed, "Signature representative out of range"));
+        }
         let m = self.kp.public_key().encrypt(&s);
         
         let em_bits = n_bits - 1;
-- 
2.43.0


From 29ce7fb51e2c841fa716cd70daaf20985d18fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:36 +0000
Subject: [PATCH 25/32] Add key accessors and key generation for fixed DSA
 parameters behind cfg(verif_hooks)

---
 src/dsa/dsa.rs           | 19 ++++++++++++++++++-
 src/elliptic/key_pair.rs | 18 +++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index b7bae9d..12a815b 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -542,4 +542,21 @@ impl<H, R> Signature<SignatureContent> for DSA<H, R>
         let (r, s) = signature.to_bigint();
         self.verify_inner(message, &r, &s)
     }
-}
\ No newline at end of file
+}
+
+/// generation of a key for given parameters, only for verification harnesses
+#[cfg(verif_hooks)]
+impl<H, R> DSA<H, R>
+    where R: IterSource<u32> {
+    pub fn verif_generate_key(dp: DomainParameters, rd: &mut R) -> Result<PrivateKey, CryptoError> {
+        Self::generate_key_inner(dp, rd)
+    }
+}
+
+/// the parts of a key, only for verification harnesses
+#[cfg(verif_hooks)]
+impl PrivateKey {
+    pub fn verif_parts(&self) -> (&BigInt, &BigInt) {
+        (&self.x, &self.pk.y)
+    }
+}
diff --git a/src/elliptic/key_pair.rs b/src/elliptic/key_pair.rs
index dbe61ca..28ced9f 100644
--- a/src/elliptic/key_pair.rs
+++ b/src/elliptic/key_pair.rs
@@ -118,4 +118,20 @@ impl Debug for PrivateKey {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self)
     }
-}
\ No newline at end of file
+}
+
+/// the parts of a key, only for verification harnesses
+#[cfg(verif_hooks)]
+impl PublicKey {
+    pub fn verif_parts(&self) -> (&BigInt, &BigInt) {
+        (&self.qx, &self.qy)
+    }
+}
+
+/// the parts of a key, only for verification harnesses
+#[cfg(verif_hooks)]
+impl PrivateKey {
+    pub fn verif_secret(&self) -> &BigInt {
+        &self.d
+    }
+}
-- 
2.43.0


From a1b6e2b71a0e89c2b47b5e4ebfeef85d624cba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:36 +0000
Subject: [PATCH 26/32] fix: truncate the digest to the length of q when
 verifying DSA signatures

---
 src/dsa/dsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsa/dsa.rs b/src/dsa/dsa.rs
index 12a815b..58a151f 100644
--- a/src/dsa/dsa.rs
+++ b/src/dsa/dsa.rs
@@ -331,7 +331,8 @@ impl<H, R> DSA<H, R>
         self.hf.write(msg);
         self.hf.checksum(&mut hm);
         
-        let mut z = BigInt::from_be_bytes(hm.as_slice());
+        let tmp = std::cmp::min(h_len, n >> 3);
+        let mut z = BigInt::from_be_bytes(&hm.as_slice()[..tmp]);
         z *= w.clone();
         let mut u1 = z;
         u1.rem_euclid_assign(dp.q.clone());
-- 
2.43.0


From 32791453bebbb51bb68f8fd587b696d7fbabfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:36 +0000
Subject: [PATCH 27/32] fix: report a failing random source in ECDSA key
 generation

---
 src/ecdsa/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa/ecdsa.rs b/src/ecdsa/ecdsa.rs
index 3924ba1..a614f8c 100644
--- a/src/ecdsa/ecdsa.rs
+++ b/src/ecdsa/ecdsa.rs
@@ -72,6 +72,9 @@ impl<H, R, C> ECDSA<H, R, C>
             }
         }
         buf.truncate(b);
+        if buf.len() < b {
+            return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source delivered too few bytes"));
+        }
         
         Ok(Self::rand_field_element_inner(params, buf.as_slice()))
     }
-- 
2.43.0


From 8754e1b4f9498e71de029092f2d174ca3eb47593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:36 +0000
Subject: [PATCH 28/32] fix: report a failing random source in elliptic curve
 key generation

---
 src/elliptic/elliptic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 5c43e2f..6574bfe 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -149,6 +149,9 @@ impl CurveParams {
                 priv_key.push((x & 0xff) as u8);
             });
             priv_key.truncate(b_len);
+            if priv_key.len() < b_len {
+                return Err(CryptoError::new(CryptoErrorKind::RandError, "The random source delivered too few bytes"));
+            }
 
             // We have to mask off any excess bits in the case that the size of the
             // underlying field is not a whole number of bytes.
-- 
2.43.0


From 6b0ae4f5c6f659668cbca58221ef679dd5760cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:36 +0000
Subject: [PATCH 29/32] fix: never generate zero as an elliptic curve private
 key

---
 src/elliptic/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/elliptic.rs b/src/elliptic/elliptic.rs
index 6574bfe..d6836b8 100644
--- a/src/elliptic/elliptic.rs
+++ b/src/elliptic/elliptic.rs
@@ -162,7 +162,7 @@ impl CurveParams {
 
             // If the scalar is out of range, sample another random number.
             let key = BigInt::from_be_bytes(priv_key.as_slice());
-            if key < self.n {
+            if key.signnum() == Some(1) && key < self.n {
                 let (qx, qy) = self.scalar_inner(&self.gx, &self.gy, priv_key.as_slice());
                 if !qx.is_nan() && !qy.is_nan() {
                     return Ok(
-- 
2.43.0


From af476cfa7d33d5346d552c686fceab381b8f1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:31 +0000
Subject: [PATCH 30/32] fix: P-224 minimal form of p - 1 and of values just
 above p

The final reduction subtracted p from p - 1, because the test for the
fourth limb being larger also accepted equality, and it did not propagate
the borrow out of the lowest limb. Both left limbs of 0xffffffff behind,
so coordinates were wrong.
---
 src/elliptic/p224.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 3c76566..35ee9b5 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -458,7 +458,7 @@ impl CurveP224 {
         //    If it's = 0xffff000 and top4AllOnes != 0 and bottom3NonZero != 0,
         //      then the whole value is >= p
         //    If it's < 0xffff000, then the whole value is < p
-        let n = out[3].wrapping_sub( 0xffff000);
+        let n = 0xffff000u32.wrapping_sub(out[3]);
         let mut out3_equal = n;
         out3_equal |= out3_equal >> 16;
         out3_equal |= out3_equal >> 8;
@@ -467,8 +467,8 @@ impl CurveP224 {
         out3_equal |= out3_equal >> 1;
         out3_equal = !((((out3_equal << 31) as i32) >> 31) as u32);
 
-        // If out[3] > 0xffff000 then n's MSB will be zero.
-        let out3_gt = !(((n as i32) >> 31) as u32);
+        // If out[3] > 0xffff000 then n's MSB will be one.
+        let out3_gt = ((n as i32) >> 31) as u32;
 
         let mask = top4_all_ones & ((out3_equal & bottom3_non_zero) | out3_gt);
         out[0] = out[0].wrapping_sub(1 & mask);
@@ -477,6 +477,15 @@ impl CurveP224 {
         out[5] = out[5].wrapping_sub(0xfffffff & mask);
         out[6] = out[6].wrapping_sub(0xfffffff & mask);
         out[7] = out[7].wrapping_sub(0xfffffff & mask);
+
+        // Do one final carry down, in case we made out[0] negative. One of
+        // out[0..4] is positive and able to absorb the -1, or the value would
+        // have been < p and nothing would have been subtracted.
+        (0..3).for_each(|i| {
+            let mask = ((out[i] as i32) >> 31) as u32;
+            out[i] = out[i].wrapping_add((1 << 28) & mask);
+            out[i+1] = out[i+1].wrapping_sub(1 & mask);
+        });
     }
     
     fn p224_copy_conditional(out: &mut P224FieldElement, a: &P224FieldElement, mut control: u32) {
-- 
2.43.0


From bc8737bf9f85637a8f7b9670df7c43491778eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:31 +0000
Subject: [PATCH 31/32] fix: P-256 reduction panics when a limb is zero

The value one below the limb is masked out when the limb is zero, but the
subtraction overflows first in builds with overflow checks.
---
 src/elliptic/p256.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 1d66415..0fbae8b 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -421,14 +421,14 @@ impl CurveP256 {
             // At position 200, which is the starting bit position for word 7, we
             // have a factor of 0xf000000 = 2**28 - 2**24.
             tmp2[i+7] = tmp2[i+7].wrapping_add(0x10000000 & x_mask);
-            tmp2[i+8] = tmp2[i+8].wrapping_add((x - 1) & x_mask);
+            tmp2[i+8] = tmp2[i+8].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+7] = tmp2[i+7].wrapping_sub((x << 24) & BOTTOM_28BITS);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x >> 4);
 
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub(x);
             tmp2[i+8] = tmp2[i+8].wrapping_add((x << 28) & BOTTOM_29BITS);
-            tmp2[i+9] = tmp2[i+9].wrapping_add(((x >> 1) - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add((x >> 1).wrapping_sub(1) & x_mask);
 
             if (i + 1) == P256_LIMBS {
                 break;
@@ -449,13 +449,13 @@ impl CurveP256 {
             // 0x1e000000 = 2**29 - 2**25. Since we have not updated i, the 8th
             // word from i+1 is i+8.
             tmp2[i+8] = tmp2[i+8].wrapping_add(0x20000000 & x_mask);
-            tmp2[i+9] = tmp2[i+9].wrapping_add((x - 1) & x_mask);
+            tmp2[i+9] = tmp2[i+9].wrapping_add(x.wrapping_sub(1) & x_mask);
             tmp2[i+8] = tmp2[i+8].wrapping_sub((x << 25) & BOTTOM_29BITS);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x >> 4);
 
             tmp2[i+9] = tmp2[i+9].wrapping_add(0x10000000 & x_mask);
             tmp2[i+9] = tmp2[i+9].wrapping_sub(x);
-            tmp2[i+10] = tmp2[i+10].wrapping_add((x - 1) & x_mask);
+            tmp2[i+10] = tmp2[i+10].wrapping_add(x.wrapping_sub(1) & x_mask);
         }
 
         // We merge the right shift with a carry chain. The words above 2**257 have
-- 
2.43.0


From 1b04b38b3ecba879406df933271d0d15d39dd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:31 +0000
Subject: [PATCH 32/32] Expose P-224 and P-256 field operations under
 cfg(verif_hooks)

---
 src/elliptic/p224.rs | 33 ++++++++++++++++++++++++++++++++-
 src/elliptic/p256.rs | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/p224.rs b/src/elliptic/p224.rs
index 35ee9b5..3560172 100644
--- a/src/elliptic/p224.rs
+++ b/src/elliptic/p224.rs
@@ -820,4 +820,35 @@ impl EllipticCurve for CurveP224 {
         Self::p224_scalar_mult(&mut x2, &mut y2, &mut z2, &self.gx, &self.gy, &z1, scalar.as_slice());
         Self::p224_to_affine(&mut x2, &mut y2, &mut z2)
     }
-}
\ No newline at end of file
+}
+/// the field operations, only for verification harnesses
+#[cfg(verif_hooks)]
+impl CurveP224 {
+    /// 0 a*b, 1 a*a, 2 a+b, 3 a-b, 4 a reduced, 5 a in minimal form, 6 whether a is zero
+    pub fn verif_field(op: usize, a: &[u32; 8], b: &[u32; 8]) -> [u32; 8] {
+        let (mut out, mut tmp) = (PFE_DF, PLFE_DF);
+        match op {
+            0 => Self::p224_mul(&mut out, a, b, &mut tmp),
+            1 => Self::p224_square(&mut out, a, &mut tmp),
+            2 => Self::p224_add(&mut out, a, b),
+            3 => Self::p224_sub(&mut out, a, b),
+            4 => {
+                out = *a;
+                Self::p224_reduce(&mut out);
+            }
+            5 => Self::p224_contract(&mut out, a),
+            _ => out[0] = Self::p224_is_zero(a),
+        }
+        out
+    }
+
+    pub fn verif_from_bigint(n: &BigInt) -> [u32; 8] {
+        let mut out = PFE_DF;
+        Self::p224_from_bigint(&mut out, n);
+        out
+    }
+
+    pub fn verif_to_bigint(a: &[u32; 8]) -> BigInt {
+        Self::p224_to_bigint(a)
+    }
+}
diff --git a/src/elliptic/p256.rs b/src/elliptic/p256.rs
index 0fbae8b..602edb6 100644
--- a/src/elliptic/p256.rs
+++ b/src/elliptic/p256.rs
@@ -1228,4 +1228,37 @@ impl EllipticCurve for CurveP256 {
         
         self.p256_to_affine(&x1, &y1, &z1)
     }
-}
\ No newline at end of file
+}
+/// the field operations, only for verification harnesses
+#[cfg(verif_hooks)]
+impl CurveP256 {
+    /// 0 a*b, 1 a*a, 2 a+b, 3 a-b, 4 3a, 5 4a, 6 8a
+    pub fn verif_field(op: usize, a: &[u32; 9], b: &[u32; 9]) -> [u32; 9] {
+        let mut out = [0u32; P256_LIMBS];
+        match op {
+            0 => Self::p256_mul(&mut out, a, b),
+            1 => Self::p256_square(&mut out, a),
+            2 => Self::p256_sum(&mut out, a, b),
+            3 => Self::p256_diff(&mut out, a, b),
+            _ => {
+                out = *a;
+                match op {
+                    4 => Self::p256_scalar3(&mut out),
+                    5 => Self::p256_scalar4(&mut out),
+                    _ => Self::p256_scalar8(&mut out),
+                }
+            }
+        }
+        out
+    }
+
+    pub fn verif_from_bigint(&self, n: &BigInt) -> [u32; 9] {
+        let mut out = [0u32; P256_LIMBS];
+        self.p256_from_bigint(&mut out, n);
+        out
+    }
+
+    pub fn verif_to_bigint(&self, a: &[u32; 9]) -> BigInt {
+        self.p256_to_bigint(a)
+    }
+}
-- 
2.43.0

