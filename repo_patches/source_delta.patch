From 6e73ffc10c68bc2e154f8c829ff83a850fee0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 01/29] fix: do not hash an extra zero block in GCM when the
 input is a multiple of 16 bytes

---
 crylib/src/aead/gcm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..bf8c926 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -165,7 +165,9 @@ impl<C: aes::AesCipher> Gcm<C> {
             last_block
         };
 
-        add_block(&mut tag, last_block, self.h);
+        if !remainder.is_empty() {
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -181,7 +183,9 @@ impl<C: aes::AesCipher> Gcm<C> {
             last_block
         };
 
-        add_block(&mut tag, last_block, self.h);
+        if !remainder.is_empty() {
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 0a890d0104dc632e45ca5aff24d7e2cacf432b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 02/29] fix: make ECDSA signing retry correctly when the random
 source returns an unusable value

---
 crylib/src/ec/ecdsa.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..c51814d 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,21 +51,20 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
-        let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
             continue;
         };
+        let mut inverse = secret_num.inverse();
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From 593714c4cd5b4320adec9efe6fb14829732c6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 03/29] fix: reject private keys that are a multiple of the
 group order

---
 src/extensions/key_share.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..db3a77f 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -64,15 +64,15 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+
+        // The key can be zero even if the random bytes aren't because it is reduced.
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From b7f2623a5bf8b92f1c7c296d22a4bdac5ff5ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 04/29] fix: accept certificate signature integers of every
 length and malformed ones without panicking

---
 src/certificates/x509.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..779ff34 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -27,7 +27,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    if signature.data.first() != Some(&0) {
         // there should never be unused bits
         return Err(CertError::ParseError);
     }
@@ -42,24 +42,34 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
+    let r = parse_scalar(r_obj.data)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
     if s_obj.tag != DerTag::Integer as u8 {
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let s = parse_scalar(s_obj.data)?;
 
     Ok(Signature::new(r, s))
 }
 
+/// Parses a big-endian integer of any encoded length.
+fn parse_scalar(int: &[u8]) -> Result<FieldElement<4, Secp256r1>, CertError> {
+    // The encoding of a non-negative integer is never empty and never starts with a one bit.
+    if !int.first().is_some_and(|&byte| byte < 0x80) {
+        return Err(CertError::ParseError);
+    }
+    // remove leading zeros
+    let leading_zeros = int.iter().take_while(|&&byte| byte == 0).count();
+    let int = &int[leading_zeros..];
+
+    let mut buf = [0; 32];
+    let start = buf.len().checked_sub(int.len()).ok_or(CertError::CertInvalid)?;
+    buf[start..].copy_from_slice(int);
+    FieldElement::try_new(UBigInt::<4>::from_be_bytes(buf)).ok_or(CertError::CertInvalid)
+}
+
 fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     if tbs_cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
@@ -75,7 +85,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].checked_add(1).ok_or(CertError::UnsupportedVersion)?;
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
-- 
2.43.0


From 5c39ef864a16ffa0b9c796ad64cc196552ad143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 05/29] fix: accept version 3 certificates without extensions

---
 src/certificates/x509.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 779ff34..4d61cb9 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -104,7 +104,8 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     let subject_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
     let subject_pub_key_info_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
 
-    next = tbs_iter.next().ok_or(CertError::ParseError)?;
+    // The unique identifiers and the extensions are optional.
+    // next = tbs_iter.next();
 
     // if get_der_num(next.tag) == 0x01 {
     //     let issuer_unique_id = next;
-- 
2.43.0


From 0f5c52f714e49ec3cbe9ed1b4fe3f3cff48c97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 06/29] fix: refuse malformed ServerHello and
 EncryptedExtensions instead of panicking or ignoring the malformed part

---
 src/extensions.rs           | 23 +++++++++++++++++------
 src/extensions/key_share.rs | 22 ++++++++++++++++------
 src/server_hello.rs         |  5 ++++-
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..a478431 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,28 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -195,6 +198,9 @@ pub(crate) fn parse_ser_hel_exts(
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
 
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -203,6 +209,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -220,6 +227,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -228,6 +238,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index db3a77f..6576a70 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -144,6 +144,11 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != size_of_val(&KEY_SHARE_LEGACY_FORM) + 2 * 32
+        || key_share[0] != KEY_SHARE_LEGACY_FORM
+    {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,13 +166,18 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
+    if key_share.len() < size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (group, key_share) = key_share.split_at(size_of::<NamedGroup>());
+    let (len, key_share) = key_share.split_at(TurtlsExts::LEN_SIZE);
+    if u16::from_be_bytes(len.try_into().unwrap()) as usize != key_share.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    match group {
         x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+            let dh_secret = secp256r1_shared_secret(key_share, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..1d84953 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -8,7 +8,7 @@ use crate::TurtlsAlert;
 
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
-    + 3
+    + 1
     + size_of::<CipherSuite>()
     + 1
     + TurtlsExts::LEN_SIZE;
@@ -29,6 +29,9 @@ pub(crate) fn server_hello_client(
     if leg_session_id_len > 32 {
         return Err(TurtlsAlert::DecodeError);
     }
+    if ser_hel.len() < MIN_LEN + leg_session_id_len as usize {
+        return Err(TurtlsAlert::DecodeError);
+    }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
-- 
2.43.0


From 9be335f72dd5213a352378a9cfbb048c1f99742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 07/29] fix: refuse a ServerHello with a foreign session ID or
 with compression

---
 src/server_hello.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index 1d84953..fedfa41 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,6 +1,6 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
@@ -34,6 +34,11 @@ pub(crate) fn server_hello_client(
     }
     pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
 
+    // Only the session ID sent by the client is allowed, which is always empty.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
         ser_hel[pos..][..size_of::<CipherSuite>()]
             .try_into()
@@ -42,6 +47,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
+    // Compression is not allowed in TLS 1.3.
+    if ser_hel[pos] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += 1;
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
-- 
2.43.0


From 89164b9a2157a356a184dae3377c0c6efc4f6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 08/29] fix: answer a parameter that was not offered with
 illegal_parameter

---
 src/extensions/key_share.rs | 2 +-
 src/extensions/versions.rs  | 2 +-
 src/server_hello.rs         | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 6576a70..a9afcf5 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -182,6 +182,6 @@ pub(super) fn parse_ser(
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
         },
-        _ => return Err(TurtlsAlert::HandshakeFailure),
+        _ => return Err(TurtlsAlert::IllegalParam),
     }
 }
diff --git a/src/extensions/versions.rs b/src/extensions/versions.rs
index cdcf0d9..041e9c8 100644
--- a/src/extensions/versions.rs
+++ b/src/extensions/versions.rs
@@ -51,7 +51,7 @@ pub(super) fn parse_ser(version: &[u8]) -> Result<(), TurtlsAlert> {
         return Err(TurtlsAlert::DecodeError);
     }
     if version[..size_of::<ProtocolVersion>()] != ProtocolVersion::TlsOneThree.to_be_bytes() {
-        return Err(TurtlsAlert::ProtocolVersion);
+        return Err(TurtlsAlert::IllegalParam);
     }
     Ok(())
 }
diff --git a/src/server_hello.rs b/src/server_hello.rs
index fedfa41..ec225a4 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -46,6 +46,9 @@ pub(crate) fn server_hello_client(
     )
     .suites;
     pos += size_of::<CipherSuite>();
+    if unprot_state.ciphers.suites == 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
 
     // Compression is not allowed in TLS 1.3.
     if ser_hel[pos] != 0 {
-- 
2.43.0


From e9809b186151b98e236f82401bba8bc9080dabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 09/29] fix: require exactly one supported_versions and one
 key_share extension in the ServerHello

---
 src/extensions.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index a478431..9213622 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -196,7 +196,8 @@ pub(crate) fn parse_ser_hel_exts(
     shake_crypto: &mut UnprotShakeState,
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut maybe_aead = None;
+    let mut has_version = false;
 
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
@@ -211,16 +212,25 @@ pub(crate) fn parse_ser_hel_exts(
     for ext in ExtIter::new(exts) {
         let ext = ext?;
         match ext.ext_type {
-            x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+            x if x == ExtensionType::SupportedVersions.to_be_bytes() && !has_version => {
                 versions::parse_ser(ext.data)?;
+                has_version = true;
             },
-            x if x == ExtensionType::KeyShare.to_be_bytes() => {
-                maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
+            x if x == ExtensionType::KeyShare.to_be_bytes() && maybe_aead.is_none() => {
+                maybe_aead = Some(key_share::parse_ser(ext.data, shake_crypto, global_state)?);
+            },
+            x if x == ExtensionType::SupportedVersions.to_be_bytes()
+                || x == ExtensionType::KeyShare.to_be_bytes() =>
+            {
+                return Err(TurtlsAlert::IllegalParam)
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
-    maybe_aead
+    if !has_version {
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
+    maybe_aead.ok_or(TurtlsAlert::MissingExtension)
 }
 
 pub(crate) fn parse_encrypted_extensions(
-- 
2.43.0


From eb476777a4f2932c8c98b20ff3f8703662dadf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 10/29] fix: only accept an application protocol that was
 offered

---
 src/extensions.rs           | 14 +++++++++-
 src/extensions/app_proto.rs | 52 ++++++++++++++++++++++++++-----------
 src/handshake.rs            | 15 ++++++-----
 src/state.rs                |  3 +++
 4 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 9213622..20e4a50 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -235,6 +235,7 @@ pub(crate) fn parse_ser_hel_exts(
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    app_protos: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
     if exts.len() < TurtlsExts::LEN_SIZE {
@@ -247,6 +248,8 @@ pub(crate) fn parse_encrypted_extensions(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    let mut app_proto = None;
+
     for ext in ExtIter::new(exts) {
         let ext = ext?;
         match ext.ext_type {
@@ -255,10 +258,19 @@ pub(crate) fn parse_encrypted_extensions(
             // SupportedGroups from server is ignored
             x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
             x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+                let selected = parse_app_proto_client(ext.data, app_protos)?;
+                if app_proto.replace(selected).is_some() {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
+
+    // Only report the protocol once all extensions have been accepted.
+    if let Some(app_proto) = app_proto {
+        // The length always fits because it is encoded as a single byte.
+        global_state.app_proto[..app_proto.len()].copy_from_slice(app_proto);
+    }
     Ok(())
 }
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..d11018c 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -20,24 +20,46 @@ impl TurtlsExts {
         if len == 0 {
             return;
         }
-        // SAFETY: We just checked for null and the caller guarantees the string is
-        // nul-terminated.
-        let as_slice = unsafe {
-            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
-        };
-
         shake_buf.extend_from_slice(&ExtensionType::AppLayerProtoNeg.to_be_bytes());
 
         shake_buf.extend_from_slice(&len.to_be_bytes());
         shake_buf.extend_from_slice(&(len - size_of::<u16>() as u16).to_be_bytes());
-        shake_buf.extend_from_slice(as_slice)
+        shake_buf.extend_from_slice(self.app_protos())
+    }
+
+    /// The list of application protocols to offer.
+    pub(crate) fn app_protos(&self) -> &[u8] {
+        if self.app_protos_len() == 0 {
+            return &[];
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is correct.
+        unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
     }
 }
 
-pub(crate) fn parse_app_proto_client(
-    alpn: &[u8],
-    alpn_state: &mut [u8; 256],
-) -> Result<(), TurtlsAlert> {
+/// Returns whether `name` is in `app_protos`, a list of length-prefixed names.
+fn is_offered(mut app_protos: &[u8], name: &[u8]) -> bool {
+    while let Some((&len, rest)) = app_protos.split_first() {
+        if len as usize > rest.len() {
+            return false;
+        }
+        let (offered, rest) = rest.split_at(len as usize);
+        if offered == name {
+            return true;
+        }
+        app_protos = rest;
+    }
+    false
+}
+
+/// Returns the application protocol selected by the server, which must be one of `app_protos`.
+pub(crate) fn parse_app_proto_client<'a>(
+    alpn: &'a [u8],
+    app_protos: &[u8],
+) -> Result<&'a [u8], TurtlsAlert> {
+    if app_protos.is_empty() {
+        return Err(TurtlsAlert::UnsupportedExtension);
+    }
     if alpn.len() < 4 {
         return Err(TurtlsAlert::DecodeError);
     }
@@ -53,10 +75,10 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
-    // a single byte
-    alpn_state[..alpn.len()].copy_from_slice(alpn);
-    Ok(())
+    if !is_offered(app_protos, alpn) {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    Ok(alpn)
 }
 
 /// Returns a pointer to name of the negotiated application protocol.
diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..e67e5d5 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -75,12 +75,15 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
-                            global_state.rl.close(alert, aead);
-                            global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                    parse_encrypted_extensions(
+                        shake_state.buf.data(),
+                        &shake_state.app_protos,
+                        global_state,
+                    )
+                    .map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..c8883fa 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -91,6 +91,8 @@ pub(crate) enum ProtShakeMsg {
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
     pub(crate) buf: ShakeBuf,
+    /// The application protocols offered to the server.
+    pub(crate) app_protos: Box<[u8]>,
 }
 
 impl ShakeState {
@@ -106,6 +108,7 @@ impl ShakeState {
                 },
             },
             buf: ShakeBuf::new(0x20000),
+            app_protos: config.extensions.app_protos().into(),
         })
     }
 }
-- 
2.43.0


From d47f865b108f25a5dd7803fa47b1bb672db7ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 11/29] fix: start every connection attempt with a clean state

---
 src/lib.rs          |  1 +
 src/record.rs       |  6 ++++++
 src/record/write.rs |  6 ++++++
 src/state.rs        | 10 ++++++++++
 4 files changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3545854..0191112 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,6 +78,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..18daf98 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Discards all input and output of the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.discard();
+        self.wbuf.reset();
+    }
 }
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..c1e7556 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -29,6 +29,12 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    /// Forgets any unfinished write.
+    pub(super) fn reset(&mut self) {
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/state.rs b/src/state.rs
index c8883fa..2bd89b4 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,16 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Forgets everything about earlier connections.
+    pub(crate) fn reset(&mut self) {
+        self.error = FullError::default();
+        self.rl.reset();
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From 86461e7192fabe743b6c32ed630b6172712bc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 12/29] fix: do not count record headers as written data

---
 src/record/write.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index c1e7556..22fb723 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -54,6 +54,7 @@ impl RecordLayer {
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
             self.finish_raw()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -70,7 +71,9 @@ impl RecordLayer {
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
             self.finish(msg_type, aead)?;
+            self.wbuf.total_bytes += record.len();
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -101,7 +104,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
-- 
2.43.0


From 128283f4b529b052e655c153b55f2baea4492b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 13/29] fix: generate the ClientHello only once when its
 writing is interrupted

---
 src/handshake.rs | 13 +++++++++----
 src/state.rs     |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index e67e5d5..c6749ad 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -30,12 +30,15 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ClientHello => {
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = FullError::error(err))?;
 
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
                         .write_raw(&mut global_state.rl, &mut global_state.transcript)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = FullError::error(err))?;
 
                     *next = UnprotShakeMsg::ServerHello;
                 },
@@ -292,11 +295,13 @@ impl ShakeBuf {
     ) -> Result<(), TurtlsError> {
         self.encode_len();
 
-        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
-        )
+        )?;
+        // Only update the transcript once, no matter how many times writing is resumed.
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+        Ok(())
     }
 
     pub(crate) fn write(
diff --git a/src/state.rs b/src/state.rs
index 2bd89b4..19f9a2a 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From fab72b74cbc8a8c512ed15f1ace180fe37948195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 14/29] fix: close the connection exactly once when an attempt
 fails

---
 src/handshake.rs    | 18 ++++++++++++------
 src/lib.rs          |  5 +++++
 src/record/write.rs |  5 +++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c6749ad..b7e8377 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -47,8 +47,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read_raw(&mut global_state.rl, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close_raw(err.alert);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close_raw(err.alert),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -73,8 +75,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read(&mut global_state.rl, aead, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -94,8 +98,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read(&mut global_state.rl, aead, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.close_io(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
diff --git a/src/lib.rs b/src/lib.rs
index 0191112..8ef2a03 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,6 +96,11 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    match tls_conn.gloabl_state.error.turtls_error {
+                        // Resumable.
+                        TurtlsError::WantRead | TurtlsError::WantWrite => (),
+                        _ => tls_conn.state = TlsStatus::None,
+                    }
                     return -1;
                 }
                 todo!()
diff --git a/src/record/write.rs b/src/record/write.rs
index 22fb723..5be4d28 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -116,6 +116,11 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Closes the connection without alerting the peer.
+    pub(crate) fn close_io(&mut self) {
+        self.io.close();
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
         let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
         self.io.close();
-- 
2.43.0


From d2a7f642e1ce1f89f3ff82c2db70c0f747a262a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 15/29] fix: protect the close_notify alert once keys exist and
 never send it inside the ClientHello

---
 src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8ef2a03..be535f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,8 +23,7 @@ use crylib::hash::Sha256;
 use crylib::hkdf;
 
 use handshake::handshake_client;
-use state::ShakeState;
-use state::TlsStatus;
+use state::{MaybeProt, ShakeState, TlsStatus, UnprotShakeMsg};
 
 pub use alert::turtls_stringify_alert;
 pub use alert::TurtlsAlert;
@@ -124,10 +123,19 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let rl = &mut tls_conn.gloabl_state.rl;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ref mut shake_state) => match shake_state.state {
+            // An alert must not be sent in the middle of a message.
+            MaybeProt::Unprot {
+                next: UnprotShakeMsg::ClientHello | UnprotShakeMsg::SendClientHello,
+                ..
+            } => rl.close_io(),
+            MaybeProt::Unprot { .. } => rl.close_raw(TurtlsAlert::CloseNotify),
+            MaybeProt::Prot { ref mut aead, .. } => rl.close(TurtlsAlert::CloseNotify, aead),
+        },
+        TlsStatus::App { ref mut aead } => rl.close(TurtlsAlert::CloseNotify, aead),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
-- 
2.43.0


From 4dbc3ff3ae17af8f763f15f55e9b0d03c026bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 16/29] fix: ignore every valid change_cipher_spec record and
 refuse all others

Only one record was ignored, and only before the first byte of a message, so a
server that sends the compatibility record after an interrupted read or twice
was refused, while malformed or encrypted ones were accepted.
---
 src/handshake.rs   | 4 ----
 src/record/read.rs | 8 ++++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index b7e8377..293ca39 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -230,10 +230,6 @@ impl ShakeBuf {
                 ReadStatus::NeedsHeader(ref mut amt) => {
                     if *amt == 0 {
                         get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
                         rl.check_alert()
                             .map_err(|alert| FullError::recving_alert(alert))?;
                         if rl.msg_type() != ContentType::Handshake.to_byte() {
diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..986db4f 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -84,6 +84,14 @@ impl RecordLayer {
                         };
                         *bytes_read += new_bytes;
                     }
+                    if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+                        // `change_cipher_spec` has no meaning but peers may send it at any time.
+                        if self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] != [1] {
+                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+                        }
+                        self.discard();
+                        continue;
+                    }
                     self.rbuf.status = ReadStatus::Moving(0);
                 },
                 ReadStatus::Moving(bytes_moved) => {
-- 
2.43.0


From 94f746c6c75ec59cabc907f576fb08b47534e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 17/29] fix: refuse alerts of the wrong length

The description was taken from whatever an earlier record left in the buffer.
---
 src/handshake.rs   |  3 +--
 src/record/read.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 293ca39..91bc112 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -230,8 +230,7 @@ impl ShakeBuf {
                 ReadStatus::NeedsHeader(ref mut amt) => {
                     if *amt == 0 {
                         get_fn(rl)?;
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
+                        rl.check_alert()?;
                         if rl.msg_type() != ContentType::Handshake.to_byte() {
                             return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
                         }
diff --git a/src/record/read.rs b/src/record/read.rs
index 986db4f..092a2ff 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -184,11 +184,15 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
-        if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
-        } else {
-            Ok(())
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
+        if self.msg_type() != ContentType::Alert.to_byte() {
+            return Ok(());
+        }
+        if self.rbuf.len != AlertMsg::SIZE {
+            return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
         }
+        Err(FullError::recving_alert(TurtlsAlert::from_byte(
+            self.rbuf.buf[Self::HEADER_SIZE + 1],
+        )))
     }
 }
-- 
2.43.0


From 07ddebece4f2d6524df47cf8baa01972158f19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 18/29] fix: accept protected records of every allowed size

A protected record may be up to 256 bytes longer than its content.
---
 src/record/read.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 092a2ff..14dd1e8 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -69,7 +69,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.msg_type() == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -136,6 +141,9 @@ impl RecordLayer {
         }
 
         self.rbuf.len -= TAG_SIZE;
+        if self.rbuf.len > Self::MAX_LEN + size_of::<ContentType>() {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
 
         let Some(padding) = self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len]
             .iter()
-- 
2.43.0


From 336dfc2f4668230739d2d4c25b41bf2b7e864216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 19/29] fix: refuse unprotected records once keys are
 established

Plaintext handshake messages and alerts, including the rest of the record that
held the ServerHello, were accepted as if they were authentic, and a protected
record whose inner type is application_data was decrypted again.
---
 src/record/read.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 14dd1e8..2177d9e 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -30,6 +30,8 @@ pub(super) struct ReadBuf {
     ///
     /// This does not include the header.
     len: usize,
+    /// Whether the protection of the current record has been removed.
+    is_deprot: bool,
     status: ReadStatus,
 }
 
@@ -38,6 +40,7 @@ impl ReadBuf {
         Self {
             buf: [0; RecordLayer::BUF_SIZE],
             len: 0,
+            is_deprot: false,
             status: ReadStatus::new(),
         }
     }
@@ -97,6 +100,7 @@ impl RecordLayer {
                         self.discard();
                         continue;
                     }
+                    self.rbuf.is_deprot = false;
                     self.rbuf.status = ReadStatus::Moving(0);
                 },
                 ReadStatus::Moving(bytes_moved) => {
@@ -116,15 +120,21 @@ impl RecordLayer {
     pub(crate) fn get(&mut self, aead: &mut TlsAead) -> Result<(), FullError> {
         self.get_raw()?;
 
+        // Only deprotect the record once.
+        if self.rbuf.is_deprot {
+            return Ok(());
+        }
         self.deprotect(aead)
-            .map_err(|alert| FullError::sending_alert(alert))
+            .map_err(|alert| FullError::sending_alert(alert))?;
+        self.rbuf.is_deprot = true;
+        Ok(())
     }
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
+        // All records must be protected once keys are established.
         if self.msg_type() != ContentType::ApplicationData.to_byte() {
-            return Ok(());
+            return Err(TurtlsAlert::UnexpectedMessage);
         }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
-- 
2.43.0


From e88610e4d7931c32cd67a7301f9deb84dae6e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 20/29] fix: check the type of every record of a handshake
 message

Only the type of the record holding the first byte was checked, so an alert or
any other record in the middle of a message became part of it, and empty records
were skipped forever.
---
 src/handshake.rs   |  9 ++-------
 src/record/read.rs | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 91bc112..95c1bb8 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -228,15 +228,9 @@ impl ShakeBuf {
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        rl.check_alert()?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
                         get_fn(rl)?;
+                        rl.check_handshake()?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                         if new_bytes == 0 {
                             return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
@@ -253,6 +247,7 @@ impl ShakeBuf {
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
                         get_fn(rl)?;
+                        rl.check_handshake()?;
                         let new_bytes = rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
diff --git a/src/record/read.rs b/src/record/read.rs
index 2177d9e..888c3e7 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -102,6 +102,8 @@ impl RecordLayer {
                     }
                     self.rbuf.is_deprot = false;
                     self.rbuf.status = ReadStatus::Moving(0);
+                    // Even an empty record must be seen.
+                    return Ok(());
                 },
                 ReadStatus::Moving(bytes_moved) => {
                     if bytes_moved == self.rbuf.len {
@@ -202,7 +204,17 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
+    /// Checks that the current record is a piece of a handshake message.
+    pub(crate) fn check_handshake(&self) -> Result<(), FullError> {
+        self.check_alert()?;
+        // Handshake messages must not be split into empty pieces.
+        if self.msg_type() != ContentType::Handshake.to_byte() || self.rbuf.len == 0 {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
+    fn check_alert(&self) -> Result<(), FullError> {
         if self.msg_type() != ContentType::Alert.to_byte() {
             return Ok(());
         }
-- 
2.43.0


From 7fa77586b8aa9d6381cbe470e1e90ed878541858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 21/29] fix: refuse handshake messages of an unexpected type

The type was never looked at, so any message was taken for the expected one.
---
 src/handshake.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 95c1bb8..8fb8597 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -45,7 +45,11 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ServerHello => {
                     shake_state
                         .buf
-                        .read_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .read_raw(
+                            ShakeType::ServerHello,
+                            &mut global_state.rl,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             match err.turtls_error {
                                 TurtlsError::Tls => global_state.rl.close_raw(err.alert),
@@ -73,7 +77,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::EncryptedExtensions => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::EncryptedExtensions,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             match err.turtls_error {
                                 TurtlsError::Tls => global_state.rl.close(err.alert, aead),
@@ -96,7 +105,12 @@ pub(crate) fn handshake_client(
                 ProtShakeMsg::Certificate => {
                     shake_state
                         .buf
-                        .read(&mut global_state.rl, aead, &mut global_state.transcript)
+                        .read(
+                            ShakeType::Certificate,
+                            &mut global_state.rl,
+                            aead,
+                            &mut global_state.transcript,
+                        )
                         .map_err(|err| {
                             match err.turtls_error {
                                 TurtlsError::Tls => global_state.rl.close(err.alert, aead),
@@ -123,7 +137,7 @@ pub(crate) fn handshake_client(
 }
 
 /// The message type of a handshake message.
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[expect(unused, reason = "not all handshake messages are implemented yet")]
 pub(crate) enum ShakeType {
     ClientHello = 1,
@@ -221,6 +235,7 @@ impl ShakeBuf {
 
     fn read_inner(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
         transcript: &mut TranscriptHasher,
@@ -237,6 +252,9 @@ impl ShakeBuf {
                         }
                         *amt += new_bytes;
                     }
+                    if self.buf[0] != expected.to_byte() {
+                        return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+                    }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
                     if self.len > self.buf.len() {
@@ -264,24 +282,27 @@ impl ShakeBuf {
         }
     }
 
-    /// Reads an entire plaintext handshake message.
+    /// Reads an entire plaintext handshake message, which must be of type `expected`.
     pub(crate) fn read_raw(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = RecordLayer::get_raw;
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected, rl, get_fn, transcript)
     }
 
+    /// Reads an entire protected handshake message, which must be of type `expected`.
     pub(crate) fn read(
         &mut self,
+        expected: ShakeType,
         rl: &mut RecordLayer,
         aead: &mut TlsAead,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
         let get_fn = |rl: &mut RecordLayer| RecordLayer::get(rl, aead);
-        self.read_inner(rl, get_fn, transcript)
+        self.read_inner(expected, rl, get_fn, transcript)
     }
 
     pub(crate) fn write_raw(
-- 
2.43.0


From 23c558dc0e8ef282239007045d85715e3e1a3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 22/29] fix: grow the handshake buffer up to its maximum size

Messages larger than the initial buffer caused a panic, some of them outside of
the check meant to find them.
---
 src/handshake.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 8fb8597..8637fd1 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -204,6 +204,16 @@ impl ShakeBuf {
         }
     }
 
+    /// Makes room for at least `size` bytes.
+    fn grow(&mut self, size: usize) {
+        if size <= self.buf.len() {
+            return;
+        }
+        let mut buf = std::mem::take(&mut self.buf).into_vec();
+        buf.resize(size.next_power_of_two(), 0);
+        self.buf = buf.into_boxed_slice();
+    }
+
     pub(crate) fn start(&mut self, msg_type: ShakeType) {
         self.len = 0;
         self.buf[0] = msg_type.to_byte();
@@ -211,17 +221,13 @@ impl ShakeBuf {
     }
 
     pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(self.len + Self::HEADER_SIZE + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.grow(self.len + Self::HEADER_SIZE + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
@@ -257,9 +263,10 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if Self::HEADER_SIZE + self.len > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                     }
+                    self.grow(Self::HEADER_SIZE + self.len);
                     self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
-- 
2.43.0


From f28f87b37e6b02cb1519259002ef074d7333dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 23/29] fix: only describe what is sent in the ClientHello

Options that do not exist were counted but not written, an empty list of
signature algorithms was counted as two bytes, and an empty server name or an
empty list of cipher suites was sent, all of which servers cannot parse.
---
 src/cipher_suites.rs          | 4 +++-
 src/extensions/key_share.rs   | 5 +++--
 src/extensions/server_name.rs | 6 +++++-
 src/extensions/sig_algs.rs    | 3 ++-
 src/state.rs                  | 7 +++++++
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..8a8ab09 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -22,8 +22,10 @@ impl TurtlsCipherList {
 
     pub(crate) const LEN_SIZE: usize = 2;
 
+    const SUPPORTED: u8 = Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256;
+
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        (self.suites & Self::SUPPORTED).count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index a9afcf5..1df37d8 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -58,7 +58,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -120,7 +120,8 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        let groups = self.sup_groups & TURTLS_SECP256R1;
+        Self::LEN_SIZE + groups.count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..6653142 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -12,11 +12,15 @@ impl TurtlsExts {
             return 0;
         }
         let str_len = unsafe { CStr::from_ptr(self.server_name).count_bytes() };
+        // An empty name isn't allowed.
+        if str_len == 0 {
+            return 0;
+        }
         Self::LEN_SIZE + size_of_val(&SERVER_NAME_TYPE) + Self::LEN_SIZE + str_len
     }
 
     pub(super) fn write_server_name(&self, shake_buf: &mut ShakeBuf) {
-        if self.server_name.is_null() {
+        if self.server_name_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::ServerName.to_be_bytes());
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..a23a6da 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,7 +57,8 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        let sig_algs = self.sig_algs & TURTLS_ECDSA_SECP256R1;
+        sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/state.rs b/src/state.rs
index 19f9a2a..85b4e41 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -5,6 +5,7 @@ use crate::cipher_suites::TurtlsCipherList;
 use crate::config::TurtlsConfig;
 use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
+use crate::extensions::sig_algs::TURTLS_ECDSA_SECP256R1;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
 use crate::TurtlsError;
@@ -108,6 +109,12 @@ pub(crate) struct ShakeState {
 
 impl ShakeState {
     pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, TurtlsError> {
+        // A ClientHello that doesn't offer anything can't be answered.
+        if config.cipher_suites.len() == 0
+            || config.extensions.sig_algs & TURTLS_ECDSA_SECP256R1 == 0
+        {
+            return Err(TurtlsError::MissingExtensions);
+        }
         Ok(Self {
             state: MaybeProt::Unprot {
                 next: UnprotShakeMsg::ClientHello,
-- 
2.43.0


From b008f2353c47ec0f8553fcebc8dbd679f5dbb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 24/29] fix: refuse the server's certificate instead of
 panicking

Malformed messages and certificates were read out of bounds or unwrapped, and
well-formed ones ran into a todo!(), all of which abort the program. As long as
certificates cannot be verified, the handshake fails with an alert.
---
 src/certificates.rs      | 35 +++++++++++++++++++++++++++++------
 src/certificates/x509.rs | 12 ++++++++++++
 src/handshake.rs         | 17 +++++++----------
 3 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..d5203f7 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,5 +1,7 @@
 use std::iter::Iterator;
 
+use crate::TurtlsAlert;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
@@ -32,30 +34,51 @@ impl<'a> CertIter<'a> {
 }
 
 impl<'a> Iterator for CertIter<'a> {
-    type Item = CertEntry<'a>;
+    type Item = Result<CertEntry<'a>, TurtlsAlert>;
 
-    fn next(&mut self) -> Option<CertEntry<'a>> {
-        if self.cert_list.len() < 5 {
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.cert_list.is_empty() {
             return None;
         }
+        if self.cert_list.len() < 5 {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let data_len =
             u32::from_be_bytes([0, self.cert_list[0], self.cert_list[1], self.cert_list[2]])
                 as usize;
         if data_len > self.cert_list.len() - 5 {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let extensions_len = u16::from_be_bytes([
             self.cert_list[3 + data_len],
             self.cert_list[3 + data_len + 1],
         ]) as usize;
         if extensions_len > self.cert_list.len() - 5 - data_len {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let cert = CertEntry {
             data: &self.cert_list[3..][..data_len],
             extensions: &self.cert_list[3 + data_len + 2..][..extensions_len],
         };
         self.cert_list = &self.cert_list[5 + data_len + extensions_len..];
-        Some(cert)
+        Some(Ok(cert))
+    }
+}
+
+/// Checks the contents of the server's Certificate message.
+pub(crate) fn parse_certificate(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let (&context_len, cert_msg) = cert_msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    let certs = cert_msg
+        .get(context_len as usize..)
+        .ok_or(TurtlsAlert::DecodeError)?;
+    let (len, certs) = certs.split_at_checked(3).ok_or(TurtlsAlert::DecodeError)?;
+    // A server must always provide a certificate.
+    if u32::from_be_bytes([0, len[0], len[1], len[2]]) as usize != certs.len() || certs.is_empty()
+    {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    for cert in CertIter::new(certs) {
+        x509::validate_cert(cert?.data)?;
     }
+    Ok(())
 }
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 4d61cb9..fd36ac0 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,5 +1,7 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
+use crate::TurtlsAlert;
+
 use crylib::ec::ecdsa::Signature;
 use crylib::ec::Secp256r1;
 use crylib::big_int::UBigInt;
@@ -160,6 +162,16 @@ pub(crate) enum CertError {
     UnsupportedSigAlg,
 }
 
+impl From<CertError> for TurtlsAlert {
+    fn from(err: CertError) -> Self {
+        match err {
+            CertError::ParseError | CertError::CertInvalid => Self::BadCert,
+            CertError::CertExpired => Self::CertExpired,
+            CertError::UnsupportedVersion | CertError::UnsupportedSigAlg => Self::UnsupportedCert,
+        }
+    }
+}
+
 fn validate_time(validity: DerObj) -> Result<(), CertError> {
     if validity.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
diff --git a/src/handshake.rs b/src/handshake.rs
index 8637fd1..c43c901 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -119,16 +119,13 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
-                    todo!("validate certificates");
+                    // TODO: validate certificates. Until then, no server can be trusted.
+                    let alert = crate::certificates::parse_certificate(shake_state.buf.data())
+                        .err()
+                        .unwrap_or(TurtlsAlert::CertUnknown);
+                    global_state.rl.close(alert, aead);
+                    global_state.error = FullError::sending_alert(alert);
+                    return Err(());
                 },
                 _ => todo!("Finish handshake"),
             },
-- 
2.43.0


From 14ccffac162623f1423ba590ab934f66ddb25f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:56 +0000
Subject: [PATCH 25/29] fix: refuse repeated and unrequested extensions in
 EncryptedExtensions

An extension must not appear twice in a block, and the server must not
send an extension that the client didn't. The checks were made for
application protocols, but server_name was accepted even if no name had
been sent, and server_name and supported_groups any number of times.
---
 src/extensions.rs             | 19 +++++++++++++++----
 src/extensions/server_name.rs |  5 +++++
 src/handshake.rs              |  1 +
 src/state.rs                  |  3 +++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 20e4a50..5d982d2 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -235,6 +235,7 @@ pub(crate) fn parse_ser_hel_exts(
 
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    sent_server_name: bool,
     app_protos: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
@@ -249,14 +250,24 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     let mut app_proto = None;
+    let mut has_server_name = false;
+    let mut has_sup_groups = false;
 
     for ext in ExtIter::new(exts) {
         let ext = ext?;
         match ext.ext_type {
-            // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
-            // SupportedGroups from server is ignored
-            x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
+            // The contents of ServerName from server are ignored
+            x if x == ExtensionType::ServerName.to_be_bytes() && sent_server_name => {
+                if std::mem::replace(&mut has_server_name, true) {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+            },
+            // The contents of SupportedGroups from server are ignored
+            x if x == ExtensionType::SupportedGroups.to_be_bytes() => {
+                if std::mem::replace(&mut has_sup_groups, true) {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+            },
             x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
                 let selected = parse_app_proto_client(ext.data, app_protos)?;
                 if app_proto.replace(selected).is_some() {
diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 6653142..544ee91 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -7,6 +7,11 @@ use crate::handshake::ShakeBuf;
 const SERVER_NAME_TYPE: u8 = 0;
 
 impl TurtlsExts {
+    /// Whether the extension is sent to the server.
+    pub(crate) fn sends_server_name(&self) -> bool {
+        self.server_name_len() != 0
+    }
+
     pub(super) fn server_name_len(&self) -> usize {
         if self.server_name.is_null() {
             return 0;
diff --git a/src/handshake.rs b/src/handshake.rs
index c43c901..36c73d5 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -93,6 +93,7 @@ pub(crate) fn handshake_client(
                         })?;
                     parse_encrypted_extensions(
                         shake_state.buf.data(),
+                        shake_state.sent_server_name,
                         &shake_state.app_protos,
                         global_state,
                     )
diff --git a/src/state.rs b/src/state.rs
index 85b4e41..ea7915d 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -103,6 +103,8 @@ pub(crate) enum ProtShakeMsg {
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
     pub(crate) buf: ShakeBuf,
+    /// Whether a server name is sent to the server.
+    pub(crate) sent_server_name: bool,
     /// The application protocols offered to the server.
     pub(crate) app_protos: Box<[u8]>,
 }
@@ -126,6 +128,7 @@ impl ShakeState {
                 },
             },
             buf: ShakeBuf::new(0x20000),
+            sent_server_name: config.extensions.sends_server_name(),
             app_protos: config.extensions.app_protos().into(),
         })
     }
-- 
2.43.0


From 20801ec7294cf33007ce4a75cf519c34f9b30a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:41 +0000
Subject: [PATCH 26/29] fix: add equal points

---
 crylib/src/ec/point/projective.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..2e354ca 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -70,13 +70,19 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
         if rhs.is_infinity() {
             return *self;
         }
-        Self::add_fast(self, rhs)
+        let sum = Self::add_fast(self, rhs);
+        // `add_fast` can't add a point to itself.
+        if sum.is_infinity() && self == rhs {
+            return self.double();
+        }
+        sum
     }
 
-    /// Adds `self` and `rhs`, returning [`POINT_AT_INF`] if either point is infinity.
+    /// Adds `self` and `rhs`, returning [`POINT_AT_INF`] if either point is infinity or if they are
+    /// equal.
     ///
     /// Generally, use [`add`] instead of this method. If, however, it is guaranteed that neither
-    /// point is infinity, consider using this method.
+    /// point is infinity and that they differ, consider using this method.
     ///
     /// [`add`]: ProjectivePoint::add
     /// [`POINT_AT_INF`]: ProjectivePoint::POINT_AT_INF
@@ -119,19 +125,12 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     }
 
     pub fn add_assign_fast(&mut self, rhs: &Self) {
-        // SAFETY: the caller guarantees that neither point is POINT_AT_INF.
+        // SAFETY: the caller guarantees that neither point is POINT_AT_INF and that they differ.
         *self = self.add_fast(rhs);
     }
 
     pub fn add_assign(&mut self, rhs: &Self) {
-        if self.is_infinity() {
-            *self = *rhs;
-            return;
-        }
-        if rhs.is_infinity() {
-            return;
-        }
-        self.add_assign_fast(rhs);
+        *self = self.add(rhs);
     }
 
     pub fn double(&self) -> Self {
-- 
2.43.0


From 8f537ec39a2659bd8109065331a0b38a53208fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 27/29] fix: refuse a HelloRetryRequest instead of reading it
 as a ServerHello

A ServerHello with the random value of a HelloRetryRequest must be processed as
one (RFC 8446, 4.1.4). It was read as a ServerHello and, if it had a complete key
share, the handshake went on. A key share is sent for every offered group, so
the answer to a HelloRetryRequest is always illegal_parameter.
---
 src/server_hello.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index ec225a4..79e0b13 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -13,6 +13,12 @@ pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + 1
     + TurtlsExts::LEN_SIZE;
 
+/// The `random` value that makes a ServerHello a HelloRetryRequest.
+const HELLO_RETRY_RANDOM: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) fn server_hello_client(
     ser_hel: &[u8],
     unprot_state: &mut UnprotShakeState,
@@ -22,6 +28,11 @@ pub(crate) fn server_hello_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    // A key share is sent for every group that is offered, so there is nothing to retry with.
+    if ser_hel[size_of::<ProtocolVersion>()..][..RANDOM_BYTES_LEN] == HELLO_RETRY_RANDOM {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
     let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
 
     let leg_session_id_len = ser_hel[pos];
-- 
2.43.0


From 5a58889ddacaa331d4723535133cf8285bd1cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 28/29] fix: report an error if the extensions don't fit in the
 ClientHello

The lengths were silently cut to 16 bits for a server name that is too long, so a
malformed ClientHello was sent, and a protocol list that is too long aborted the
program.
---
 include/turtls.h | 4 ++++
 src/error.rs     | 2 ++
 src/state.rs     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/turtls.h b/include/turtls.h
index c4aba4c..18b9f30 100644
--- a/include/turtls.h
+++ b/include/turtls.h
@@ -173,6 +173,10 @@ enum TurtlsError {
      * One or more required extensions are missing.
      */
     TURTLS_ERROR_MISSING_EXTENSIONS,
+    /**
+     * The configured extensions don't fit in a ClientHello.
+     */
+    TURTLS_ERROR_EXTENSIONS_TOO_LONG,
 };
 
 /**
diff --git a/src/error.rs b/src/error.rs
index 80f11a2..1712a10 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -30,6 +30,8 @@ pub enum TurtlsError {
     PrivKeyIsZero,
     /// One or more required extensions are missing.
     MissingExtensions,
+    /// The configured extensions don't fit in a ClientHello.
+    ExtensionsTooLong,
 }
 
 impl Default for TurtlsError {
diff --git a/src/state.rs b/src/state.rs
index ea7915d..23abb37 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -117,6 +117,9 @@ impl ShakeState {
         {
             return Err(TurtlsError::MissingExtensions);
         }
+        if config.extensions.len_client() > u16::MAX as usize {
+            return Err(TurtlsError::ExtensionsTooLong);
+        }
         Ok(Self {
             state: MaybeProt::Unprot {
                 next: UnprotShakeMsg::ClientHello,
-- 
2.43.0


From c201119b0ee35e245fed3a967955104e32e49b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 29/29] fix: answer a known extension in the wrong message with
 illegal_parameter

RFC 8446, 4.2: an extension that is recognized but not specified for the message
in which it appears must be answered with illegal_parameter. It was answered with
unsupported_extension, which is for extensions that were not requested.
---
 src/extensions.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 5d982d2..dd68cc2 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -224,6 +224,14 @@ pub(crate) fn parse_ser_hel_exts(
             {
                 return Err(TurtlsAlert::IllegalParam)
             },
+            // These extensions are not allowed in this message.
+            x if x == ExtensionType::ServerName.to_be_bytes()
+                || x == ExtensionType::SupportedGroups.to_be_bytes()
+                || x == ExtensionType::SignatureAlgorithms.to_be_bytes()
+                || x == ExtensionType::AppLayerProtoNeg.to_be_bytes() =>
+            {
+                return Err(TurtlsAlert::IllegalParam)
+            },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
@@ -274,6 +282,13 @@ pub(crate) fn parse_encrypted_extensions(
                     return Err(TurtlsAlert::IllegalParam);
                 }
             },
+            // These extensions are not allowed in this message.
+            x if x == ExtensionType::SignatureAlgorithms.to_be_bytes()
+                || x == ExtensionType::SupportedVersions.to_be_bytes()
+                || x == ExtensionType::KeyShare.to_be_bytes() =>
+            {
+                return Err(TurtlsAlert::IllegalParam)
+            },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
-- 
2.43.0

