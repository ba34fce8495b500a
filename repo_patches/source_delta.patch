From bb7e5bcb9bd84b9bcb6c5562737c61c2edf15909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 01/29] fix: refuse malformed extension lists instead of
 panicking or ignoring them

---
 src/extensions.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..82716cd 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,29 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    /// An extension that isn't completely contained in the list is an error.
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -195,6 +199,9 @@ pub(crate) fn parse_ser_hel_exts(
 ) -> Result<TlsAead, TurtlsAlert> {
     let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
 
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -203,6 +210,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -220,6 +228,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
@@ -228,6 +239,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From 69a39f14d9799d61c7c1fe8a5b102384277c30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 02/29] fix: refuse ServerHellos that don't echo the
 ClientHello

---
 src/handshake.rs    | 14 ++++++++++++--
 src/server_hello.rs | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..7a15637 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -49,8 +49,10 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let aead =
-                        server_hello_client(shake_state.buf.data(), unprot_state, global_state)
+                    let aead = shake_state
+                        .buf
+                        .expect_type(ShakeType::ServerHello)
+                        .and_then(|data| server_hello_client(data, unprot_state, global_state))
                             .map_err(|alert| {
                                 global_state.rl.close_raw(alert);
                                 global_state.error = FullError::sending_alert(alert);
@@ -319,6 +321,14 @@ impl ShakeBuf {
         self.buf[0]
     }
 
+    /// Returns the data sent in the handshake message if the message is of type `msg_type`.
+    pub(crate) fn expect_type(&self, msg_type: ShakeType) -> Result<&[u8], TurtlsAlert> {
+        if self.msg_type() != msg_type.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+        Ok(self.data())
+    }
+
     pub(crate) fn encode_len(&mut self) {
         let len = (self.len as u32).to_be_bytes();
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&len[1..]);
diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..3ac7798 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,18 +1,24 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
-use crate::extensions::versions::ProtocolVersion;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
+use crate::extensions::versions::{ProtocolVersion, LEGACY_PROTO_VERS};
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsAlert;
 
 pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + RANDOM_BYTES_LEN
-    + 3
+    + 1
     + size_of::<CipherSuite>()
     + 1
     + TurtlsExts::LEN_SIZE;
 
+/// The random value indicating that a ServerHello is a HelloRetryRequest.
+const HELLO_RETRY_REQUEST: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) fn server_hello_client(
     ser_hel: &[u8],
     unprot_state: &mut UnprotShakeState,
@@ -22,14 +28,28 @@ pub(crate) fn server_hello_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
-    let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
+    let mut pos = size_of::<ProtocolVersion>();
+
+    if ser_hel[..pos] != LEGACY_PROTO_VERS.to_be_bytes() {
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
+
+    // Every supported group was already offered with a key share so a retry can't change anything.
+    if ser_hel[pos..][..RANDOM_BYTES_LEN] == HELLO_RETRY_REQUEST {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += RANDOM_BYTES_LEN;
 
     let leg_session_id_len = ser_hel[pos];
 
     if leg_session_id_len > 32 {
         return Err(TurtlsAlert::DecodeError);
     }
-    pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
+    // The session ID must be the one sent in ClientHello.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += size_of_val(&leg_session_id_len);
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
         ser_hel[pos..][..size_of::<CipherSuite>()]
@@ -37,8 +57,15 @@ pub(crate) fn server_hello_client(
             .unwrap(),
     )
     .suites;
+    if unprot_state.ciphers.suites == 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += size_of::<CipherSuite>();
 
+    // compression method
+    if ser_hel[pos] != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
     pos += 1;
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
-- 
2.43.0


From 25034dffbc3d4475f02a5f3b2539c6089e3822c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 03/29] fix: check the length and form of the server's key
 share

---
 src/extensions/key_share.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..b06e8c4 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -14,6 +14,8 @@ use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsError;
 
 const KEY_SHARE_LEGACY_FORM: u8 = 4;
+/// The length of a secp256r1 key share in uncompressed form.
+const KEY_SHARE_LEN: usize = 65;
 /// Key exchange via ECDH on the secp256r1 (NIST-P 256) curve.
 pub const TURTLS_SECP256R1: u16 = 0b0000000000000001;
 
@@ -144,6 +146,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != KEY_SHARE_LEN || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,13 +166,20 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
+    if key_share.len() < size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (group, key_share) = key_share.split_at(size_of::<NamedGroup>());
+    let (len, key_share) = key_share.split_at(TurtlsExts::LEN_SIZE);
+
+    if u16::from_be_bytes(len.try_into().unwrap()) as usize != key_share.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    match group {
         x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+            let dh_secret = secp256r1_shared_secret(key_share, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
-- 
2.43.0


From 446145a36d1a064ee479471172b134c23b39e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 04/29] fix: require the server to select TLS 1.3 and refuse
 duplicate ServerHello extensions

---
 src/extensions.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 82716cd..e325e74 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -197,7 +197,8 @@ pub(crate) fn parse_ser_hel_exts(
     shake_crypto: &mut UnprotShakeState,
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut maybe_aead = None;
+    let mut has_version = false;
 
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
@@ -213,15 +214,26 @@ pub(crate) fn parse_ser_hel_exts(
         let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+                if has_version {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                has_version = true;
                 versions::parse_ser(ext.data)?;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
-                maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
+                if maybe_aead.is_some() {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                maybe_aead = Some(key_share::parse_ser(ext.data, shake_crypto, global_state)?);
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
-    maybe_aead
+    if !has_version {
+        // The server wants an older version of TLS.
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
+    maybe_aead.ok_or(TurtlsAlert::MissingExtension)
 }
 
 pub(crate) fn parse_encrypted_extensions(
-- 
2.43.0


From 91331faf3b1c57f3c6f815d738bb8cef47a07a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 05/29] fix: accept only one answer per offered extension in
 EncryptedExtensions

---
 src/extensions.rs           | 35 +++++++++++++++++++++++++++++++----
 src/extensions/app_proto.rs | 29 ++++++++++++++++++++++++-----
 src/handshake.rs            | 12 ++++++++----
 src/state.rs                |  3 +++
 4 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index e325e74..4968b2a 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -236,10 +236,32 @@ pub(crate) fn parse_ser_hel_exts(
     maybe_aead.ok_or(TurtlsAlert::MissingExtension)
 }
 
+/// The extensions of ClientHello that the server may answer in EncryptedExtensions.
+pub(crate) struct OfferedExts {
+    server_name: bool,
+    app_protos: Box<[u8]>,
+}
+
+impl OfferedExts {
+    pub(crate) fn new(config: &TurtlsExts) -> Self {
+        Self {
+            server_name: config.server_name_len() != 0,
+            app_protos: config.app_protos_list().into(),
+        }
+    }
+}
+
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
+    offered: &OfferedExts,
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    let mut seen = [false; 3];
+    let mut check_first = |i: usize| match std::mem::replace(&mut seen[i], true) {
+        true => Err(TurtlsAlert::IllegalParam),
+        false => Ok(()),
+    };
+
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
     }
@@ -254,11 +276,16 @@ pub(crate) fn parse_encrypted_extensions(
         let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() && offered.server_name => {
+                check_first(0)?
+            },
             // SupportedGroups from server is ignored
-            x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
-            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+            x if x == ExtensionType::SupportedGroups.to_be_bytes() => check_first(1)?,
+            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes()
+                && !offered.app_protos.is_empty() =>
+            {
+                check_first(2)?;
+                parse_app_proto_client(ext.data, &offered.app_protos, &mut global_state.app_proto)?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..e268ed8 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -13,6 +13,16 @@ impl TurtlsExts {
         }
         size_of::<u16>() + self.app_protos_len
     }
+
+    /// Returns the list of protocol names to offer, each preceded by its length.
+    pub(super) fn app_protos_list(&self) -> &[u8] {
+        if self.app_protos_len() == 0 {
+            return &[];
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is correct.
+        unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
+    }
+
     pub(super) fn write_app_protos_client(&self, shake_buf: &mut ShakeBuf) {
         // TODO: properly handle the error
         let len: u16 = self.app_protos_len().try_into().unwrap();
@@ -20,11 +30,7 @@ impl TurtlsExts {
         if len == 0 {
             return;
         }
-        // SAFETY: We just checked for null and the caller guarantees the string is
-        // nul-terminated.
-        let as_slice = unsafe {
-            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
-        };
+        let as_slice = self.app_protos_list();
 
         shake_buf.extend_from_slice(&ExtensionType::AppLayerProtoNeg.to_be_bytes());
 
@@ -36,6 +42,7 @@ impl TurtlsExts {
 
 pub(crate) fn parse_app_proto_client(
     alpn: &[u8],
+    mut offered: &[u8],
     alpn_state: &mut [u8; 256],
 ) -> Result<(), TurtlsAlert> {
     if alpn.len() < 4 {
@@ -53,8 +60,20 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    // Each offered name is preceded by its length.
+    loop {
+        let (&name_len, names) = offered.split_first().ok_or(TurtlsAlert::IllegalParam)?;
+        let name_len = name_len as usize;
+        let name = names.get(..name_len).ok_or(TurtlsAlert::IllegalParam)?;
+        if name == alpn {
+            break;
+        }
+        offered = &names[name_len..];
+    }
+
     // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
     // a single byte
+    alpn_state.fill(0);
     alpn_state[..alpn.len()].copy_from_slice(alpn);
     Ok(())
 }
diff --git a/src/handshake.rs b/src/handshake.rs
index 7a15637..18f6dc5 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -77,12 +77,16 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
+                    shake_state
+                        .buf
+                        .expect_type(ShakeType::EncryptedExtensions)
+                        .and_then(|data| {
+                            parse_encrypted_extensions(data, &shake_state.offered, global_state)
+                        })
+                        .map_err(|alert| {
                             global_state.rl.close(alert, aead);
                             global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                        })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..c5ad007 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -5,6 +5,7 @@ use crate::cipher_suites::TurtlsCipherList;
 use crate::config::TurtlsConfig;
 use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
+use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
 use crate::TurtlsError;
@@ -90,6 +91,7 @@ pub(crate) enum ProtShakeMsg {
 
 pub(crate) struct ShakeState {
     pub(crate) state: MaybeProt,
+    pub(crate) offered: OfferedExts,
     pub(crate) buf: ShakeBuf,
 }
 
@@ -105,6 +107,7 @@ impl ShakeState {
                     ciphers: config.cipher_suites,
                 },
             },
+            offered: OfferedExts::new(&config.extensions),
             buf: ShakeBuf::new(0x20000),
         })
     }
-- 
2.43.0


From 8b66e8c41b6aa8e20f8f3cd658d4d003550c115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 06/29] fix: parse certificate versions, signatures and
 optional fields without panicking

---
 src/certificates/x509.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..527e35c 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -27,11 +27,11 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    let Some((0, signature)) = signature.data.split_first() else {
         // there should never be unused bits
         return Err(CertError::ParseError);
-    }
-    let sig_obj = DerIter::new(&signature.data[1..]).next().ok_or(CertError::ParseError)?;
+    };
+    let sig_obj = DerIter::new(signature).next().ok_or(CertError::ParseError)?;
     if sig_obj.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -42,9 +42,7 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
+    let r = parse_uint(r_obj.data)?;
     let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
@@ -52,14 +50,26 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
+    let s = parse_uint(s_obj.data)?;
     let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
 
     Ok(Signature::new(r, s))
 }
 
+/// Parses the contents of a non-negative DER integer.
+fn parse_uint(int: &[u8]) -> Result<UBigInt<4>, CertError> {
+    if int.is_empty() || int[0] > 0x7f {
+        return Err(CertError::ParseError);
+    }
+    let leading_zeros = int.iter().take_while(|&&byte| byte == 0).count();
+    let digits = &int[leading_zeros..];
+
+    let mut buf = [0; 32];
+    let start = buf.len().checked_sub(digits.len()).ok_or(CertError::CertInvalid)?;
+    buf[start..].copy_from_slice(digits);
+    Ok(UBigInt::<4>::from_be_bytes(buf))
+}
+
 fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     if tbs_cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
@@ -73,9 +83,10 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     if next.tag == der_gen_tag(DerClass::ContextSpecific, DerPrimCon::Constructed, 0) {
         let vers = DerIter::new(next.data).next().ok_or(CertError::ParseError)?;
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
-        return Err(CertError::ParseError);
+            return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        // the encoded version is one less than the actual version
+        version = vers.data[0].checked_add(1).ok_or(CertError::UnsupportedVersion)?;
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
@@ -94,7 +105,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     let subject_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
     let subject_pub_key_info_obj = tbs_iter.next().ok_or(CertError::ParseError)?;
 
-    next = tbs_iter.next().ok_or(CertError::ParseError)?;
+    // The unique identifiers and the extensions are optional and not yet used.
 
     // if get_der_num(next.tag) == 0x01 {
     //     let issuer_unique_id = next;
-- 
2.43.0


From d33ab8f292f27e4cc785fd3e45cccc685ac6eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 07/29] fix: end the handshake with an alert after any
 Certificate message

---
 src/certificates.rs      | 51 +++++++++++++++++++++++++++++++++++-----
 src/certificates/x509.rs | 12 ++++++++++
 src/handshake.rs         | 21 +++++++++--------
 3 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..afbb100 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,5 +1,8 @@
 use std::iter::Iterator;
 
+use crate::alert::TurtlsAlert;
+use crate::extensions::ExtIter;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
@@ -32,30 +35,66 @@ impl<'a> CertIter<'a> {
 }
 
 impl<'a> Iterator for CertIter<'a> {
-    type Item = CertEntry<'a>;
+    /// A certificate that isn't completely contained in the list is an error.
+    type Item = Result<CertEntry<'a>, TurtlsAlert>;
 
-    fn next(&mut self) -> Option<CertEntry<'a>> {
-        if self.cert_list.len() < 5 {
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.cert_list.is_empty() {
             return None;
         }
+        if self.cert_list.len() < 5 {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let data_len =
             u32::from_be_bytes([0, self.cert_list[0], self.cert_list[1], self.cert_list[2]])
                 as usize;
         if data_len > self.cert_list.len() - 5 {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let extensions_len = u16::from_be_bytes([
             self.cert_list[3 + data_len],
             self.cert_list[3 + data_len + 1],
         ]) as usize;
         if extensions_len > self.cert_list.len() - 5 - data_len {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let cert = CertEntry {
             data: &self.cert_list[3..][..data_len],
             extensions: &self.cert_list[3 + data_len + 2..][..extensions_len],
         };
         self.cert_list = &self.cert_list[5 + data_len + extensions_len..];
-        Some(cert)
+        Some(Ok(cert))
+    }
+}
+
+/// Parses the body of a Certificate message sent by the server.
+///
+/// The signatures aren't verified yet so the chain must not be trusted.
+pub(crate) fn parse_cert_msg(cert_msg: &[u8]) -> Result<(), TurtlsAlert> {
+    const LEN_SIZE: usize = 3;
+
+    let (&context_len, certs) = cert_msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    // Only certificates requested after the handshake have a context.
+    if context_len != 0 {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    if certs.len() < LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (len, certs) = certs.split_at(LEN_SIZE);
+    let len = u32::from_be_bytes([0, len[0], len[1], len[2]]) as usize;
+
+    // The server must send at least one certificate.
+    if len != certs.len() || certs.is_empty() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    for cert in CertIter::new(certs) {
+        let cert = cert?;
+        for ext in ExtIter::new(cert.extensions) {
+            ext?;
+        }
+        x509::validate_cert(cert.data).map_err(x509::CertError::to_alert)?;
     }
+    Ok(())
 }
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 527e35c..9c26212 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,5 +1,7 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
+use crate::alert::TurtlsAlert;
+
 use crylib::ec::ecdsa::Signature;
 use crylib::ec::Secp256r1;
 use crylib::big_int::UBigInt;
@@ -160,6 +162,16 @@ pub(crate) enum CertError {
     UnsupportedSigAlg,
 }
 
+impl CertError {
+    pub(crate) const fn to_alert(self) -> TurtlsAlert {
+        match self {
+            Self::ParseError | Self::CertInvalid => TurtlsAlert::BadCert,
+            Self::CertExpired => TurtlsAlert::CertExpired,
+            Self::UnsupportedVersion | Self::UnsupportedSigAlg => TurtlsAlert::UnsupportedCert,
+        }
+    }
+}
+
 fn validate_time(validity: DerObj) -> Result<(), CertError> {
     if validity.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
diff --git a/src/handshake.rs b/src/handshake.rs
index 18f6dc5..b556afb 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,6 +1,7 @@
 use std::mem::MaybeUninit;
 
 use crate::aead::TlsAead;
+use crate::certificates::parse_cert_msg;
 use crate::client_hello::client_hello_client;
 use crate::config::TurtlsConfig;
 use crate::error::{FullError, TurtlsError};
@@ -99,16 +100,16 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
-                    todo!("validate certificates");
+                    // Certificates can't be verified yet so even a valid chain isn't trusted.
+                    let alert = shake_state
+                        .buf
+                        .expect_type(ShakeType::Certificate)
+                        .and_then(parse_cert_msg)
+                        .err()
+                        .unwrap_or(TurtlsAlert::CertUnknown);
+                    global_state.rl.close(alert, aead);
+                    global_state.error = FullError::sending_alert(alert);
+                    return Err(());
                 },
                 _ => todo!("Finish handshake"),
             },
-- 
2.43.0


From 873d58be289d6134d822120e0e5fd71f4ff791ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 08/29] fix: decrypt each record once and refuse unprotected
 ones after the key change

---
 src/record/read.rs | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..5b9e85f 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -52,6 +52,15 @@ impl RecordLayer {
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
     pub(crate) fn get_raw(&mut self) -> Result<(), FullError> {
+        self.fill(|_| Self::MAX_LEN).map(|_| ())
+    }
+
+    /// Reads a single record unless an unused record is already in the buffer.
+    ///
+    /// `max_len` is the maximum length of a record of a specific type.
+    ///
+    /// Returns whether a new record was read.
+    fn fill(&mut self, max_len: impl Fn(u8) -> usize) -> Result<bool, FullError> {
         loop {
             match self.rbuf.status {
                 ReadStatus::NeedsHeader(ref mut bytes_read) => {
@@ -69,7 +78,7 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    if self.rbuf.len > max_len(self.rbuf.buf[0]) {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
@@ -85,12 +94,13 @@ impl RecordLayer {
                         *bytes_read += new_bytes;
                     }
                     self.rbuf.status = ReadStatus::Moving(0);
+                    return Ok(true);
                 },
                 ReadStatus::Moving(bytes_moved) => {
                     if bytes_moved == self.rbuf.len {
                         self.rbuf.status = ReadStatus::NeedsHeader(0);
                     } else {
-                        return Ok(());
+                        return Ok(false);
                     }
                 },
             }
@@ -101,18 +111,31 @@ impl RecordLayer {
     ///
     /// If an unused record is already in the buffer, a new record will not be read.
     pub(crate) fn get(&mut self, aead: &mut TlsAead) -> Result<(), FullError> {
-        self.get_raw()?;
+        let is_new = self.fill(|msg_type| {
+            if msg_type == ContentType::ApplicationData.to_byte() {
+                Self::MAX_LEN + Self::SUFFIX_SIZE
+            } else {
+                Self::MAX_LEN
+            }
+        })?;
 
+        // Only deprotect the record if it's still protected.
+        if !is_new {
+            return Ok(());
+        }
         self.deprotect(aead)
             .map_err(|alert| FullError::sending_alert(alert))
     }
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        // ChangeCipherSpec is the only record that may be unprotected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
             return Ok(());
         }
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
 
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
@@ -140,6 +163,14 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+
+        if self.rbuf.len > Self::MAX_LEN {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
+        // ChangeCipherSpec must not be protected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         Ok(())
     }
 
-- 
2.43.0


From eddaccf555dc36bd8b569b7fae06e0fea2499013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 09/29] fix: check the type of every record of a handshake
 message

---
 src/handshake.rs   | 42 +++++++++++++++++++++++++-----------------
 src/record/read.rs | 26 +++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index b556afb..371c6b4 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -53,11 +53,17 @@ pub(crate) fn handshake_client(
                     let aead = shake_state
                         .buf
                         .expect_type(ShakeType::ServerHello)
-                        .and_then(|data| server_hello_client(data, unprot_state, global_state))
-                            .map_err(|alert| {
-                                global_state.rl.close_raw(alert);
-                                global_state.error = FullError::sending_alert(alert);
-                            })?;
+                        .and_then(|data| {
+                            // Messages must not span the key change.
+                            if global_state.rl.has_remaining() {
+                                return Err(TurtlsAlert::UnexpectedMessage);
+                            }
+                            server_hello_client(data, unprot_state, global_state)
+                        })
+                        .map_err(|alert| {
+                            global_state.rl.close_raw(alert);
+                            global_state.error = FullError::sending_alert(alert);
+                        })?;
                     shake_state.state = MaybeProt::Prot {
                         next: ProtShakeMsg::EncryptedExtensions,
                         aead,
@@ -220,21 +226,23 @@ impl ShakeBuf {
         mut get_fn: impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
         transcript: &mut TranscriptHasher,
     ) -> Result<(), FullError> {
+        // Every record of the message must be a handshake record, not just the first one.
+        let mut get_fn = |rl: &mut RecordLayer| {
+            get_fn(rl)?;
+            while rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+                rl.check_ccs()?;
+                rl.discard();
+                get_fn(rl)?;
+            }
+            rl.check_alert()?;
+            if rl.msg_type() != ContentType::Handshake.to_byte() {
+                return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+            }
+            Ok(())
+        };
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
                         get_fn(rl)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
diff --git a/src/record/read.rs b/src/record/read.rs
index 5b9e85f..a5397d8 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -207,11 +207,27 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
-        if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
-        } else {
-            Ok(())
+    /// Checks that the current record is not an alert.
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
+        if self.msg_type() != ContentType::Alert.to_byte() {
+            return Ok(());
+        }
+        match self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] {
+            [_, alert] => Err(FullError::recving_alert(TurtlsAlert::from_byte(alert))),
+            _ => Err(FullError::sending_alert(TurtlsAlert::DecodeError)),
         }
     }
+
+    /// Checks that the current record is a valid ChangeCipherSpec record.
+    pub(crate) fn check_ccs(&self) -> Result<(), FullError> {
+        match self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] {
+            [1] => Ok(()),
+            _ => Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage)),
+        }
+    }
+
+    /// Returns whether the current record contains data that hasn't been read yet.
+    pub(crate) fn has_remaining(&self) -> bool {
+        matches!(self.rbuf.status, ReadStatus::Moving(amt) if amt < self.rbuf.len)
+    }
 }
-- 
2.43.0


From e298323e5a6f5560debac4834c108cfedb246b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 10/29] fix: grow the handshake buffer up to its limit instead
 of panicking

---
 src/handshake.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 371c6b4..46cf7fb 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -197,18 +197,23 @@ impl ShakeBuf {
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&[0; Self::LEN_SIZE]);
     }
 
-    pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
+    /// Grows the buffer to at least `size` bytes, keeping its contents.
+    fn reserve(&mut self, size: usize) {
+        if size > self.buf.len() {
+            let mut buf = std::mem::take(&mut self.buf).into_vec();
+            buf.resize(size, 0);
+            self.buf = buf.into_boxed_slice();
         }
+    }
+
+    pub(crate) fn push(&mut self, value: u8) {
+        self.reserve(Self::HEADER_SIZE + self.len + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.reserve(Self::HEADER_SIZE + self.len + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
@@ -253,10 +258,11 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if Self::HEADER_SIZE + self.len > self.max_size {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                     }
                     self.status = ReadStatus::NeedsData(0);
+                    self.reserve(Self::HEADER_SIZE + self.len);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
@@ -318,7 +324,7 @@ impl ShakeBuf {
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
         self.encode_len();
-        transcript.update_with(&self.buf);
+        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
-- 
2.43.0


From 61d2cfadbf35830789796cce2fb2182dc204a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 11/29] fix: resume interrupted writes where they stopped

---
 src/handshake.rs    | 22 ++++++------
 src/record/write.rs | 88 +++++++++++++++++++++++++++++++--------------
 src/state.rs        |  1 +
 3 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 46cf7fb..9b991cd 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -32,10 +32,14 @@ pub(crate) fn handshake_client(
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error.turtls_error = err)?;
+                    shake_state.buf.finish(&mut global_state.transcript);
 
+                    *next = UnprotShakeMsg::SendClientHello;
+                },
+                UnprotShakeMsg::SendClientHello => {
                     shake_state
                         .buf
-                        .write_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .write_raw(&mut global_state.rl)
                         .map_err(|err| global_state.error.turtls_error = err)?;
 
                     *next = UnprotShakeMsg::ServerHello;
@@ -303,14 +307,15 @@ impl ShakeBuf {
         self.read_inner(rl, get_fn, transcript)
     }
 
-    pub(crate) fn write_raw(
-        &mut self,
-        rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
-    ) -> Result<(), TurtlsError> {
+    /// Completes the message that is about to be written.
+    ///
+    /// This must be called exactly once per message, even if writing it is interrupted.
+    pub(crate) fn finish(&mut self, transcript: &mut TranscriptHasher) {
         self.encode_len();
-
         transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+    }
+
+    pub(crate) fn write_raw(&mut self, rl: &mut RecordLayer) -> Result<(), TurtlsError> {
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
@@ -320,11 +325,8 @@ impl ShakeBuf {
     pub(crate) fn write(
         &mut self,
         rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
-        self.encode_len();
-        transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
         rl.write(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..7af4c01 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,8 +14,10 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes written to IO, not including headers and protection.
     total_bytes: usize,
+    /// Whether a record has been prepared but not completely written.
+    pending: bool,
 }
 
 impl WriteBuf {
@@ -25,6 +27,7 @@ impl WriteBuf {
             len: 0,
             record_bytes: 0,
             total_bytes: 0,
+            pending: false,
         };
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
@@ -36,35 +39,55 @@ impl RecordLayer {
         self.wbuf.buf[0] = msg_type.to_byte();
     }
 
+    /// Writes `buf`, split into as many records as needed.
+    ///
+    /// If IO fails, calling this function again with the same `buf` continues where it stopped.
     pub(crate) fn write_raw(
         &mut self,
         buf: &[u8],
         msg_type: ContentType,
     ) -> Result<(), TurtlsError> {
-        self.set_msg_type(msg_type);
-        while self.wbuf.total_bytes < buf.len() {
-            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
-            self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
-                .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
-            self.wbuf.len = record_size;
-            self.finish_raw()?;
-        }
-        self.wbuf.total_bytes = 0;
-        Ok(())
+        self.write_inner(buf, |rl| {
+            rl.set_msg_type(msg_type);
+            rl.finish_raw()
+        })
     }
 
+    /// Encrypts and writes `buf`, split into as many records as needed.
+    ///
+    /// If IO fails, calling this function again with the same `buf` continues where it stopped.
     pub(crate) fn write(
         &mut self,
         buf: &[u8],
         msg_type: ContentType,
         aead: &mut TlsAead,
     ) -> Result<(), TurtlsError> {
-        self.set_msg_type(ContentType::ApplicationData);
-        for record in buf[self.wbuf.total_bytes..].chunks(Self::MAX_LEN) {
-            self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
-            self.wbuf.len = record.len();
-            self.finish(msg_type, aead)?;
+        self.write_inner(buf, |rl| {
+            rl.set_msg_type(ContentType::ApplicationData);
+            rl.finish(msg_type, aead)
+        })
+    }
+
+    fn write_inner(
+        &mut self,
+        buf: &[u8],
+        mut finish: impl FnMut(&mut Self),
+    ) -> Result<(), TurtlsError> {
+        while self.wbuf.total_bytes < buf.len() {
+            let record_size = std::cmp::min(buf.len() - self.wbuf.total_bytes, Self::MAX_LEN);
+            // A record must only be prepared once, even if writing it is interrupted.
+            if !self.wbuf.pending {
+                self.wbuf.buf[Self::HEADER_SIZE..][..record_size]
+                    .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
+                self.wbuf.len = record_size;
+                finish(self);
+                self.wbuf.pending = true;
+            }
+            self.write_record()?;
+            self.wbuf.pending = false;
+            self.wbuf.total_bytes += record_size;
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -73,18 +96,16 @@ impl RecordLayer {
         self.wbuf.buf[Self::HEADER_SIZE - Self::LEN_SIZE..Self::HEADER_SIZE].copy_from_slice(&len);
     }
 
-    fn finish_raw(&mut self) -> Result<(), TurtlsError> {
+    fn finish_raw(&mut self) {
         self.encode_len();
-        self.write_record()
     }
 
-    fn finish(&mut self, msg_type: ContentType, aead: &mut TlsAead) -> Result<(), TurtlsError> {
+    fn finish(&mut self, msg_type: ContentType, aead: &mut TlsAead) {
         self.wbuf.buf[Self::HEADER_SIZE + self.wbuf.len] = msg_type.to_byte();
         self.wbuf.len += size_of::<ContentType>();
         self.wbuf.len += TAG_SIZE;
         self.encode_len();
         self.protect(aead);
-        self.write_record()
     }
 
     fn write_record(&mut self) -> Result<(), TurtlsError> {
@@ -95,7 +116,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
@@ -108,17 +128,31 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Abandons any interrupted write.
+    ///
+    /// Returns whether another record may be written without being taken for the rest of the
+    /// abandoned one.
+    fn abort_write(&mut self) -> bool {
+        self.wbuf.pending = false;
+        self.wbuf.total_bytes = 0;
+        self.wbuf.record_bytes == 0
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        if self.abort_write() {
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
     pub(crate) fn close(&mut self, alert: TurtlsAlert, aead: &mut TlsAead) {
-        let _ = self.write(
-            &AlertMsg::new(alert).to_be_bytes(),
-            ContentType::Alert,
-            aead,
-        );
+        if self.abort_write() {
+            let _ = self.write(
+                &AlertMsg::new(alert).to_be_bytes(),
+                ContentType::Alert,
+                aead,
+            );
+        }
         self.io.close();
     }
 }
diff --git a/src/state.rs b/src/state.rs
index c5ad007..695e7cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -73,6 +73,7 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    SendClientHello,
     ServerHello,
 }
 
-- 
2.43.0


From 3e4fd8b43c4204a00cdf4542f5c9064beeacad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 12/29] fix: end connections exactly once and start the next
 one from scratch

---
 src/lib.rs          | 26 ++++++++++++++++++++++----
 src/record.rs       | 11 +++++++++++
 src/record/write.rs |  8 ++++++++
 src/state.rs        | 10 ++++++++++
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3545854..ce99669 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,6 +23,7 @@ use crylib::hash::Sha256;
 use crylib::hkdf;
 
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -78,10 +79,13 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                // The object may have been used for another connection.
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
                         tls_conn.gloabl_state.error.turtls_error = err;
+                        tls_conn.gloabl_state.rl.close_io();
                         return -1;
                     },
                 }
@@ -95,6 +99,14 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    match tls_conn.gloabl_state.error.turtls_error {
+                        // These errors are resumable.
+                        TurtlsError::WantRead | TurtlsError::WantWrite => return -1,
+                        // The connection was closed after sending the alert.
+                        TurtlsError::Tls => (),
+                        _ => tls_conn.gloabl_state.rl.close_io(),
+                    }
+                    tls_conn.state = TlsStatus::None;
                     return -1;
                 }
                 todo!()
@@ -118,10 +130,16 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => {
+            tls_conn.gloabl_state.rl.close(TurtlsAlert::CloseNotify, aead)
+        },
+        TlsStatus::Shake(_) => tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..a07f4c0 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,15 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Drops all buffered data, allowing for a new connection.
+    pub(crate) fn reset(&mut self) {
+        self.discard();
+        self.wbuf.clear();
+    }
+
+    /// Closes the connection without alerting the peer.
+    pub(crate) fn close_io(&self) {
+        self.io.close();
+    }
 }
diff --git a/src/record/write.rs b/src/record/write.rs
index 7af4c01..720e389 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -32,6 +32,14 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    /// Abandons the current record and everything that was to be written after it.
+    pub(super) fn clear(&mut self) {
+        self.len = 0;
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+        self.pending = false;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/state.rs b/src/state.rs
index 695e7cb..76d3660 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -42,6 +42,16 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Removes everything that belongs to the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.error = FullError::default();
+        self.rl.reset();
+        self.transcript = TranscriptHasher::new();
+        self.app_proto.fill(0);
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From f29b5714b0b6cc976ddd40d7455ed3c8d96a4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 13/29] fix: refuse configurations that ClientHello can't
 represent

---
 src/cipher_suites.rs          |  5 ++++-
 src/error.rs                  |  8 ++++++++
 src/extensions.rs             | 12 ++++++++++++
 src/extensions/app_proto.rs   | 17 +++++++++++++++++
 src/extensions/key_share.rs   |  6 ++++--
 src/extensions/server_name.rs |  6 +++++-
 src/extensions/sig_algs.rs    |  5 ++++-
 src/lib.rs                    |  2 +-
 src/state.rs                  | 11 ++++++++---
 9 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..d1352b5 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -23,7 +23,10 @@ impl TurtlsCipherList {
     pub(crate) const LEN_SIZE: usize = 2;
 
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        // Unknown cipher suites aren't written.
+        let known = self.suites
+            & (Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256);
+        known.count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/error.rs b/src/error.rs
index 80f11a2..bf5eddf 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -59,6 +59,14 @@ impl FullError {
         }
     }
 
+    /// An error that isn't caused by the peer and that isn't sent to it.
+    pub(crate) const fn internal() -> Self {
+        Self {
+            turtls_error: TurtlsError::Tls,
+            alert: TurtlsAlert::InternalError,
+        }
+    }
+
     pub(crate) fn error(turtls_error: TurtlsError) -> Self {
         Self {
             turtls_error,
diff --git a/src/extensions.rs b/src/extensions.rs
index 4968b2a..05f06ca 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -3,6 +3,7 @@ use std::ptr::null;
 
 use crate::aead::TlsAead;
 use crate::alert::TurtlsAlert;
+use crate::error::{FullError, TurtlsError};
 use crate::handshake::ShakeBuf;
 use crate::state::{GlobalState, UnprotShakeState};
 
@@ -138,6 +139,17 @@ impl TurtlsExts {
         len
     }
 
+    /// Checks that ClientHello can represent the extensions.
+    pub(crate) fn check_client(&self) -> Result<(), FullError> {
+        if self.sig_algs & TURTLS_ECDSA_SECP256R1 == 0 || self.sup_groups & TURTLS_SECP256R1 == 0 {
+            return Err(FullError::error(TurtlsError::MissingExtensions));
+        }
+        if !self.app_protos_valid() || self.len_client() > u16::MAX as usize {
+            return Err(FullError::internal());
+        }
+        Ok(())
+    }
+
     /// Write the extensions to ClientHello.
     pub(crate) fn write_client(&self, shake_buf: &mut ShakeBuf, keys: &GroupKeys) {
         self.write_server_name(shake_buf);
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index e268ed8..90b5a82 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -23,6 +23,23 @@ impl TurtlsExts {
         unsafe { std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len) }
     }
 
+    /// Returns whether the names in the list have valid lengths.
+    pub(super) fn app_protos_valid(&self) -> bool {
+        // Check the length first because a longer list could never be sent.
+        if self.app_protos_len > u16::MAX as usize {
+            return self.app_protos.is_null();
+        }
+        let mut list = self.app_protos_list();
+        while let Some((&name_len, names)) = list.split_first() {
+            let name_len = name_len as usize;
+            if name_len == 0 || name_len > names.len() {
+                return false;
+            }
+            list = &names[name_len..];
+        }
+        true
+    }
+
     pub(super) fn write_app_protos_client(&self, shake_buf: &mut ShakeBuf) {
         // TODO: properly handle the error
         let len: u16 = self.app_protos_len().try_into().unwrap();
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index b06e8c4..6087ff7 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -60,7 +60,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -122,7 +122,9 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        // Unknown groups aren't written.
+        Self::LEN_SIZE
+            + (self.sup_groups & TURTLS_SECP256R1).count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..850ef99 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -12,11 +12,15 @@ impl TurtlsExts {
             return 0;
         }
         let str_len = unsafe { CStr::from_ptr(self.server_name).count_bytes() };
+        // An empty name can't be sent.
+        if str_len == 0 {
+            return 0;
+        }
         Self::LEN_SIZE + size_of_val(&SERVER_NAME_TYPE) + Self::LEN_SIZE + str_len
     }
 
     pub(super) fn write_server_name(&self, shake_buf: &mut ShakeBuf) {
-        if self.server_name.is_null() {
+        if self.server_name_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::ServerName.to_be_bytes());
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..87f09ee 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,7 +57,10 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        // Unknown algorithms aren't written.
+        (self.sig_algs & TURTLS_ECDSA_SECP256R1).count_ones() as usize
+            * size_of::<SignatureScheme>()
+            + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/lib.rs b/src/lib.rs
index ce99669..1ff1d0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,7 +84,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
-                        tls_conn.gloabl_state.error.turtls_error = err;
+                        tls_conn.gloabl_state.error = err;
                         tls_conn.gloabl_state.rl.close_io();
                         return -1;
                     },
diff --git a/src/state.rs b/src/state.rs
index 76d3660..d8f0729 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -8,7 +8,7 @@ use crate::extensions::key_share::GroupKeys;
 use crate::extensions::OfferedExts;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
-use crate::TurtlsError;
+
 /// A TLS connection object.
 ///
 /// An instance may be reused between multiple consecutive connections.
@@ -107,12 +107,17 @@ pub(crate) struct ShakeState {
 }
 
 impl ShakeState {
-    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, TurtlsError> {
+    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, FullError> {
+        config.extensions.check_client()?;
+        if config.cipher_suites.len() == 0 {
+            return Err(FullError::internal());
+        }
         Ok(Self {
             state: MaybeProt::Unprot {
                 next: UnprotShakeMsg::ClientHello,
                 unprot_state: UnprotShakeState {
-                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)?,
+                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)
+                        .map_err(FullError::error)?,
                     sup_groups: config.extensions.sup_groups,
                     sig_algs: config.extensions.sig_algs,
                     ciphers: config.cipher_suites,
-- 
2.43.0


From 51cd8cf28597864de95c4513e4eb7044fa36a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 14/29] fix: report a private key equal to the curve's order as
 zero

---
 src/extensions/key_share.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 6087ff7..4813358 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -72,9 +72,13 @@ impl GroupKeys {
 
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+
+        // The order of the curve is zero, too.
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From 597a41b4c57dc34a1602b80b67cf85f9dc6c89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 15/29] fix: don't authenticate an extra zero block for
 whole-block GCM inputs

---
 crylib/src/aead/gcm.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..5463492 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +173,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 9e777be643a0ee4c10b892d99c6fdb223a8df226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 16/29] fix: hash HMAC keys that are longer than a block

---
 crylib/src/hmac.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..638db39 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -16,6 +16,14 @@ where
     H: BlockHasher<H_LEN, B_LEN>,
 {
     pub fn new(key: &[u8]) -> Self {
+        let hashed_key;
+        let key = if key.len() > B_LEN {
+            hashed_key = H::hash(key);
+            hashed_key.as_slice()
+        } else {
+            key
+        };
+
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
-- 
2.43.0


From 0e2160328445244704de476fc2c907b807d987f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 17/29] fix: leave the rest of the buffer alone in
 chacha20::encrypt

---
 crylib/src/aead/chacha/chacha20.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..2ba9c2e 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -123,7 +123,8 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// WARNING: users MUST NOT use the same `nonce`
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
-    buf[..msg.len()].copy_from_slice(msg);
+    let buf = &mut buf[..msg.len()];
+    buf.copy_from_slice(msg);
     encrypt_inline(buf, key, nonce, counter);
 }
 
-- 
2.43.0


From cac8babe91089efd02bceb8e15051408bfb82865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 18/29] fix: implement viewing a digit array as a UBigInt

---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From bbbcc63d9dc71c3e280bd538e997c64e904cdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 19/29] fix: put the carry of 3-digit FieldElement::mul_digit
 in the right digit

---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From aef601555300782ac7a6625cc6f9998222f28157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 20/29] fix: return the absolute value from BigInt::abs

---
 crylib/src/big_int/signed.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..897cd31 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,13 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        let was_negative = self.is_negative;
+        self.xor_assign(&Self {
+            digits: UBigInt::MAX.and_bool(was_negative),
+            is_negative: was_negative,
+        });
+        self.digits
+            .add_assign(&UBigInt::ONE.and_bool(was_negative));
     }
 
     /// Returns the absolute value of `self`.
@@ -212,7 +216,9 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        let mut buf = *self;
+        buf.abs_assign();
+        buf
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
-- 
2.43.0


From bf675376454acedf2199c983a9c3139b2ad19093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 21/29] fix: order BigInts by value, whatever their distance

---
 crylib/src/big_int/signed.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 897cd31..32a803b 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -281,7 +281,7 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        self.cmp(other).is_lt()
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -289,7 +289,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        self.cmp(other).is_gt()
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -303,12 +303,11 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
-        }
+        // Numbers of the same sign are in the order of their two's compliment digits.
+        other
+            .is_negative
+            .cmp(&self.is_negative)
+            .then_with(|| self.digits.cmp(&other.digits))
     }
 }
 
-- 
2.43.0


From c1cf22e5082c763e225e1aa5971d4e02062da629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 22/29] fix: extend the sign when a BigInt grows

---
 crylib/src/big_int/signed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 32a803b..868f5ad 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -222,8 +222,13 @@ impl<const N: usize> BigInt<N> {
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
+        let mut digits: UBigInt<O> = self.digits.resize();
+        // extend the sign
+        for digit in digits.0.iter_mut().skip(N) {
+            *digit = (self.is_negative as u64).wrapping_neg();
+        }
         BigInt {
-            digits: self.digits.resize(),
+            digits,
             is_negative: self.is_negative,
         }
     }
-- 
2.43.0


From 99a69620055c0d77fab897f62b85478ca65b80f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 23/29] fix: multiply negative BigInts by value

---
 crylib/src/big_int/signed.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 868f5ad..12d504d 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -266,15 +266,20 @@ macro_rules! impl_big_int {
 
             /// Muliplies `self` and `rhs`, returing the result.
             ///
-            /// The product is twice the width of the input, so overflow cannot occur.
+            /// The product is twice the width of the input, so overflow cannot occur, except that
+            /// the square of [`Self::MIN`] wraps around to the product type's `MIN`.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
-                BigInt::<{ $n * 2 }> {
-                    digits: product,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
+                let mut product = BigInt::<{ $n * 2 }> {
+                    digits: self.digits.widening_mul(&rhs.digits),
+                    is_negative: self.is_negative & rhs.is_negative,
+                };
+                // The digits of a negative number are too large by `2^($n * 64)`.
+                for (factor, other) in [(self, rhs), (rhs, self)] {
+                    let mut excess = [0; $n * 2];
+                    excess[$n..].copy_from_slice(&other.digits.and_bool(factor.is_negative).0);
+                    product.sub_assign(&UBigInt(excess).into());
                 }
+                product
             }
         }
     };
-- 
2.43.0


From b05fd94e23308102c747839b7b7536f67b208c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 24/29] fix: divide negative BigInts by value

---
 crylib/src/big_int/signed.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 12d504d..1cd2bd5 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -239,23 +239,39 @@ macro_rules! impl_big_int {
         impl BigInt<$n> {
             /// Divides `self` by `rhs`, returning the quotient and the remainder.
             ///
+            /// The quotient is rounded towards zero. The remainder has the sign of `self`.
+            ///
             /// # Panics
             /// This function will panic if `divisor == Self::ZERO`.
             ///
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
+                if rhs == &Self::MIN {
+                    return match self == rhs {
+                        true => (Self::ONE, Self::ZERO),
+                        false => (Self::ZERO, *self),
+                    };
+                }
+                let divisor = rhs.abs().digits;
+                let (mut quotient, mut remainder): (Self, Self) = if self == &Self::MIN {
+                    // the absolute value of `MIN` is `MAX + 1`
+                    let (quotient, mut remainder) = UBigInt::<$n>::MAX.div(&divisor);
+                    remainder.add_assign(&UBigInt::ONE);
+                    match remainder == divisor {
+                        true => (Self::from(quotient).add(&Self::ONE), Self::ZERO),
+                        false => (quotient.into(), remainder.into()),
+                    }
+                } else {
+                    let (quotient, remainder) = self.abs().digits.div(&divisor);
+                    (quotient.into(), remainder.into())
                 };
+                if self.is_negative ^ rhs.is_negative {
+                    quotient.neg_assign();
+                }
+                if self.is_negative {
+                    remainder.neg_assign();
+                }
                 (quotient, remainder)
             }
 
-- 
2.43.0


From 9317008a4de83dbba21dcf9d852a5b8399c63ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 25/29] fix: add equal projective points and compare the point
 at infinity

---
 crylib/src/ec/point/projective.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..f01a44c 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -11,6 +11,9 @@ pub struct ProjectivePoint<C: EllipticCurve> {
 
 impl<C: EllipticCurve> PartialEq for ProjectivePoint<C> {
     fn eq(&self, other: &Self) -> bool {
+        if self.is_infinity() | other.is_infinity() {
+            return self.is_infinity() & other.is_infinity();
+        }
         (self.x.mul(&other.z) == other.x.mul(&self.z))
             & (self.y.mul(&other.z) == other.y.mul(&self.z))
     }
@@ -60,7 +63,7 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     /// Adds `self` and `rhs`, returning the other point if either point is infinity.
     ///
     /// Generally, use this method instead of [`add_fast`]. If, however, it is guaranteed that neither
-    /// point is infinity, consider using [`add_fast`].
+    /// point is infinity and that the points differ, consider using [`add_fast`].
     ///
     /// [`add_fast`]: ProjectivePoint::add_fast
     pub fn add(&self, rhs: &Self) -> Self {
@@ -70,13 +73,18 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
         if rhs.is_infinity() {
             return *self;
         }
-        Self::add_fast(self, rhs)
+        let sum = Self::add_fast(self, rhs);
+        // `add_fast` can't add a point to itself: all coordinates of its sum are zero
+        if sum.is_infinity() && sum.y == FieldElement::ZERO {
+            return self.double();
+        }
+        sum
     }
 
     /// Adds `self` and `rhs`, returning [`POINT_AT_INF`] if either point is infinity.
     ///
     /// Generally, use [`add`] instead of this method. If, however, it is guaranteed that neither
-    /// point is infinity, consider using this method.
+    /// point is infinity and that the points differ, consider using this method.
     ///
     /// [`add`]: ProjectivePoint::add
     /// [`POINT_AT_INF`]: ProjectivePoint::POINT_AT_INF
@@ -124,14 +132,7 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
     }
 
     pub fn add_assign(&mut self, rhs: &Self) {
-        if self.is_infinity() {
-            *self = *rhs;
-            return;
-        }
-        if rhs.is_infinity() {
-            return;
-        }
-        self.add_assign_fast(rhs);
+        *self = self.add(rhs);
     }
 
     pub fn double(&self) -> Self {
-- 
2.43.0


From 484a3880868b4596b77fec04a4c869f01b53889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 26/29] fix: add equal affine points and refuse opposite ones

---
 crylib/src/ec/point/affine.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crylib/src/ec/point/affine.rs b/crylib/src/ec/point/affine.rs
index 0f33cdf..86c5888 100644
--- a/crylib/src/ec/point/affine.rs
+++ b/crylib/src/ec/point/affine.rs
@@ -82,7 +82,16 @@ impl<C: EllipticCurve> AffinePoint<C> {
         Self { x, y }
     }
 
+    /// Adds `self` and `rhs`.
+    ///
+    /// # Panics
+    /// This function panics if the sum is the point at infinity, which has no affine
+    /// representation.
     pub fn add(&self, rhs: &Self) -> Self {
+        if self.x == rhs.x {
+            assert_eq!(self.y, rhs.y, "the sum is the point at infinity");
+            return self.double();
+        }
         let slope = rhs.y.sub(&self.y).div(&rhs.x.sub(&self.x));
         self.third_point_on_line(rhs, &slope)
     }
-- 
2.43.0


From 887bbe382413bca378b3f33586b5ff4fb1f4331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 27/29] fix: start every ECDSA signing attempt from the
 message's hash

---
 crylib/src/ec/ecdsa.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..0f35282 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,11 +51,14 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
         let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
@@ -64,8 +67,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From d7e44d8c0de6c3cc401f1318af676a11ec11f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 28/29] fix: refuse ECDSA signatures with zeros instead of
 panicking

---
 crylib/src/ec/ecdsa.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 0f35282..c3c3af4 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -82,6 +82,10 @@ pub fn verify_signature<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     sig: &Signature<C::Order>,
 ) -> Result<ValidSig, InvalidSig> {
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO || pub_key.is_infinity() {
+        return Err(InvalidSig);
+    }
+
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
     let inverse = sig.s.inverse();
-- 
2.43.0


From cc74bd5221a253d81051e7f39ec726e8141a7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 29/29] fix: keep masking, shifts and is_positive free of
 branches in optimized builds

---
 crylib/src/big_int/signed.rs   |  4 +++-
 crylib/src/big_int/unsigned.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 1cd2bd5..da0c243 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -152,7 +152,9 @@ impl<const N: usize> BigInt<N> {
     /// This is a constant-time operation.
     #[inline]
     pub fn is_positive(&self) -> bool {
-        !self.is_negative & (self.digits != UBigInt::ZERO)
+        // comparing arrays may stop at the first difference
+        let digits = self.digits.0.iter().fold(0, |acc, digit| acc | digit);
+        !self.is_negative & (digits != 0)
     }
 
     /// Converts `self` into its one's compliment
diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 2b29e78..2d35856 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -7,6 +7,7 @@
 
 use super::{carry_mul, BigInt, FromNegErr};
 use core::cmp::{Eq, Ord, Ordering, PartialEq, PartialOrd};
+use core::hint::black_box;
 
 /// An unsigned integer of size `N * 64` bits.
 ///
@@ -360,7 +361,8 @@ impl<const N: usize> UBigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn and_bool_assign(&mut self, rhs: bool) {
-        let mask = (rhs as u64).wrapping_neg();
+        // hidden from the optimizer, which would branch on it
+        let mask = black_box((rhs as u64).wrapping_neg());
         for digit in self.0.iter_mut() {
             *digit &= mask
         }
@@ -388,7 +390,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_right_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let left_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = black_box(((rhs != 0) as u64).wrapping_neg());
 
         for i in 0..N - 1 {
             self.0[i] >>= rhs;
@@ -414,7 +416,7 @@ impl<const N: usize> UBigInt<N> {
     pub fn shift_left_assign(&mut self, mut rhs: u64) {
         rhs %= 64;
         let right_shift = (64 - rhs) % 64;
-        let mask = ((rhs != 0) as u64).wrapping_neg();
+        let mask = black_box(((rhs != 0) as u64).wrapping_neg());
 
         for i in (1..N).rev() {
             self.0[i] <<= rhs;
@@ -696,7 +698,7 @@ macro_rules! impl_non_generic {
                 rhs %= 64;
                 let mut expanded = [0u64; $n + 1];
                 let right_shift = (64 - rhs) % 64;
-                let mask = ((rhs != 0) as u64).wrapping_neg();
+                let mask = black_box(((rhs != 0) as u64).wrapping_neg());
 
                 expanded[$n] = self.0[$n - 1] >> right_shift & mask;
                 for i in (1..$n).rev() {
-- 
2.43.0

