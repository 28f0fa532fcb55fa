From ca68d0dd0f70eacbe1ba630b753c6cae2a4bee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 01/25] fix: reject fields whose range lies outside of the
 message

The offset and length of a payload field come from the peer; slicing the
input with them panicked when they designate bytes past its end.
---
 src/messages/authenticate.rs |  3 +++
 src/messages/field.rs        | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..f9aee52 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -142,6 +142,9 @@ impl<'a> Wire<'a> for Authenticate {
         )(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
+        if lm_challenge_response_field.len != 0 {
+            lm_challenge_response_field.get_data::<E>("lm_challenge_response", input)?;
+        }
         let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..67e8ee4 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -51,10 +51,28 @@ impl<'a> Wire<'a> for Field {
 impl Field {
     pub(crate) fn get_range(&self) -> Range<usize> {
         let start = self.offset as usize;
-        let end = start + self.len as usize;
+        let end = start.saturating_add(self.len as usize);
         start..end
     }
 
+    /// Returns the bytes designated by this field, or an error if they lie outside of `input`.
+    pub(super) fn get_data<'a, E>(
+        &self,
+        typename: &'static str,
+        input: &'a [u8],
+    ) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::add_context(
+                input,
+                typename,
+                E::from_error_kind(input, nom::error::ErrorKind::Eof),
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +88,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(typename, input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +120,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(typename, input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 709aca43ec963f7dbf5b030e53f36d74d5f764bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 02/25] fix: reject AV pairs whose value is not entirely
 understood

The value comes from the peer: an embedded NUL, an odd length or a wrong
size panicked in debug builds and silently dropped the end of the value
in release builds.
---
 src/messages/structures/avid.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..293f5b1 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{map_opt, verify};
+use nom::combinator::{all_consuming, map_opt, verify};
 use nom::error::context;
 use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
@@ -240,54 +240,44 @@ impl<'a> Wire<'a> for AvPair {
                 Ok((rest, Self::MsvAvEOL))
             }
             AvId::MsvAvNbComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
-                let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, f) = all_consuming(MsvAvFlags::deserialize)(data)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
-                let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, ts) = all_consuming(FileTime::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
-                let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, shd) = all_consuming(SingleHostData::deserialize)(data)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
-                let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(take(buf.len()))(data)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From fe32727f931c470af1e076824690f483cf7abceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/25] fix: decode UTF-16 surrogate pairs in names

Each code unit was decoded on its own, so a name was cut at its first
character outside of the BMP and did not survive an encode/decode round
trip.
---
 src/messages/unicode_string.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..2cad258 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -2,10 +2,12 @@ use std::fmt;
 use std::io;
 use std::ops::{Deref, DerefMut};
 
+use nom::branch::alt;
 use nom::combinator::{map, map_opt};
 use nom::error::context;
 use nom::multi::fold_many0;
 use nom::number::complete::le_u16;
+use nom::sequence::tuple;
 
 use crate::messages::{utils::write_u16, Wire};
 
@@ -109,13 +111,20 @@ impl<'a> Wire<'a> for UnicodeString {
             "Unicode string",
             map(
                 fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
+                    alt((
+                        map_opt(le_u16, |b| {
+                            if b == 0 {
+                                None
+                            } else {
+                                char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
+                            }
+                        }),
+                        // Characters outside of the BMP are encoded as a surrogate pair
+                        map_opt(tuple((le_u16, le_u16)), |(high, low)| {
+                            let c = char::decode_utf16([high, low]).next().unwrap().ok()?;
+                            (c.len_utf16() == 2).then_some(c)
+                        }),
+                    )),
                     String::new,
                     |mut acc: String, c| {
                         acc.push(c);
-- 
2.43.0


From ab4780c0f20a6948abd388364d584293ff283888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 04/25] fix: compute the LM hash of passwords with non-ASCII
 characters

The password was cut at byte offsets of a str and its length was expected
not to change when uppercased, so creating a client panicked for e.g.
"aaaaaa\u{e9}" or "stra\u{df}e".
---
 src/crypto/lm.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..bf5999e 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,11 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
+fn prepare_password(password: &str) -> [u8; 14] {
+    let mut p = [0u8; 14];
+    for (dst, src) in p.iter_mut().zip(password.to_uppercase().bytes()) {
+        *dst = src;
     }
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +16,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From dfcce800478ea2e2ca8cc47bf1aab059ee0d40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 05/25] fix: derive the NTLMv1 key exchange key from the
 negotiated flags

The extended session security derivation was used even when the server
did not negotiate it (MS-NLMP 3.4.5.1), so client and server ended up
with different session keys.
---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 117a26c..afb1eb6 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -182,7 +182,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then_some(&challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From 8659c2192f30bcb702b636a3b6a4f82f20a85413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 06/25] fix: only send an encrypted session key when a key
 exchange takes place

Without it the AUTHENTICATE message still announced a key exchange and
carried 16 zero bytes, which the server decrypts to a session key that
the client does not have.
---
 src/client.rs | 12 +++++++++---
 src/crypto.rs | 10 +++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index afb1eb6..97712d5 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::{
-    crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
+    crypto::{encrypt_random_session_key, exchanges_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
     messages::{
         flags,
         structures::{AvPair, ClientChallenge, Version},
@@ -198,7 +198,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -238,7 +241,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
diff --git a/src/crypto.rs b/src/crypto.rs
index 3ab229e..c4e9bd8 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -89,14 +89,18 @@ pub fn kxkey(
     key_exchange_key
 }
 
+/// Whether the client chooses the session key and sends it encrypted to the server
+pub fn exchanges_session_key(flags: &Flags) -> bool {
+    flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+}
+
 pub fn encrypt_random_session_key(
     flags: &Flags,
     key_exchange_key: &KeyExchangeKey,
     exported_session_key: Option<ExportedSessionKey>,
 ) -> (ExportedSessionKey, EncryptedRandomSessionKey) {
-    if flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
-        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
-    {
+    if exchanges_session_key(flags) {
         let exported_session_key = if let Some(e) = exported_session_key {
             e
         } else {
-- 
2.43.0


From aef65ea75afca4fd282cdb459d2dfeb4faa195aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 07/25] fix: send the negotiated flags in NTLMv2 AUTHENTICATE
 messages

They were left to their default value, so the message did not tell which
of signing, sealing and extended session security were agreed on.
---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index 97712d5..fc55ddf 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -236,6 +236,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(nt_challenge.into());
         auth.domain = Some(self.domain.clone().into());
-- 
2.43.0


From 0e92eafe4039ae6b55e369bc1ddb67e0fdb4f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 08/25] fix: do not announce a version the AUTHENTICATE message
 does not carry

The flag was copied from the challenge while the client has no version to
send, so the peer read the version out of the MIC and the MIC out of the
payload.
---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index fc55ddf..80136d3 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -291,6 +291,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From 1178afb953cce7b89c3669e7d5bb11ed7bb3c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 09/25] fix: always announce Unicode in AUTHENTICATE messages

Their names are always encoded in UTF-16, yet after a challenge which does
not select Unicode the message announced no character set at all.
---
 src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 80136d3..2317943 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -298,6 +298,8 @@ where
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
         auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
+        auth.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
-- 
2.43.0


From 53e1ee6d46893dfef0b25288710f2be702142db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 10/25] fix: compute the MIC over the AUTHENTICATE message that
 is sent

The workstation, the version and the flags were modified after the MIC
had been computed, so it never matched the message.
---
 src/client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 2317943..8b3edaf 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -208,7 +208,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -247,7 +246,6 @@ where
                 .then_some(encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
 
         auth
     }
@@ -303,6 +301,9 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if V::version() > 2 {
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From 7c81b36f41a7e444c7b25e7218f3eabc541c0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 11/25] fix: send the proof in the NTLMv2 response

The response only held the data that NTProofStr is computed on, not
NTProofStr itself nor the trailing reserved bytes, so no server could
verify it. On the decoding side such responses were taken for NTLMv1 ones
and cut to 24 bytes.
---
 src/client.rs                           | 10 +++-
 src/messages/structures.rs              |  2 +-
 src/messages/structures/nt_challenge.rs | 64 +++++++++++++++++++++++--
 3 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 8b3edaf..28d724c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -4,7 +4,7 @@ use crate::{
     crypto::{encrypt_random_session_key, exchanges_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, Ntv2Response, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -237,7 +237,13 @@ where
         let mut auth = Authenticate::default();
         auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(
+            Ntv2Response {
+                nt_proof_str,
+                challenge: nt_challenge,
+            }
+            .into(),
+        );
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/messages/structures.rs b/src/messages/structures.rs
index d0d7291..3a0597d 100644
--- a/src/messages/structures.rs
+++ b/src/messages/structures.rs
@@ -13,7 +13,7 @@ mod lm_challenge;
 pub use lm_challenge::{LmChallenge, Lmv1Challenge, Lmv2Challenge};
 
 mod nt_challenge;
-pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge};
+pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge, Ntv2Response};
 
 mod version;
 pub use version::Version;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..2ff22cc 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -1,13 +1,13 @@
 use std::io;
 
 use nom::branch::alt;
-use nom::combinator::{map, verify};
+use nom::combinator::{all_consuming, map, verify};
 use nom::error::context;
 use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -98,10 +98,58 @@ impl<'a> Wire<'a> for Ntv2Challenge {
     }
 }
 
+/// The NTLMv2_RESPONSE structure ([MS-NLMP] section 2.2.2.8): the proof that the client knows the
+/// password followed by the data it was computed on.
+#[derive(Debug, Default, Clone, PartialEq, Eq)]
+pub struct Ntv2Response {
+    pub nt_proof_str: NtProofStr,
+    pub challenge: Ntv2Challenge,
+}
+
+impl<'a> Wire<'a> for Ntv2Response {
+    fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
+    where
+        W: io::Write,
+    {
+        let mut size = self.nt_proof_str.serialize_into(writer)?;
+        size += self.challenge.serialize_into(writer)?;
+        // Reserved4
+        size += write_u32(writer, 0)?;
+        Ok(size)
+    }
+
+    fn deserialize<E>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>
+    where
+        E: NomError<'a>,
+    {
+        let (rest, (nt_proof_str, mut challenge)) = context(
+            "Ntv2Response",
+            tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
+        )(input)?;
+
+        // Reserved4 is decoded as an additional `MsvAvEOL`
+        if challenge.target_infos.pop() != Some(AvPair::MsvAvEOL) {
+            return Err(nom::Err::Error(E::from_error_kind(
+                input,
+                nom::error::ErrorKind::Verify,
+            )));
+        }
+
+        Ok((
+            rest,
+            Self {
+                nt_proof_str,
+                challenge,
+            },
+        ))
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    V2Response(Ntv2Response),
 }
 
 impl Default for NtChallenge {
@@ -122,6 +170,12 @@ impl From<Ntv2Challenge> for NtChallenge {
     }
 }
 
+impl From<Ntv2Response> for NtChallenge {
+    fn from(c: Ntv2Response) -> Self {
+        Self::V2Response(c)
+    }
+}
+
 impl<'a> Wire<'a> for NtChallenge {
     fn serialize_into<W>(&self, writer: &mut W) -> std::io::Result<usize>
     where
@@ -130,6 +184,7 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref v2) => v2.serialize_into(writer),
         }
     }
 
@@ -137,10 +192,11 @@ impl<'a> Wire<'a> for NtChallenge {
     where
         E: NomError<'a>,
     {
-        alt((
+        all_consuming(alt((
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
+            map(Ntv2Response::deserialize, |c| Self::V2Response(c)),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
-        ))(input)
+        )))(input)
     }
 }
 
-- 
2.43.0


From 9abfb9588ef287ab35c686516a59f3e0b3466b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 12/25] fix: tell LMv1 from LMv2 responses by the NT response
 they come with

NTLMSSP_NEGOTIATE_NTLM is also set for NTLMv2, so LMv2 responses were
decoded as LMv1 ones.
---
 src/messages/authenticate.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index f9aee52..80b8cee 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -145,7 +145,14 @@ impl<'a> Wire<'a> for Authenticate {
         if lm_challenge_response_field.len != 0 {
             lm_challenge_response_field.get_data::<E>("lm_challenge_response", input)?;
         }
-        let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
+        let nt_challenge_response =
+            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
+        let is_ntlmv1 = match nt_challenge_response {
+            Some(NtChallenge::V1(_)) => true,
+            Some(_) => false,
+            None => negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM),
+        };
+        let lm_challenge_response = if is_ntlmv1 {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
                 .ok()
@@ -158,8 +165,6 @@ impl<'a> Wire<'a> for Authenticate {
                 .flatten()
                 .map(|c| c.into())
         };
-        let nt_challenge_response =
-            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
         let domain = domain_field.get_data_if("domain", input, true)?;
         let user = user_field.get_data_if("user", input, true)?;
         let workstation = workstation_field.get_data_if("workstation", input, true)?;
-- 
2.43.0


From 86d78723961d354f359d4d6c65c9540e06ee46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 13/25] fix: reject challenges whose target information cannot
 be decoded

When already the first AV pair was malformed, the list was taken for an
empty one instead of an unterminated one.
---
 src/messages/challenge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index f51e804..4d1f1a2 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -189,8 +189,8 @@ impl<'a> Wire<'a> for Challenge {
         )?;
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
-        if let Some(last) = target_infos.last() {
-            if !matches!(last, AvPair::MsvAvEOL) {
+        if target_infos_field.len != 0 {
+            if !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
                 let target_infos_data = &input[target_infos_field.get_range()];
                 return Err(nom::Err::Error(E::add_context(
                     target_infos_data,
-- 
2.43.0


From 4973f8899bde822ee2464d1a7fe1b2a6c4bf6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 14/25] fix: count FILETIME in 100-nanosecond intervals since
 1601

It was counted in microseconds since 1970 ([MS-DTYP] section 2.3.3), so
the timestamp of an NTLMv2 response was centuries off and was refused.
---
 src/messages/structures/filetime.rs | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..ee1796f 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,47 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// Number of 100-nanosecond intervals in a second
+const TICKS_PER_SEC: u64 = 10_000_000;
+/// Number of 100-nanosecond intervals between January 1, 1601 and `UNIX_EPOCH`
+const UNIX_EPOCH_TICKS: u64 = 11_644_473_600 * TICKS_PER_SEC;
+
+fn to_ticks(duration: Duration) -> Option<u64> {
+    (duration.as_nanos() / 100).try_into().ok()
+}
+
+fn from_ticks(ticks: u64) -> Duration {
+    Duration::new(
+        ticks / TICKS_PER_SEC,
+        (ticks % TICKS_PER_SEC) as u32 * 100,
+    )
+}
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let ticks = match value.duration_since(UNIX_EPOCH) {
+            Ok(since) => to_ticks(since)
+                .and_then(|ticks| UNIX_EPOCH_TICKS.checked_add(ticks))
+                .ok_or(None)?,
+            Err(e) => to_ticks(e.duration())
+                .and_then(|ticks| UNIX_EPOCH_TICKS.checked_sub(ticks))
+                .ok_or(Some(e))?,
+        };
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        match self.as_u64().checked_sub(UNIX_EPOCH_TICKS) {
+            Some(ticks) => UNIX_EPOCH.checked_add(from_ticks(ticks)),
+            None => UNIX_EPOCH.checked_sub(from_ticks(UNIX_EPOCH_TICKS - self.as_u64())),
+        }
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From d66cf06718e29c6259632bea89454e4ec5a9da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 15/25] fix: do not panic when /etc/hostname is empty

Creating a client panicked instead of going without a workstation name.
---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 28d724c..582a6a1 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -273,7 +273,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From 6734d2bbd65d1a93fc57f51f01324b38964354b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 16/25] fix: validate flags when the strict feature is enabled

cfg(features = "strict") is never true.
---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 9b06412ccfb05517600e2a60c6ae683c64914347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 17/25] fix: write AV pair names entirely

A short write cut the name without any error.
---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 293f5b1..cebeb84 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(&data[..])?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From a6b4f2066121699f19cde8cd79feeb63f8718d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 18/25] fix: remove debugging output

Each NEGOTIATE message printed two lines on the standard error of the
program using the library.
---
 src/client.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 582a6a1..afede15 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -133,8 +133,6 @@ where
         self.buffer.clear();
         let size = msg.serialize_into(&mut self.buffer).unwrap();
         self.state = ClientState::NegociateSent(msg);
-        dbg!(self.buffer.len());
-        dbg!(size);
         &self.buffer[..size]
     }
 
-- 
2.43.0


From f2dc8ae4b73decbcddbd06adfa8087dc570870b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 19/25] fix: remember the AUTHENTICATE message that was sent
 last

When it was sent again, with a new session key, the client kept the
session key of the first one.
---
 src/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index afede15..b21f423 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -255,11 +255,14 @@ where
     }
 
     fn set_authenticated_state(&mut self, auth: Authenticate) {
-        if !matches!(self.state, ClientState::ChallengeReceived(_, _)) {
+        if !matches!(
+            self.state,
+            ClientState::ChallengeReceived(_, _) | ClientState::AuthenticateSent(_, _, _)
+        ) {
             return;
         }
         match std::mem::replace(&mut self.state, ClientState::New) {
-            ClientState::ChallengeReceived(n, c) => {
+            ClientState::ChallengeReceived(n, c) | ClientState::AuthenticateSent(n, c, _) => {
                 self.state = ClientState::AuthenticateSent(n, c, auth);
             }
             _ => unreachable!(),
-- 
2.43.0


From db99acb257d7ba1e78619c37a9afcfeb641c34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 20/25] verification hooks, behind --cfg http_ntlm_verif

---
 src/client.rs       |  3 +++
 src/client/verif.rs | 20 ++++++++++++++++
 src/lib.rs          |  3 +++
 src/verif.rs        | 56 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+)
 create mode 100644 src/client/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/client.rs b/src/client.rs
index b21f423..3245599 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -10,6 +10,9 @@ use crate::{
     NtlmVersion,
 };
 
+#[cfg(all(http_ntlm_verif, not(http_ntlm_verif_no_client)))]
+mod verif;
+
 #[derive(Debug, Default)]
 enum ClientState {
     #[default]
diff --git a/src/client/verif.rs b/src/client/verif.rs
new file mode 100644
index 0000000..08f2cdb
--- /dev/null
+++ b/src/client/verif.rs
@@ -0,0 +1,20 @@
+//! Verification hooks: observation of the private state of a client. Only compiled with
+//! `--cfg http_ntlm_verif` and without `--cfg http_ntlm_verif_no_client`.
+
+use super::{Client, ClientState};
+use crate::messages::{structures::Version, Authenticate};
+
+impl<V> Client<V> {
+    /// The AUTHENTICATE message the client remembers, with its session key
+    pub fn verif_authenticate(&self) -> Option<&Authenticate> {
+        match self.state {
+            ClientState::AuthenticateSent(_, _, ref a) => Some(a),
+            _ => None,
+        }
+    }
+
+    /// There is no public way to make a client announce a version
+    pub fn verif_set_version(&mut self, version: Option<Version>) {
+        self.version = version;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 31511ab..dba6fb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,3 +8,6 @@ pub mod messages;
 
 #[cfg(target_family = "windows")]
 mod win;
+
+#[cfg(http_ntlm_verif)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..9f56478
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,56 @@
+//! Verification hooks: access to the wire format of messages and structures from outside of the
+//! crate. Only compiled with `--cfg http_ntlm_verif`.
+
+use std::io;
+
+use crate::messages::{NomError, Wire};
+
+/// Encodes `value`
+pub fn encode<T>(value: &T) -> Vec<u8>
+where
+    T: for<'a> Wire<'a>,
+{
+    value.serialize()
+}
+
+/// Encodes `value` into `writer`, returns the number of bytes the encoder claims to have written
+pub fn encode_into<T, W>(value: &T, writer: &mut W) -> io::Result<usize>
+where
+    T: for<'a> Wire<'a>,
+    W: io::Write,
+{
+    value.serialize_into(writer)
+}
+
+/// Decodes a `T` with the error type `E`, returns it with the bytes which are left
+pub fn decode<'a, T, E>(input: &'a [u8]) -> Result<(&'a [u8], T), nom::Err<E>>
+where
+    T: Wire<'a>,
+    E: NomError<'a>,
+{
+    T::deserialize(input)
+}
+
+/// [`decode`] for callers who do not depend on `nom`
+pub fn decode_any<'a, T>(input: &'a [u8]) -> Option<(&'a [u8], T)>
+where
+    T: Wire<'a>,
+{
+    decode::<T, ()>(input).ok()
+}
+
+/// [`decode_any`] with an error type that records contexts, returns its description
+pub fn decode_verbose<'a, T>(input: &'a [u8]) -> Result<(&'a [u8], T), String>
+where
+    T: Wire<'a>,
+{
+    decode::<T, nom::error::VerboseError<&'a [u8]>>(input).map_err(|e| match e {
+        nom::Err::Incomplete(_) => "incomplete".to_owned(),
+        nom::Err::Error(e) | nom::Err::Failure(e) => e
+            .errors
+            .iter()
+            .map(|(at, kind)| format!("{:?} with {} bytes left", kind, at.len()))
+            .collect::<Vec<_>>()
+            .join("; "),
+    })
+}
-- 
2.43.0


From b3da7b02ed13b58d6a1b39b7a6053da5499f249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 21/25] monitor src/win.rs on other systems, behind --cfg
 http_ntlm_verif_win

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dba6fb0..6f817ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,5 +9,8 @@ pub mod messages;
 #[cfg(target_family = "windows")]
 mod win;
 
+#[cfg(all(http_ntlm_verif_win, not(target_family = "windows")))]
+pub mod win;
+
 #[cfg(http_ntlm_verif)]
 pub mod verif;
-- 
2.43.0


From a84b729dee9ece005c4f1b7e83fa1668e62b2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 22/25] fix: do not panic on the status the peer's token leads
 to (Windows client)

---
 src/win.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index 43b82c3..3f9dec5 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -7,7 +7,7 @@ use crate::messages::{Authenticate, Negotiate, Wire};
 use windows::{
     core::PCSTR,
     Win32::{
-        Foundation::{SEC_I_COMPLETE_AND_CONTINUE, SEC_I_COMPLETE_NEEDED, SEC_I_CONTINUE_NEEDED},
+        Foundation::{SEC_I_COMPLETE_AND_CONTINUE, SEC_I_COMPLETE_NEEDED},
         Security::{
             Authentication::Identity::{
                 AcquireCredentialsHandleA, CompleteAuthToken, EnumerateSecurityPackagesA,
@@ -62,7 +62,7 @@ impl WinClient {
         })
     }
 
-    fn initialize_security_context(&mut self, input: Option<&[u8]>) -> anyhow::Result<bool> {
+    fn initialize_security_context(&mut self, input: Option<&[u8]>) -> anyhow::Result<()> {
         let flags = ISC_REQ_CONNECTION | ISC_REQ_INTEGRITY | ISC_REQ_STREAM;
         let mut input_sec_buffer = SecBuffer {
             cbBuffer: 0,
@@ -143,19 +143,16 @@ impl WinClient {
             unsafe { CompleteAuthToken(context, ptr::addr_of!(output_desc_buffer))? };
         }
 
-        Ok(!(ret == SEC_I_CONTINUE_NEEDED || ret == SEC_I_COMPLETE_AND_CONTINUE))
+        Ok(())
     }
 
     pub fn negotiate(&mut self) -> anyhow::Result<&[u8]> {
-        let done = self.initialize_security_context(None)?;
-        debug_assert!(!done);
-
+        self.initialize_security_context(None)?;
         Ok(&self.output_buffer[..])
     }
 
     pub fn challenge(&mut self, message: &[u8]) -> anyhow::Result<&[u8]> {
-        let done = self.initialize_security_context(Some(message))?;
-        debug_assert!(done);
+        self.initialize_security_context(Some(message))?;
         Ok(&self.output_buffer[..])
     }
 }
-- 
2.43.0


From b4aad7b13035b50d98ea9a2db958dc8d809df88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 23/25] fix: release the security context and the credentials
 (Windows client)

---
 src/win.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index 3f9dec5..4e06ab8 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -10,11 +10,11 @@ use windows::{
         Foundation::{SEC_I_COMPLETE_AND_CONTINUE, SEC_I_COMPLETE_NEEDED},
         Security::{
             Authentication::Identity::{
-                AcquireCredentialsHandleA, CompleteAuthToken, EnumerateSecurityPackagesA,
-                FreeContextBuffer, InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer,
-                SecBufferDesc, SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION,
-                ISC_REQ_INTEGRITY, ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND,
-                SECURITY_NATIVE_DREP,
+                AcquireCredentialsHandleA, CompleteAuthToken, DeleteSecurityContext,
+                EnumerateSecurityPackagesA, FreeContextBuffer, FreeCredentialsHandle,
+                InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer, SecBufferDesc,
+                SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION, ISC_REQ_INTEGRITY,
+                ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND, SECURITY_NATIVE_DREP,
             },
             Credentials::SecHandle,
         },
@@ -157,6 +157,18 @@ impl WinClient {
     }
 }
 
+impl Drop for WinClient {
+    fn drop(&mut self) {
+        // nothing can be done about a failure
+        unsafe {
+            if let Some(context) = self.context.as_ref() {
+                let _ = DeleteSecurityContext(context);
+            }
+            let _ = FreeCredentialsHandle(&self.credentials);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From cf7df1f33b60debc410d67cd9a2183f232dd4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 24/25] fix: report that InitializeSecurityContext failed
 (Windows client)

---
 src/win.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/win.rs b/src/win.rs
index 4e06ab8..e930dd0 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -130,9 +130,13 @@ impl WinClient {
                     Some(ptr::addr_of_mut!(self.lifetime)),
                 )
             };
-            self.context = Some(unsafe { new_context.assume_init() });
+            // there is no context when the first call fails
+            if ret.is_ok() {
+                self.context = Some(unsafe { new_context.assume_init() });
+            }
             ret
         };
+        ret.ok()?;
         unsafe {
             self.output_buffer
                 .set_len(output_sec_buffer.cbBuffer.try_into().unwrap());
-- 
2.43.0


From 59b5174c6ff1ec2418ff2b32abd4d1eb830293c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:14 +0000
Subject: [PATCH 25/25] fix: fill in the input buffer before SSPI's pointer to
 it is taken (Windows client)

---
 src/win.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index e930dd0..8d69c19 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -69,15 +69,15 @@ impl WinClient {
             BufferType: SECBUFFER_TOKEN,
             pvBuffer: ptr::null_mut(),
         };
+        if let Some(buffer) = input {
+            input_sec_buffer.cbBuffer = buffer.len() as u32;
+            input_sec_buffer.pvBuffer = buffer.as_ptr() as *mut _;
+        };
         let input_desc_buffer = SecBufferDesc {
             ulVersion: 0,
             cBuffers: 1,
             pBuffers: ptr::addr_of_mut!(input_sec_buffer),
         };
-        if let Some(buffer) = input {
-            input_sec_buffer.cbBuffer = buffer.len() as u32;
-            input_sec_buffer.pvBuffer = buffer.as_ptr() as *mut _;
-        };
         self.output_buffer.clear();
         let mut output_sec_buffer = SecBuffer {
             cbBuffer: self
-- 
2.43.0

