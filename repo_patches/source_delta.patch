From 6981fd376984cedf7635e45898a39ec326fe914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 01/22] sim: guarded access to private codecs for the simulator
 (cfg http_ntlm_sim, off by default)

---
 src/client.rs | 19 +++++++++++++++++++
 src/lib.rs    |  3 +++
 src/sim.rs    | 29 +++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/client.rs b/src/client.rs
index 117a26c..d82cdff 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -295,6 +295,25 @@ where
     }
 }
 
+#[cfg(http_ntlm_sim)]
+impl<V> Client<V>
+where
+    V: NtlmVersion,
+{
+    /// The last AUTHENTICATE kept by the client (simulator only).
+    pub fn sim_authenticate(&self) -> Option<&Authenticate> {
+        match self.state {
+            ClientState::AuthenticateSent(_, _, ref a) => Some(a),
+            _ => None,
+        }
+    }
+
+    /// Sets the optional product version (simulator only).
+    pub fn sim_set_version(&mut self, version: Option<Version>) {
+        self.version = version;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 31511ab..5e762ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,3 +8,6 @@ pub mod messages;
 
 #[cfg(target_family = "windows")]
 mod win;
+
+#[cfg(http_ntlm_sim)]
+pub mod sim;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..c3b6e9b
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,29 @@
+//! Access to crate-private codecs for the deterministic simulator.
+//!
+//! Compiled only with `--cfg http_ntlm_sim`; never part of a normal build.
+use std::io::{self, Write};
+
+use crate::messages::Wire;
+
+/// Encodes `value` into `writer` with the crate's own wire encoder.
+#[allow(private_bounds)]
+pub fn encode<'a, T, W>(value: &T, writer: &mut W) -> io::Result<usize>
+where
+    T: Wire<'a>,
+    W: Write,
+{
+    value.serialize_into(writer)
+}
+
+/// Decodes a `T` with the crate's own wire decoder; returns the value and the unread rest.
+#[allow(private_bounds)]
+pub fn decode<'a, T>(input: &'a [u8]) -> Result<(&'a [u8], T), String>
+where
+    T: Wire<'a>,
+{
+    match T::deserialize::<nom::error::VerboseError<&'a [u8]>>(input) {
+        Ok(ok) => Ok(ok),
+        Err(nom::Err::Incomplete(needed)) => Err(format!("incomplete: {:?}", needed)),
+        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(format!("{:?}", e.errors.last().map(|(_, k)| k))),
+    }
+}
-- 
2.43.0


From ce1bc930df3c45e5c585a129a1435ad6999a2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 02/22] fix: reject payload fields that point outside the
 message instead of panicking

---
 src/messages/authenticate.rs |  3 +++
 src/messages/field.rs        | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..e66966b 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -142,6 +142,9 @@ impl<'a> Wire<'a> for Authenticate {
         )(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
+        if lm_challenge_response_field.len != 0 {
+            lm_challenge_response_field.get_data::<E>(input)?;
+        }
         let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..d27e4d0 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,6 +55,19 @@ impl Field {
         start..end
     }
 
+    /// Returns the bytes of the message this field points to, or an error if it points outside of it.
+    pub(super) fn get_data<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::from_error_kind(
+                input,
+                nom::error::ErrorKind::LengthValue,
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +83,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +115,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_data(input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 852f44449ffa11ebb109b7cad80e56b7fe312e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 03/22] fix: decode UTF-16 surrogate pairs in Unicode strings

---
 src/messages/unicode_string.rs | 35 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..353017c 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -4,7 +4,7 @@ use std::ops::{Deref, DerefMut};
 
 use nom::combinator::{map, map_opt};
 use nom::error::context;
-use nom::multi::fold_many0;
+use nom::multi::many0;
 use nom::number::complete::le_u16;
 
 use crate::messages::{utils::write_u16, Wire};
@@ -105,25 +105,18 @@ impl<'a> Wire<'a> for UnicodeString {
     where
         E: super::NomError<'a>,
     {
-        context(
-            "Unicode string",
-            map(
-                fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
-                    String::new,
-                    |mut acc: String, c| {
-                        acc.push(c);
-                        acc
-                    },
-                ),
-                |s| UnicodeString(s),
-            ),
-        )(input)
+        let (_, units) = context("Unicode string", many0(le_u16))(input)?;
+        let mut decoded = String::new();
+        let mut consumed = 0;
+        for c in char::decode_utf16(units) {
+            match c {
+                Ok(c) if c != '\0' => {
+                    decoded.push(c);
+                    consumed += 2 * c.len_utf16();
+                }
+                _ => break,
+            }
+        }
+        Ok((&input[consumed..], UnicodeString(decoded)))
     }
 }
-- 
2.43.0


From 35b93df29e0d64bc5212d6f911293eb98ebe1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 04/22] fix: reject AV pairs whose value is not consumed
 entirely instead of asserting

---
 src/messages/structures/avid.rs | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..a63829e 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -172,6 +172,21 @@ where
     Ok(written)
 }
 
+/// The value of an `AvPair` must span its whole declared length.
+fn check_consumed<'a, E>(rest: &'a [u8]) -> Result<(), nom::Err<E>>
+where
+    E: NomError<'a>,
+{
+    if rest.is_empty() {
+        Ok(())
+    } else {
+        Err(nom::Err::Error(E::from_error_kind(
+            rest,
+            nom::error::ErrorKind::Verify,
+        )))
+    }
+}
+
 impl<'a> Wire<'a> for AvPair {
     fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
     where
@@ -241,53 +256,53 @@ impl<'a> Wire<'a> for AvPair {
             }
             AvId::MsvAvNbComputerName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
                 let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
                 let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
                 let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
                 let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
                 let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                check_consumed(r)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From 676057276b6411cdcd289145408a458476b3abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 05/22] fix: do not panic on passwords with non-ASCII
 characters in LMOWFv1

---
 src/crypto/lm.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..5e7926e 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,12 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
-    }
+/// Uppercases `password`, then truncates it or pads it with zeros to 14 bytes.
+fn prepare_password(password: &str) -> [u8; 14] {
+    let password = password.to_uppercase();
+    let len = password.len().min(14);
+    let mut p = [0u8; 14];
+    p[..len].copy_from_slice(&password.as_bytes()[..len]);
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +17,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From 29aeac1f010ce19c2c1a8f5e3511aee2d30a66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 06/22] fix: do not panic when /etc/hostname is empty

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index d82cdff..8e585e9 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -259,7 +259,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From 640a23cd58abc862afbde4d14e6ad977998246cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 07/22] fix: remove leftover debug output, which panics when
 stderr cannot be written

---
 src/client.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 8e585e9..2c9e28e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -133,8 +133,6 @@ where
         self.buffer.clear();
         let size = msg.serialize_into(&mut self.buffer).unwrap();
         self.state = ClientState::NegociateSent(msg);
-        dbg!(self.buffer.len());
-        dbg!(size);
         &self.buffer[..size]
     }
 
-- 
2.43.0


From 3a817797d944fd4a07f5404a90a3998c63936c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 08/22] fix: send the NTProofStr and the final reserved bytes
 in NTLMv2 responses

---
 src/client.rs                           | 32 +++++++++++------
 src/messages/structures.rs              |  2 +-
 src/messages/structures/nt_challenge.rs | 46 ++++++++++++++++++++++++-
 3 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 2c9e28e..7d8c789 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -4,7 +4,7 @@ use crate::{
     crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, Ntv2Response, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -212,15 +212,19 @@ where
                 _ => continue,
             }
         }
-        let (nt_proof_str, lm_challenge, nt_challenge, session_base_key) = ntlmv2::compute_response(
-            &challenge.negotiate_flags,
-            &self.ntlmv2_hash,
-            &self.ntlmv2_hash,
-            &challenge.server_challenge,
-            &client_challenge,
-            time,
-            &challenge.target_infos[..],
-        );
+        let (nt_proof_str, lm_challenge, mut nt_challenge, session_base_key) =
+            ntlmv2::compute_response(
+                &challenge.negotiate_flags,
+                &self.ntlmv2_hash,
+                &self.ntlmv2_hash,
+                &challenge.server_challenge,
+                &client_challenge,
+                time,
+                &challenge.target_infos[..],
+            );
+
+        // `nt_proof_str` covers the 4 zero bytes that end the response, which is how `MsvAvEOL` encodes
+        nt_challenge.target_infos.push(AvPair::MsvAvEOL);
 
         let key_exchange_key = session_base_key.clone().into();
 
@@ -229,7 +233,13 @@ where
 
         let mut auth = Authenticate::default();
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(
+            Ntv2Response {
+                response: nt_proof_str,
+                challenge: nt_challenge,
+            }
+            .into(),
+        );
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/messages/structures.rs b/src/messages/structures.rs
index d0d7291..3a0597d 100644
--- a/src/messages/structures.rs
+++ b/src/messages/structures.rs
@@ -13,7 +13,7 @@ mod lm_challenge;
 pub use lm_challenge::{LmChallenge, Lmv1Challenge, Lmv2Challenge};
 
 mod nt_challenge;
-pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge};
+pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge, Ntv2Response};
 
 mod version;
 pub use version::Version;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..b5f4cac 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -7,7 +7,7 @@ use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -98,10 +98,46 @@ impl<'a> Wire<'a> for Ntv2Challenge {
     }
 }
 
+/// NTLMv2_RESPONSE: the `NTProofStr`, followed by the challenge it was computed from.
+#[derive(Debug, Default, Clone, PartialEq, Eq)]
+pub struct Ntv2Response {
+    pub response: NtProofStr,
+    pub challenge: Ntv2Challenge,
+}
+
+impl<'a> Wire<'a> for Ntv2Response {
+    fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
+    where
+        W: io::Write,
+    {
+        let mut size = self.response.serialize_into(writer)?;
+        size += self.challenge.serialize_into(writer)?;
+        Ok(size)
+    }
+
+    fn deserialize<E>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>
+    where
+        E: NomError<'a>,
+    {
+        let (rest, (response, challenge)) = context(
+            "Ntv2Response",
+            tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
+        )(input)?;
+        Ok((
+            rest,
+            Self {
+                response,
+                challenge,
+            },
+        ))
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    V2Response(Ntv2Response),
 }
 
 impl Default for NtChallenge {
@@ -122,6 +158,12 @@ impl From<Ntv2Challenge> for NtChallenge {
     }
 }
 
+impl From<Ntv2Response> for NtChallenge {
+    fn from(r: Ntv2Response) -> Self {
+        Self::V2Response(r)
+    }
+}
+
 impl<'a> Wire<'a> for NtChallenge {
     fn serialize_into<W>(&self, writer: &mut W) -> std::io::Result<usize>
     where
@@ -130,6 +172,7 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref r) => r.serialize_into(writer),
         }
     }
 
@@ -139,6 +182,7 @@ impl<'a> Wire<'a> for NtChallenge {
     {
         alt((
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
+            map(Ntv2Response::deserialize, |r| Self::V2Response(r)),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
         ))(input)
     }
-- 
2.43.0


From e868431229400d3354165e7d6392ccc8bd24ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 09/22] fix: send the negotiated flags in NTLMv2 AUTHENTICATE
 messages

---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index 7d8c789..2b01300 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -232,6 +232,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(
             Ntv2Response {
-- 
2.43.0


From 22cc88d4294b756ed452b1c0e90a540118ddaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 10/22] fix: compute the MIC over the final AUTHENTICATE
 message

---
 src/client.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 2b01300..7e5a295 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -200,7 +200,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -246,8 +245,6 @@ where
         auth.workstation = None;
         auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
-
         auth
     }
 
@@ -297,6 +294,10 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if V::version() >= 3 {
+            // The MIC covers the whole message: nothing may change after this point
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From 6dddaba1423ac568ce52dee15688cb8960e65b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 11/22] fix: keep the MIC of AUTHENTICATE messages at its
 offset when there is no version

---
 src/messages/authenticate.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index e66966b..a646b6a 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -1,5 +1,5 @@
-use nom::bytes::complete::tag;
-use nom::combinator::{cond, verify};
+use nom::bytes::complete::{tag, take};
+use nom::combinator::{map, value, verify};
 use nom::error::context;
 use nom::number::complete::le_u32;
 use nom::sequence::{preceded, tuple};
@@ -20,6 +20,9 @@ use crate::{
 
 const MESSAGE_TYPE: u32 = 0x00000003;
 
+/// The MIC follows the version, which takes up space even when it is not set.
+const VERSION_SIZE: usize = 8;
+
 #[derive(Default, Clone, Debug, PartialEq, Eq)]
 pub struct Authenticate {
     pub lm_challenge_response: Option<LmChallenge>,
@@ -80,6 +83,9 @@ impl<'a> Wire<'a> for Authenticate {
         payload.resize(PAYLOAD_OFFSET, 0);
         if let Some(ref version) = self.version {
             version.serialize_into(&mut payload).unwrap();
+        } else {
+            // The field is there, although it is not set
+            payload.extend_from_slice(&[0u8; VERSION_SIZE][..]);
         }
 
         payload.extend_from_slice(&self.mic[..]);
@@ -136,10 +142,11 @@ impl<'a> Wire<'a> for Authenticate {
                 )),
             ),
         )(input)?;
-        let (rest, version) = cond(
-            negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION),
-            context("Authenticate/version", Version::deserialize),
-        )(rest)?;
+        let (rest, version) = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION) {
+            map(context("Authenticate/version", Version::deserialize), Some)(rest)?
+        } else {
+            value(None, context("Authenticate/version", take(VERSION_SIZE)))(rest)?
+        };
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
         if lm_challenge_response_field.len != 0 {
-- 
2.43.0


From 59c872dbff1d5898152c904e3d13c9b6692a1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 12/22] fix: reserve the version field of CHALLENGE messages
 which have no version

---
 src/messages/challenge.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index f51e804..b6944a2 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -135,6 +135,9 @@ impl<'a> Wire<'a> for Challenge {
 
         if let Some(ref version) = self.version {
             version.serialize_into(&mut payload).unwrap();
+        } else {
+            // The field is there, although it is not set
+            payload.extend_from_slice(&[0u8; 8][..]);
         }
 
         writer.write_all(&SIGNATURE[..])?;
-- 
2.43.0


From 87d287b574d0f0f474d957e822440a1e96aacfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 13/22] fix: do not announce a version the AUTHENTICATE message
 does not carry

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 7e5a295..f59310c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -287,6 +287,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From 789a0660fab251b8bc83a8cd4f5b7d402ce5e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 14/22] fix: mix the challenges into the NTLMv1 key exchange
 key only with extended session security

---
 src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index f59310c..12b9652 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -175,12 +175,16 @@ where
             V::version() != 0,
         );
 
+        let server_challenge = challenge
+            .negotiate_flags
+            .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+            .then_some(&challenge.server_challenge);
         let key_exchange_key = kxkey(
             &challenge.negotiate_flags,
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            server_challenge,
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From c3035ce18f15e53037c59260281ded965609f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 15/22] fix: send an encrypted session key only when a key
 exchange was negotiated

---
 src/client.rs | 12 +++++++++---
 src/crypto.rs | 10 +++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 12b9652..dc297df 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,7 +1,9 @@
 use std::marker::PhantomData;
 
 use crate::{
-    crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
+    crypto::{
+        encrypt_random_session_key, exchanges_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2,
+    },
     messages::{
         flags,
         structures::{AvPair, ClientChallenge, Ntv2Response, Version},
@@ -197,7 +199,9 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_key(&challenge.negotiate_flags).then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -247,7 +251,9 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_key(&challenge.negotiate_flags).then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth
     }
diff --git a/src/crypto.rs b/src/crypto.rs
index 3ab229e..0b0fc90 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -89,14 +89,18 @@ pub fn kxkey(
     key_exchange_key
 }
 
+/// Tells if the client chooses the session key and sends it to the server.
+pub fn exchanges_key(flags: &Flags) -> bool {
+    flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+}
+
 pub fn encrypt_random_session_key(
     flags: &Flags,
     key_exchange_key: &KeyExchangeKey,
     exported_session_key: Option<ExportedSessionKey>,
 ) -> (ExportedSessionKey, EncryptedRandomSessionKey) {
-    if flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
-        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
-    {
+    if exchanges_key(flags) {
         let exported_session_key = if let Some(e) = exported_session_key {
             e
         } else {
-- 
2.43.0


From bc7d634c989ea3494a4f8f2127f66ea01a3567cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 16/22] fix: count FileTime in 100 ns since 1601, and never
 panic on the clock

---
 src/messages/structures/filetime.rs | 47 +++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..51f0f15 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,35 +11,62 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+
+/// Number of 100-nanosecond ticks per second.
+const TICKS_PER_SECOND: u64 = 10_000_000;
+
+/// Number of ticks between the origin of `FileTime` (January 1, 1601) and `UNIX_EPOCH`.
+const UNIX_EPOCH_TICKS: u64 = 11_644_473_600 * TICKS_PER_SECOND;
+
+fn duration_to_ticks(duration: Duration) -> Option<u64> {
+    duration
+        .as_secs()
+        .checked_mul(TICKS_PER_SECOND)?
+        .checked_add(u64::from(duration.subsec_nanos()) / 100)
+}
+
+fn ticks_to_duration(ticks: u64) -> Duration {
+    Duration::new(
+        ticks / TICKS_PER_SECOND,
+        (ticks % TICKS_PER_SECOND) as u32 * 100,
+    )
+}
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let ticks = match value.duration_since(UNIX_EPOCH) {
+            Ok(after) => duration_to_ticks(after)
+                .and_then(|t| UNIX_EPOCH_TICKS.checked_add(t))
+                .ok_or(None)?,
+            Err(e) => duration_to_ticks(e.duration())
+                .and_then(|t| UNIX_EPOCH_TICKS.checked_sub(t))
+                .ok_or(Some(e))?,
+        };
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let ticks = self.as_u64();
+        match ticks.checked_sub(UNIX_EPOCH_TICKS) {
+            Some(after) => UNIX_EPOCH.checked_add(ticks_to_duration(after)),
+            None => UNIX_EPOCH.checked_sub(ticks_to_duration(UNIX_EPOCH_TICKS - ticks)),
+        }
     }
 
     pub fn as_u64(&self) -> u64 {
         ((self.high as u64) << 32) | (self.low as u64)
     }
 
+    /// Current time, or 0 if the clock is set to a date `FileTime` cannot hold.
     pub fn now() -> Self {
-        SystemTime::now()
-            .try_into()
-            .expect("now should be after UNIX_EPOCH")
+        SystemTime::now().try_into().unwrap_or_default()
     }
 }
 
-- 
2.43.0


From 538fec1bedd200035637552b357796ec5faf11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 17/22] fix: write AV pair strings entirely, even when the
 writer takes a part at a time

---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index a63829e..bd6ef38 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(data)?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From 94b1df5e1a24e0b16b53e4f7e1bf93a31fd7157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 18/22] fix: enforce the reserved flags in strict mode (cfg
 typo)

---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 409a74dc8ada1ff9b239d340c0a8c7918e363f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 19/22] fix: reject challenges whose target information cannot
 be decoded

---
 src/messages/challenge.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index b6944a2..255be1a 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -192,15 +192,13 @@ impl<'a> Wire<'a> for Challenge {
         )?;
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
-        if let Some(last) = target_infos.last() {
-            if !matches!(last, AvPair::MsvAvEOL) {
-                let target_infos_data = &input[target_infos_field.get_range()];
-                return Err(nom::Err::Error(E::add_context(
-                    target_infos_data,
-                    "Challenge/TargetInfos/EOL",
-                    E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
-                )));
-            }
+        if target_infos_field.len != 0 && !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
+            let target_infos_data = &input[target_infos_field.get_range()];
+            return Err(nom::Err::Error(E::add_context(
+                target_infos_data,
+                "Challenge/TargetInfos/EOL",
+                E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
+            )));
         }
 
         Ok((
-- 
2.43.0


From 37a63d51a648dd2211bba1fbe2b6dae173e213ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 20/22] fix: reject target information too long to be sent
 back, instead of panicking later

---
 src/messages/challenge.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index 255be1a..eefd182 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -16,6 +16,10 @@ use crate::messages::{
 
 const MESSAGE_TYPE: u32 = 0x00000002;
 
+/// NTLMv2 responses repeat the target information between 44 bytes of header and 4 of trailer, and
+/// are limited to 65535 bytes. More could not be answered.
+const MAX_TARGET_INFOS_LEN: u16 = u16::MAX - 48;
+
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 pub struct Challenge {
     target_name: Option<UnicodeString>,
@@ -190,6 +194,13 @@ impl<'a> Wire<'a> for Challenge {
             input,
             negotiate_flags.has_flag(flags::NTLMSSP_REQUEST_TARGET) || true,
         )?;
+        if target_infos_field.len > MAX_TARGET_INFOS_LEN {
+            return Err(nom::Err::Error(E::add_context(
+                input,
+                "Challenge/TargetInfos/TooLong",
+                E::from_error_kind(input, nom::error::ErrorKind::Verify),
+            )));
+        }
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
         if target_infos_field.len != 0 && !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
-- 
2.43.0


From 62b2d0e3d66ddb34a67323c20c3e1cc0611e9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 21/22] fix: keep the last AUTHENTICATE message sent, whose
 session key is the one in use

---
 src/client.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index dc297df..3daffb9 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -259,14 +259,11 @@ where
     }
 
     fn set_authenticated_state(&mut self, auth: Authenticate) {
-        if !matches!(self.state, ClientState::ChallengeReceived(_, _)) {
-            return;
-        }
         match std::mem::replace(&mut self.state, ClientState::New) {
-            ClientState::ChallengeReceived(n, c) => {
+            ClientState::ChallengeReceived(n, c) | ClientState::AuthenticateSent(n, c, _) => {
                 self.state = ClientState::AuthenticateSent(n, c, auth);
             }
-            _ => unreachable!(),
+            state => self.state = state,
         }
     }
 
-- 
2.43.0


From 47b750cabb61c84625e4b32ff90978d5fbc328c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 22/22] fix: ignore workstation names too long to be sent,
 instead of panicking

---
 src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 3daffb9..f785f77 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -12,6 +12,9 @@ use crate::{
     NtlmVersion,
 };
 
+/// Names are sent in UTF-16, in fields of at most 65535 bytes.
+const MAX_NAME_LEN: usize = u16::MAX as usize / 2;
+
 #[derive(Debug, Default)]
 enum ClientState {
     #[default]
@@ -65,7 +68,8 @@ where
             nt_hash,
             ntlmv2_hash,
             domain,
-            workstation: Self::get_workstation_name(),
+            workstation: Self::get_workstation_name()
+                .filter(|name| name.encode_utf16().count() <= MAX_NAME_LEN),
             target,
             buffer: Vec::with_capacity(128),
             version: None,
-- 
2.43.0

