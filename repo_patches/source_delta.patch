From 7881723fe2ad2ae053ab244d2a328cb1b8a98e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 01/20] fix: SCRAM parsers panic on attributes shorter than two
 bytes

Slicing the first two bytes of an attribute, or indexing the first byte of an
empty one, panicked on malformed input from the peer. Compare with
starts_with and report missing attributes instead. An authzid that is not
introduced by "a=" is now a bad GS2 header instead of being cut blindly.
---
 src/mechanisms/scram/parser.rs | 59 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..7a0a648 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -178,6 +178,14 @@ pub enum ParseError {
     #[error("nonce contains invalid character")]
     BadNonce,
 }
+impl ParseError {
+    /// Error for an attribute that is not the one expected at its position
+    fn invalid_attribute(attribute: &[u8]) -> Self {
+        attribute
+            .first()
+            .map_or(Self::MissingAttributes, |b| Self::InvalidAttribute(*b))
+    }
+}
 
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
@@ -257,25 +265,28 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = authzid
+                .strip_prefix(b"a=")
+                .ok_or(ParseError::BadGS2Header)?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
+        let username = if next.starts_with(b"n=") {
             core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
@@ -373,32 +384,32 @@ impl<'scram> ServerFirst<'scram> {
         if next.len() < 2 {
             return Err(ParseError::MissingAttributes);
         }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
+        let salt = if next.starts_with(b"s=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
+        let iteration_count = if next.starts_with(b"i=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         }
 
         Ok(Self {
@@ -445,32 +456,32 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
+        let channel_binding = if next.starts_with(b"c=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
+        let nonce = if next.starts_with(b"r=") {
             &next[2..]
         } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         };
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
+            if next.starts_with(b"p=") {
                 break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(ParseError::invalid_attribute(next));
         }
 
         Ok(Self {
@@ -552,9 +563,9 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
+        if input.starts_with(b"v=") {
             Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        } else if input.starts_with(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
@@ -575,7 +586,7 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(ParseError::invalid_attribute(input))
         }
     }
 
-- 
2.43.0


From bd519eab0fd9f0588964a5f152544ac556a05ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 02/20] fix: bare SCRAM must not be selected when only its
 -PLUS variant was offered

---
 src/mechanisms/scram/mechinfo.rs | 39 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..2c18c08 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,6 +54,8 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
+        /// Only SCRAM-SHA1-PLUS but not the bare variant found
+        PlusOnly,
         /// SCRAM-SHA1-PLUS found.
         Plus,
     }
@@ -62,17 +64,22 @@ mod scram_sha1 {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA1),
             }
         }
@@ -81,7 +88,7 @@ mod scram_sha1 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -159,6 +166,8 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
+        /// Only SCRAM-SHA256-PLUS but not the bare variant found
+        PlusOnly,
         /// SCRAM-SHA256-PLUS found.
         Plus,
     }
@@ -167,17 +176,22 @@ mod scram_sha256 {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA256),
             }
         }
@@ -186,7 +200,7 @@ mod scram_sha256 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -264,6 +278,8 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
+        /// Only SCRAM-SHA512-PLUS but not the bare variant found
+        PlusOnly,
         /// SCRAM-SHA512-PLUS found.
         Plus,
     }
@@ -272,17 +288,22 @@ mod scram_sha512 {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::PlusOnly,
+                    Self::Bare => Self::Plus,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA512),
             }
         }
@@ -291,7 +312,7 @@ mod scram_sha512 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From 2b1de0886c1db87c2a2092079c0523a9f4da7cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 03/20] fix: SCRAM -PLUS servers must refuse clients that do
 not use channel bindings

---
 src/mechanisms/scram/server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..a45d0cc 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -65,6 +65,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// The selected mechanism requires CB
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -83,7 +85,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -147,13 +149,20 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsNotUsed,
+                    )));
+                }
+            }
+            GS2CBindFlag::NotSupported => {
+                // The -PLUS variants must not be used without channel bindings
+                if self.plus == CBSupport::Required {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From adb7956ac408aced74096e91853d60c156e943d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 04/20] fix: step64 must report failures to write the end of a
 message

---
 src/session.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/session.rs b/src/session.rs
index e730042..e60e122 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -241,6 +241,7 @@ mod provider {
             } else {
                 self.step(None, &mut writer64)
             }?;
+            writer64.finish()?;
             Ok(state)
         }
     }
-- 
2.43.0


From 0e020db213e64385a8765dc4abbe3ac90b28054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 05/20] fix: vectored writes to a full writer must fail instead
 of truncating the message

---
 src/vectored_io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..4cd29cf 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -58,8 +58,8 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
             let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
             // Check the corner case that Ok(0) was returned because the underlying writer is
             // exhausted.
-            if len == 0 {
-                return Ok(written);
+            if len == 0 && self.skip < N {
+                return Err(io::Error::from(io::ErrorKind::WriteZero));
             }
 
             written += len;
-- 
2.43.0


From 43887aaf17834a2e711d386435b8f49d078e7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 06/20] fix: selecting a mechanism without client support must
 not panic

---
 src/registry.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index ea31183..4655080 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -238,8 +238,11 @@ impl Registry {
         // Only if the selector has to keep state (e.g. the non-PLUS SCRAM ones have to change
         // their behaviour depending on what mechanisms the server offered for their GS2 header)
         // the Box has to make an allocation.
-        let mut selectors: Vec<Selection> =
-            self.get_mechanisms().filter_map(|m| m.select(cb)).collect();
+        let mut selectors: Vec<Selection> = self
+            .get_mechanisms()
+            .filter(|m| m.client.is_some())
+            .filter_map(|m| m.select(cb))
+            .collect();
 
         for o in offered {
             for s in &mut selectors {
-- 
2.43.0


From 28b54f81649164e1e96c165624aabaecb7d96f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 07/20] fix: GSSAPI servers must refuse every security layer
 that was not offered

---
 src/mechanisms/gssapi/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..e644133 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -126,7 +126,7 @@ impl Authentication for Gssapi {
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
                 // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                if selected.is_empty() || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From 1e50374fb417017a8f1e24708ffe357c1507f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 08/20] fix: GSSAPI servers must keep contexts that need more
 than one token

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index e644133..d1f52b1 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -91,6 +91,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0


From 6404fd2e83f5e25105201274c78805aeef17cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 09/20] fix: SCRAM clients must not panic on cached keys of the
 wrong size

---
 src/mechanisms/scram/client.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..4bebea7 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -17,7 +17,8 @@ use base64::Engine;
 use core::marker::PhantomData;
 use core2::io::Write;
 use digest::crypto_common::BlockSizeUser;
-use digest::{Digest, FixedOutputReset};
+use digest::{Digest, FixedOutputReset, OutputSizeUser};
+use hmac::SimpleHmac;
 use rand::Rng;
 use thiserror::Error;
 
@@ -310,6 +311,11 @@ where
                  client_key,
                  server_key,
              }| {
+                let key_len = <SimpleHmac<D> as OutputSizeUser>::output_size();
+                if client_key.len() != key_len || server_key.len() != key_len {
+                    return Err(SCRAMError::CachedKeyLength.into());
+                }
+
                 Ok((
                     DOutput::<D>::clone_from_slice(client_key),
                     DOutput::<D>::clone_from_slice(server_key),
@@ -514,12 +520,14 @@ pub enum SCRAMError {
     ),
     #[error("SCRAM outcome error: {0}")]
     ServerError(ServerErrorValue),
+    #[error("provided cached keys are wrong size for selected algorithm")]
+    CachedKeyLength,
 }
 
 impl MechanismError for SCRAMError {
     fn kind(&self) -> MechanismErrorKind {
         match self {
-            Self::Protocol(_) => MechanismErrorKind::Protocol,
+            Self::Protocol(_) | Self::CachedKeyLength => MechanismErrorKind::Protocol,
             Self::ParseError(_) => MechanismErrorKind::Parse,
             Self::ServerError(_) => MechanismErrorKind::Outcome,
         }
-- 
2.43.0


From 8c07ea12616f2c62ca01108652e46998a9924c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 10/20] fix: OAuth clients must refuse values containing the
 field separator

---
 src/mechanisms/oauthbearer/client.rs     |  9 +++++++++
 src/mechanisms/oauthbearer/properties.rs |  2 ++
 src/mechanisms/xoauth2/client.rs         | 12 ++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..2430dc9 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -36,6 +36,9 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
+                    if authzid.contains('\x01') {
+                        return Err(Error::ContainsSeparator.into());
+                    }
                     writer.write_all(b"a=")?;
                     writer.write_all(authzid.as_bytes())?;
                     Ok(())
@@ -44,6 +47,9 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        if k.contains(['\x01', '=']) || v.contains('\x01') {
+                            return Err(Error::ContainsSeparator.into());
+                        }
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -52,6 +58,9 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(Error::ContainsSeparator.into());
+                    }
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..079e0fc 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -18,6 +18,8 @@ pub enum Error {
         #[from]
         serde_json::Error,
     ),
+    #[error("provided value contains a field separator")]
+    ContainsSeparator,
 }
 
 impl MechanismError for Error {
diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..713aee2 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -35,6 +35,8 @@ enum Error {
         #[source]
         core::str::Utf8Error,
     ),
+    #[error("provided value contains the field separator")]
+    ContainsSeparator,
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -52,6 +54,11 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    if authid.contains('\x01') {
+                        return Err(SessionError::MechanismError(Box::new(
+                            Error::ContainsSeparator,
+                        )));
+                    }
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
@@ -59,6 +66,11 @@ impl Authentication for XOAuth2 {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains('\x01') {
+                        return Err(SessionError::MechanismError(Box::new(
+                            Error::ContainsSeparator,
+                        )));
+                    }
                     let data = [token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
-- 
2.43.0


From eba866ac592471f9c659b2740ed0214e7972331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 11/20] fix: GSSAPI servers must not continue after their token
 could not be written

---
 src/mechanisms/gssapi/server.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index d1f52b1..4a36fe7 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -66,7 +66,7 @@ impl Authentication for Gssapi {
             GssapiState::Pending(mut ctx) => {
                 let input = input.ok_or(SessionError::InputDataRequired)?;
                 let token = ctx.step(input).map_err(Error::Gss)?;
-                if ctx.is_complete() {
+                let next = if ctx.is_complete() {
                     // Query the user for acceptable security layers
                     let mut acceptable = session
                         .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
@@ -90,16 +90,19 @@ impl Authentication for Gssapi {
                         return Err(Error::BadContext.into());
                     }
 
-                    self.state = GssapiState::Installed(ctx, acceptable);
+                    GssapiState::Installed(ctx, acceptable)
                 } else {
-                    self.state = GssapiState::Pending(ctx);
-                }
+                    GssapiState::Pending(ctx)
+                };
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
                 if let Some(token) = token {
+                    // Only continue from the new state if the token could be handed over.
                     writer.write_all(&token)?;
+                    self.state = next;
                     Ok(State::Running)
                 } else {
+                    self.state = next;
                     self.step(session, None, writer)
                 }
             }
-- 
2.43.0


From e1947772f19a8ecf4b2af764d01b8316eae578cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 12/20] fix: a later answer to a callback request must not
 discard the first one

---
 src/callback.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..929ec0b 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -255,9 +255,13 @@ where
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
-        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
-            let reply = closure(answer)?;
-            self.closure = Some(ClosureCRState::Satisfied(reply));
+        match self.closure.take() {
+            Some(ClosureCRState::Open(closure)) => {
+                let reply = closure(answer)?;
+                self.closure = Some(ClosureCRState::Satisfied(reply));
+            }
+            // Only the first answer counts, it must survive any later ones.
+            answered => self.closure = answered,
         }
         Ok(())
     }
-- 
2.43.0


From 4782d7de4d7a30bada51c934e042a19e71c4e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 13/20] fix: do not evaluate or report a second answer to an
 already satisfied request

The documentation of Request::satisfy and satisfy_with promises that on an
already satisfied request they return Ok and never evaluate the closure.
---
 src/callback.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 929ec0b..f37af5c 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns true until this request was answered once
+    fn is_open(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,6 +256,10 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_open(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
         match self.closure.take() {
             Some(ClosureCRState::Open(closure)) => {
@@ -421,11 +427,12 @@ impl<'a> Request<'a> {
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                mech.satisfy(answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 
     /// Satisfy a 'Satisfiable' request using the provided closure.
@@ -498,12 +505,13 @@ impl<'a> Request<'a> {
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 }
 
-- 
2.43.0


From dba21552f52646b42b2984abc84d6c873d963638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 14/20] fix: refuse OAUTHBEARER messages whose GS2 header does
 not end after the authzid

---
 src/mechanisms/oauthbearer/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..c437439 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -41,6 +41,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 return Err(ParseError::ChannelBindings);
             }
             let gs2_authzid = gs2iter.next().ok_or(ParseError::InvalidGs2)?;
+            // The authzid is terminated by a comma which ends the header
+            if gs2iter.next().map_or(true, |rest| !rest.is_empty()) || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
 
             let authzid = if gs2_authzid.is_empty() {
                 None
-- 
2.43.0


From 59ff3015dac1a0b0b569bb04b547ca5922c972a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 15/20] fix: refuse XOAUTH2 messages with further fields after
 the token

---
 src/mechanisms/xoauth2/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mechanisms/xoauth2/server.rs b/src/mechanisms/xoauth2/server.rs
index 69c0b89..227e040 100644
--- a/src/mechanisms/xoauth2/server.rs
+++ b/src/mechanisms/xoauth2/server.rs
@@ -84,6 +84,7 @@ impl Authentication for XOAuth2 {
                 let raw_token = tokenpart
                     .strip_prefix(b"\x01auth=Bearer ")
                     .and_then(|token| token.strip_suffix(b"\x01\x01"))
+                    .filter(|token| !token.contains(&ASCII_SOH))
                     .ok_or_else(|| SessionError::MechanismError(Box::new(Error::InvalidFormat)))?;
 
                 let authid = core::str::from_utf8(raw_authid)
-- 
2.43.0


From c05c15f8acb05e5ebf017264809d3d0584ee0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 16/20] fix: refuse a channel binding name that would end its
 attribute

---
 src/mechanisms/scram/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 4bebea7..84c5f96 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -4,7 +4,7 @@ use crate::context::{Demand, DemandReply, EmptyProvider, Provider};
 use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::parser::{
-    ClientFinal, SaslName, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal, ServerFirst,
 };
 use crate::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword};
 use crate::mechanisms::scram::tools::{
@@ -171,6 +171,8 @@ impl<const N: usize> StateClientFirst<N> {
                 let cbtype =
                     session.maybe_need_with::<OverrideCBType, _, _>(&EmptyProvider, |cbname| {
                         gs2_header.extend_from_slice(cbname.as_bytes());
+                        // The name must not contain anything that could end the attribute
+                        GS2CBindFlag::parse(&gs2_header).map_err(SCRAMError::ParseError)?;
                         Ok(cbname.to_string())
                     })?;
 
-- 
2.43.0


From 1b160c7de2f307626894f08364a0217c9aecb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 17/20] fix: read OAUTHBEARER error messages whose text is
 escaped in JSON

---
 src/mechanisms/oauthbearer/client.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index 2430dc9..b12db36 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,11 +1,25 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerError, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
 use alloc::io::Write;
+use alloc::string::String;
+use serde::Deserialize;
+
+/// A received error message.
+///
+/// Strings are owned as a JSON string containing escapes can not be borrowed from the input.
+#[derive(Deserialize)]
+struct Response {
+    status: String,
+    #[serde(default)]
+    scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    openid_config: Option<String>,
+}
 
 #[derive(Debug, Default, Clone)]
 pub struct OAuthBearer {
@@ -85,7 +99,12 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let response: Response = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error = OAuthBearerError::new(
+                    &response.status,
+                    response.scope.as_deref(),
+                    response.openid_config.as_deref(),
+                );
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
-- 
2.43.0


From e74e7beb7440b24c5393fbdd1ec7bf4795434366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 18/20] fix: OAUTHBEARER server refused key/value pairs whose
 value contains '='

---
 src/mechanisms/oauthbearer/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index c437439..2036c25 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -61,12 +61,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the first '=' separates, the value may contain more of them
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
-- 
2.43.0


From 2ec9205d30e442af78f0f97a3ab29a508f4861d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 19/20] fix: OAUTHBEARER clients must answer an error message
 with 0x01

---
 src/mechanisms/oauthbearer/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index b12db36..afc7f58 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -108,6 +108,10 @@ impl Authentication for OAuthBearer {
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
+
+                // A client has to answer an error message with a single 0x01 (RFC 7628, 3.2.3), which
+                // allows the server to finish the exchange.
+                writer.write_all(b"\x01")?;
                 Ok(State::Finished(MessageSent::Yes))
             }
             OAuthBearerState::Done => Err(SessionError::MechanismDone),
-- 
2.43.0


From cb5d1718975f540c121bca7bbcd839742058f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:11 +0000
Subject: [PATCH 20/20] fix: SCRAM steps after the end of the exchange fail
 with MechanismDone instead of panicking

---
 src/mechanisms/scram/client.rs | 2 +-
 src/mechanisms/scram/server.rs | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 84c5f96..4c9056c 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -493,7 +493,7 @@ where
                 state.step(session, server_final)?;
                 Ok(State::Finished(MessageSent::No))
             }
-            None => panic!("State machine in invalid state"),
+            None => Err(SessionError::MechanismDone),
         }
     }
 }
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index a45d0cc..64a7c47 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -457,9 +457,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
                 self.state = Some(Finished(new_state));
                 Ok(State::Finished(MessageSent::Yes))
             }
-            Some(Finished(_state)) => Err(SessionError::MechanismDone),
-
-            None => panic!("SCRAM server state machine in invalid state"),
+            Some(Finished(_)) | None => Err(SessionError::MechanismDone),
         }
     }
 }
-- 
2.43.0

