From 01d35f2ec8686b90b5715da16c8b0021660c20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 01/18] fix: check nbf against the validation time in
 Ucan::validate

---
 ucan/src/ucan.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..38b1e36 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_too_early_at(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +119,14 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_too_early_at(None)
+    }
+
+    /// Returns true if the not-before ("nbf") time is in the future relative to
+    /// the given time (or the current time, if none is given)
+    fn is_too_early_at(&self, now_time: Option<u64>) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > now_time.unwrap_or_else(now),
             None => false,
         }
     }
-- 
2.43.0


From 76235c559e5a14ed33987c71db09554483c2cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/18] fix: only merge equal capabilities when aggregating
 originators

---
 ucan/src/chain.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..d6843c9 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -267,13 +267,12 @@ impl ProofChain {
         let mut merged_capability_infos = Vec::<CapabilityInfo<S, A>>::new();
 
         // Merge redundant capabilities (accounting for redelegation), ensuring
-        // that discrete originators are aggregated as we go
+        // that discrete originators are aggregated as we go. Only equal
+        // capabilities are merged: the originators of a narrower capability
+        // did not necessarily authorize a broader one that enables it.
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
-                if remaining_capability_info
-                    .capability
-                    .enables(&capability_info.capability)
-                {
+                if remaining_capability_info.capability == capability_info.capability {
                     remaining_capability_info
                         .originators
                         .extend(capability_info.originators);
-- 
2.43.0


From 3bea9835b494ae989fcff073602fa80e7c73fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 03/18] fix: keep reporting capabilities that follow an
 unrecognized one

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index d6843c9..623bf6a 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 03bea1935c6915bb199522d3b3007a907f40bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:59 +0000
Subject: [PATCH 04/18] fix: honour redelegation of all proofs (prf:*)

---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..688225d 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    // The wildcard is a selection of its own (`prf:*`) rather than an
+    // unscoped resource
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 5a8048ca61bf9ca9b76281d8211313e646c29304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 05/18] fix: reject a did:key that is too short instead of
 panicking

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..2747977 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("Missing magic bytes in DID: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From bc0a41810d7b646309591182c24c9911c888d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 06/18] fix: display a malformed principle instead of panicking

---
 ucan/src/ipld/principle.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..4da3529 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -27,13 +27,11 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
+        let did_content = match bytes.strip_prefix(DID_IPLD_PREFIX) {
+            Some(method_specific) => {
+                [DID_PREFIX, &String::from_utf8_lossy(method_specific)].concat()
+            }
+            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
         write!(f, "{did_content}")
-- 
2.43.0


From eaa4f28264aa3a34f561673f98fd64add96af331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:29 +0000
Subject: [PATCH 07/18] fix: reject a truncated varsig instead of panicking

---
 ucan/src/ipld/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..7e7c5cf 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,7 +130,10 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        let signature = buffer
+            .get(..signature_length)
+            .ok_or_else(|| anyhow!("Signature is shorter than its declared length"))?
+            .to_vec();
 
         Ok((algorithm, signature))
     }
-- 
2.43.0


From 7b9576f23933033c7ebf94fe0d9d52eba479a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:31 +0000
Subject: [PATCH 08/18] fix: saturate the expiration implied by a lifetime

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..661edee 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -285,7 +285,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From a4ebdc5582a407e010df067c6ed7d98d5b0c5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:33 +0000
Subject: [PATCH 09/18] fix: return an error when the UCAN payload cannot be
 generated

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 661edee..fc01f6d 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From 7fe086e294dd2a8ad2ad4f781ebbc3c736eae324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 10/18] fix: reject a did:key that collides with another DID as
 a principle

---
 ucan/src/ipld/principle.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 4da3529..8fe0ccb 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -15,7 +15,12 @@ impl FromStr for Principle {
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            // These bytes would be indistinguishable from those of another DID
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("This did:key does not contain a key: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
-- 
2.43.0


From a5b8cc6b35acdaefeffd8eaa8a93580a0066ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 11/18] fix: validate capabilities when they are deserialized

---
 ucan/src/capability/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..79eac80 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,11 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+            for caveat in abilities.values().flatten() {
+                if !caveat.is_object() {
+                    return Err(anyhow!("Caveat must be an object: {}", caveat));
+                }
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From 3b803b83a6e9e90163d142651a20c6e2fbc0e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 12/18] fix: parse the resource of an as: capability

---
 ucan/src/capability/semantics.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..0e5ccfc 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -131,7 +131,9 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        let resource = path_parts.collect::<Vec<&str>>().join(":");
+
+        Some((format!("did:key:{value}"), resource))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -165,10 +167,11 @@ where
             },
             "as" => {
                 let (did, resource) = self.extract_did(uri.path())?;
-                Resource::As {
-                    did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
-                }
+                let kind = match resource.as_str() {
+                    "*" => ResourceUri::Unscoped,
+                    _ => self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                };
+                Resource::As { did, kind }
             }
             _ => Resource::Resource {
                 kind: self.parse_resource(&uri)?,
-- 
2.43.0


From 1bfb73849d4ee215beef6b7de075f2e794b0b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 13/18] fix: encode a UCAN from the data that was signed

---
 ucan/src/ucan.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 38b1e36..31d1db9 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,7 +1,7 @@
 use crate::{
     capability::Capabilities,
     crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
+    serde::DagJson,
     time::now,
 };
 use anyhow::{anyhow, Result};
@@ -91,12 +91,13 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // The signature covers these exact bytes, so they must not be produced
+        // anew from the decoded header and payload
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From ce32920d4fba0c3112dcc7bd6547405d674ab508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 14/18] fix: reject a token with content after its signature

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 31d1db9..8388b95 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -267,6 +267,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected content after UCAN signature"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From b60d6f01c44f18bf8e0f41cdd63e6531f96ab05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 15/18] fix: preserve the version of a UCAN-IPLD when
 converting it to a UCAN

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From f73e7392dd1c472a73cd16bbe78881e8589be1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 16/18] fix: keep the complete resource of an as: capability

The query and fragment of an as: URI were dropped, so that a delegation of
as:did:key:z...:https://host/a?x=1 was read as one of https://host/a, and
as:did:key:z...:*?x as an unscoped one.
---
 ucan/src/capability/semantics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 0e5ccfc..689339a 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -166,7 +166,9 @@ where
                 kind: self.parse_resource(&uri)?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                // Everything after the scheme, including what may look like the
+                // query or fragment of the outer URI, belongs to the resource
+                let (did, resource) = self.extract_did(uri.as_str().strip_prefix("as:")?)?;
                 let kind = match resource.as_str() {
                     "*" => ResourceUri::Unscoped,
                     _ => self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
-- 
2.43.0


From b20f90506a9229023a20ca7478ec5e19e148b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 17/18] fix: prf resources with a query or fragment select no
 proof

prf:0?x and prf:*#y were read as prf:0 and prf:*, and so redelegated proofs
although they are other resources.
---
 ucan/src/capability/proof.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 688225d..93530b9 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -47,9 +47,11 @@ impl TryFrom<Url> for ProofSelection {
     type Error = anyhow::Error;
 
     fn try_from(value: Url) -> Result<Self, Self::Error> {
-        match value.scheme() {
-            "prf" => String::from(value.path()).try_into(),
-            _ => Err(anyhow!("Unrecognized URI scheme")),
+        // The complete remainder selects proofs: neither `prf:0?x` nor `prf:*#y`
+        // names one
+        match value.as_str().strip_prefix("prf:") {
+            Some(selection) => String::from(selection).try_into(),
+            None => Err(anyhow!("Unrecognized URI scheme")),
         }
     }
 }
-- 
2.43.0


From 0fedb4dc630f3ffdfae14f1770068e2a6ac09db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 18/18] fix: refuse to encode a value that DAG-JSON would read
 back differently

---
 ucan/src/serde.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index a2ffebc..b1006eb 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use base64::Engine;
 use libipld_core::{
     codec::{Decode, Encode},
@@ -25,6 +25,12 @@ pub trait DagJson: Serialize + DeserializeOwned {
 
         ipld.encode(DagJsonCodec, &mut json_bytes)?;
 
+        // DAG-JSON reserves some maps with the key "/" for links and bytes, so
+        // that such a map would not be read back as the value that was written
+        if Ipld::decode(DagJsonCodec, &mut Cursor::new(&json_bytes))? != ipld {
+            return Err(anyhow!("Value cannot be represented as DAG-JSON"));
+        }
+
         Ok(json_bytes)
     }
 
-- 
2.43.0

