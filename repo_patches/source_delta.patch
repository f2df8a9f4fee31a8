From 9ec7db55ca50332cad82a900d06060cf7cc8db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 01/11] fix: honour the configured DNS lookup timeout

---
 src/verifier/query.rs | 55 ++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..a6f8489 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -22,10 +22,11 @@ use crate::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet, BTreeSet},
+    collections::{HashMap, HashSet},
+    future::Future,
     io::{self, ErrorKind},
+    time::Duration,
 };
-use tokio::{task::JoinSet, time};
 use tracing::trace;
 
 struct QueriesBuilder {
@@ -59,32 +60,10 @@ impl QueriesBuilder {
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
-            let resolver = resolver.clone();
-
-            let lookup_timeout = config.lookup_timeout;
-
-            // set.spawn(async move {
-            //     let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-                // let result = match time::timeout(lookup_timeout, f).await {
-                //     Ok(r) => r,
-                //     Err(e) => Err(e.into()),
-                // };
-
-            //     (indexes, result)
-            // });
-
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
-            set.push(
-                (indexes, f)
-            );
-        }
+            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
 
+            set.push((indexes, with_timeout(config.lookup_timeout, f).await));
+        }
 
         Queries { set }
     }
@@ -92,6 +71,28 @@ impl QueriesBuilder {
 
 pub type QueryResult = io::Result<Vec<io::Result<String>>>;
 
+#[cfg(not(all(
+    target_arch = "wasm32",
+    target_vendor = "unknown",
+    target_os = "unknown"
+)))]
+async fn with_timeout(timeout: Duration, lookup: impl Future<Output = QueryResult>) -> QueryResult {
+    match tokio::time::timeout(timeout, lookup).await {
+        Ok(r) => r,
+        Err(e) => Err(e.into()),
+    }
+}
+
+// There are no timers available on this target.
+#[cfg(all(
+    target_arch = "wasm32",
+    target_vendor = "unknown",
+    target_os = "unknown"
+))]
+async fn with_timeout(_: Duration, lookup: impl Future<Output = QueryResult>) -> QueryResult {
+    lookup.await
+}
+
 async fn look_up_records<T: LookupTxt + ?Sized>(
     resolver: &T,
     domain: &str,
-- 
2.43.0


From 57fa652104eaf1bf37d834beb65660c33380456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 02/11] fix: perform DNS lookups concurrently

---
 src/verifier/query.rs | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index a6f8489..74b9922 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -23,8 +23,10 @@ use crate::{
 };
 use std::{
     collections::{HashMap, HashSet},
-    future::Future,
+    future::{poll_fn, Future},
     io::{self, ErrorKind},
+    pin::Pin,
+    task::Poll,
     time::Duration,
 };
 use tracing::trace;
@@ -55,20 +57,53 @@ impl QueriesBuilder {
     where
         T: LookupTxt + Clone + 'static,
     {
-        let mut set = Vec::new();
+        let mut lookups = Vec::new();
 
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
-            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+            let resolver = resolver.clone();
+            let lookup_timeout = config.lookup_timeout;
 
-            set.push((indexes, with_timeout(config.lookup_timeout, f).await));
+            lookups.push(Box::pin(async move {
+                let f = look_up_records(&resolver, &domain, &selector);
+
+                (indexes, with_timeout(lookup_timeout, f).await)
+            }));
         }
 
+        let set = join_all(lookups).await;
+
         Queries { set }
     }
 }
 
+/// Drives all futures concurrently, and returns their outputs when all are
+/// complete.
+async fn join_all<F: Future>(futures: Vec<Pin<Box<F>>>) -> Vec<F::Output> {
+    let mut outputs: Vec<_> = futures.iter().map(|_| None).collect();
+    let mut pending: Vec<_> = futures.into_iter().enumerate().collect();
+
+    poll_fn(|cx| {
+        pending.retain_mut(|(i, future)| match future.as_mut().poll(cx) {
+            Poll::Ready(output) => {
+                outputs[*i] = Some(output);
+                false
+            }
+            Poll::Pending => true,
+        });
+
+        if pending.is_empty() {
+            Poll::Ready(())
+        } else {
+            Poll::Pending
+        }
+    })
+    .await;
+
+    outputs.into_iter().flatten().collect()
+}
+
 pub type QueryResult = io::Result<Vec<io::Result<String>>>;
 
 #[cfg(not(all(
-- 
2.43.0


From becd9fda184cf8b0ea8756e9ee09866cbee2a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 03/11] fix: canonicalize a body of only empty lines to CRLF in
 simple mode

---
 src/canonicalize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..024244c 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    content_seen: bool,  // whether anything other than empty lines was seen
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            content_seen: false,
         }
     }
 
@@ -305,6 +307,7 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    CanonState::CrLf if !self.content_seen => CRLF.to_vec(),  // so is all-empty body
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +356,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.content_seen = true;
     }
 }
 
-- 
2.43.0


From 1038da82d852d9672200105c1462566191ee1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:35 +0000
Subject: [PATCH 04/11] fix: determine RSA key size by bits, not whole bytes

---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From df1ee7085d3a30a5aadbaa8b153035a5e145eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 05/11] fix: reject sign in numbers of l=, t=, x= tags

---
 src/signature.rs | 6 +++---
 src/tag_list.rs  | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..23fa322 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,7 +957,7 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
@@ -991,13 +991,13 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_number_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
diff --git a/src/tag_list.rs b/src/tag_list.rs
index 705106c..67c2c91 100644
--- a/src/tag_list.rs
+++ b/src/tag_list.rs
@@ -162,6 +162,15 @@ pub fn parse_colon_separated_value(value: &str) -> Vec<&str> {
     value.split(':').map(trim_surrounding_fws).collect()
 }
 
+pub fn parse_number_value(value: &str) -> Result<u64, ParseTagListError> {
+    // Unlike Rust integers, numbers in tags are made up of digits only, no sign.
+    if !value.chars().all(|c| c.is_ascii_digit()) {
+        return Err(ParseTagListError::Syntax);
+    }
+
+    value.parse().map_err(|_| ParseTagListError::Syntax)
+}
+
 pub fn parse_base64_value(value: &str) -> Result<Vec<u8>, ParseTagListError> {
     debug_assert!(is_tag_value(value));
 
-- 
2.43.0


From 2f0620683dd83f176e9edac026a993b936a2f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 06/11] fix: fail with overflow when expiration cannot be after
 timestamp

---
 src/signer/sign.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index f56d85d..75790c6 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -99,6 +99,13 @@ where
             .saturating_add(duration.as_secs())
     });
 
+    if let (Some(timestamp), Some(expiration)) = (timestamp, expiration) {
+        if expiration <= timestamp {
+            trace!("not signing, expiration cannot be represented");
+            return Err(SigningError::Overflow);
+        }
+    }
+
     // calculate z= tag copied headers
 
     let copied_headers = if request.copy_headers {
-- 
2.43.0


From 3367b0976aaf39afb68c9e4b1344f0baa1abda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 07/11] fix: encode header names copied to the z= tag

---
 src/signer/format.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..e5851ba 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -410,7 +410,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
 
     let Fmt { width, indent, last, ascii } = fmt;
 
-    let format_field_value = |value| {
+    let format_field_part = |value| {
         let encode = if ascii {
             quoted_printable::encode_ascii_only
         } else {
@@ -419,7 +419,9 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    let mut iter = value
+        .iter()
+        .map(|(f, v)| (format_field_part(f.as_ref().as_bytes()), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
@@ -431,7 +433,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
     advance_i_initial(out, i, taglen, fmt);
     write!(out, "z={first_name}:").unwrap();
 
-    let val = format_field_value(val);
+    let val = format_field_part(val);
     format_chunks_into_string(out, i, fmt, &val);
 
     for (name, val) in iter {
@@ -451,7 +453,7 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
             *i = indent.len() + namelen;
         }
 
-        let val = format_field_value(val);
+        let val = format_field_part(val);
         format_chunks_into_string(out, i, fmt, &val);
     }
 
-- 
2.43.0


From f5bb55e99bd2e0545c32a6f4f637d4a095ec935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 08/11] fix: refuse domain names with A-labels that decode to
 another name

---
 src/signature.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 23fa322..95456f7 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -233,12 +233,14 @@ fn is_valid_selector(s: &str) -> bool {
 
 fn is_valid_domain_string(s: &str, check_tld: bool) -> bool {
     // For later IDNA processing, require that inputs can be converted without
-    // error in both directions.
-    match idna::domain_to_ascii(s) {
-        Ok(ascii_s) => {
-            is_valid_dns_name(&ascii_s, check_tld) && idna::domain_to_unicode(s).1.is_ok()
+    // error in both directions, and without becoming a different name on the
+    // way (fake A-labels such as `xn--example-` decode to pure ASCII).
+    match (idna::domain_to_ascii(s), idna::domain_to_unicode(s)) {
+        (Ok(ascii_s), (unicode_s, Ok(()))) => {
+            is_valid_dns_name(&ascii_s, check_tld)
+                && matches!(idna::domain_to_ascii(&unicode_s), Ok(t) if t == ascii_s)
         }
-        Err(_) => false,
+        _ => false,
     }
 }
 
-- 
2.43.0


From 39c3b7d3a8aea613827c78feb8f31b01320ff6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 09/11] fix: refuse q= among the extra tags of a signing
 request

---
 src/signer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signer/mod.rs b/src/signer/mod.rs
index 0050c4b..b3854b0 100644
--- a/src/signer/mod.rs
+++ b/src/signer/mod.rs
@@ -357,6 +357,8 @@ fn validate_request<T: AsRef<SigningKey>>(request: &SignRequest<T>) -> Result<()
             || !tag_list::is_tag_name(name)
             || !tag_list::is_tag_value(value)
             || format::is_output_tag(name)
+            // standard tag q= is never output, but is not for extensions either
+            || name == "q"
     }) {
         return Err(RequestError::InvalidExtTags);
     }
-- 
2.43.0


From e7f9e4c83c1f7fd6542b4d1a384d8edede8ddd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 10/11] fix: refuse RSA private keys whose components do not
 fit

The rsa crate does not validate the components of a private key when
reading it: signing with a key that has a prime of zero or one panics, and
signing with a key of very unbalanced primes does not come to an end.
---
 src/crypto/mod.rs |  2 +-
 src/crypto/rsa.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index af0738c..113d72d 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -233,7 +233,7 @@ impl SigningKey {
         let pk = PrivateKeyInfo::try_from(doc.as_bytes())
             .map_err(|_| DecodeSigningKeyError::InvalidKeyData)?;
 
-        if let Ok(k) = RsaPrivateKey::try_from(pk.clone()) {
+        if let Some(k) = rsa::read_rsa_private_key(&pk) {
             Ok(Self::Rsa(k))
         } else if let Ok(k) = Ed25519SigningKey::try_from(pk.clone()) {
             Ok(Self::Ed25519(k))
diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 98cd8c4..b3f185a 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -15,9 +15,12 @@
 // this program. If not, see <https://www.gnu.org/licenses/>.
 
 use crate::crypto::HashAlgorithm;
+use pkcs8::PrivateKeyInfo;
 use rsa::{
-    pkcs1::DecodeRsaPublicKey, pkcs8::DecodePublicKey, traits::PublicKeyParts, Pkcs1v15Sign,
-    RsaPrivateKey, RsaPublicKey,
+    pkcs1::{self, DecodeRsaPublicKey},
+    pkcs8::DecodePublicKey,
+    traits::{PrivateKeyParts, PublicKeyParts},
+    BigUint, Pkcs1v15Sign, RsaPrivateKey, RsaPublicKey,
 };
 #[cfg(feature = "pre-rfc8301")]
 use sha1::Sha1;
@@ -46,6 +49,41 @@ pub fn sign_rsa(
     Ok(result)
 }
 
+// The rsa crate does not validate the components of a private key when reading
+// it, but panics or does not come to an end on account of some unusable primes.
+// (Its own validation is not applicable, as it also limits the key size.)
+pub fn read_rsa_private_key(key_info: &PrivateKeyInfo<'_>) -> Option<RsaPrivateKey> {
+    const MAX_PRIME_SIZE_DIFF: usize = 16;
+
+    let one = BigUint::from(1u32);
+
+    let pkcs1_key = pkcs1::RsaPrivateKey::try_from(key_info.private_key).ok()?;
+
+    if [&pkcs1_key.prime1, &pkcs1_key.prime2]
+        .iter()
+        .any(|prime| BigUint::from_bytes_be(prime.as_bytes()) <= one)
+    {
+        return None;
+    }
+
+    let key = RsaPrivateKey::try_from(key_info.clone()).ok()?;
+
+    let (p, q) = match key.primes() {
+        [p, q] => (p, q),
+        _ => return None,
+    };
+
+    let exponents = key.e() * key.d();
+    let is_inverse = |prime: &BigUint| &exponents % (prime - &one) == one;
+
+    let valid = p * q == *key.n()
+        && p.bits().abs_diff(q.bits()) <= MAX_PRIME_SIZE_DIFF
+        && is_inverse(p)
+        && is_inverse(q);
+
+    valid.then_some(key)
+}
+
 // Note that openssl can read key data even if followed by excess content. We
 // have seen such data in the wild, eg two concatenated public keys in a p= tag
 // (openssl would just use the first key). The rsa crate is more strict and does
-- 
2.43.0


From f8a280f4306907b49fa69c1ba811071a325520f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 11/11] fix: do not show private keys in the debugging form of
 SigningKey

---
 src/crypto/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index 113d72d..6019455 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -191,7 +191,6 @@ impl Display for DecodeSigningKeyError {
 impl Error for DecodeSigningKeyError {}
 
 /// A (private) signing key.
-#[derive(Debug)]
 pub enum SigningKey {
     /// The RSA signing key.
     Rsa(RsaPrivateKey),
@@ -243,6 +242,17 @@ impl SigningKey {
     }
 }
 
+// Does not print the private key itself, as the `Debug` implementation of
+// `RsaPrivateKey` would.
+impl fmt::Debug for SigningKey {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        match self {
+            Self::Rsa(_) => write!(f, "Rsa(..)"),
+            Self::Ed25519(_) => write!(f, "Ed25519(..)"),
+        }
+    }
+}
+
 impl AsRef<SigningKey> for SigningKey {
     fn as_ref(&self) -> &Self {
         self
-- 
2.43.0

