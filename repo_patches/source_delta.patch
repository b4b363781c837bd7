From c1c359a9598cf2666030e1b64bd1685fe37c5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 01/11] fix: write request parameters into signed forms and
 queries

`Authorizer` only fed the request parameters to the signature, so
`Builder::to_form`/`to_query` lost the request's own parameters although
they are documented to be written along with the protocol parameters.
---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 64662857b899da10bf9d6d9f8e8c75e9ad5db13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 02/11] fix: percent encode the PLAINTEXT signature for its
 carrier

`Sign::Signature` is documented as the URL-encoded representation of the
signature, but PLAINTEXT returned the raw signing key. Its `&` broke signed
forms and queries into an extra pair, and the percent escapes in the key were
undone by the server decoding the header.
---
 .../src/signature_method/plaintext.rs         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..78eeb66 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -5,6 +5,8 @@
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
+use crate::util::percent_encode;
+
 use super::{write_signing_key, Sign, SignatureMethod};
 
 /// The `PLAINTEXT` signature method.
@@ -26,6 +28,10 @@ cfg_type_param_hack! {
     }
 }
 
+/// Percent encodes the signing key so that the resulting signature is its URL-encoded representation
+/// as required by `Sign::Signature`.
+struct PercentEncodeWrite<'a, W>(&'a mut W);
+
 /// The `PLAINTEXT` signature method with a default configuration.
 #[cfg(feature = "alloc")]
 pub const PLAINTEXT: Plaintext = Plaintext::new();
@@ -92,7 +98,12 @@ where
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        write_signing_key(
+            &mut PercentEncodeWrite(&mut signing_key),
+            client_secret,
+            token_secret,
+        )
+        .unwrap();
         PlaintextSign { signing_key }
     }
 }
@@ -125,3 +136,9 @@ where
     // OAuth Core 1.0 Revision A (https://oauth.net/core/1.0a/) specification used to require these
     // parameters. So, we don't override the methods here for compatibility's sake.
 }
+
+impl<'a, W: Write> Write for PercentEncodeWrite<'a, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        write!(self.0, "{}", percent_encode(s))
+    }
+}
-- 
2.43.0


From 66df2243fd43c695f2bb7cebe517d26f5fd08451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 03/11] fix: delegate `Sign::consumer_key` in `Either`

`Either` fell back to the default implementation for this one callback, so
a method overriding it was not asked when selected at runtime.
---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From dbd2b47760cfb3deb53f4eacd7fee6743cfec429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 04/11] fix: compare parameter values that format to nothing

`fmt_cmp` considers a left-hand side whose `Display` implementation never
calls `write_str` equal to any value, so `ParameterList` left such values
unsorted and `Record`s of them compared equal to others.
---
 oauth1-request/src/request/parameter_list.rs |  3 ++-
 oauth1-request/src/serializer/recorder.rs    |  4 +++-
 oauth1-request/src/util.rs                   | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..8b505fc 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::cmp_display;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -240,7 +241,7 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        kl.cmp(kr).then_with(|| cmp_display(vl, vr))
     }
 }
 
diff --git a/oauth1-request/src/serializer/recorder.rs b/oauth1-request/src/serializer/recorder.rs
index c4a958c..4900059 100644
--- a/oauth1-request/src/serializer/recorder.rs
+++ b/oauth1-request/src/serializer/recorder.rs
@@ -8,6 +8,8 @@ use alloc::vec::Vec;
 use core::cmp::Ordering;
 use core::fmt::Display;
 
+use crate::util::cmp_display;
+
 use super::Serializer;
 
 /// A `Serializer` that records the history of operations done to itself.
@@ -184,7 +186,7 @@ where
             | (
                 &Record::ParameterEncoded(ref k1, ref v1),
                 &Record::ParameterEncoded(ref k2, ref v2),
-            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
+            ) => k1.as_ref() == k2.as_ref() && cmp_display(v1, v2) == Ordering::Equal,
             (&Record::Callback, &Record::Callback)
             | (&Record::ConsumerKey, &Record::ConsumerKey)
             | (&Record::Nonce, &Record::Nonce)
diff --git a/oauth1-request/src/util.rs b/oauth1-request/src/util.rs
index 3592217..b331f70 100644
--- a/oauth1-request/src/util.rs
+++ b/oauth1-request/src/util.rs
@@ -1,6 +1,9 @@
 mod oauth_parameter;
 mod percent_encoding;
 
+use core::cmp::Ordering;
+use core::fmt::{self, Display, Formatter};
+
 pub use self::oauth_parameter::OAuthParameter;
 pub use self::percent_encoding::{percent_encode, DoublePercentEncode, PercentEncode};
 
@@ -149,6 +152,19 @@ macro_rules! impl_setters {
     () => {};
 }
 
+/// Same as `fmt_cmp::cmp` but also handles values whose `Display` implementation writes nothing at
+/// all, which `fmt_cmp` takes as equal to any value.
+pub fn cmp_display<T: Display, U: Display>(lhs: &T, rhs: &U) -> Ordering {
+    struct WriteOnce<'a, T>(&'a T);
+    impl<'a, T: Display> Display for WriteOnce<'a, T> {
+        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+            f.write_str("")?;
+            self.0.fmt(f)
+        }
+    }
+    fmt_cmp::cmp(&WriteOnce(lhs), rhs)
+}
+
 impl OAuthParameter {
     pub fn serialize<S: crate::serializer::Serializer>(self, serializer: &mut S) {
         match self {
-- 
2.43.0


From b343ba490046794a6e67a43fe790e87544f53216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 05/11] fix: order equal parameter names by their encoded
 values

RFC 5849 section 3.4.1.3.2. sorts the parameters after encoding them, and
e.g. `:` (`%3A`) comes before `-` only in the encoded form, so requests
with such repeated parameters were signed wrongly.
---
 oauth1-request/src/request.rs                | 5 +++--
 oauth1-request/src/request/parameter_list.rs | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/request.rs b/oauth1-request/src/request.rs
index c78477f..ce66968 100644
--- a/oauth1-request/src/request.rs
+++ b/oauth1-request/src/request.rs
@@ -32,8 +32,9 @@ pub trait Request {
 /// behavior of this wrapper is unspecified.
 ///
 /// Note that the required ordering is alphabetical ordering of `AsRef<str>` value of the key and
-/// `Display` representation of the value and does not necessarily match that of the one provided by
-/// the [`Ord`] trait, which may provide, for example, numerical ordering instead.
+/// percent encoded `Display` representation of the value and does not necessarily match that of
+/// the one provided by the [`Ord`] trait, which may provide, for example, numerical ordering
+/// instead.
 ///
 /// If you have a slice instead of an iterator, consider using [`ParameterList`], which guarantees
 /// the correct ordering.
diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 8b505fc..6faa2ff 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,7 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
-use crate::util::cmp_display;
+use crate::util::{cmp_display, PercentEncode};
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -241,7 +241,10 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        kl.cmp(kr).then_with(|| cmp_display(vl, vr))
+        // The signature base string requires the values to be compared in their encoded form
+        // (RFC 5849 section 3.4.1.3.2.), which may order differently than the original form.
+        let (vl, vr) = (PercentEncode(vl), PercentEncode(vr));
+        kl.cmp(kr).then_with(|| cmp_display(&vl, &vr))
     }
 }
 
-- 
2.43.0


From 3c07ee047f28e6ef5bd974128f9e126c32ad136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/11] fix: percent encode the request method in signature
 base strings

RFC 5849 section 3.4.1.1. requires a custom request method to be encoded,
and an HTTP token may contain characters like `!` or `+` that need it.
---
 oauth1-request/src/signature_method/digest_common.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/digest_common.rs b/oauth1-request/src/signature_method/digest_common.rs
index 07145fa..1c83def 100644
--- a/oauth1-request/src/signature_method/digest_common.rs
+++ b/oauth1-request/src/signature_method/digest_common.rs
@@ -3,7 +3,7 @@ use core::fmt::{self, Display, Formatter, Write};
 use base64::display::Base64Display;
 use digest::Update;
 
-use crate::util::PercentEncode;
+use crate::util::{percent_encode, PercentEncode};
 
 #[derive(Clone, Debug)]
 pub struct UpdateSign<U>(pub U);
@@ -14,8 +14,7 @@ struct UpdateWrite<'a, M>(&'a mut M);
 
 impl<U: Update> UpdateSign<U> {
     pub fn request_method(&mut self, method: &str) {
-        self.0.update(method.as_bytes());
-        self.0.update(b"&");
+        write!(UpdateWrite(&mut self.0), "{}&", percent_encode(method)).unwrap();
     }
 
     pub fn uri<T: Display>(&mut self, uri: T) {
-- 
2.43.0


From 44d090f42e778177387ea21db2d04d534680e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 07/11] fix: accept raw identifiers as derived field names

The derive macro stripped the `r#` prefix from the identifier it uses to
access the field as well, so a field like `r#type` failed to compile.
---
 oauth1-request-derive/src/field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..3f38fcd 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -35,7 +35,7 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
+        let ident = ident.unwrap();
         Self { ident, ty, meta }
     }
 
@@ -62,7 +62,7 @@ impl<'a> Name<'a> {
     // `proc_macro` crate use `to_string` under the hood as of this writing.
     pub fn string_value(&self) -> String {
         match *self {
-            Name::Original(ident) => ident.to_string(),
+            Name::Original(ident) => ident.unraw().to_string(),
             Name::Renamed(lit) => lit.value(),
         }
     }
@@ -73,7 +73,7 @@ impl<'a> ToTokens for Name<'a> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match *self {
             Name::Original(ident) => {
-                let mut lit = Literal::string(&ident.to_string());
+                let mut lit = Literal::string(&self.string_value());
                 lit.set_span(ident.span());
                 tokens.append(lit);
             }
-- 
2.43.0


From 3b6be779122a7a1396091443324d1681734871c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 08/11] fix: reject non-ASCII field names in the derive macro

The macro requires a `rename`d parameter name to be URI-safe since names
are never encoded, but accepted a non-ASCII field name as is, which put raw
non-ASCII text into forms and signature base strings.
---
 oauth1-request-derive/src/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 3f38fcd..073723a 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -36,6 +36,10 @@ impl Field {
         } = field;
         let meta = FieldMeta::new(attrs, cx);
         let ident = ident.unwrap();
+        // Identifiers only consist of URI-safe characters except for non-ASCII ones.
+        if !meta.skip && meta.rename.is_none() && !ident.to_string().is_ascii() {
+            cx.add_error_message(ident.span(), "parameter name must be URI-safe");
+        }
         Self { ident, ty, meta }
     }
 
-- 
2.43.0


From fcf6c4a011e7dd48b6900b62d2bf6ba2bf6ee8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 09/11] fix: draw nonces from the OS so that forked processes
 do not share them

---
 oauth1-request/src/serializer/auth.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index e7b55af..acd4da2 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -410,13 +410,8 @@ fn get_current_timestamp() -> u64 {
 }
 
 fn get_rng() -> impl RngCore + CryptoRng {
-    cfg_if::cfg_if! {
-        if #[cfg(feature = "std")] {
-            thread_rng()
-        } else {
-            rand::rngs::OsRng
-        }
-    }
+    // Not `thread_rng`, whose buffered output is shared by a process and its forked children.
+    rand::rngs::OsRng
 }
 
 // This is worth 72 bits of entropy. The nonce is required to be unique across all requests with
-- 
2.43.0


From 302ba499c7664683369026ab032cdb94d0ab7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:18 +0000
Subject: [PATCH 10/11] fix: do not show the signing key in Debug of
 PlaintextSign

---
 oauth1-request/src/signature_method/plaintext.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 78eeb66..c27e2e1 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -19,7 +19,7 @@ pub struct Plaintext<
 
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the signing key used to construct it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -108,6 +108,15 @@ where
     }
 }
 
+// The signing key must not be shown.
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        #[derive(Debug)]
+        struct PlaintextSign;
+        PlaintextSign.fmt(f)
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
-- 
2.43.0


From 04bbc7806e0bddc8690fc0835e4212be5f70621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:23 +0000
Subject: [PATCH 11/11] fix: do not show the private key in Debug of RsaSha1
 and RsaSha1Sign

---
 .../src/signature_method/rsa_sha1.rs          | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/oauth1-request/src/signature_method/rsa_sha1.rs b/oauth1-request/src/signature_method/rsa_sha1.rs
index 30d1cc4..2f3fc55 100644
--- a/oauth1-request/src/signature_method/rsa_sha1.rs
+++ b/oauth1-request/src/signature_method/rsa_sha1.rs
@@ -6,7 +6,7 @@ pub use self::rsa::pkcs8::DecodePrivateKey;
 pub use self::rsa::RsaPrivateKey;
 
 use alloc::vec::Vec;
-use core::fmt::{self, Display, Formatter};
+use core::fmt::{self, Debug, Display, Formatter};
 
 use digest::Digest;
 use sha1::Sha1;
@@ -15,14 +15,14 @@ use super::digest_common::{Base64PercentEncodeDisplay, UpdateSign};
 use super::{Sign, SignatureMethod};
 
 /// The `RSA-SHA1` signature method.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 #[repr(transparent)]
 pub struct RsaSha1 {
     key: RsaPrivateKey,
 }
 
 /// A type that signs a signature base string with the RSA-SHA1 signature algorithm.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct RsaSha1Sign<K = RsaPrivateKey> {
     inner: UpdateSign<Sha1>,
     key: K,
@@ -40,6 +40,15 @@ impl RsaSha1 {
     }
 }
 
+// The private key must not be shown.
+impl Debug for RsaSha1 {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        #[derive(Debug)]
+        struct RsaSha1;
+        RsaSha1.fmt(f)
+    }
+}
+
 impl From<RsaPrivateKey> for RsaSha1 {
     fn from(key: RsaPrivateKey) -> Self {
         RsaSha1::new(key)
@@ -83,6 +92,15 @@ impl<'a> SignatureMethod for &'a RsaSha1 {
     }
 }
 
+// The private key must not be shown.
+impl<K> Debug for RsaSha1Sign<K> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        #[derive(Debug)]
+        struct RsaSha1Sign;
+        RsaSha1Sign.fmt(f)
+    }
+}
+
 impl Sign for RsaSha1Sign {
     type Signature = RsaSha1Signature;
 
-- 
2.43.0

