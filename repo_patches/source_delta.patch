From 915f2e94375ffe3060ae49ad5e4090e3b271220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 01/29] fix: hash tree lookup must not treat an empty fork side
 as proof of absence

---
 packages/ic-certification/src/hash_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..4847d22 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -296,6 +296,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// The label is not part of this node's tree.
     Absent,
 
+    /// The node has no labels at all, so it says nothing about its siblings.
+    Empty,
+
     /// Same as absent, but some leaves were pruned and so it's impossible to know.
     Unknown,
 
@@ -446,20 +449,26 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
+                    // An empty left side does not affect the right side of the fork.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     result => result,
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +500,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less), _) => Absent,
         }
     }
 }
@@ -517,7 +526,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From 7f3834c74544d05ccf073e12f8b9a193f0b8a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 02/29] fix: limit the nesting depth accepted by the CBOR
 parser

---
 packages/ic-cbor/src/cbor_parser.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..43412ab 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -11,6 +11,9 @@ use nom::{
 };
 use std::{collections::HashMap, fmt};
 
+/// The maximum nesting depth of data items that the parser accepts.
+const MAX_NESTING_DEPTH: usize = 256;
+
 #[derive(Debug, Copy, Clone, Eq, PartialEq)]
 pub enum CborNegativeInt {
     Int8(i8),
@@ -121,8 +124,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -132,12 +135,18 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+/// Parses a single data item. `depth` is the number of data items that enclose it,
+/// the nesting is limited so that malicious input cannot exhaust the stack.
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -169,7 +178,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -179,7 +188,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 0,
                 data_len,
-                extract_key_val_pair,
+                |i| extract_key_val_pair(i, depth + 1),
                 || HashMap::with_capacity(data_len),
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
@@ -191,15 +200,15 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, depth + 1),
+        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From e6e566cdbb604273f10b1527d2b983636711fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 03/29] fix: do not pre-allocate CBOR maps from the encoded
 length

---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 43412ab..af0c7d1 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -189,7 +189,7 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
                 0,
                 data_len,
                 |i| extract_key_val_pair(i, depth + 1),
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From 07dfcd83cef6ca9e9dabf5245c8e67eb8f7f3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 04/29] fix: reject CBOR maps with fewer entries than announced

---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index af0c7d1..e2fc122 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -186,7 +186,7 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 |i| extract_key_val_pair(i, depth + 1),
                 HashMap::new,
-- 
2.43.0


From 0fb578d1723d6184f893127672c29fe0ba53f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 05/29] fix: reject over-long principals in CBOR canister
 ranges instead of panicking

---
 packages/ic-cbor/src/cbor_parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index e2fc122..7162809 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -232,9 +232,13 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
+            let parse_principal = |bytes: &[u8]| {
+                Principal::try_from_slice(bytes).map_err(|_| CborError::MalformedCborCanisterRanges)
+            };
+
             Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
+                parse_principal(first_principal)?,
+                parse_principal(second_principal)?,
             ))
         })
         .collect::<Result<_, _>>()
-- 
2.43.0


From 25dc1e4a80b00b523de2fb6179271cc7ca527490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 06/29] fix: decode large negative CBOR integers to their
 actual value

---
 packages/ic-cbor/src/cbor_parser.rs | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 7162809..4233b69 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -45,13 +45,25 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    //
+    // The result may not fit into the signed integer of the same width,
+    // the next wider one is used in that case.
+    fn to_negative(self) -> Option<CborNegativeInt> {
+        Some(match self {
+            CborUnsignedInt::UInt8(n) => match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - i16::from(n)),
+            },
+            CborUnsignedInt::UInt16(n) => match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - i32::from(n)),
+            },
+            CborUnsignedInt::UInt32(n) => match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - i64::from(n)),
+            },
+            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - i64::try_from(n).ok()?),
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -167,7 +179,10 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Some(negative) => Ok((i, CborValue::Signed(negative))),
+            None => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0


From 310b3e71a0d7de9950f0c9daed2232c85d560266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 07/29] fix: saturate the accepted certificate time window
 instead of overflowing

---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From 3cf31f5acfb78e911fb069a1632af13d9216b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 08/29] fix: reject malformed BLS signatures and public keys
 instead of panicking

---
 .../src/signature_verification/mod.rs            | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..ad0b283 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -4,6 +4,18 @@ use miracl_core_bls12381::bls12381::bls::{core_verify, BLS_OK};
 
 mod signature_cache;
 
+const SIGNATURE_LENGTH: usize = 48;
+const PUBLIC_KEY_LENGTH: usize = 96;
+
+/// The most significant bit of an encoded point is set if the point is compressed.
+const COMPRESSED_POINT_FLAG: u8 = 0x80;
+
+/// The decoding of points does not check the length of its input,
+/// and the encoding of uncompressed points is twice as long.
+fn is_compressed_point(encoded_point: &[u8], expected_length: usize) -> bool {
+    encoded_point.len() == expected_length && encoded_point[0] & COMPRESSED_POINT_FLAG != 0
+}
+
 #[cfg(test)]
 mod reproducible_rng;
 
@@ -15,6 +27,10 @@ pub fn verify_signature(
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    if !is_compressed_point(sig, SIGNATURE_LENGTH) || !is_compressed_point(pk, PUBLIC_KEY_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 3a916e421091dce9117aea25f4b30c5864b22733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 09/29] fix: limit the nesting depth accepted by the CEL parser

---
 .../src/cel/parser.rs                         | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..83ce86f 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -4,13 +4,16 @@ use nom::bytes::complete::{escaped, take_while};
 use nom::character::complete::{char, multispace0, one_of};
 use nom::character::is_alphanumeric;
 use nom::combinator::{cut, map};
-use nom::error::{context, ContextError, ParseError};
+use nom::error::{context, ContextError, ErrorKind, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
-use nom::{IResult, Parser};
+use nom::{Err, IResult, Parser};
 use std::collections::HashMap;
 use std::fmt;
 
+/// The maximum nesting depth of values that the parser accepts.
+const MAX_NESTING_DEPTH: usize = 32;
+
 #[derive(Debug, Eq, PartialEq)]
 pub(crate) enum CelValue<'a> {
     String(&'a str),
@@ -85,32 +88,33 @@ fn string<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
 fn array<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, Vec<CelValue<'a>>, E> {
     context(
         "array",
         drop_separators(
             '[',
             ']',
-            separated_list0(trim_whitespace(char(',')), cel_value),
+            separated_list0(trim_whitespace(char(',')), |i| cel_value(i, depth + 1)),
         ),
     )(i)
 }
 
 fn key_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, CelValue<'a>), E> {
     context(
         "key_value",
-        separated_pair(
-            trim_whitespace(ident),
-            trim_whitespace(char(':')),
-            cel_value,
-        ),
+        separated_pair(trim_whitespace(ident), trim_whitespace(char(':')), |i| {
+            cel_value(i, depth + 1)
+        }),
     )(i)
 }
 
 fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, HashMap<&'a str, CelValue<'a>>), E> {
     context(
         "object",
@@ -120,7 +124,7 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 '{',
                 '}',
                 map(
-                    separated_list0(trim_whitespace(char(',')), key_value),
+                    separated_list0(trim_whitespace(char(',')), |i| key_value(i, depth)),
                     |tuple_vec| tuple_vec.into_iter().collect(),
                 ),
             ),
@@ -130,6 +134,7 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
 fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, Vec<CelValue<'a>>), E> {
     context(
         "function",
@@ -139,7 +144,7 @@ fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 '(',
                 ')',
                 map(
-                    separated_list0(trim_whitespace(char(',')), cel_value),
+                    separated_list0(trim_whitespace(char(',')), |i| cel_value(i, depth + 1)),
                     |tuple_vec| tuple_vec.into_iter().collect(),
                 ),
             ),
@@ -147,22 +152,35 @@ fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+/// Parses a single value. `depth` is the number of values that enclose it,
+/// the nesting is limited so that malicious input cannot exhaust the stack.
 fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, CelValue<'a>, E> {
+    if depth >= MAX_NESTING_DEPTH {
+        return Err(Err::Failure(E::from_error_kind(i, ErrorKind::TooLarge)));
+    }
+
     context(
         "cel_value",
         trim_whitespace(alt((
-            map(object, |(name, value)| CelValue::Object(name, value)),
-            map(function, |(name, value)| CelValue::Function(name, value)),
-            map(array, CelValue::Array),
+            map(
+                |i| object(i, depth),
+                |(name, value)| CelValue::Object(name, value),
+            ),
+            map(
+                |i| function(i, depth),
+                |(name, value)| CelValue::Function(name, value),
+            ),
+            map(|i| array(i, depth), CelValue::Array),
             map(string, CelValue::String),
         ))),
     )(i)
 }
 
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
-    let result = cel_value::<nom::error::Error<&str>>(i);
+    let result = cel_value::<nom::error::Error<&str>>(i, 0);
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-- 
2.43.0


From f19d557942babf9972d4b00983d305d2b3f77620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 10/29] fix: accept every certifiable name in CEL strings

---
 packages/ic-response-verification/src/cel/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 83ce86f..446b396 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -68,12 +68,12 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
+    let escaped_chars = "\"\\";
 
     context(
         "parse_str",
         escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+            take_while(move |e| !escaped_chars.contains(e)),
             '\\',
             one_of("\"n\\"),
         ),
-- 
2.43.0


From 0f01a047df67ffb728ff7f480a5bf5e272e5872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 11/29] fix: serve the v1 index fallback only if the requested
 path is provably absent

---
 .../src/validation/v1_validation.rs                       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v1_validation.rs b/packages/ic-response-verification/src/validation/v1_validation.rs
index ab86c21..edcbd04 100644
--- a/packages/ic-response-verification/src/validation/v1_validation.rs
+++ b/packages/ic-response-verification/src/validation/v1_validation.rs
@@ -11,12 +11,18 @@ pub fn validate_body(tree: &HashTree, request_path: &str, body_sha: &Hash) -> bo
         // https://internetcomputer.org/docs/current/references/ic-interface-spec/#http-gateway-certification
         //
         // It may be possible to remove this with a combination of asset canister redirect rules and v2 response verification.
-        _ => match tree.lookup_path(&index_fallback_path) {
+        //
+        // The fallback is only allowed if the tree proves that the requested path does not exist,
+        // otherwise the index could be served in place of a pruned asset.
+        LookupResult::Absent => match tree.lookup_path(&index_fallback_path) {
             LookupResult::Found(v) => v,
             _ => {
                 return false;
             }
         },
+        _ => {
+            return false;
+        }
     };
 
     body_sha == tree_sha
-- 
2.43.0


From ddf33030abcf8f8a8786aff34ee61f81208ea958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 12/29] fix: do not copy every CBOR subtree when building hash
 trees

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 25 ++++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..0a1f2ce 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -17,16 +17,14 @@ impl HashTreeToCbor for HashTree {
 }
 
 pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
-    if let CborValue::Array(mut cbor_tags) = parsed_cbor.to_owned() {
-        cbor_tags.reverse();
-
-        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
+    if let CborValue::Array(cbor_tags) = parsed_cbor {
+        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.first() {
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
                 CborHashTree::Leaf => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
-                        Ok(leaf(data))
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.get(1) {
+                        Ok(leaf(data.to_owned()))
                     } else {
                         Err(CborError::MalformedHashTree(String::from(
                             "Missing ByteString for Leaf node",
@@ -35,7 +33,7 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Pruned => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.get(1) {
                         let digest: Hash = TryFrom::<&[u8]>::try_from(data.as_ref())
                             .map_err(CborError::IncorrectPrunedDataLength)?;
 
@@ -49,10 +47,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
 
                 CborHashTree::Labelled => {
                     if let (Some(CborValue::ByteString(data)), Some(child_tag)) =
-                        (cbor_tags.pop(), cbor_tags.pop())
+                        (cbor_tags.get(1), cbor_tags.get(2))
                     {
-                        let node_label = Label::from(data);
-                        let child_node = parsed_cbor_to_tree(&child_tag)?;
+                        let node_label = Label::from(data.to_owned());
+                        let child_node = parsed_cbor_to_tree(child_tag)?;
 
                         Ok(label(node_label, child_node))
                     } else {
@@ -63,9 +61,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Fork => {
-                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.pop(), cbor_tags.pop()) {
-                        let left = parsed_cbor_to_tree(&left_tag)?;
-                        let right = parsed_cbor_to_tree(&right_tag)?;
+                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.get(1), cbor_tags.get(2))
+                    {
+                        let left = parsed_cbor_to_tree(left_tag)?;
+                        let right = parsed_cbor_to_tree(right_tag)?;
 
                         Ok(fork(left, right))
                     } else {
-- 
2.43.0


From 1471b9652602b701ea0ecfae7d21dbfb4be0f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 13/29] fix: do not mistake literal path segments for path
 affixes

---
 .../ic-http-certification/src/tree/certification_tree.rs   | 6 ++++++
 .../src/validation/v2_validation.rs                        | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..80a20d7 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -99,6 +99,12 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
+                //
+                // The prefix is added to both paths so that it cannot be mistaken for a path segment.
+                let with_prefix =
+                    |path: Vec<Vec<u8>>| [vec![PATH_PREFIX_BYTES.to_vec()], path].concat();
+                let requested_tree_path = with_prefix(requested_tree_path);
+                let responding_tree_path = with_prefix(responding_tree_path);
                 more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
                     .iter()
                     .fold(witness, |acc, path| {
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..c40287a 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -100,6 +100,7 @@ pub fn validate_expr_path(
             },
         );
     }
+    let terminated_request_url_path = request_url_path.clone();
     request_url_path.pop(); // pop "<$>"
 
     let mut potential_path = original_path.clone();
@@ -116,7 +117,11 @@ pub fn validate_expr_path(
     }
 
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
+    //
+    // the terminator is still needed here, so that a last path segment that looks the same is not mistaken for it
+    for wildcard_path in
+        more_specific_wildcards_for(&terminated_request_url_path, &original_path).iter_mut()
+    {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
         if path_might_exist_in_tree(wildcard_path, tree) {
-- 
2.43.0


From 53e3a8d0157514b8f1db90eedbf1ace163a139f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 14/29] fix: remove the certification of deleted and replaced
 assets

The router re-derived the certification to delete from the arguments of the
delete call, so replaced assets, chunks of large assets and assets deleted with
different contents or configuration kept outdated certifications in the tree.
---
 .../src/asset_router.rs                       | 158 +++++-------------
 1 file changed, 42 insertions(+), 116 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..a85c60d 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -359,16 +359,16 @@ impl<'content> AssetRouter<'content> {
                 if let Some(mut encoded_asset) = encoded_asset {
                     encoded_asset.url.clone_from(&asset.url);
 
-                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding))?;
+                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding));
                 }
             }
 
-            self.delete_asset_impl(asset.clone(), asset_config, None)?;
+            self.delete_asset_impl(asset.clone(), asset_config, None);
         }
 
         for asset_config in asset_configs {
-            if let NormalizedAssetConfig::Redirect { from, to, kind } = asset_config {
-                self.delete_redirect(from, to, kind)?;
+            if let NormalizedAssetConfig::Redirect { from, .. } = asset_config {
+                self.remove_static_response(&from, None);
             }
         }
 
@@ -520,57 +520,23 @@ impl<'content> AssetRouter<'content> {
         asset: Asset<'content, 'path>,
         asset_config: Option<&NormalizedAssetConfig>,
         encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult {
-        match asset_config {
-            Some(NormalizedAssetConfig::Pattern {
-                content_type,
-                headers,
-                ..
-            }) => {
-                self.delete_static_asset(asset, content_type.clone(), headers.clone(), encoding)?;
-            }
-            Some(NormalizedAssetConfig::File {
-                content_type,
-                headers,
-                fallback_for,
-                aliased_by,
-                ..
-            }) => {
-                self.delete_static_asset(
-                    asset.clone(),
-                    content_type.clone(),
-                    headers.clone(),
-                    encoding,
-                )?;
-
-                for fallback_for in fallback_for.iter() {
-                    self.delete_fallback_asset(
-                        asset.clone(),
-                        content_type.clone(),
-                        headers.clone(),
-                        fallback_for.clone(),
-                        encoding,
-                    )?;
-                }
-
-                for aliased_by in aliased_by.iter() {
-                    let mut aliased_asset = asset.clone();
-                    aliased_asset.url = Cow::Owned(aliased_by.clone());
+    ) {
+        self.remove_static_response(&asset.url, encoding);
 
-                    self.delete_static_asset(
-                        aliased_asset,
-                        content_type.clone(),
-                        headers.clone(),
-                        encoding,
-                    )?;
-                }
+        if let Some(NormalizedAssetConfig::File {
+            fallback_for,
+            aliased_by,
+            ..
+        }) = asset_config
+        {
+            for fallback_for in fallback_for.iter() {
+                self.remove_fallback_response(&fallback_for.scope, encoding);
             }
-            _ => {
-                self.delete_static_asset(asset, None, vec![], encoding)?;
+
+            for aliased_by in aliased_by.iter() {
+                self.remove_static_response(aliased_by, encoding);
             }
         }
-
-        Ok(())
     }
 
     fn insert_static_asset<'path>(
@@ -583,6 +549,8 @@ impl<'content> AssetRouter<'content> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
 
+        self.remove_static_response(&asset_url, encoding);
+
         if total_length > ASSET_CHUNK_SIZE {
             let mut range_begin = 0;
             while range_begin < asset.content.len() {
@@ -613,35 +581,30 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_static_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let asset_url = asset.url.to_string();
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+    /// Removes the response for the given URL and encoding, along with its chunks.
+    /// The certification of every removed response is removed from the tree too,
+    /// otherwise an outdated response could still be proven to be certified.
+    fn remove_static_response(&mut self, url: &str, encoding: Option<AssetEncoding>) {
+        let mut range_begin = None;
 
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
-
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
-            let mut range_begin: usize = 0;
-            while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
-                    &asset_url,
-                    encoding_str(encoding),
-                    Some(range_begin),
-                ));
-                range_begin += ASSET_CHUNK_SIZE;
-            }
+        while let Some(response) =
+            self.responses
+                .remove(&RequestKey::new(url, encoding_str(encoding), range_begin))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+            range_begin = Some(range_begin.map_or(0, |begin| begin + ASSET_CHUNK_SIZE));
         }
+    }
 
-        Ok(())
+    /// Removes the fallback response for the given scope and encoding, along with
+    /// its certification.
+    fn remove_fallback_response(&mut self, scope: &str, encoding: Option<AssetEncoding>) {
+        if let Some(response) =
+            self.fallback_responses
+                .remove(&RequestKey::new(scope, encoding_str(encoding), None))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+        }
     }
 
     fn prepare_static_asset<'path>(
@@ -687,6 +650,7 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        self.remove_fallback_response(&fallback_for.scope, encoding);
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.fallback_responses.insert(
             RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
@@ -695,31 +659,6 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_fallback_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        fallback_for: AssetFallbackConfig,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_fallback_asset(
-            asset,
-            additional_headers,
-            content_type,
-            fallback_for.clone(),
-            encoding,
-        )?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
-            &fallback_for.scope,
-            encoding_str(encoding),
-            None,
-        ));
-        Ok(())
-    }
-
     fn prepare_fallback_asset<'path>(
         asset: Asset<'content, 'path>,
         additional_headers: Vec<(String, String)>,
@@ -755,6 +694,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        self.remove_static_response(&from, None);
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
@@ -763,20 +703,6 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_redirect(
-        &mut self,
-        from: String,
-        to: String,
-        kind: AssetRedirectKind,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_redirect(from.clone(), to, kind)?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
-
-        Ok(())
-    }
-
     fn prepare_redirect(
         from: String,
         to: String,
-- 
2.43.0


From 4d221ae13307f419e3f2dfae58ee24f2aa988659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 15/29] fix: delete_all_assets must not delete certifications
 of other responses

The tree can be shared with the canister's own certifications (with_tree), which
were removed along with those of the assets.
---
 packages/ic-asset-certification/src/asset_router.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index a85c60d..2d8f210 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -380,9 +380,15 @@ impl<'content> AssetRouter<'content> {
     /// After performing this operation, one must set the canister's certified data (`ic_cdk::api::set_certified_data()`)
     /// to the new [root hash](AssetRouter::root_hash) of the tree.
     pub fn delete_all_assets(&mut self) {
-        self.responses.clear();
-        self.fallback_responses.clear();
-        self.tree.borrow_mut().clear();
+        let mut tree = self.tree.borrow_mut();
+
+        for (_, response) in self
+            .responses
+            .drain()
+            .chain(self.fallback_responses.drain())
+        {
+            tree.delete(&response.tree_entry);
+        }
     }
 
     /// Returns the root hash of the underlying
-- 
2.43.0


From 77e820193c934f5edc6b09903b40452a45a10a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 16/29] fix: certify chunks of large assets for the range
 requests that fetch them

The certification expression covers the range request header, but chunks were
certified for a request without one, so no response to a range request for any
chunk but the first could be verified.
---
 .../ic-asset-certification/src/asset_router.rs  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 2d8f210..0324e30 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -727,6 +727,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -759,6 +760,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -769,7 +771,16 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+
+            // the first chunk is served to requests without a range,
+            // every other chunk has to be requested with a range
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
@@ -778,6 +789,7 @@ impl<'content> AssetRouter<'content> {
             content,
             headers,
             request_headers,
+            certified_request_headers,
         )
     }
 
@@ -786,6 +798,7 @@ impl<'content> AssetRouter<'content> {
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
+        request_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
@@ -805,7 +818,7 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        let request = HttpRequest::get(url).with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 5f3ffc28da25283677e7d2f75020719f5c1019e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 17/29] fix: serve the fallback whose scope is equal to the
 requested path

Such a scope was not considered, so a less specific fallback was served, which
does not verify because a more specific one is certified, or none at all.
---
 packages/ic-asset-certification/src/asset_router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 0324e30..391ba61 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -425,6 +425,18 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // a scope that is equal to the path is the most specific one
+        if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
+            return Ok(response);
+        }
+
+        if let Some(response) = self
+            .fallback_responses
+            .get(&RequestKey::new(req_path, None, None))
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From f95c090d529bb836be36946cdf43d46cba180bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 18/29] fix: serve assets that are not split into chunks to
 range requests

A request with a range header for such an asset was answered with a fallback,
which does not verify because the path itself is certified, or not at all.
---
 .../src/asset_router.rs                       | 61 +++++++++----------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 391ba61..6e41ad9 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -409,20 +409,8 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
-        if let Some(response) =
-            self.responses
-                .get(&RequestKey::new(req_path, None, maybe_range_begin))
-        {
-            if response.response.body().len() > ASSET_CHUNK_SIZE {
-                if let Some(first_chunk_response) =
-                    self.responses
-                        .get(&RequestKey::new(req_path, None, Some(0)))
-                {
-                    return Ok(first_chunk_response);
-                }
-            } else {
-                return Ok(response);
-            }
+        if let Some(response) = self.get_static_asset(req_path, None, maybe_range_begin) {
+            return Ok(response);
         }
 
         // a scope that is equal to the path is the most specific one
@@ -843,6 +831,29 @@ impl<'content> AssetRouter<'content> {
         Ok((response, certification))
     }
 
+    /// Returns the chunk with the requested range, or the first one, if the asset
+    /// is split into chunks. Other assets are always served as a whole.
+    fn get_static_asset(
+        &self,
+        url: &str,
+        encoding: Option<String>,
+        maybe_range_begin: Option<usize>,
+    ) -> Option<&CertifiedAssetResponse<'content>> {
+        let response = self
+            .responses
+            .get(&RequestKey::new(url, encoding.clone(), None))?;
+
+        if response.response.body().len() > ASSET_CHUNK_SIZE {
+            return self.responses.get(&RequestKey::new(
+                url,
+                encoding,
+                Some(maybe_range_begin.unwrap_or(0)),
+            ));
+        }
+
+        Some(response)
+    }
+
     fn get_encoded_asset(
         &self,
         preferred_encodings: &[&str],
@@ -850,24 +861,10 @@ impl<'content> AssetRouter<'content> {
         maybe_range_begin: Option<usize>,
     ) -> Option<&CertifiedAssetResponse<'content>> {
         for encoding in preferred_encodings {
-            if let Some(response) = self.responses.get(&RequestKey::new(
-                url,
-                Some(encoding.to_string()),
-                maybe_range_begin,
-            )) {
-                if response.response.body().len() > ASSET_CHUNK_SIZE {
-                    if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
-                        url,
-                        Some(encoding.to_string()),
-                        Some(0),
-                    )) {
-                        return Some(first_chunk_response);
-                    } else {
-                        return None;
-                    }
-                } else {
-                    return Some(response);
-                }
+            if let Some(response) =
+                self.get_static_asset(url, Some(encoding.to_string()), maybe_range_begin)
+            {
+                return Some(response);
             }
         }
 
-- 
2.43.0


From b5c2fd41f4176e684d7b80a3d16faca7339101ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 19/29] fix: certify assets whose name is not a valid URL

Names with '?' or '//' made the request hash cover a query or an authority, or
could not be certified at all, although the path is no part of that hash.
---
 packages/ic-asset-certification/src/asset_router.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 6e41ad9..584c170 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -722,7 +722,6 @@ impl<'content> AssetRouter<'content> {
         let headers = vec![("location".to_string(), to)];
 
         let (response, certification) = Self::prepare_response_and_certification(
-            from.clone(),
             status_code,
             Cow::Owned(vec![]),
             headers,
@@ -784,7 +783,6 @@ impl<'content> AssetRouter<'content> {
         };
 
         Self::prepare_response_and_certification(
-            asset.url.to_string(),
             status_code,
             content,
             headers,
@@ -794,7 +792,6 @@ impl<'content> AssetRouter<'content> {
     }
 
     fn prepare_response_and_certification(
-        url: String,
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
@@ -818,7 +815,9 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).with_headers(request_headers).build();
+        // the path is certified by its place in the tree and not by the request hash,
+        // so that assets are not restricted to names that are valid in a URL
+        let request = HttpRequest::get("/").with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 4e5690b65a6f05658448b9ca10152e0944160fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 20/29] fix: do not serve encodings that the client does not
 accept

Encodings with a quality of zero in the accept-encoding header are explicitly
not acceptable, but were treated like any other.
---
 .../src/asset_router.rs                       | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 584c170..128cd44 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -914,12 +914,14 @@ impl<'content> AssetRouter<'content> {
         let mut encodings = encodings
             .split(',')
             .filter_map(|encoding| {
-                encoding
-                    .split(';')
-                    .collect::<Vec<_>>()
-                    .first()
-                    .map(|s| s.trim())
-                    .map(|s| (s, Self::default_encoding_quality(s)))
+                let mut parts = encoding.split(';').map(|s| s.trim());
+                let encoding = parts.next()?;
+
+                if parts.any(Self::is_zero_quality) {
+                    return None;
+                }
+
+                Some((encoding, Self::default_encoding_quality(encoding)))
             })
             .collect::<Vec<_>>();
 
@@ -930,6 +932,13 @@ impl<'content> AssetRouter<'content> {
         encodings
     }
 
+    /// Encodings with a quality of zero are not acceptable for the client.
+    fn is_zero_quality(parameter: &str) -> bool {
+        parameter.split_once('=').is_some_and(|(name, value)| {
+            name.trim().eq_ignore_ascii_case("q") && value.trim().parse() == Ok(0.0f32)
+        })
+    }
+
     fn default_encoding_quality(encoding: &str) -> f32 {
         if encoding.eq_ignore_ascii_case("br") {
             return 1.0;
-- 
2.43.0


From d30b751e40c7006588cce47d431834bf55e3209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 21/29] fix: match content codings in the accept-encoding
 header case-insensitively

Their priority was determined case-insensitively, but the lookup of the encoded
asset was case-sensitive.
---
 packages/ic-asset-certification/src/asset_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 128cd44..b61a8dc 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -861,7 +861,7 @@ impl<'content> AssetRouter<'content> {
     ) -> Option<&CertifiedAssetResponse<'content>> {
         for encoding in preferred_encodings {
             if let Some(response) =
-                self.get_static_asset(url, Some(encoding.to_string()), maybe_range_begin)
+                self.get_static_asset(url, Some(encoding.to_ascii_lowercase()), maybe_range_begin)
             {
                 return Some(response);
             }
@@ -878,7 +878,7 @@ impl<'content> AssetRouter<'content> {
         for encoding in preferred_encodings {
             if let Some(response) = self.fallback_responses.get(&RequestKey::new(
                 scope,
-                Some(encoding.to_string()),
+                Some(encoding.to_ascii_lowercase()),
                 None,
             )) {
                 return Some(response);
-- 
2.43.0


From 8b59893ce9875650ec0137c54303d7e96874f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 22/29] fix: do not collect every more specific wildcard path
 of a request

The size of the list is quadratic in the number of segments of the request's path, so a request with a long path made
verification and witness generation use gigabytes of memory.
---
 .../src/tree/certification_tree.rs            | 31 +++++++++----
 .../src/utils/wildcard_paths.rs               | 31 ++++++++++++-
 .../src/validation/v2_validation.rs           | 46 +++++++++++--------
 3 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index 80a20d7..1cbcb2c 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -4,12 +4,17 @@ use super::{
 };
 use crate::{
     tree::HttpCertificationPathType,
-    utils::{more_specific_wildcards_for, PATH_PREFIX_BYTES},
+    utils::{try_for_each_more_specific_wildcard, PATH_PREFIX_BYTES},
     HttpCertificationError, HttpCertificationPath, HttpCertificationResult,
 };
-use ic_certification::{labeled, labeled_hash, merge_hash_trees, AsHashTree, HashTree, NestedTree};
+use ic_certification::{
+    empty, labeled, labeled_hash, merge_hash_trees, AsHashTree, HashTree, NestedTree,
+};
 use ic_representation_independent_hash::Sha256Digest;
-use std::fmt::{Debug, Formatter};
+use std::{
+    fmt::{Debug, Formatter},
+    mem,
+};
 
 type CertificationTree = NestedTree<CertificationTreePathSegment, Vec<u8>>;
 
@@ -92,10 +97,10 @@ impl HttpCertificationTree {
 
                 // For wildcards we start by witnessing the path that was requested so the verifier can be sure
                 // that there is no exact match in the tree.
-                let witness = self.tree.witness(&requested_tree_path);
+                let mut witness = self.tree.witness(&requested_tree_path);
 
                 // Then we witness the wildcard path that we will be responding with.
-                let witness = merge_hash_trees(witness, self.tree.witness(&responding_tree_path));
+                witness = merge_hash_trees(witness, self.tree.witness(&responding_tree_path));
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
@@ -105,11 +110,17 @@ impl HttpCertificationTree {
                     |path: Vec<Vec<u8>>| [vec![PATH_PREFIX_BYTES.to_vec()], path].concat();
                 let requested_tree_path = with_prefix(requested_tree_path);
                 let responding_tree_path = with_prefix(responding_tree_path);
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                try_for_each_more_specific_wildcard(
+                    &requested_tree_path,
+                    &responding_tree_path,
+                    |path| {
+                        let previous_witness = mem::replace(&mut witness, empty());
+                        witness = merge_hash_trees(previous_witness, self.tree.witness(path));
+                        Ok::<_, HttpCertificationError>(())
+                    },
+                )?;
+
+                witness
             }
         };
 
diff --git a/packages/ic-http-certification/src/utils/wildcard_paths.rs b/packages/ic-http-certification/src/utils/wildcard_paths.rs
index 050d9dd..cbb74cb 100644
--- a/packages/ic-http-certification/src/utils/wildcard_paths.rs
+++ b/packages/ic-http-certification/src/utils/wildcard_paths.rs
@@ -1,3 +1,5 @@
+use std::convert::Infallible;
+
 /// The prefix for all paths in an HTTP certification tree.
 pub const PATH_PREFIX: &str = "http_expr";
 
@@ -85,6 +87,31 @@ pub fn more_specific_wildcards_for(
 ) -> Vec<Vec<Vec<u8>>> {
     let mut valid_wildcards: Vec<Vec<Vec<u8>>> = vec![];
 
+    let result: Result<(), Infallible> = try_for_each_more_specific_wildcard(
+        requested_path,
+        responding_wildcard_path,
+        |wildcard_path| {
+            valid_wildcards.push(wildcard_path.to_vec());
+            Ok(())
+        },
+    );
+
+    match result {
+        Ok(()) => valid_wildcards,
+        Err(never) => match never {},
+    }
+}
+
+/// Calls a function for each of the wildcard paths that
+/// [more_specific_wildcards_for] returns, in the same order, until it fails.
+///
+/// The size of all of those paths together is quadratic in the number of segments of
+/// the requested path, so a list of them should not be built for an untrusted request.
+pub fn try_for_each_more_specific_wildcard<E>(
+    requested_path: &[Vec<u8>],
+    responding_wildcard_path: &[Vec<u8>],
+    mut f: impl FnMut(&[Vec<u8>]) -> Result<(), E>,
+) -> Result<(), E> {
     let mut potential_path = requested_path.to_vec();
     strip_path_affixes(&mut potential_path);
 
@@ -101,7 +128,7 @@ pub fn more_specific_wildcards_for(
         || potential_path.last() != responding_wildcard_path.last()
     {
         potential_path.push(WILDCARD_PATH_TERMINATOR_BYTES.to_vec());
-        valid_wildcards.push(potential_path.clone());
+        f(&potential_path)?;
         potential_path.pop(); // remove the wildcard terminator
 
         // if we didn't have a trailing slash in this round,
@@ -114,7 +141,7 @@ pub fn more_specific_wildcards_for(
         }
     }
 
-    valid_wildcards
+    Ok(())
 }
 
 #[cfg(test)]
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c40287a..e5d3928 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -3,10 +3,11 @@ use ic_certification::hash_tree::HashTreeNode;
 use ic_certification::{hash_tree::Hash, HashTree, Label, SubtreeLookupResult};
 use ic_http_certification::cel::DefaultCelExpression;
 use ic_http_certification::utils::{
-    is_wildcard_path_valid_for_request_path, more_specific_wildcards_for,
+    is_wildcard_path_valid_for_request_path, try_for_each_more_specific_wildcard,
     EXACT_PATH_TERMINATOR_BYTES, PATH_PREFIX_BYTES,
 };
 use ic_http_certification::CelExpression;
+use std::iter;
 
 fn path_from_parts<T>(parts: &[T]) -> Vec<Vec<u8>>
 where
@@ -15,7 +16,10 @@ where
     parts.iter().map(|p| p.as_ref().to_vec()).collect()
 }
 
-fn path_might_exist_in_tree(path: &[Vec<u8>], tree: &HashTree) -> bool {
+fn path_might_exist_in_tree<'a>(
+    path: impl IntoIterator<Item = &'a (impl AsRef<[u8]> + ?Sized + 'a)>,
+    tree: &HashTree,
+) -> bool {
     !matches!(tree.lookup_subtree(path), SubtreeLookupResult::Absent)
 }
 
@@ -119,24 +123,28 @@ pub fn validate_expr_path(
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
     //
     // the terminator is still needed here, so that a last path segment that looks the same is not mistaken for it
-    for wildcard_path in
-        more_specific_wildcards_for(&terminated_request_url_path, &original_path).iter_mut()
-    {
-        wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
+    try_for_each_more_specific_wildcard(
+        &terminated_request_url_path,
+        &original_path,
+        |wildcard_path| {
+            let wildcard_path =
+                || iter::once(PATH_PREFIX_BYTES).chain(wildcard_path.iter().map(Vec::as_slice));
+
+            if path_might_exist_in_tree(wildcard_path(), tree) {
+                return Err(
+                    ResponseVerificationError::MoreSpecificWildcardExpressionMightExistInTree {
+                        provided_expr_path: expr_path.to_vec(),
+                        more_specific_expr_path: wildcard_path()
+                            .map(|e| String::from_utf8_lossy(e).to_string())
+                            .collect(),
+                        request_path: request_path.to_string(),
+                    },
+                );
+            }
 
-        if path_might_exist_in_tree(wildcard_path, tree) {
-            return Err(
-                ResponseVerificationError::MoreSpecificWildcardExpressionMightExistInTree {
-                    provided_expr_path: expr_path.to_vec(),
-                    more_specific_expr_path: wildcard_path
-                        .iter()
-                        .map(|e| String::from_utf8_lossy(e).to_string())
-                        .collect(),
-                    request_path: request_path.to_string(),
-                },
-            );
-        }
-    }
+            Ok(())
+        },
+    )?;
 
     // if we haven't found a more specific path in the tree,
     // then the provided path is valid if it exists in the tree
-- 
2.43.0


From 6c5752ea9929afae2781d5e9df64c3ed64858df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 23/29] fix: look for an asset in time linear in the size of
 the request

The search was quadratic in the length of the path, and multiplied by the number of encodings listed by the client even
if no asset can have them, so that a single request could keep serve_asset busy for minutes.
---
 .../src/asset_router.rs                       | 74 +++++++++----------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index b61a8dc..4181691 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -425,39 +425,35 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
-        let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
-        url_scopes.pop();
-
-        while !url_scopes.is_empty() {
-            let mut scope = url_scopes.join("/");
-            scope.push('/');
-
-            if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
-                return Ok(response);
-            }
-
-            if let Some(response) = self
-                .fallback_responses
-                .get(&RequestKey::new(&scope, None, None))
-            {
-                return Ok(response);
-            }
-
-            scope.pop();
+        // scopes that are longer than any scope there is are skipped,
+        // so that looking for a fallback is not quadratic in the length of the path
+        let max_scope_len = self
+            .fallback_responses
+            .keys()
+            .map(|key| key.path.len())
+            .max()
+            .unwrap_or_default();
+
+        for (separator, _) in req_path.rmatch_indices('/') {
+            for scope in [&req_path[..=separator], &req_path[..separator]] {
+                if scope.len() > max_scope_len {
+                    continue;
+                }
 
-            if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
-                return Ok(response);
-            }
+                if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, scope)
+                {
+                    return Ok(response);
+                }
 
-            if let Some(response) = self
-                .fallback_responses
-                .get(&RequestKey::new(&scope, None, None))
-            {
-                return Ok(response);
+                if let Some(response) = self
+                    .fallback_responses
+                    .get(&RequestKey::new(scope, None, None))
+                {
+                    return Ok(response);
+                }
             }
-
-            url_scopes.pop();
         }
+
         Err(AssetCertificationError::NoAssetMatchingRequestUrl {
             request_url: req_path.to_string(),
         })
@@ -921,7 +917,7 @@ impl<'content> AssetRouter<'content> {
                     return None;
                 }
 
-                Some((encoding, Self::default_encoding_quality(encoding)))
+                Some((encoding, Self::default_encoding_quality(encoding)?))
             })
             .collect::<Vec<_>>();
 
@@ -929,6 +925,9 @@ impl<'content> AssetRouter<'content> {
         // `default_encoding_quality` are comparable (not NaN)
         encodings.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
 
+        // an encoding may be listed more than once, it is enough to look for it once
+        encodings.dedup_by(|(a, _), (b, _)| a.eq_ignore_ascii_case(b));
+
         encodings
     }
 
@@ -939,28 +938,29 @@ impl<'content> AssetRouter<'content> {
         })
     }
 
-    fn default_encoding_quality(encoding: &str) -> f32 {
+    /// Returns nothing for encodings that an asset cannot have.
+    fn default_encoding_quality(encoding: &str) -> Option<f32> {
         if encoding.eq_ignore_ascii_case("br") {
-            return 1.0;
+            return Some(1.0);
         }
 
         if encoding.eq_ignore_ascii_case("zstd") {
-            return 0.9;
+            return Some(0.9);
         }
 
         if encoding.eq_ignore_ascii_case("gzip") {
-            return 0.8;
+            return Some(0.8);
         }
 
         if encoding.eq_ignore_ascii_case("deflate") {
-            return 0.7;
+            return Some(0.7);
         }
 
         if encoding.eq_ignore_ascii_case("identity") {
-            return 0.5;
+            return Some(0.5);
         }
 
-        0.6
+        None
     }
 }
 
-- 
2.43.0


From 749a651d9a3421f5747e8c7e6d5609932174adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 24/29] fix: reject responses with an invalid status code
 instead of trapping in the wasm binding

The status code comes from the canister; one that is not a valid HTTP status code ended in a RuntimeError
('unreachable') instead of an error with a code and a message.
---
 .../ic-response-verification-wasm/src/lib.rs  |  8 +++++---
 .../src/response.rs                           | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/ic-response-verification-wasm/src/lib.rs b/packages/ic-response-verification-wasm/src/lib.rs
index 6c19790..ed0d24d 100644
--- a/packages/ic-response-verification-wasm/src/lib.rs
+++ b/packages/ic-response-verification-wasm/src/lib.rs
@@ -1,10 +1,11 @@
 #![deny(clippy::all)]
 
 use crate::request::request_from_js;
-use crate::response::response_from_js;
+use crate::response::try_response_from_js;
 use ic_response_verification::{
     types::VerificationInfo, verify_request_response_pair as verify_request_response_pair_impl,
-    ResponseVerificationJsError, MAX_VERIFICATION_VERSION, MIN_VERIFICATION_VERSION,
+    ResponseVerificationError, ResponseVerificationJsError, MAX_VERIFICATION_VERSION,
+    MIN_VERIFICATION_VERSION,
 };
 use wasm_bindgen::{prelude::*, JsCast};
 
@@ -53,7 +54,8 @@ pub fn verify_request_response_pair(
     min_requested_verification_version: u8,
 ) -> Result<JsVerificationInfo, ic_response_verification::ResponseVerificationJsError> {
     let request = request_from_js(JsValue::from(request));
-    let response = response_from_js(JsValue::from(response));
+    let response =
+        try_response_from_js(JsValue::from(response)).map_err(ResponseVerificationError::from)?;
 
     verify_request_response_pair_impl(
         request.into(),
diff --git a/packages/ic-response-verification-wasm/src/response.rs b/packages/ic-response-verification-wasm/src/response.rs
index 172c78e..9610f1c 100644
--- a/packages/ic-response-verification-wasm/src/response.rs
+++ b/packages/ic-response-verification-wasm/src/response.rs
@@ -1,4 +1,4 @@
-use ic_http_certification::HttpResponse;
+use ic_http_certification::{HttpCertificationError, HttpCertificationResult, HttpResponse};
 use wasm_bindgen::{prelude::*, JsCast};
 
 #[wasm_bindgen(typescript_custom_section)]
@@ -10,7 +10,7 @@ interface Response {
 }
 "#;
 
-pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+pub fn try_response_from_js(resp: JsValue) -> HttpCertificationResult<HttpResponse<'static>> {
     use js_sys::{Array, JsString, Number, Object, Uint8Array};
 
     let status_code_str = JsString::from("status_code");
@@ -47,11 +47,20 @@ pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
         }
     }
 
-    HttpResponse::builder()
-        .with_status_code(status_code.try_into().unwrap())
+    let status_code = status_code
+        .try_into()
+        .map_err(|_| HttpCertificationError::InvalidHttpStatusCode { status_code })?;
+
+    Ok(HttpResponse::builder()
+        .with_status_code(status_code)
         .with_headers(headers)
         .with_body(body)
-        .build()
+        .build())
+}
+
+#[cfg(test)]
+fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+    try_response_from_js(resp).unwrap()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 305a264539bb957a6d8d176be001fd458f664232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 25/29] fix: do not reserve memory for the stated length of a
 CBOR array

---
 packages/ic-cbor/src/cbor_parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 4233b69..965a56d 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -4,7 +4,7 @@ use nom::{
     bytes::complete::take,
     combinator::{eof, map, peek},
     error::{Error, ErrorKind},
-    multi::{count, fold_many_m_n},
+    multi::fold_many_m_n,
     number::complete::{be_u16, be_u32, be_u64, be_u8},
     sequence::terminated,
     Err, IResult,
@@ -193,7 +193,17 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
+            // the stated length is untrusted, so no memory is reserved for it upfront
+            let (i, data) = fold_many_m_n(
+                data_len,
+                data_len,
+                |i| parser(i, depth + 1),
+                Vec::new,
+                |mut acc, val| {
+                    acc.push(val);
+                    acc
+                },
+            )(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
-- 
2.43.0


From 1620b20ce7a1ea697598feddd7c46c539d316f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 26/29] fix: refuse certificates whose delegation is not a map

---
 packages/ic-cbor/src/cbor_parse_certificate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parse_certificate.rs b/packages/ic-cbor/src/cbor_parse_certificate.rs
index 293a39c..187290b 100644
--- a/packages/ic-cbor/src/cbor_parse_certificate.rs
+++ b/packages/ic-cbor/src/cbor_parse_certificate.rs
@@ -36,7 +36,13 @@ fn parsed_cbor_to_certificate(parsed_cbor: CborValue) -> CborResult<Certificate>
         ));
     };
 
-    let delegation = if let Some(CborValue::Map(delegation_map)) = map.get("delegation") {
+    let delegation = if let Some(delegation_cbor) = map.get("delegation") {
+        let CborValue::Map(delegation_map) = delegation_cbor else {
+            return Err(CborError::MalformedCertificate(
+                "Expected Delegation to be a Map when parsing Certificate Cbor".into(),
+            ));
+        };
+
         let Some(CborValue::ByteString(subnet_id)) = delegation_map.get("subnet_id") else {
             return Err(CborError::MalformedCertificate(
                 "Expected Delegation Map to contain a Subnet ID when parsing Certificate Cbor"
-- 
2.43.0


From 973f1ce6982464941818747f0da75245b8c1fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 27/29] fix: refuse range headers with a repeated unit or a
 signed number

---
 packages/ic-asset-certification/src/asset_router.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 4181691..ef1e901 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -134,11 +134,13 @@ fn encoding_str(maybe_encoding: Option<AssetEncoding>) -> Option<String> {
 
 fn parse_range_header_str(range_str: &str) -> Result<RangeRequestValues, String> {
     // expected format: `bytes=<range-begin>-[<range-end>]`
-    let str_value = range_str.trim();
-    if !str_value.starts_with("bytes=") {
+    let Some(str_value) = range_str.trim().strip_prefix("bytes=") else {
+        return Err(format!("Invalid Range header '{}'", range_str).to_string());
+    };
+    // a leading plus sign is accepted when parsing integers, but it is not part of a range
+    if str_value.contains('+') {
         return Err(format!("Invalid Range header '{}'", range_str).to_string());
     }
-    let str_value = str_value.trim_start_matches("bytes=");
     let range_header_parts = str_value.split('-').collect::<Vec<_>>();
     if range_header_parts.is_empty() || range_header_parts.len() != 2 {
         return Err(format!("Invalid Range header '{}'", range_str).to_string());
-- 
2.43.0


From 0c8422ca1edf86b1705cf62e613ddd72f657ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:51 +0000
Subject: [PATCH 28/29] fix: refuse hash tree nodes with more elements than
 they have parts

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 0a1f2ce..feeedb5 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -19,6 +19,17 @@ impl HashTreeToCbor for HashTree {
 pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
     if let CborValue::Array(cbor_tags) = parsed_cbor {
         if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.first() {
+            let expected_len = match hash_tree_tag {
+                CborHashTree::Empty => 1,
+                CborHashTree::Leaf | CborHashTree::Pruned => 2,
+                CborHashTree::Labelled | CborHashTree::Fork => 3,
+            };
+            if cbor_tags.len() > expected_len {
+                return Err(CborError::MalformedHashTree(String::from(
+                    "Unexpected additional elements for node",
+                )));
+            }
+
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
-- 
2.43.0


From 065c4046b3d3f4d92345dfc2b9b56eaf016d0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:51 +0000
Subject: [PATCH 29/29] fix: refuse canister ranges that are not pairs

---
 packages/ic-cbor/src/cbor_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 965a56d..aab0ef8 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -252,8 +252,8 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 return Err(CborError::MalformedCborCanisterRanges);
             };
 
-            let (first_principal, second_principal) = match (range.first(), range.get(1)) {
-                (Some(CborValue::ByteString(a)), Some(CborValue::ByteString(b))) => (a, b),
+            let (first_principal, second_principal) = match range.as_slice() {
+                [CborValue::ByteString(a), CborValue::ByteString(b)] => (a, b),
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-- 
2.43.0

