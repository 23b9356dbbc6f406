From 0f1fc236d99053d52e1d547c9d5e01525be6f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 01/21] fix: treat empty nodes as transparent when looking up a
 label in a fork

The interface specification drops empty nodes when it flattens forks. A fork with
an empty child reported Absent for labels that are present next to it, or that may
be hidden in a pruned sibling.
---
 packages/ic-certification/src/hash_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..c87a9a7 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -296,6 +296,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// The label is not part of this node's tree.
     Absent,
 
+    /// There are no nodes at all in this node's tree: only the siblings, if any, are relevant.
+    Empty,
+
     /// Same as absent, but some leaves were pruned and so it's impossible to know.
     Unknown,
 
@@ -441,18 +444,23 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             HashTreeNode::Fork(nodes) => {
                 let left_label = nodes.0.lookup_label(label);
                 match left_label {
+                    // Empty nodes vanish when the forks are flattened.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     // On greater or unknown, look on the right side of the fork.
                     LookupLabelResult::Greater => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
@@ -460,6 +468,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +500,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Greater | LLR::Less | LLR::Empty), _) => Absent,
         }
     }
 }
@@ -517,7 +526,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Greater | LLR::Less | LLR::Empty) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From c902a8ee924e9089d4b127b44d8197db454c0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 02/21] fix: reject CBOR maps with missing entries and do not
 allocate by their declared length

---
 packages/ic-cbor/src/cbor_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..86e59cc 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -177,10 +177,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From ffc4ce1b670eb9cdaff455f02435f8501e00123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 03/21] fix: reject CBOR integers and lengths that do not fit
 instead of decoding a different value

---
 packages/ic-cbor/src/cbor_parser.rs | 52 +++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 86e59cc..4e274d9 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -28,12 +28,13 @@ pub enum CborUnsignedInt {
 }
 
 impl CborUnsignedInt {
-    fn to_usize(self) -> usize {
+    /// Returns [None] if the value does not fit into a [usize].
+    fn to_usize(self) -> Option<usize> {
         match self {
-            CborUnsignedInt::UInt8(v) => v as usize,
-            CborUnsignedInt::UInt16(v) => v as usize,
-            CborUnsignedInt::UInt32(v) => v as usize,
-            CborUnsignedInt::UInt64(v) => v as usize,
+            CborUnsignedInt::UInt8(v) => Some(v as usize),
+            CborUnsignedInt::UInt16(v) => Some(v as usize),
+            CborUnsignedInt::UInt32(v) => usize::try_from(v).ok(),
+            CborUnsignedInt::UInt64(v) => usize::try_from(v).ok(),
         }
     }
 
@@ -42,12 +43,26 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
+    // A value in the upper half of its unsigned type needs the next larger signed type,
+    // and a value in the upper half of u64 can not be represented.
+    fn to_negative(self) -> Option<CborNegativeInt> {
         match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
+            CborUnsignedInt::UInt8(n) => Some(match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - i16::from(n)),
+            }),
+            CborUnsignedInt::UInt16(n) => Some(match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - i32::from(n)),
+            }),
+            CborUnsignedInt::UInt32(n) => Some(match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - i64::from(n)),
+            }),
+            CborUnsignedInt::UInt64(n) => match i64::try_from(n) {
+                Ok(n) => Some(CborNegativeInt::Int64(-1 - n)),
+                Err(_) => None,
+            },
         }
     }
 
@@ -137,6 +152,12 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
     Ok((i, (key, val)))
 }
 
+fn extract_cbor_len(i: &[u8], cbor_value: CborUnsignedInt) -> Result<usize, Err<Error<&[u8]>>> {
+    cbor_value
+        .to_usize()
+        .ok_or(Err::Error(Error::new(i, ErrorKind::TooLarge)))
+}
+
 fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
@@ -158,24 +179,27 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Some(value) => Ok((i, CborValue::Signed(value))),
+            None => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
-            let data_len = cbor_value.to_usize();
+            let data_len = extract_cbor_len(i, cbor_value)?;
             let (i, data) = take(data_len)(i)?;
 
             Ok((i, CborValue::ByteString(data.to_vec())))
         }
 
         4 => {
-            let data_len = cbor_value.to_usize();
+            let data_len = extract_cbor_len(i, cbor_value)?;
             let (i, data) = count(parser, data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
 
         5 => {
-            let data_len = cbor_value.to_usize();
+            let data_len = extract_cbor_len(i, cbor_value)?;
             let (i, data) = fold_many_m_n(
                 data_len,
                 data_len,
-- 
2.43.0


From 5e3a79012b0bb78f077babe66b4c1ad71595453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 04/21] fix: reject CBOR floats and simple values instead of
 reading the next item in their place

---
 packages/ic-cbor/src/cbor_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 4e274d9..8d46641 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -214,10 +214,11 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             Ok((i, CborValue::Map(data)))
         }
 
-        // ignore custom data tags and floats, we don't currently need them
+        // ignore custom data tags, we don't currently need them
         6 => parser(i),
-        7 => parser(i),
 
+        // floats and simple values are not supported, skipping them would
+        // put the item that follows them in their place
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
-- 
2.43.0


From e11a907b7b59437efa3fd253c057b19063fcbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 05/21] fix: limit the nesting depth of decoded CBOR so that
 decoding does not overflow the stack

---
 packages/ic-cbor/src/cbor_parser.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 8d46641..38ead40 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -11,6 +11,10 @@ use nom::{
 };
 use std::{collections::HashMap, fmt};
 
+/// The maximum number of arrays, maps and tags that may be nested in each other.
+/// Decoding recurses once per level, so the input must not decide how deep that goes.
+const MAX_NESTING_DEPTH: usize = 256;
+
 #[derive(Debug, Copy, Clone, Eq, PartialEq)]
 pub enum CborNegativeInt {
     Int8(i8),
@@ -136,8 +140,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -147,7 +151,7 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
@@ -158,7 +162,11 @@ fn extract_cbor_len(i: &[u8], cbor_value: CborUnsignedInt) -> Result<usize, Err<
         .ok_or(Err::Error(Error::new(i, ErrorKind::TooLarge)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -193,7 +201,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = extract_cbor_len(i, cbor_value)?;
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -203,7 +211,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 data_len,
                 data_len,
-                extract_key_val_pair,
+                |i| extract_key_val_pair(i, depth + 1),
                 HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
@@ -215,7 +223,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags, we don't currently need them
-        6 => parser(i),
+        6 => parser(i, depth + 1),
 
         // floats and simple values are not supported, skipping them would
         // put the item that follows them in their place
@@ -224,7 +232,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From 08ba729a59a557ce68e0a3a1f904bd0745c9858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 06/21] fix: reject hash tree nodes with surplus elements

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..d71e81a 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -21,6 +21,17 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
         cbor_tags.reverse();
 
         if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
+            let expected_parts = match hash_tree_tag {
+                CborHashTree::Empty => 0,
+                CborHashTree::Leaf | CborHashTree::Pruned => 1,
+                CborHashTree::Labelled | CborHashTree::Fork => 2,
+            };
+            if cbor_tags.len() > expected_parts {
+                return Err(CborError::MalformedHashTree(String::from(
+                    "Too many elements in Hash Tree node",
+                )));
+            }
+
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
-- 
2.43.0


From 6f33b32920bd09b7744490ba5e31ec1b8ec6dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 07/21] fix: reject malformed principal ranges instead of
 panicking or ignoring surplus entries

---
 packages/ic-cbor/src/cbor_parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 38ead40..4a8da2e 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -251,15 +251,18 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 return Err(CborError::MalformedCborCanisterRanges);
             };
 
-            let (first_principal, second_principal) = match (range.first(), range.get(1)) {
-                (Some(CborValue::ByteString(a)), Some(CborValue::ByteString(b))) => (a, b),
+            let (first_principal, second_principal) = match range.as_slice() {
+                [CborValue::ByteString(a), CborValue::ByteString(b)] => (a, b),
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-            Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
-            ))
+            match (
+                Principal::try_from_slice(first_principal),
+                Principal::try_from_slice(second_principal),
+            ) {
+                (Ok(first), Ok(second)) => Ok((first, second)),
+                _ => Err(CborError::MalformedCborCanisterRanges),
+            }
         })
         .collect::<Result<_, _>>()
 }
-- 
2.43.0


From 842d554f1d4b7a028d8c630db210c4e0a6a0206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 08/21] fix: reject a certificate whose delegation is not a map
 instead of dropping the delegation

---
 packages/ic-cbor/src/cbor_parse_certificate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parse_certificate.rs b/packages/ic-cbor/src/cbor_parse_certificate.rs
index 293a39c..187290b 100644
--- a/packages/ic-cbor/src/cbor_parse_certificate.rs
+++ b/packages/ic-cbor/src/cbor_parse_certificate.rs
@@ -36,7 +36,13 @@ fn parsed_cbor_to_certificate(parsed_cbor: CborValue) -> CborResult<Certificate>
         ));
     };
 
-    let delegation = if let Some(CborValue::Map(delegation_map)) = map.get("delegation") {
+    let delegation = if let Some(delegation_cbor) = map.get("delegation") {
+        let CborValue::Map(delegation_map) = delegation_cbor else {
+            return Err(CborError::MalformedCertificate(
+                "Expected Delegation to be a Map when parsing Certificate Cbor".into(),
+            ));
+        };
+
         let Some(CborValue::ByteString(subnet_id)) = delegation_map.get("subnet_id") else {
             return Err(CborError::MalformedCertificate(
                 "Expected Delegation Map to contain a Subnet ID when parsing Certificate Cbor"
-- 
2.43.0


From 9bac3ba2c6797f367224d86fa3314cb5215298e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 09/21] fix: do not overflow when computing the accepted
 certificate time window

---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From eb42d00f639c8ab0882cf2a420eaa42ec00bc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 10/21] fix: reject signatures and public keys of the wrong
 size instead of panicking

---
 .../src/signature_verification/mod.rs               | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..ac49082 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -10,11 +10,24 @@ mod reproducible_rng;
 #[cfg(test)]
 mod tests;
 
+const PUBLIC_KEY_LENGTH: usize = 96;
+const SIGNATURE_LENGTH: usize = 48;
+const COMPRESSED_POINT_FLAG: u8 = 0x80;
+
+/// The BLS library indexes into the encoded points without checking their length.
+fn is_compressed_point(point: &[u8], length: usize) -> bool {
+    point.len() == length && point[0] & COMPRESSED_POINT_FLAG != 0
+}
+
 pub fn verify_signature(
     pk: &[u8],
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    if !is_compressed_point(pk, PUBLIC_KEY_LENGTH) || !is_compressed_point(sig, SIGNATURE_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 99ab2e2877ca7dd02319ab5480c594035c5fd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 11/21] fix: serve the v1 index fallback only for paths proven
 absent

The lookup of the requested asset can also be unknown because the asset
was pruned from the tree. Falling back to /index.html in that case lets a
certified index page be served in place of any other certified asset.
---
 .../src/validation/v1_validation.rs                      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v1_validation.rs b/packages/ic-response-verification/src/validation/v1_validation.rs
index ab86c21..09f03c9 100644
--- a/packages/ic-response-verification/src/validation/v1_validation.rs
+++ b/packages/ic-response-verification/src/validation/v1_validation.rs
@@ -11,12 +11,19 @@ pub fn validate_body(tree: &HashTree, request_path: &str, body_sha: &Hash) -> bo
         // https://internetcomputer.org/docs/current/references/ic-interface-spec/#http-gateway-certification
         //
         // It may be possible to remove this with a combination of asset canister redirect rules and v2 response verification.
-        _ => match tree.lookup_path(&index_fallback_path) {
+        //
+        // The fallback only applies if the tree proves that there is no asset for the requested path, otherwise it could
+        // be served in place of an asset by pruning that asset from the tree.
+        LookupResult::Absent => match tree.lookup_path(&index_fallback_path) {
             LookupResult::Found(v) => v,
             _ => {
                 return false;
             }
         },
+
+        _ => {
+            return false;
+        }
     };
 
     body_sha == tree_sha
-- 
2.43.0


From dd4507f8af8df2284f89e0950134bd611cfccee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 12/21] fix: do not mistake request path segments for the
 tree's prefix or terminators

A request path that starts with http_expr or ends with <*> or <$> had that
segment stripped before the more specific wildcard paths were collected,
so the wrong paths were shown, or checked to be, absent.
---
 .../src/tree/certification_tree.rs            | 22 ++++++++++++++-----
 .../src/validation/v2_validation.rs           |  9 +++++---
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..6baf079 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -31,6 +31,13 @@ impl Default for HttpCertificationTree {
     }
 }
 
+fn with_path_prefix(path: &[CertificationTreePathSegment]) -> Vec<CertificationTreePathSegment> {
+    let mut prefixed_path = vec![PATH_PREFIX_BYTES.to_vec()];
+    prefixed_path.extend_from_slice(path);
+
+    prefixed_path
+}
+
 impl HttpCertificationTree {
     /// Creates a new empty [HttpCertificationTree] from a given [CertificationTree](ic_certification::NestedTree).
     /// The [default](HttpCertificationTree::default) implementation should be used in most cases.
@@ -99,11 +106,16 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // The paths carry the tree's prefix here, so that a segment of the path itself is never
+                // mistaken for it.
+                more_specific_wildcards_for(
+                    &with_path_prefix(&requested_tree_path),
+                    &with_path_prefix(&responding_tree_path),
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..967164b 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -100,12 +100,14 @@ pub fn validate_expr_path(
             },
         );
     }
-    request_url_path.pop(); // pop "<$>"
+
+    // the path without "<$>"
+    let request_url_segments = &request_url_path[..request_url_path.len() - 1];
 
     let mut potential_path = original_path.clone();
     potential_path.pop(); // pop "<*>"
 
-    if !is_wildcard_path_valid_for_request_path(&potential_path, &request_url_path) {
+    if !is_wildcard_path_valid_for_request_path(&potential_path, request_url_segments) {
         return Err(ResponseVerificationError::WildcardExpressionPathMismatch {
             provided_expr_path: potential_path
                 .iter()
@@ -115,7 +117,8 @@ pub fn validate_expr_path(
         });
     }
 
-    // recursively check for partial URL matches with wildcards that are more precise than the expr_path
+    // recursively check for partial URL matches with wildcards that are more precise than the expr_path,
+    // the request path keeps its terminator here so that a reserved segment in the URL is not mistaken for it
     for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
-- 
2.43.0


From 0df468766e0e1354f75bdba102f68a04a800fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 13/21] fix: reject input after the end of a CEL expression

Everything after the first complete expression was ignored, so text that
is not an expression was accepted as one.
---
 packages/ic-response-verification/src/cel/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..d4fb39e 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -166,6 +166,11 @@ pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-        Ok((_remaining, result)) => Ok(result),
+        Ok((remaining, _)) if !remaining.trim_start().is_empty() => {
+            Err(CelParserError::CelSyntaxException(format!(
+                "Unexpected input after the expression: {remaining}"
+            )))
+        }
+        Ok((_, result)) => Ok(result),
     }
 }
-- 
2.43.0


From 34702925b81019e231cae746ca7f5d8457a72a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 14/21] fix: accept every certified name in CEL strings

Only letters, digits and hyphens were accepted, so the expression produced
for e.g. a query parameter with an underscore could not be parsed. Other
characters were truncated to a byte before they were classified.
---
 packages/ic-response-verification/src/cel/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index d4fb39e..bf80e18 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -65,12 +65,10 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
-
     context(
         "parse_str",
         escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+            take_while(|e| e != '"' && e != '\\'),
             '\\',
             one_of("\"n\\"),
         ),
-- 
2.43.0


From 1346fdcbe4f419394a9d1605eb1b285c7bdccdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 15/21] fix: bound the nesting of CEL expressions

The parser recurses for every opened list, object or function, so a short
header of opening brackets overflowed the stack.
---
 .../src/cel/parser.rs                         | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index bf80e18..8e00520 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -159,7 +159,37 @@ fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+/// Deeper nesting than any supported expression has. The parser is recursive, so it has to be bounded.
+const MAX_NESTING_DEPTH: usize = 32;
+
+fn nesting_depth(i: &str) -> usize {
+    let (mut depth, mut max_depth) = (0usize, 0usize);
+    let (mut in_string, mut escaped) = (false, false);
+
+    for c in i.chars() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if in_string => escaped = true,
+            '"' => in_string = !in_string,
+            '(' | '[' | '{' if !in_string => {
+                depth += 1;
+                max_depth = max_depth.max(depth);
+            }
+            ')' | ']' | '}' if !in_string => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+    }
+
+    max_depth
+}
+
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
+    if nesting_depth(i) > MAX_NESTING_DEPTH {
+        return Err(CelParserError::CelSyntaxException(
+            "The expression is nested too deeply".to_string(),
+        ));
+    }
+
     let result = cel_value::<nom::error::Error<&str>>(i);
 
     match result {
-- 
2.43.0


From cf249cefa8ac2440209183eefdf28acd6a420a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 16/21] fix: remove the certification of deleted chunks

---
 packages/ic-asset-certification/src/asset_router.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..4ebf38d 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -632,11 +632,13 @@ impl<'content> AssetRouter<'content> {
             // Delete also chunks.
             let mut range_begin: usize = 0;
             while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
+                if let Some(chunk) = self.responses.remove(&RequestKey::new(
                     &asset_url,
                     encoding_str(encoding),
                     Some(range_begin),
-                ));
+                )) {
+                    self.tree.borrow_mut().delete(&chunk.tree_entry);
+                }
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
-- 
2.43.0


From 0a562858455543ec2ab23588064fcf17a78cd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 17/21] fix: remove the certification of responses that are
 replaced or deleted with other content

---
 .../src/asset_router.rs                       | 88 +++++++++++--------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 4ebf38d..4f93233 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -582,6 +582,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
+        let mut responses = vec![];
 
         if total_length > ASSET_CHUNK_SIZE {
             let mut range_begin = 0;
@@ -593,47 +594,39 @@ impl<'content> AssetRouter<'content> {
                     encoding,
                     Some(range_begin),
                 )?;
-                self.tree.borrow_mut().insert(&response.tree_entry);
-                self.responses.insert(
-                    RequestKey::new(&asset_url, encoding_str(encoding), Some(range_begin)),
-                    response,
-                );
+                responses.push((Some(range_begin), response));
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
 
         let response =
             Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
-
-        self.tree.borrow_mut().insert(&response.tree_entry);
-        self.responses.insert(
-            RequestKey::new(&asset_url, encoding_str(encoding), None),
-            response,
-        );
+        responses.push((None, response));
+
+        self.remove_static_responses(&asset_url, encoding);
+        for (range_begin, response) in responses {
+            self.tree.borrow_mut().insert(&response.tree_entry);
+            self.responses.insert(
+                RequestKey::new(&asset_url, encoding_str(encoding), range_begin),
+                response,
+            );
+        }
         Ok(())
     }
 
-    fn delete_static_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let asset_url = asset.url.to_string();
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
+    /// Removes the responses that are stored for the given URL and encoding, including all chunks,
+    /// together with their certification.
+    fn remove_static_responses(&mut self, url: &str, encoding: Option<AssetEncoding>) {
+        if let Some(response) =
+            self.responses
+                .remove(&RequestKey::new(url, encoding_str(encoding), None))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
 
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
             let mut range_begin: usize = 0;
             while range_begin < response.response.body().len() {
                 if let Some(chunk) = self.responses.remove(&RequestKey::new(
-                    &asset_url,
+                    url,
                     encoding_str(encoding),
                     Some(range_begin),
                 )) {
@@ -642,7 +635,30 @@ impl<'content> AssetRouter<'content> {
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
+    }
+
+    /// Removes the fallback response that is stored for the given scope and encoding,
+    /// together with its certification.
+    fn remove_fallback_response(&mut self, scope: &str, encoding: Option<AssetEncoding>) {
+        if let Some(response) =
+            self.fallback_responses
+                .remove(&RequestKey::new(scope, encoding_str(encoding), None))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+        }
+    }
+
+    fn delete_static_asset<'path>(
+        &mut self,
+        asset: Asset<'content, 'path>,
+        content_type: Option<String>,
+        additional_headers: Vec<(String, String)>,
+        encoding: Option<AssetEncoding>,
+    ) -> AssetCertificationResult<()> {
+        let asset_url = asset.url.to_string();
+        Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
 
+        self.remove_static_responses(&asset_url, encoding);
         Ok(())
     }
 
@@ -689,6 +705,7 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        self.remove_fallback_response(&fallback_for.scope, encoding);
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.fallback_responses.insert(
             RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
@@ -705,7 +722,7 @@ impl<'content> AssetRouter<'content> {
         fallback_for: AssetFallbackConfig,
         encoding: Option<AssetEncoding>,
     ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_fallback_asset(
+        Self::prepare_fallback_asset(
             asset,
             additional_headers,
             content_type,
@@ -713,12 +730,7 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
-            &fallback_for.scope,
-            encoding_str(encoding),
-            None,
-        ));
+        self.remove_fallback_response(&fallback_for.scope, encoding);
         Ok(())
     }
 
@@ -757,6 +769,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        self.remove_static_responses(&from, None);
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
@@ -771,10 +784,9 @@ impl<'content> AssetRouter<'content> {
         to: String,
         kind: AssetRedirectKind,
     ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_redirect(from.clone(), to, kind)?;
+        Self::prepare_redirect(from.clone(), to, kind)?;
 
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
+        self.remove_static_responses(&from, None);
 
         Ok(())
     }
-- 
2.43.0


From 20e2026b85ecda2f56121aca5738db9669b7a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 18/21] fix: certify chunks for the range that they answer

---
 .../ic-asset-certification/src/asset_router.rs    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 4f93233..032eecb 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -809,6 +809,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -842,6 +843,7 @@ impl<'content> AssetRouter<'content> {
         }
 
         let mut request_headers = vec![];
+        let mut certified_request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
             let range_end = cmp::min(range_begin + ASSET_CHUNK_SIZE, total_length) - 1;
@@ -851,7 +853,14 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            // The first chunk is also the response to a request without a range.
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
+            certified_request_headers.push(http::header::RANGE.to_string());
         };
 
         Self::prepare_response_and_certification(
@@ -860,6 +869,7 @@ impl<'content> AssetRouter<'content> {
             content,
             headers,
             request_headers,
+            certified_request_headers,
         )
     }
 
@@ -868,6 +878,7 @@ impl<'content> AssetRouter<'content> {
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
+        request_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
@@ -887,7 +898,7 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        let request = HttpRequest::get(url).with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 8702e27328df0dad1248c29ff4b83cab4fb920a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 19/21] fix: serve assets that are not split into chunks for
 range requests

---
 .../ic-asset-certification/src/asset_router.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 032eecb..892b10b 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -417,6 +417,8 @@ impl<'content> AssetRouter<'content> {
             } else {
                 return Ok(response);
             }
+        } else if let Some(response) = self.get_unchunked_asset(req_path, None) {
+            return Ok(response);
         }
 
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
@@ -936,12 +938,28 @@ impl<'content> AssetRouter<'content> {
                 } else {
                     return Some(response);
                 }
+            } else if let Some(response) =
+                self.get_unchunked_asset(url, Some(encoding.to_string()))
+            {
+                return Some(response);
             }
         }
 
         None
     }
 
+    /// Returns the response of an asset that is not split into chunks.
+    /// It is served in full, whatever range is requested.
+    fn get_unchunked_asset(
+        &self,
+        url: &str,
+        encoding: Option<String>,
+    ) -> Option<&CertifiedAssetResponse<'content>> {
+        self.responses
+            .get(&RequestKey::new(url, encoding, None))
+            .filter(|response| response.response.body().len() <= ASSET_CHUNK_SIZE)
+    }
+
     fn get_encoded_fallback_asset(
         &self,
         preferred_encodings: &[&str],
-- 
2.43.0


From 4a867123fa7653e7363306dc8462417d0bed38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 20/21] fix: serve the fallback whose scope is the requested
 path

---
 packages/ic-asset-certification/src/asset_router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 892b10b..18407cf 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -421,6 +421,18 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
+        // A fallback for the requested path itself takes precedence over those for its directories.
+        if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
+            return Ok(response);
+        }
+
+        if let Some(response) = self
+            .fallback_responses
+            .get(&RequestKey::new(req_path, None, None))
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From c559742d6933159abb5f46b5a44316804e1b8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 21/21] fix: do not serve a fallback where a closer response is
 certified

---
 .../src/asset_router.rs                       | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 18407cf..0926007 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -421,6 +421,16 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
+        // A fallback cannot be verified for a path that has responses of its own, or where a closer
+        // fallback is certified, even if none of these is in an encoding that the client prefers.
+        let no_asset_error = || AssetCertificationError::NoAssetMatchingRequestUrl {
+            request_url: req_path.to_string(),
+        };
+
+        if Self::has_responses(&self.responses, req_path) {
+            return Err(no_asset_error());
+        }
+
         // A fallback for the requested path itself takes precedence over those for its directories.
         if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
             return Ok(response);
@@ -433,6 +443,10 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
+        if Self::has_responses(&self.fallback_responses, req_path) {
+            return Err(no_asset_error());
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
@@ -451,6 +465,10 @@ impl<'content> AssetRouter<'content> {
                 return Ok(response);
             }
 
+            if Self::has_responses(&self.fallback_responses, &scope) {
+                return Err(no_asset_error());
+            }
+
             scope.pop();
 
             if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, &scope) {
@@ -464,11 +482,13 @@ impl<'content> AssetRouter<'content> {
                 return Ok(response);
             }
 
+            if Self::has_responses(&self.fallback_responses, &scope) {
+                return Err(no_asset_error());
+            }
+
             url_scopes.pop();
         }
-        Err(AssetCertificationError::NoAssetMatchingRequestUrl {
-            request_url: req_path.to_string(),
-        })
+        Err(no_asset_error())
     }
 
     fn certify_asset_impl<'path>(
@@ -960,6 +980,25 @@ impl<'content> AssetRouter<'content> {
         None
     }
 
+    /// Returns `true` if there are responses for the given path in any encoding.
+    fn has_responses(
+        responses: &HashMap<RequestKey, CertifiedAssetResponse<'content>>,
+        path: &str,
+    ) -> bool {
+        let encodings = [
+            None,
+            Some(AssetEncoding::Identity),
+            Some(AssetEncoding::Brotli),
+            Some(AssetEncoding::Zstd),
+            Some(AssetEncoding::Gzip),
+            Some(AssetEncoding::Deflate),
+        ];
+
+        encodings.into_iter().any(|encoding| {
+            responses.contains_key(&RequestKey::new(path, encoding_str(encoding), None))
+        })
+    }
+
     /// Returns the response of an asset that is not split into chunks.
     /// It is served in full, whatever range is requested.
     fn get_unchunked_asset(
-- 
2.43.0

