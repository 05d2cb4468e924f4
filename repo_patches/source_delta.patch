From a34b12c46d2463c95a837da3e461ecb8eb550779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 01/25] fix: empty subtrees in a fork do not decide hash tree
 lookups

An empty node is neutral in a fork: the specification flattens it to nothing.
Looking up a label in fork(empty, labeled a) or fork(pruned, empty) answered
Absent without looking at the other side, so a present label was reported
absent and a hidden one proven absent.
---
 packages/ic-certification/src/hash_tree/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..f0e2380 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -299,6 +299,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// Same as absent, but some leaves were pruned and so it's impossible to know.
     Unknown,
 
+    /// There is no label at all in this node's tree. In a fork, the other side decides.
+    Empty,
+
     /// The label was not found, but could still be to the left.
     Less,
 
@@ -441,25 +444,30 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             HashTreeNode::Fork(nodes) => {
                 let left_label = nodes.0.lookup_label(label);
                 match left_label {
-                    // On greater or unknown, look on the right side of the fork.
+                    // On greater, unknown or empty, look on the right side of the fork.
                     LookupLabelResult::Greater => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     result => result,
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +499,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less), _) => Absent,
         }
     }
 }
@@ -517,7 +525,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From 7cfcdd0193178943515ccaf1276616c72dcb447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 02/25] fix: do not reserve memory for the number of map
 entries a CBOR header claims

A 5 byte input could make the decoder abort with an allocation of gigabytes.
---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..2212000 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -180,7 +180,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
                 0,
                 data_len,
                 extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From 56cdf9e61e1fb5ae43f28a27c524b61595a9e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 03/25] fix: reject CBOR maps with fewer entries than their
 header states

---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 2212000..86e59cc 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -177,7 +177,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 extract_key_val_pair,
                 HashMap::new,
-- 
2.43.0


From 2baa054df1df0895a3a259115ded21c1735e0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 04/25] fix: do not truncate 64 bit CBOR lengths on 32 bit
 targets

---
 packages/ic-cbor/src/cbor_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 86e59cc..b331718 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -33,7 +33,8 @@ impl CborUnsignedInt {
             CborUnsignedInt::UInt8(v) => v as usize,
             CborUnsignedInt::UInt16(v) => v as usize,
             CborUnsignedInt::UInt32(v) => v as usize,
-            CborUnsignedInt::UInt64(v) => v as usize,
+            // a length that does not fit is longer than any input
+            CborUnsignedInt::UInt64(v) => usize::try_from(v).unwrap_or(usize::MAX),
         }
     }
 
-- 
2.43.0


From 94ed808519b51057beb1bb73947c99229d042b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 05/25] fix: decode negative CBOR integers beyond the signed
 range of their width

-1 - (n as i8) and the like gave positive numbers for such n.
---
 packages/ic-cbor/src/cbor_parser.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index b331718..f3f9fb0 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -43,13 +43,23 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    // Values that do not fit the signed integer of the same width get the next wider one
+    fn to_negative(self) -> Option<CborNegativeInt> {
+        Some(match self {
+            CborUnsignedInt::UInt8(n) => match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - i16::from(n)),
+            },
+            CborUnsignedInt::UInt16(n) => match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - i32::from(n)),
+            },
+            CborUnsignedInt::UInt32(n) => match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - i64::from(n)),
+            },
+            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - i64::try_from(n).ok()?),
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -159,7 +169,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Some(n) => Ok((i, CborValue::Signed(n))),
+            None => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0


From 99997227dbbd02c7882fda6c31b774aca39bd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 06/25] fix: report an error for principals of invalid length
 in canister ranges

Principal::from_slice panics for more than 29 bytes.
---
 packages/ic-cbor/src/cbor_parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index f3f9fb0..49addff 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -237,9 +237,14 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
+            let to_principal = |bytes: &[u8]| {
+                Principal::try_from_slice(bytes)
+                    .map_err(|_| CborError::MalformedCborCanisterRanges)
+            };
+
             Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
+                to_principal(first_principal)?,
+                to_principal(second_principal)?,
             ))
         })
         .collect::<Result<_, _>>()
-- 
2.43.0


From ecc1b606f22e2c1b9d45aac6cc0f97cd48ffc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 07/25] fix: bound the nesting depth of decoded CBOR

Deeply nested untrusted input overflowed the stack and aborted the process.
---
 packages/ic-cbor/src/cbor_parser.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 49addff..c088dcc 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -132,8 +132,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -143,12 +143,20 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+/// How deep data items can be nested in each other. Parsing, converting and dropping the parsed
+/// items is recursive, so this keeps untrusted input from overflowing the stack.
+const MAX_DEPTH: usize = 400;
+
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth == MAX_DEPTH {
+        return Err(Err::Error(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -183,7 +191,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -193,7 +201,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 data_len,
                 data_len,
-                extract_key_val_pair,
+                |i| extract_key_val_pair(i, depth + 1),
                 HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
@@ -205,15 +213,15 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, depth + 1),
+        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From 8a8c1e7e42a520592660655e55ae038707c19054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 08/25] fix: reject hash tree nodes with additional elements

The array of a node has exactly the elements its kind calls for; longer arrays denote no tree.
---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..61e9929 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -21,7 +21,7 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
         cbor_tags.reverse();
 
         if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
-            match hash_tree_tag {
+            let tree = match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
                 CborHashTree::Leaf => {
@@ -74,7 +74,15 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                         )))
                     }
                 }
+            }?;
+
+            if !cbor_tags.is_empty() {
+                return Err(CborError::MalformedHashTree(String::from(
+                    "Unexpected additional elements in Hash Tree node",
+                )));
             }
+
+            Ok(tree)
         } else {
             Err(CborError::MalformedHashTree(String::from(
                 "Expected Hash Tree cbor tag",
-- 
2.43.0


From 2e377ab75f6be01c9a4cdba836a3664788c629e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 09/25] fix: reject canister ranges that are not pairs

---
 packages/ic-cbor/src/cbor_parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index c088dcc..6fda47b 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -240,14 +240,13 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 return Err(CborError::MalformedCborCanisterRanges);
             };
 
-            let (first_principal, second_principal) = match (range.first(), range.get(1)) {
-                (Some(CborValue::ByteString(a)), Some(CborValue::ByteString(b))) => (a, b),
+            let (first_principal, second_principal) = match range.as_slice() {
+                [CborValue::ByteString(a), CborValue::ByteString(b)] => (a, b),
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
             let to_principal = |bytes: &[u8]| {
-                Principal::try_from_slice(bytes)
-                    .map_err(|_| CborError::MalformedCborCanisterRanges)
+                Principal::try_from_slice(bytes).map_err(|_| CborError::MalformedCborCanisterRanges)
             };
 
             Ok((
-- 
2.43.0


From 9f2febc48b082dbe8e3f5b96cebe3082a4059254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 10/25] fix: a time window that begins before 0 or ends beyond
 the range does not overflow

---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From 69e18c4237f141fee5d3527f5d123c04b7b1700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 11/25] fix: prove the absence of more specific wildcards for
 URLs that begin with http_expr

---
 .../src/tree/certification_tree.rs            | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..cc232a6 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -99,11 +99,16 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // The paths are given with the prefix, otherwise a leading `http_expr` segment of the
+                // request URL would be taken for it.
+                more_specific_wildcards_for(
+                    &prefixed(requested_tree_path),
+                    &prefixed(responding_tree_path),
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
@@ -111,6 +116,11 @@ impl HttpCertificationTree {
     }
 }
 
+fn prefixed(mut path: Vec<CertificationTreePathSegment>) -> Vec<CertificationTreePathSegment> {
+    path.insert(0, PATH_PREFIX_BYTES.to_vec());
+    path
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b50f7b2893b31cf8b8587732f0e66b1fe31542d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 12/25] fix: do not strip a last URL segment that looks like a
 path terminator

---
 .../ic-response-verification/src/validation/v2_validation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..879b6f5 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -100,12 +100,13 @@ pub fn validate_expr_path(
             },
         );
     }
-    request_url_path.pop(); // pop "<$>"
 
     let mut potential_path = original_path.clone();
     potential_path.pop(); // pop "<*>"
 
-    if !is_wildcard_path_valid_for_request_path(&potential_path, &request_url_path) {
+    // the last segment of the request path is "<$>", which is not part of the URL
+    let request_url_segments = &request_url_path[..request_url_path.len() - 1];
+    if !is_wildcard_path_valid_for_request_path(&potential_path, request_url_segments) {
         return Err(ResponseVerificationError::WildcardExpressionPathMismatch {
             provided_expr_path: potential_path
                 .iter()
-- 
2.43.0


From c768731f09dd3704f2a4e68fb00a4d524263113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 13/25] fix: the wildcard path of a directory does not cover a
 file of the same name

---
 packages/ic-http-certification/src/utils/wildcard_paths.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/ic-http-certification/src/utils/wildcard_paths.rs b/packages/ic-http-certification/src/utils/wildcard_paths.rs
index 050d9dd..85f62fb 100644
--- a/packages/ic-http-certification/src/utils/wildcard_paths.rs
+++ b/packages/ic-http-certification/src/utils/wildcard_paths.rs
@@ -33,8 +33,11 @@ pub fn is_wildcard_path_valid_for_request_path(
     }
 
     // if the wildcard path includes a trailing slash then remove it and try the same check again
-    // request paths will not include trailing slashes between path elements
-    if wildcard_path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()]) {
+    // request paths will not include trailing slashes between path elements,
+    // but the wildcard path of a directory does not cover a file of the same name
+    if wildcard_path.len() <= request_path.len()
+        && wildcard_path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()])
+    {
         return request_path.starts_with(&wildcard_path[..wildcard_path.len() - 1]);
     }
 
-- 
2.43.0


From 57136b8cce093e670416ec4d80ecfebb4778a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 14/25] fix: reject text after a certification expression

---
 packages/ic-response-verification/src/cel/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..db64d1f 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -166,6 +166,9 @@ pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-        Ok((_remaining, result)) => Ok(result),
+        Ok((remaining, result)) if remaining.trim_start().is_empty() => Ok(result),
+        Ok((remaining, _result)) => Err(CelParserError::CelSyntaxException(format!(
+            "unexpected text after the expression: {remaining}"
+        ))),
     }
 }
-- 
2.43.0


From de2494bb36041e921601b9e1ef9888721aa69c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 15/25] fix: accept all header and query parameter names in
 certification expressions

---
 packages/ic-response-verification/src/cel/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index db64d1f..bbaed30 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -65,12 +65,10 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
-
     context(
         "parse_str",
         escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+            take_while(|e| e != '"' && e != '\\'),
             '\\',
             one_of("\"n\\"),
         ),
-- 
2.43.0


From 9bc20a8818061136b5022f343da5070d24d2c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:26 +0000
Subject: [PATCH 16/25] fix: bound the nesting of certification expressions

---
 .../src/cel/parser.rs                         | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index bbaed30..0a5cee6 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -159,7 +159,38 @@ fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+/// How deep values can be nested in each other. Parsing is recursive, so this keeps untrusted input
+/// from overflowing the stack.
+const MAX_NESTING: usize = 64;
+
+fn is_nested_too_deep(i: &str) -> bool {
+    let (mut depth, mut in_string, mut is_escaped) = (0_usize, false, false);
+
+    for c in i.chars() {
+        match c {
+            _ if is_escaped => is_escaped = false,
+            '\\' if in_string => is_escaped = true,
+            '"' => in_string = !in_string,
+            '(' | '[' | '{' if !in_string => depth += 1,
+            ')' | ']' | '}' if !in_string => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+
+        if depth > MAX_NESTING {
+            return true;
+        }
+    }
+
+    false
+}
+
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
+    if is_nested_too_deep(i) {
+        return Err(CelParserError::CelSyntaxException(
+            "the expression is nested too deep".into(),
+        ));
+    }
+
     let result = cel_value::<nom::error::Error<&str>>(i);
 
     match result {
-- 
2.43.0


From d0968d04343b59fa4478ebfb615f29c059b52d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 17/25] fix: fall back to the index only if the tree proves the
 requested path absent

---
 .../src/validation/v1_validation.rs                         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v1_validation.rs b/packages/ic-response-verification/src/validation/v1_validation.rs
index ab86c21..4476625 100644
--- a/packages/ic-response-verification/src/validation/v1_validation.rs
+++ b/packages/ic-response-verification/src/validation/v1_validation.rs
@@ -11,12 +11,16 @@ pub fn validate_body(tree: &HashTree, request_path: &str, body_sha: &Hash) -> bo
         // https://internetcomputer.org/docs/current/references/ic-interface-spec/#http-gateway-certification
         //
         // It may be possible to remove this with a combination of asset canister redirect rules and v2 response verification.
-        _ => match tree.lookup_path(&index_fallback_path) {
+        //
+        // The fallback only applies if the tree proves that there is nothing at the requested path, otherwise
+        // pruning the requested path would be enough to replace it with the index.
+        LookupResult::Absent => match tree.lookup_path(&index_fallback_path) {
             LookupResult::Found(v) => v,
             _ => {
                 return false;
             }
         },
+        _ => return false,
     };
 
     body_sha == tree_sha
-- 
2.43.0


From c04029c62a3cc22d1d7a8a5aff2cc08265fa853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 18/25] fix: accept a single unit in range headers

---
 packages/ic-asset-certification/src/asset_router.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..9957a08 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -135,10 +135,9 @@ fn encoding_str(maybe_encoding: Option<AssetEncoding>) -> Option<String> {
 fn parse_range_header_str(range_str: &str) -> Result<RangeRequestValues, String> {
     // expected format: `bytes=<range-begin>-[<range-end>]`
     let str_value = range_str.trim();
-    if !str_value.starts_with("bytes=") {
+    let Some(str_value) = str_value.strip_prefix("bytes=") else {
         return Err(format!("Invalid Range header '{}'", range_str).to_string());
-    }
-    let str_value = str_value.trim_start_matches("bytes=");
+    };
     let range_header_parts = str_value.split('-').collect::<Vec<_>>();
     if range_header_parts.is_empty() || range_header_parts.len() != 2 {
         return Err(format!("Invalid Range header '{}'", range_str).to_string());
-- 
2.43.0


From 5b90330c611b2cdc5a371415caa78944a4f1f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 19/25] fix: withdraw the certification of the ranges of
 deleted assets

---
 .../ic-asset-certification/src/asset_router.rs  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 9957a08..59443a2 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -620,8 +620,13 @@ impl<'content> AssetRouter<'content> {
         encoding: Option<AssetEncoding>,
     ) -> AssetCertificationResult<()> {
         let asset_url = asset.url.to_string();
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+        let response = Self::prepare_static_asset(
+            asset.clone(),
+            content_type.clone(),
+            additional_headers.clone(),
+            encoding,
+            None,
+        )?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
         self.responses
@@ -631,6 +636,14 @@ impl<'content> AssetRouter<'content> {
             // Delete also chunks.
             let mut range_begin: usize = 0;
             while range_begin < response.response.body().len() {
+                let chunk_response = Self::prepare_static_asset(
+                    asset.clone(),
+                    content_type.clone(),
+                    additional_headers.clone(),
+                    encoding,
+                    Some(range_begin),
+                )?;
+                self.tree.borrow_mut().delete(&chunk_response.tree_entry);
                 self.responses.remove(&RequestKey::new(
                     &asset_url,
                     encoding_str(encoding),
-- 
2.43.0


From a136e87bbbf93a1f7bb8c3cd1f55434bc89b9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 20/25] fix: do not serve encodings that the client excludes
 with a quality of zero

---
 .../src/asset_router.rs                       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 59443a2..db45cd0 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -973,12 +973,15 @@ impl<'content> AssetRouter<'content> {
         let mut encodings = encodings
             .split(',')
             .filter_map(|encoding| {
-                encoding
-                    .split(';')
-                    .collect::<Vec<_>>()
-                    .first()
-                    .map(|s| s.trim())
-                    .map(|s| (s, Self::default_encoding_quality(s)))
+                let mut parts = encoding.split(';').map(|s| s.trim());
+                let encoding = parts.next()?;
+
+                // a quality of zero means that the encoding is not acceptable
+                if parts.any(Self::is_zero_quality) {
+                    return None;
+                }
+
+                Some((encoding, Self::default_encoding_quality(encoding)))
             })
             .collect::<Vec<_>>();
 
@@ -989,6 +992,14 @@ impl<'content> AssetRouter<'content> {
         encodings
     }
 
+    fn is_zero_quality(parameter: &str) -> bool {
+        parameter.split_once('=').is_some_and(|(name, quality)| {
+            name.trim().eq_ignore_ascii_case("q")
+                && quality.contains('0')
+                && quality.trim().bytes().all(|c| c == b'0' || c == b'.')
+        })
+    }
+
     fn default_encoding_quality(encoding: &str) -> f32 {
         if encoding.eq_ignore_ascii_case("br") {
             return 1.0;
-- 
2.43.0


From d371b7c9c4186b479dba7e4e4382da326077953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 21/25] fix: serve the fallback whose scope is the requested
 path itself

---
 packages/ic-asset-certification/src/asset_router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index db45cd0..b501a38 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -418,6 +418,18 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // the scope of a fallback includes the path it names
+        if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
+            return Ok(response);
+        }
+
+        if let Some(response) = self
+            .fallback_responses
+            .get(&RequestKey::new(req_path, None, None))
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From 5d09d61e7c7bbfee04a5d42eefeed0e5d24a58cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 22/25] fix: certify assets with question marks in their name
 for the requests they are served to

---
 packages/ic-asset-certification/src/asset_router.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index b501a38..cc47b36 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -814,7 +814,6 @@ impl<'content> AssetRouter<'content> {
         let headers = vec![("location".to_string(), to)];
 
         let (response, certification) = Self::prepare_response_and_certification(
-            from.clone(),
             status_code,
             Cow::Owned(vec![]),
             headers,
@@ -865,7 +864,6 @@ impl<'content> AssetRouter<'content> {
         };
 
         Self::prepare_response_and_certification(
-            asset.url.to_string(),
             status_code,
             content,
             headers,
@@ -874,7 +872,6 @@ impl<'content> AssetRouter<'content> {
     }
 
     fn prepare_response_and_certification(
-        url: String,
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
@@ -897,7 +894,8 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        // the request hash does not depend on the path, and the path of an asset is not a URL
+        let request = HttpRequest::get("/").build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 322b904fd88cf75901b56cac4044d80aafd04e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 23/25] fix: certify the ranges of an asset for the range
 requests they are served to

---
 .../ic-asset-certification/src/asset_router.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index cc47b36..9fd7e5b 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -818,6 +818,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -850,6 +851,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -860,13 +862,22 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+
+            // the first range answers requests without a range header
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
             status_code,
             content,
             headers,
+            certified_request_headers,
             request_headers,
         )
     }
@@ -876,6 +887,7 @@ impl<'content> AssetRouter<'content> {
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
+        request_headers: Vec<(String, String)>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
 
@@ -895,7 +907,9 @@ impl<'content> AssetRouter<'content> {
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
         // the request hash does not depend on the path, and the path of an asset is not a URL
-        let request = HttpRequest::get("/").build();
+        let request = HttpRequest::get("/")
+            .with_headers(request_headers)
+            .build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 20b3337f0d5b64ad576ae58e3322f83495e2f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 24/25] fix: serve assets that are not split into ranges to
 range requests, and no fallback for unknown ranges

---
 packages/ic-asset-certification/src/asset_router.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 9fd7e5b..06e4629 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -418,6 +418,19 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // what is not split into ranges is served as a whole
+        if maybe_range_begin.is_some() {
+            let response = self.get_asset_for_request(req_path, preferred_encodings, None)?;
+
+            if response.response.status_code() == StatusCode::PARTIAL_CONTENT {
+                return Err(AssetCertificationError::NoAssetMatchingRequestUrl {
+                    request_url: req_path.to_string(),
+                });
+            }
+
+            return Ok(response);
+        }
+
         // the scope of a fallback includes the path it names
         if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
             return Ok(response);
-- 
2.43.0


From 03ba6b2b032cfcf1de71ca6eb1cad6b4de97084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 25/25] fix: treat repeated slashes in requested paths as the
 certification does

---
 packages/ic-asset-certification/src/asset_router.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 06e4629..1895dbb 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -222,7 +222,16 @@ impl<'content> AssetRouter<'content> {
         request: &HttpRequest,
     ) -> AssetCertificationResult<HttpResponse<'content>> {
         let preferred_encodings = self.get_preferred_encodings(request);
-        let request_url = request.get_path()?;
+        let mut request_url = request.get_path()?;
+        // empty segments have no meaning in the paths of the certification tree
+        if !self
+            .responses
+            .contains_key(&RequestKey::new(&request_url, None, None))
+        {
+            while request_url.contains("//") {
+                request_url = request_url.replace("//", "/");
+            }
+        }
         let maybe_range_begin = Self::maybe_get_range_begin(request)?;
         let mut cert_response = self
             .get_asset_for_request(&request_url, preferred_encodings, maybe_range_begin)
-- 
2.43.0

