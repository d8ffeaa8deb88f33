From 84dd218e97546a4bdef78f5dc218df2094aadd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 01/19] fix: restore nested group matches when an outer group
 rewinds

Committing an inner snapshot discarded the values it had consumed, so a
later rewind of the enclosing group could not put them back, and the
next alternative was matched against truncated data.
---
 src/validate.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..9d8a802 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an outer snapshot, it still needs to be able to rewind
+        // the values that were matched here.  Otherwise, those values were
         // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
+        let mut top_snap = self.snaps.pop_back().unwrap();
+        // If there is an outer snapshot, it still needs to be able to rewind
+        // the values that were matched here.  Otherwise, those values were
         // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.append(&mut top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From 4dbbf01bd6310f5ded8f2e2b0d38d68cc23bd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 02/19] fix: rewind a partially matched unwrap

An unwrapped array or map that failed after matching some of its members
left those values consumed, so that an optional unwrap or the next
alternative was matched against truncated data.
---
 src/validate.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 9d8a802..2a53640 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -598,11 +598,19 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // As with a Group, we need to put back any partial match if one
+            // of the later members fails.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -873,11 +881,19 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // As with a Group, we need to put back any partial match if one
+            // of the later members fails.
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e);
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From f6033df3e08939337176fd2b43aa575c745f87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 03/19] fix: follow aliases when unwrapping an array or map

`~x` failed to match anything when `x` was another name for a rule that
holds an array or map.
---
 src/validate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 2a53640..25c08bc 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -597,6 +597,11 @@ fn validate_array_unwrap(
     // After traversing an unwrap from inside an array, the next node must be an
     // Array node too.
     match node {
+        // The unwrapped name may be an alias; follow it to the real definition.
+        Node::Rule(r) => {
+            let answer = ctx.lookup_rule(r)?;
+            validate_array_unwrap(answer.node, working_array, &answer.ctx)
+        }
         Node::Array(a) => {
             // As with a Group, we need to put back any partial match if one
             // of the later members fails.
@@ -880,6 +885,11 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // After traversing an unwrap from inside a map, the next node must be a
     // Map node too.
     match node {
+        // The unwrapped name may be an alias; follow it to the real definition.
+        Node::Rule(r) => {
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_unwrap(answer.node, working_map, &answer.ctx)
+        }
         Node::Map(m) => {
             // As with a Group, we need to put back any partial match if one
             // of the later members fails.
-- 
2.43.0


From d6c82623f04e48be5677eb54ea6b1186b10b4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 04/19] fix: honor an occurrence upper limit of zero

`*0 x` and `0*0 x` accepted one occurrence of x, because the limit was
only checked after the first match.
---
 src/validate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 25c08bc..8a0fe1b 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -632,7 +632,8 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching once we've consumed the maximum number of this member.
+    while count < upper_limit {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -647,10 +648,6 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -919,7 +916,8 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching once we've consumed the maximum number of this member.
+    while count < upper_limit {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -934,10 +932,6 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From 591ee686ccb0c779c79825318fe4b3fb55577ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/19] fix: don't loop forever on an occurrence that consumes
 nothing

`[* ()]`, `[* (? int)]` and `{* (? a: int)}` never stopped matching.
---
 src/validate.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 8a0fe1b..bfba7ed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -634,8 +634,16 @@ fn validate_array_occur(
 
     // Stop matching once we've consumed the maximum number of this member.
     while count < upper_limit {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
-            Ok(_) => (),
+            Ok(_) => {
+                if working_array.array.len() == remaining {
+                    // This member can match without consuming anything, so
+                    // it can match any number of times; stop here instead of
+                    // looping forever.
+                    return Ok(());
+                }
+            }
             Err(e) => {
                 if e.is_mismatch() {
                     // Stop trying to match this occurrence.
@@ -918,8 +926,16 @@ fn validate_map_occur(
 
     // Stop matching once we've consumed the maximum number of this member.
     while count < upper_limit {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
-            Ok(_) => (),
+            Ok(_) => {
+                if working_map.map.len() == remaining {
+                    // This member can match without consuming anything, so
+                    // it can match any number of times; stop here instead of
+                    // looping forever.
+                    return Ok(());
+                }
+            }
             Err(e) => {
                 if e.is_mismatch() {
                     // Stop trying to match this occurrence.
-- 
2.43.0


From 35c810d4484ee5b8ed11023506b580d54086d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 06/19] fix: parse the integer literal -9223372036854775808

---
 src/parser/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..9ddc7d7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,10 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // Negate before converting, because i64 has a larger negative range
+        // than positive range.
+        let negint: i64 = try_into_int(-i128::from(posint), raw.slice)?;
+        Ok(Value::Nint(negint))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From 01cbfe273f465139b239712cc4bdd3ff88dad7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 07/19] fix: allow all of unicode in text and byte string
 literals

The RFC 8610 SCHAR and BCHAR ranges end at 10FFFD; a missing digit
rejected everything above U+10FFD, e.g. emoji.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9ddc7d7..c855d71 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From e59ec6951b89a60f1b65e834ca85a187ef323049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 08/19] fix: accept large float literals inside groups

A float with an integer part of 2^64 or more (18446744073709551616.5)
was rejected in a group, because its integer part was taken for an
occurrence limit.
---
 src/parser/mod.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index c855d71..0c9de9c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -236,15 +236,15 @@ fn uint(input: &str) -> JResult<&str, RawUint> {
 // Extract an unsigned integer using the correct base (radix).
 #[rustfmt::skip]
 fn uint_u64(input: &str) -> JResult<&str, u64> {
-    map_res_fail(uint, |raw| {
-        u64::from_str_radix(raw.slice, raw.base)
-        .map_err(|_| {
-            parse_error(ErrorKind::MalformedInteger, raw.slice)
-        })
-    })
+    map_res_fail(uint, parse_uint)
     (input)
 }
 
+fn parse_uint(raw: RawUint) -> Result<u64, CowParseError> {
+    u64::from_str_radix(raw.slice, raw.base)
+        .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))
+}
+
 // Like RawUint, this is a temporary representation so we can
 // preserve both the string slice and some metadata about it.
 struct RawInt<'a> {
@@ -741,24 +741,28 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
-    let f = tuple((
-        opt(uint_u64),
-        tag("*"),
+    // Don't try to convert the lower limit until we've seen the "*", because
+    // until then it might be something else, e.g. the start of a float.
+    let f = pair(
+        alt((
+            map(map_res_fail(terminated(uint, tag("*")), parse_uint), Some),
+            valuex(None, tag("*")),
+        )),
         opt(uint_u64),
-    ));
+    );
     // FIXME: it's really not the parser's business to be inventing an upper
     // limit here.  Plus, the use of usize::MAX is kind of gross.
     // The parser should leave these as Option and leave it to others to
     // decide what to do with that.
     map_res(f, |tup| -> Result<Occur, CowParseError> {
-        if tup.0.is_none() && tup.2.is_none() {
+        if tup.0.is_none() && tup.1.is_none() {
             Ok(Occur::ZeroOrMore)
         } else {
             let lower: usize = match tup.0 {
                 Some(n) => try_into_int(n, input)?,
                 None => 0,
             };
-            let upper: usize = match tup.2 {
+            let upper: usize = match tup.1 {
                 Some(n) => try_into_int(n, input)?,
                 None => usize::MAX,
             };
-- 
2.43.0


From d190c031a925ee4cd9a2eac3acc70c5ed20b4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 09/19] fix: report fatal errors found while searching for a
 map key

A map member whose key type could not be resolved (missing rule, bad
control operator, ...) was treated as a key that isn't present, so
`{ ? bad => int, * tstr => any }` validated anything.
---
 src/validate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index bfba7ed..a21dde7 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -430,9 +430,12 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // Don't let a broken key type pass for a missing key.
+            Err(e) if e.is_fatal() => return Err(e),
+            // Otherwise, keep trying other keys.
+            Err(_) => {}
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From b2af9ce4b723bc0ff60d381ffcd368607ecce66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 10/19] fix: try every matching key of a non-cut map member

Only the first key matching a `k => v` member was considered, so the
result depended on how the keys happen to sort: with
`{ * tstr => int, * tstr => tstr }`, {"a": 1, "b": "x"} was accepted but
{"a": "x", "b": 1} was not.
---
 src/validate.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a21dde7..c9117db 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -982,6 +982,10 @@ fn validate_map_keyvalue(
     let val_node = &kv.value;
     let cut = kv.cut;
 
+    if !cut && !matches!(**key_node, Node::Literal(_)) {
+        return validate_map_keyvalue_nocut(key_node, val_node, working_map, ctx);
+    }
+
     // If we fail to validate a key, exit now with an error.
     let (working_key, working_val) = validate_map_key(working_map, key_node, ctx)?;
 
@@ -1004,6 +1008,37 @@ fn validate_map_keyvalue(
     }
 }
 
+// Without "cut" semantics, an entry that only matches the key is left in
+// place, and we keep looking for one that matches both the key and the value.
+fn validate_map_keyvalue_nocut(
+    key_node: &Node,
+    val_node: &Node,
+    working_map: &mut WorkingMap,
+    ctx: &Context,
+) -> ValidateResult {
+    let mut value_error = None;
+
+    for (key, value) in &working_map.map {
+        match validate(key, key_node, ctx) {
+            Ok(()) => {}
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => continue,
+        }
+        match validate(value, val_node, ctx) {
+            Ok(()) => {
+                let key = key.clone();
+                working_map.remove(&key);
+                return Ok(());
+            }
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(e) => {
+                value_error.get_or_insert(e);
+            }
+        }
+    }
+    Err(value_error.unwrap_or_else(|| mismatch(format!("map{{{}}}", key_node))))
+}
+
 fn validate_standalone_group(g: &Group, value: &Value, ctx: &Context) -> ValidateResult {
     // Since we're not in an array or map context, it's not clear how we should
     // validate a group containing multiple elements.  If we see one, return an
-- 
2.43.0


From 388b69ebbca94bd30ec03fa0bbb674a7cc9479d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 11/19] fix: apply the recursion limit to generic arguments

Following a generic parameter to its argument reset the depth counter,
so that a small schema built from nested generics could recurse until
the stack overflowed.
---
 src/validate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index c9117db..ed82f70 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -78,7 +78,12 @@ impl<'a> Context<'a> {
             // context along with the node that is substituting for this generic
             // parameter name.  Otherwise, return a new blank Context.
             let ctx = match self.generic_map.past_ctx {
-                Some(ctx) => ctx.clone(),
+                Some(ctx) => Context {
+                    // Keep counting from the current depth, or else the
+                    // recursion limit won't apply to generic arguments.
+                    depth: self.inc_depth()?,
+                    ..ctx.clone()
+                },
                 None => self.blank()?,
             };
             return Ok(NodeContext { node, ctx });
-- 
2.43.0


From b6894722b31084d18fd0ea318ccc268f60264de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 12/19] fix: reject trailing bytes after a CBOR data item

Only the first data item was examined, so arbitrary bytes could follow
it, both in validate_cbor_bytes and in the target of `.cbor`.
---
 src/cbor.rs     | 13 +++++++++++--
 src/validate.rs |  7 ++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..07274b7 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -120,6 +120,16 @@ impl TryFrom<CBOR_Value> for Value {
     }
 }
 
+// Decode exactly one CBOR data item.
+pub(crate) fn decode_cbor(mut cbor: &[u8]) -> Result<CBOR_Value, ValidateError> {
+    let cbor_value = ciborium::from_reader(&mut cbor)
+        .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    if !cbor.is_empty() {
+        return Err(ValidateError::ValueError("trailing CBOR data".into()));
+    }
+    Ok(cbor_value)
+}
+
 /// Validate already-parsed CBOR data against an already-parsed CDDL schema.
 pub fn validate_cbor(
     rule_def: &RuleDef,
@@ -143,8 +153,7 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let cbor_value = decode_cbor(cbor)?;
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
diff --git a/src/validate.rs b/src/validate.rs
index ed82f70..634c4b3 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1152,15 +1152,12 @@ fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, _value: &Value, _ctx: &Context)
 
 #[cfg(feature = "ciborium")]
 fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) -> ValidateResult {
-    use ciborium::Value as CBOR_Value;
+    use crate::cbor::decode_cbor;
     use std::convert::TryFrom;
 
     match value {
         Value::Bytes(bytes) => {
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
-
-            let nested_value = Value::try_from(cbor_value)?;
+            let nested_value = Value::try_from(decode_cbor(bytes)?)?;
 
             validate(&nested_value, ctl_cbor.node.as_ref(), ctx)
         }
-- 
2.43.0


From 52d718cbe562cdacb871f1c3176d2e16d24e49f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 13/19] fix: treat malformed CBOR under .cbor as a mismatch

A byte string that doesn't hold CBOR data made the whole validation fail
with a ValueError, even if it matches another alternative, as in
`(bytes .cbor uint) / bytes`.
---
 src/validate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index 634c4b3..0e8a1b5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1157,7 +1157,9 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
-            let nested_value = Value::try_from(decode_cbor(bytes)?)?;
+            // A byte string that isn't valid CBOR is one that doesn't match.
+            let cbor_value = decode_cbor(bytes).map_err(|_| mismatch("CBOR data"))?;
+            let nested_value = Value::try_from(cbor_value)?;
 
             validate(&nested_value, ctl_cbor.node.as_ref(), ctx)
         }
-- 
2.43.0


From 1b2bfbd25b3526e0e7b4319520e54ef6b73e1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 14/19] fix: avoid exponential parse times on nested
 parentheses

A group entry starting with "(" was parsed as a type, and then all over
again as a group, so the work doubled with each level of nesting. Seventeen
levels of `[(s, int)]` took several seconds.
---
 src/parser/mod.rs | 130 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 91 insertions(+), 39 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0c9de9c..6feaf9e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -638,7 +638,14 @@ fn assemble_basic_member(key: Type1, value: Type) -> Result<Member, CowParseErro
 fn grpent_member(input: &str) -> JResult<&str, Member> {
 
     // The leading Type1 is required for this parser.
-    let (input, first_type1) = terminated(type1, ws)(input)?;
+    let (input, first_type1) = type1(input)?;
+    grpent_member_tail(input, first_type1)
+}
+
+// The remainder of grpent_member, once we have its leading Type1.
+#[rustfmt::skip]
+fn grpent_member_tail(input: &str, first_type1: Type1) -> JResult<&str, Member> {
+    let (input, _) = ws(input)?;
 
     // If the type1 matches is a plain value or typename (aka id), then we may
     // be looking at a memberkey followed by a ":".  That syntax isn't allowed
@@ -717,12 +724,59 @@ fn grpent_parens(input: &str) -> JResult<&str, Group> {
     )(input)
 }
 
+// A group entry that starts with "(".
+//
+// This may be a parenthesized group, or it may be a member that starts with a
+// parenthesized type.  Trying one and then the other leads to 2^N iterations
+// when they are nested, so instead we parse the first entry, and then look at
+// what follows to see which one it is.
+#[rustfmt::skip]
+fn grpent_parens_val(input: &str) -> JResult<&str, GrpEntVal> {
+    let (input, (first, close)) = preceded(
+        pair(charx('('), ws),
+        pair(
+            opt(grpent),
+            opt(pair(ws, charx(')'))),
+        )
+    )(input)?;
+
+    match (first, close) {
+        // "(" S type S ")"
+        (Some(GrpEnt { occur: None, val: GrpEntVal::Member(Member { key: None, value }) }), Some(_)) => {
+            let (input, first_type1) = type1_tail(input, Type2::Parethesized(value))?;
+            let (input, member) = grpent_member_tail(input, first_type1)?;
+            Ok((input, GrpEntVal::Member(member)))
+        }
+        // "(" S [grpent] S ")"
+        (first, Some(_)) => {
+            let grpchoice = GrpChoice(first.into_iter().collect());
+            Ok((input, GrpEntVal::Parenthesized(Group(vec![grpchoice]))))
+        }
+        // "(" S group S ")"
+        (first, None) => {
+            let (input, first_choice) = match first {
+                Some(first) => {
+                    let (input, mut rest) = preceded(optcom, grpchoice)(input)?;
+                    rest.0.insert(0, first);
+                    (input, rest)
+                }
+                None => (input, GrpChoice(vec![])),
+            };
+            let (input, group) = group_tail(input, first_choice)?;
+            let (input, _) = pair(ws, charx(')'))(input)?;
+            Ok((input, GrpEntVal::Parenthesized(group)))
+        }
+    }
+}
+
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
+    if input.starts_with('(') {
+        return grpent_parens_val(input);
+    }
     alt((
         map(grpent_member, GrpEntVal::Member),
         map(ident, |s| GrpEntVal::Groupname(s.into())),
-        map(grpent_parens, GrpEntVal::Parenthesized),
     ))
     (input)
 }
@@ -817,24 +871,26 @@ fn group(input: &str) -> JResult<&str, Group> {
     // but separated_list1 returns an error if the
     // list-item succeeds on "", which grpchoice does.
 
-    let f = pair(
-        grpchoice,
-        many0(preceded(
-            delimited(
-                ws,
-                tag("//"),
-                ws,
-            ),
-            grpchoice
-        ))
-    );
+    let (input, first) = grpchoice(input)?;
+    group_tail(input, first)
+}
 
-    map(f, |(first, mut rest)| {
-        // Build a new vector containing all the grpchoice elements.
-        let mut gcs = vec![first];
-        gcs.append(&mut rest);
-        Group(gcs)
-    })(input)
+// The remainder of group, once we have its first grpchoice.
+#[rustfmt::skip]
+fn group_tail(input: &str, first: GrpChoice) -> JResult<&str, Group> {
+    let (input, mut rest) = many0(preceded(
+        delimited(
+            ws,
+            tag("//"),
+            ws,
+        ),
+        grpchoice
+    ))(input)?;
+
+    // Build a new vector containing all the grpchoice elements.
+    let mut gcs = vec![first];
+    gcs.append(&mut rest);
+    Ok((input, Group(gcs)))
 }
 
 // "(" S type S ")"
@@ -915,15 +971,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
         tag("&"),
         preceded(
             ws,
-            delimited(
-                charx('('),
-                delimited(
-                    ws,
-                    group,
-                    ws,
-                ),
-                charx(')')
-            )
+            grpent_parens
         )
     )
     (input)
@@ -986,16 +1034,20 @@ fn range_or_control_op(input: &str) -> JResult<&str, (&str, Type2)> {
 // type1 = type2 [S (rangeop / ctlop) S type2]
 #[rustfmt::skip]
 fn type1(input: &str) -> JResult<&str, Type1> {
-    let f = pair(
-        type2,
-        opt(
-            preceded(
-                ws,
-                range_or_control_op
-            )
+    let (input, first) = type2(input)?;
+    type1_tail(input, first)
+}
+
+// The remainder of type1, once we have its leading Type2.
+#[rustfmt::skip]
+fn type1_tail(input: &str, first: Type2) -> JResult<&str, Type1> {
+    let (input, tail) = opt(
+        preceded(
+            ws,
+            range_or_control_op
         )
-    );
-    map(f, |ty1| match ty1 {
+    )(input)?;
+    let ty1 = match (first, tail) {
         (ty2, None) => Type1::Simple(ty2),
         (start, Some(("..", end))) => Type1::Range(TypeRange {
             start,
@@ -1012,8 +1064,8 @@ fn type1(input: &str) -> JResult<&str, Type1> {
             op: op.into(),
             arg,
         }),
-    })
-    (input)
+    };
+    Ok((input, ty1))
 }
 
 // type = type1 [ / type1 ... ]  (skipping over type1 for now)
-- 
2.43.0


From c5be120f2573e642a0ef99fda26c033d1074c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 15/19] fix: limit the nesting depth of parsed CDDL

The parser recurses for every nested bracket, so a few kilobytes of `[` in
the input overflowed the stack and aborted the process. Nesting deeper
than 64 levels is now a parse error.
---
 src/parser/mod.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6feaf9e..f1f38e1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -38,6 +38,7 @@ use nom::{
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
+use std::cell::Cell;
 use std::convert::TryFrom;
 
 use crate::ast::*;
@@ -78,6 +79,34 @@ where
     }
 }
 
+// The deepest nesting of types and groups that we're willing to parse.
+//
+// The parser is recursive, so without a limit a small input could exhaust the
+// stack (and so could the code that walks the resulting tree).
+const MAX_NESTING: u32 = 64;
+
+thread_local! {
+    static NESTING: Cell<u32> = const { Cell::new(0) };
+}
+
+// Run a parser one level deeper, unless that would exceed MAX_NESTING.
+fn nested<'a, O, F>(mut parser: F) -> impl FnMut(&'a str) -> JResult<'a, &'a str, O>
+where
+    F: FnMut(&'a str) -> JResult<'a, &'a str, O>,
+{
+    move |input: &'a str| {
+        let depth = NESTING.with(Cell::get);
+        if depth >= MAX_NESTING {
+            let e = parse_error(ErrorKind::Unparseable, "nesting too deep");
+            return Err(nom::Err::Failure(e));
+        }
+        NESTING.with(|n| n.set(depth + 1));
+        let result = parser(input);
+        NESTING.with(|n| n.set(depth));
+        result
+    }
+}
+
 // CDDL whitespace definition:
 // Note no support for tabs, or naked linefeed characters.
 //
@@ -772,7 +801,7 @@ fn grpent_parens_val(input: &str) -> JResult<&str, GrpEntVal> {
 #[rustfmt::skip]
 fn grpent_val(input: &str) -> JResult<&str, GrpEntVal> {
     if input.starts_with('(') {
-        return grpent_parens_val(input);
+        return nested(grpent_parens_val)(input);
     }
     alt((
         map(grpent_member, GrpEntVal::Member),
@@ -990,7 +1019,7 @@ fn type2_choiceify_inline(input: &str) -> JResult<&str, Group> {
 //       / "#"
 #[rustfmt::skip]
 fn type2(input: &str) -> JResult<&str, Type2> {
-    alt((
+    nested(alt((
         map(value, Type2::Value),
         map(name_generic, Type2::Typename),
         map(type2_parens, Type2::Parethesized),
@@ -999,7 +1028,7 @@ fn type2(input: &str) -> JResult<&str, Type2> {
         map(type2_unwrap, Type2::Unwrap),
         map(type2_choiceify_inline, Type2::ChoiceifyInline),
         map(type2_choiceify, Type2::Choiceify),
-    ))
+    )))
     (input)
 }
 
-- 
2.43.0


From 50c1d2d5e9b70eb1a3b22ebfab561e0779e10232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 16/19] fix: allow double quotes and escaped single quotes in
 byte strings

---
 src/parser/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f1f38e1..0e05aee 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -445,6 +445,29 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// Unescape the contents of a single-quoted byte string.
+//
+// The escapes are those of a text literal, except that the delimiter that needs
+// escaping is the single quote rather than the double quote.
+fn unescape_bytestring(s: &str) -> Result<String, CowParseError> {
+    let mut text = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => text.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => text.push('\''),
+                escaped => {
+                    text.push(c);
+                    text.extend(escaped);
+                }
+            },
+            _ => text.push(c),
+        }
+    }
+    unescape(&text).map_err(|_| parse_error(ErrorKind::MalformedText, s))
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -455,10 +478,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
         tag("'")
     );
 
-    map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
-    })
-    (input)
+    map_res_fail(f, unescape_bytestring)(input)
 }
 
 // This doesn't check that only the right characters are used;
-- 
2.43.0


From cea42e6360b5aca3456b5bf475b5bc3e69e902ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 17/19] fix: reject a sign in the digits of a \u escape

---
 src/parser/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0e05aee..ecc40f9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -445,6 +445,20 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// Unescape the contents of a text literal or byte string.
+//
+// `unescape` would accept a "+" as the first of the four digits of a "\u"
+// escape, so that needs to be ruled out first.
+fn unescape_literal(s: &str) -> Result<String, ()> {
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' && chars.next() == Some('u') && chars.as_str().starts_with('+') {
+            return Err(());
+        }
+    }
+    unescape(s).map_err(|_| ())
+}
+
 // Unescape the contents of a single-quoted byte string.
 //
 // The escapes are those of a text literal, except that the delimiter that needs
@@ -465,7 +479,7 @@ fn unescape_bytestring(s: &str) -> Result<String, CowParseError> {
             _ => text.push(c),
         }
     }
-    unescape(&text).map_err(|_| parse_error(ErrorKind::MalformedText, s))
+    unescape_literal(&text).map_err(|_| parse_error(ErrorKind::MalformedText, s))
 }
 
 // This is basically identical to `text_literal` except that
@@ -583,7 +597,7 @@ fn text_literal(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape_literal(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
-- 
2.43.0


From 7af05d68e444755a110bdb4d7ccb800ee089085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 18/19] fix: drop member keys of an inline group-to-choice
 conversion in a map

'&(a: g, b: h)' in a map now means a choice of the groups g and h, like
'&name' does when the group has a name.
---
 src/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index 0e8a1b5..ca594f3 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -786,7 +786,7 @@ fn validate_map_member(
         }
         Node::Choice(c) => validate_map_choice(&c.options, working_map, ctx),
         Node::Choiceify(r) => validate_map_choiceify(r, working_map, ctx),
-        Node::ChoiceifyInline(a) => validate_map_choice(&a.members, working_map, ctx),
+        Node::ChoiceifyInline(a) => validate_map_choiceify_members(&a.members, working_map, ctx),
 
         // I don't think any of these are possible using CDDL grammar.
         Node::Literal(_) => Err(ValidateError::Structural("literal map member".into())),
-- 
2.43.0


From 595389cf837b230bbecfd390e5a5f4b6b4fd9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 19/19] fix: report the malformed literal when a group member
 can't be parsed

A failure (malformed literal, or nesting too deep) in the value of a member was
taken for a missing ":", "=>" or "/", and reported as Unparseable.
---
 src/parser/mod.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ecc40f9..17257a8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -718,7 +718,7 @@ fn grpent_member_tail(input: &str, first_type1: Type1) -> JResult<&str, Member>
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
+            if let (input, Some(tail_type)) = opt(grpent_memberkey_tail)(input)? {
                 let member = assemble_basic_member(first_type1, tail_type);
                 match member {
                     Ok(member) => return Ok((input, member)),
@@ -735,12 +735,12 @@ fn grpent_member_tail(input: &str, first_type1: Type1) -> JResult<&str, Member>
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    if let (input, Some(matched_tuple)) = opt(tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
-    ))(input) {
+    )))(input)? {
         let (cut, _, _, val) = matched_tuple;
         let member = Member {
             key: Some(MemberKey {
@@ -756,22 +756,20 @@ fn grpent_member_tail(input: &str, first_type1: Type1) -> JResult<&str, Member>
     // should return a Member, with key: None and value: Type containing Vec<Type1>
     // This is a lot like the fn `ty` but we will concatenate this with first_type1
 
-    if let Ok((input, mut ty1s)) = many0(
+    let (input, mut ty1s) = many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
-        // insert the first type1 (from the top of this function)
-        ty1s.insert(0, first_type1);
-        let member = Member {
-            key: None,
-            value: Type(ty1s),
-        };
-        return Ok((input, member));
-    }
+    )(input)?;
 
-    Err(nom::Err::Error(parse_error(ErrorKind::Unparseable, "grpent_member")))
+    // insert the first type1 (from the top of this function)
+    ty1s.insert(0, first_type1);
+    let member = Member {
+        key: None,
+        value: Type(ty1s),
+    };
+    Ok((input, member))
 }
 
 #[rustfmt::skip]
-- 
2.43.0

