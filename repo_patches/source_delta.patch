From 9c3a4402e260177d423cae9127fa811a097764f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 01/47] fix: read a request's key type from its own header byte

The parser derived the key type from the command byte and never masked the
key type bit, so every request built with a key type failed to parse.
---
 engine/src/command/request/context.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index d9b4997..2b20c9c 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -108,32 +108,38 @@ impl Context {
             None => return Ok(Conclusion::Incomplete),
         };
 
-        // If the first bit is flipped, then this byte is denoting the type of
-        // key to work with. This means that byte idx 2 is the argument length.
+        let command_id =
+            CommandId::try_from(byte & 0b0111_1111).map_err(|_| ParseError::CommandIdInvalid)?;
+
+        // If the first bit is flipped, then the next byte is denoting the type
+        // of key to work with. This means that byte idx 2 is the argument
+        // count.
         //
-        // If the first bit is 0, then this byte is the argument length, and the
-        // type of key to work with is not a requirement.
+        // If the first bit is 0, then the next byte is the argument count, and
+        // the type of key to work with is not a requirement.
         let key_type = if byte >> 7 == 1 {
-            let key_type_id = byte >> 1;
+            let key_type_id = match buf.get(1) {
+                Some(key_type_id) => *key_type_id,
+                None => return Ok(Conclusion::Incomplete),
+            };
 
             Some(KeyType::try_from(key_type_id).map_err(|_| ParseError::KeyTypeInvalid)?)
         } else {
             None
         };
 
-        let command_id = CommandId::try_from(byte).map_err(|_| ParseError::CommandIdInvalid)?;
+        self.idx = 1 + key_type.is_some() as usize;
 
         // If the command type is simple and has no arguments or keys, then
         // we can just return a successful command here.
         if command_id.is_simple() {
-            return Ok(Conclusion::Finished((command_id, None)));
+            return Ok(Conclusion::Finished((command_id, key_type)));
         }
 
         self.stage = Stage::Kind {
             command_id,
             key_type,
         };
-        self.idx = self.idx.wrapping_add(1);
 
         Ok(Conclusion::Next)
     }
-- 
2.43.0


From 9cd48f4d4c736ee12c9f20aeeaad1e1c4f87766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 02/47] fix: finish parsing requests that have no arguments

A request with an argument count of zero never finished, and the parser would
keep collecting positions from whatever followed it.
---
 engine/src/command/request/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 2b20c9c..46d969a 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -162,6 +162,11 @@ impl Context {
         };
         self.idx = self.idx.saturating_add(1);
 
+        // There are no arguments to wait for, so the request is complete.
+        if argument_count == 0 {
+            return Ok(Conclusion::Finished((command_id, key_type)));
+        }
+
         Ok(Conclusion::Next)
     }
 
-- 
2.43.0


From 5be3f9e60d68dda9f3c96f06348bcaf784a42db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 03/47] fix: account for the length bytes when locating request
 arguments

The bounds check and the stored position both left out the 4 length bytes, so
requests finished before the last argument had been received and arguments
were read from the wrong place.
---
 engine/src/command/request/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index 46d969a..f2b258f 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -184,13 +184,16 @@ impl Context {
 
         let arg_len = u32::from_be_bytes(len_bytes) as usize;
 
-        if buf.get(self.idx..self.idx + arg_len).is_some() {
-            self.positions.push(self.idx + arg_len);
-        } else {
+        let arg_end = self.idx + Self::ARG_LEN_BYTES + arg_len;
+
+        if buf.len() < arg_end {
             return Ok(Conclusion::Incomplete);
         }
 
-        self.idx += 4 + arg_len;
+        // The position of an argument is the index of its last byte.
+        self.positions.push(arg_end - 1);
+
+        self.idx = arg_end;
 
         if self.positions.len() == argument_count as usize {
             Ok(Conclusion::Finished((command_id, key_type)))
-- 
2.43.0


From f180b80184d9e0b860c2163442121574a123525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 04/47] fix: hand the parsed argument positions over to the
 request

Resetting the context cleared the positions before the request borrowed them,
so every parsed request appeared to have no arguments. The request now also
only covers its own bytes.
---
 engine/src/command/request/context.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/request/context.rs b/engine/src/command/request/context.rs
index f2b258f..ce9eebd 100644
--- a/engine/src/command/request/context.rs
+++ b/engine/src/command/request/context.rs
@@ -2,7 +2,10 @@ use super::{super::ContextConclusion, Request};
 use crate::{command::CommandId, state::KeyType};
 use alloc::borrow::Cow;
 use arrayvec::ArrayVec;
-use core::convert::{TryFrom, TryInto};
+use core::{
+    convert::{TryFrom, TryInto},
+    mem,
+};
 
 type Conclusion<'a> = ContextConclusion<(CommandId, Option<KeyType>)>;
 
@@ -87,13 +90,16 @@ impl Context {
 
             match conclusion {
                 Conclusion::Finished((command_id, key_type)) => {
+                    // Bytes following the request belong to the next one.
+                    let end = self.idx;
+                    let positions = mem::replace(&mut self.positions, ArrayVec::new());
                     self.reset();
 
                     return Ok(Some(Request {
-                        buf: Cow::Borrowed(buf),
+                        buf: Cow::Borrowed(&buf[..end]),
                         command_id,
                         key_type,
-                        positions: Cow::Borrowed(&self.positions),
+                        positions: Cow::Owned(positions),
                     }));
                 }
                 Conclusion::Incomplete => return Ok(None),
-- 
2.43.0


From e89a2dbb4144065c56474e9655043237121a3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 05/47] fix: insert a missing key atomically in
 key_or_insert_with

Looking the key up and inserting a default were two steps, so a value inserted
by another thread in between was overwritten by the default.
---
 engine/src/state/mod.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/engine/src/state/mod.rs b/engine/src/state/mod.rs
index 7321ed8..d4f5a08 100755
--- a/engine/src/state/mod.rs
+++ b/engine/src/state/mod.rs
@@ -177,18 +177,7 @@ impl State {
 
         debug_assert!(!key.is_empty());
 
-        loop {
-            match self.0.get_mut(key) {
-                Some(v) => {
-                    break v;
-                }
-                None => {
-                    self.0.insert(key.to_owned(), f());
-
-                    continue;
-                }
-            }
-        }
+        self.0.entry(key.to_owned()).or_insert_with(f)
     }
 
     /// Retrieve the key type of a key's value, if it exists.
-- 
2.43.0


From b133b8fb17f73eb84336c8699e71978fb5ded258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 06/47] fix: replace the value of a key in one step in the set
 command

Set removed the key, inserted a default value and then looked up the typed
reference again, so concurrent readers saw the key disappear or hold a default
value, and a concurrent insert of another type failed the command after the
old value was already lost.
---
 engine/src/command/impl/set.rs | 42 +++++++---------------------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/engine/src/command/impl/set.rs b/engine/src/command/impl/set.rs
index 633e836..ec4babb 100644
--- a/engine/src/command/impl/set.rs
+++ b/engine/src/command/impl/set.rs
@@ -10,13 +10,8 @@ pub struct Set;
 impl Set {
     fn boolean(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::boolean);
-        let boolean = key
-            .as_boolean_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *boolean = arg;
+        *key = Value::Boolean(arg);
 
         response::write_bool(resp, arg);
 
@@ -27,11 +22,8 @@ impl Set {
         let arg = req
             .typed_arg::<&[u8]>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::bytes);
-        let bytes = key.as_bytes_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *bytes = arg.to_vec();
+        *key = Value::Bytes(arg.to_vec());
 
         response::write_bytes(resp, arg);
 
@@ -40,11 +32,8 @@ impl Set {
 
     fn float(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::float);
-        let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *float = arg;
+        *key = Value::Float(arg);
 
         response::write_float(resp, arg);
 
@@ -53,13 +42,8 @@ impl Set {
 
     fn integer(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let arg = req.typed_arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::integer);
-        let int = key
-            .as_integer_mut()
-            .ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *int = arg;
+        *key = Value::Integer(arg);
 
         response::write_int(resp, arg);
 
@@ -68,11 +52,8 @@ impl Set {
 
     fn list(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::list);
-        let list = key.as_list_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *list = args.map(ToOwned::to_owned).collect();
+        *key = Value::List(args.map(ToOwned::to_owned).collect());
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
 
         response::write_list(resp, args);
@@ -82,26 +63,22 @@ impl Set {
 
     fn map(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::map);
-        let map = key.as_map_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_map(resp, &args);
 
-        *map = args;
+        *key = Value::Map(args);
 
         Ok(())
     }
 
     fn set(hop: &Hop, req: &Request, resp: &mut Vec<u8>, key: &[u8]) -> DispatchResult<()> {
         let args = req.typed_args().ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::set);
-        let set = key.as_set_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         response::write_set(resp, &args);
 
-        *set = args;
+        *key = Value::Set(args);
 
         Ok(())
     }
@@ -110,11 +87,8 @@ impl Set {
         let arg = req
             .typed_arg::<&str>(1)
             .ok_or(DispatchError::ArgumentRetrieval)?;
-        hop.state().remove(key);
         let mut key = hop.state().key_or_insert_with(key, Value::string);
-        let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
-
-        *string = arg.to_owned();
+        *key = Value::String(arg.to_owned());
 
         response::write_str(resp, arg);
 
-- 
2.43.0


From d02264d4503d73d0e21ae814cba4f3c237bf8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 07/47] fix: create a float key when incrementing a missing key
 by a float

An integer key was created instead, and the command then failed because of the
type of the key it had just created.
---
 engine/src/command/impl/increment_by.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 7e042de..3b5a4f8 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -11,7 +11,7 @@ impl IncrementBy {
         amount: f64,
         resp: &mut Vec<u8>,
     ) -> DispatchResult<()> {
-        let mut key = hop.state().key_or_insert_with(key, Value::integer);
+        let mut key = hop.state().key_or_insert_with(key, Value::float);
         let float = key.as_float_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         *float += amount;
-- 
2.43.0


From 69f2561db8c9061f215e1b4d2ebaac1dcc1af28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 08/47] fix: fail increments and decrements that overflow an
 integer key

The arithmetic was unchecked: it panicked (or silently wrapped in release
builds) instead of reporting an error.
---
 engine/src/command/impl/decrement_by.rs | 6 +++++-
 engine/src/command/impl/increment_by.rs | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index da4aab2..35dffda 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -12,7 +12,11 @@ impl Dispatch for DecrementBy {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
         if let Some(int) = req.typed_arg::<i64>(1) {
-            IncrementBy::increment_int_by(hop, key, 0 - int, resp)
+            let amount = int
+                .checked_neg()
+                .ok_or(DispatchError::PreconditionFailed)?;
+
+            IncrementBy::increment_int_by(hop, key, amount, resp)
         } else if let Some(float) = req.typed_arg::<f64>(1) {
             IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index 3b5a4f8..bd28728 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -32,7 +32,9 @@ impl IncrementBy {
             .as_integer_mut()
             .ok_or(DispatchError::KeyTypeDifferent)?;
 
-        *int += amount;
+        *int = int
+            .checked_add(amount)
+            .ok_or(DispatchError::PreconditionFailed)?;
 
         response::write_int(resp, *int);
 
-- 
2.43.0


From 335f3c5f99bf27f4404483a6ea6418d481aa062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 09/47] fix: decode the amount of a float increment or
 decrement as a float

The key type of the request was ignored and the amount of a float was always
taken for an integer.
---
 engine/src/command/impl/decrement_by.rs | 12 ++++++++----
 engine/src/command/impl/increment_by.rs | 15 +++++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/engine/src/command/impl/decrement_by.rs b/engine/src/command/impl/decrement_by.rs
index 35dffda..061bfac 100644
--- a/engine/src/command/impl/decrement_by.rs
+++ b/engine/src/command/impl/decrement_by.rs
@@ -2,7 +2,7 @@ use super::{
     super::{Dispatch, DispatchError, DispatchResult, Request},
     increment_by::IncrementBy,
 };
-use crate::Hop;
+use crate::{state::KeyType, Hop};
 use alloc::vec::Vec;
 
 pub struct DecrementBy;
@@ -11,14 +11,18 @@ impl Dispatch for DecrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
+            IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
+        } else if let Some(int) = req.typed_arg::<i64>(1) {
             let amount = int
                 .checked_neg()
                 .ok_or(DispatchError::PreconditionFailed)?;
 
             IncrementBy::increment_int_by(hop, key, amount, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
-            IncrementBy::increment_float_by(hop, key, 0f64 - float, resp)
         } else {
             Err(DispatchError::ArgumentRetrieval)
         }
diff --git a/engine/src/command/impl/increment_by.rs b/engine/src/command/impl/increment_by.rs
index bd28728..99b4ee5 100644
--- a/engine/src/command/impl/increment_by.rs
+++ b/engine/src/command/impl/increment_by.rs
@@ -1,5 +1,8 @@
 use super::super::{response, Dispatch, DispatchError, DispatchResult, Request};
-use crate::{state::Value, Hop};
+use crate::{
+    state::{KeyType, Value},
+    Hop,
+};
 use alloc::vec::Vec;
 
 pub struct IncrementBy;
@@ -46,10 +49,14 @@ impl Dispatch for IncrementBy {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if let Some(int) = req.typed_arg::<i64>(1) {
-            Self::increment_int_by(hop, key, int, resp)
-        } else if let Some(float) = req.typed_arg::<f64>(1) {
+        if req.key_type() == Some(KeyType::Float) {
+            let float = req
+                .typed_arg::<f64>(1)
+                .ok_or(DispatchError::ArgumentRetrieval)?;
+
             Self::increment_float_by(hop, key, float, resp)
+        } else if let Some(int) = req.typed_arg::<i64>(1) {
+            Self::increment_int_by(hop, key, int, resp)
         } else {
             Err(DispatchError::ArgumentRetrieval)
         }
-- 
2.43.0


From afe7745408d306b7ef509fe17f0112c8894a487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 10/47] fix: increment and decrement existing float keys
 without a key type

Increment and decrement work on float and integer keys, but without a key type
in the request an existing float key was refused.
---
 engine/src/command/impl/decrement.rs | 4 +++-
 engine/src/command/impl/increment.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/decrement.rs b/engine/src/command/impl/decrement.rs
index 7056129..d93201c 100644
--- a/engine/src/command/impl/decrement.rs
+++ b/engine/src/command/impl/decrement.rs
@@ -11,7 +11,9 @@ impl Dispatch for Decrement {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
+
+        if key_type == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, -1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, -1, resp)
diff --git a/engine/src/command/impl/increment.rs b/engine/src/command/impl/increment.rs
index 1971901..b79e9c7 100644
--- a/engine/src/command/impl/increment.rs
+++ b/engine/src/command/impl/increment.rs
@@ -11,7 +11,9 @@ impl Dispatch for Increment {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
         let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
 
-        if req.key_type() == Some(KeyType::Float) {
+        let key_type = req.key_type().or_else(|| hop.state().key_type(key));
+
+        if key_type == Some(KeyType::Float) {
             IncrementBy::increment_float_by(hop, key, 1f64, resp)
         } else {
             IncrementBy::increment_int_by(hop, key, 1, resp)
-- 
2.43.0


From 6e1b467b60e59bc4b42a9e8e6a18c2ccc9c75986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 11/47] fix: subscribe sessions to keys that already have a
 subscriber

Only the first session to subscribe to a key was added to the key's sessions,
every other one was told that it was already subscribed.
---
 engine/src/pubsub/manager.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 2c04fde..34f1726 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -40,15 +40,13 @@ impl PubSubManager {
             }
         };
 
-        match self.0.keys.entry(object_key) {
-            Entry::Occupied(_) => None,
-            Entry::Vacant(v) => {
-                let set = v.insert(DashSet::new());
-                set.insert(session_id);
+        self.0
+            .keys
+            .entry(object_key)
+            .or_default()
+            .insert(session_id);
 
-                Some(subscription)
-            }
-        }
+        Some(subscription)
     }
 
     /// Unsubscribes a session by ID from an object key.
-- 
2.43.0


From 8788867b0aea92c79fadd3ec3ba2caba47c53db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 12/47] fix: remove a session from the keys it was subscribed
 to

Removing a session only dropped its own subscriptions and left its ID behind
in the sessions of each key.
---
 engine/src/pubsub/manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 34f1726..acd3685 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -80,8 +80,12 @@ impl PubSubManager {
             .sessions
             .remove(&session_id)
             .map(|(_, subscriptions)| {
-                for (_, sub) in subscriptions.into_iter() {
+                for (key, sub) in subscriptions.into_iter() {
                     sub.close();
+
+                    if let Some(sessions) = self.0.keys.get(&key) {
+                        sessions.remove(&session_id);
+                    }
                 }
             })
             .is_some()
-- 
2.43.0


From db7da70b4c3d2fd84708954832a6fffb16e3aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 13/47] fix: allocate each session ID exactly once

The next ID was read several times before it was stored, so managers cloned to
other threads could hand out the same ID and panic on the occupied entry.
---
 engine/src/session/manager.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index 1516c15..d3d7480 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -27,9 +27,10 @@ impl SessionManager {
     }
 
     pub fn add(&mut self, client_token: [u8; 32]) -> RefMut<'_, u32, Session> {
-        let session = Session::new(client_token, self.next_id());
+        let id = self.0.next_id.fetch_add(1, Ordering::SeqCst);
+        let session = Session::new(client_token, id);
 
-        let value = match self.0.sessions.entry(self.next_id()) {
+        let value = match self.0.sessions.entry(id) {
             Entry::Occupied(_) => {
                 unreachable!();
             }
@@ -38,20 +39,12 @@ impl SessionManager {
 
         self.0.metrics_writer.increment(Metric::SessionsStarted);
 
-        self.0
-            .next_id
-            .store(self.next_id().wrapping_add(1), Ordering::SeqCst);
-
         value
     }
 
     pub fn remove(&self, id: u32) -> bool {
         self.0.sessions.remove(&id).is_some()
     }
-
-    fn next_id(&self) -> u32 {
-        self.0.next_id.load(Ordering::SeqCst)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From f6e2fc8d16ec9e0e19e593243938b181c7e1316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 14/47] fix: count and report the sessions that ended

The metric exists and clients read it, but it was neither counted when a
session was removed nor included in the stats.
---
 engine/src/command/impl/stats.rs | 1 +
 engine/src/session/manager.rs    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/impl/stats.rs b/engine/src/command/impl/stats.rs
index 48e8db5..8126561 100644
--- a/engine/src/command/impl/stats.rs
+++ b/engine/src/command/impl/stats.rs
@@ -11,6 +11,7 @@ impl Stats {
     const COUNTERS: &'static [Metric] = &[
         Metric::CommandsErrored,
         Metric::CommandsSuccessful,
+        Metric::SessionsEnded,
         Metric::SessionsStarted,
     ];
 }
diff --git a/engine/src/session/manager.rs b/engine/src/session/manager.rs
index d3d7480..889ff09 100644
--- a/engine/src/session/manager.rs
+++ b/engine/src/session/manager.rs
@@ -43,7 +43,13 @@ impl SessionManager {
     }
 
     pub fn remove(&self, id: u32) -> bool {
-        self.0.sessions.remove(&id).is_some()
+        let removed = self.0.sessions.remove(&id).is_some();
+
+        if removed {
+            self.0.metrics_writer.increment(Metric::SessionsEnded);
+        }
+
+        removed
     }
 }
 
-- 
2.43.0


From e2a358bb62820547874fb68bb5148ebdbf2d34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 15/47] fix: check for the string variant in Value::is_string

---
 engine/src/state/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/state/value.rs b/engine/src/state/value.rs
index 2254b71..bc904c7 100644
--- a/engine/src/state/value.rs
+++ b/engine/src/state/value.rs
@@ -201,7 +201,7 @@ impl Value {
     }
 
     pub fn is_string(&self) -> bool {
-        matches!(self, Value::Boolean(_))
+        matches!(self, Value::String(_))
     }
 }
 
-- 
2.43.0


From 67903e44d8dcbd625e37fd1052802e3ad639ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 16/47] fix: report the number of remaining arguments as the
 length

The exact size of the arguments iterator was the end of its range, no matter
where it started or how far it had been advanced.
---
 engine/src/command/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index efa2a5f..0483451 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -101,7 +101,7 @@ pub struct Arguments<'a> {
 
 impl ExactSizeIterator for Arguments<'_> {
     fn len(&self) -> usize {
-        self.to
+        self.to.saturating_sub(self.idx)
     }
 }
 
-- 
2.43.0


From 1357e77ffe0eef141bc1a9341c6425de84b45476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 17/47] fix: refuse to append invalid UTF-8 to a string

Such arguments were silently skipped and the append still reported success.
---
 engine/src/command/impl/append.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index ca7a76f..0fbe9cf 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -42,13 +42,15 @@ impl Append {
         resp: &mut Vec<u8>,
         key: &[u8],
     ) -> DispatchResult<()> {
+        let args = args
+            .map(str::from_utf8)
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| DispatchError::ArgumentRetrieval)?;
         let mut key = hop.state().key_or_insert_with(key, Value::string);
         let string = key.as_string_mut().ok_or(DispatchError::KeyTypeDifferent)?;
 
         for arg in args {
-            if let Ok(arg) = str::from_utf8(arg) {
-                string.push_str(arg);
-            }
+            string.push_str(arg);
         }
 
         response::write_str(resp, &string);
-- 
2.43.0


From 612a38b1841b8b49f5ad30c67a110b8a26f4bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 18/47] fix: treat an empty key as an unspecified key

Requests from the network can contain empty arguments, and an empty key ran
into the assertions of the state.
---
 engine/src/command/impl/append.rs | 2 +-
 engine/src/command/request/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/append.rs b/engine/src/command/impl/append.rs
index 0fbe9cf..a4aab2d 100644
--- a/engine/src/command/impl/append.rs
+++ b/engine/src/command/impl/append.rs
@@ -61,7 +61,7 @@ impl Append {
 
 impl Dispatch for Append {
     fn dispatch(hop: &Hop, req: &Request, resp: &mut Vec<u8>) -> DispatchResult<()> {
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
         let args = req.args(1..).ok_or(DispatchError::ArgumentRetrieval)?;
         let key_type = req
             .key_type()
diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index 0483451..e111df0 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -191,7 +191,7 @@ impl<'a> Request<'a> {
             return None;
         }
 
-        self.arg(0)
+        self.arg(0).filter(|key| !key.is_empty())
     }
 
     /// Returns the requested type of key to work with, if any.
-- 
2.43.0


From 9f460bebb8e50f91d76c012120671d8a60bdbc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 19/47] fix: decode empty bytes, list and set responses

The decoder kept waiting for a first item (or failed an assertion), although
empty values are encoded like any other.
---
 engine/src/command/response/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index ba018a7..7861a6c 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -192,7 +192,6 @@ impl Context {
 
     fn stage_bytes(&mut self, buf: &[u8], len: u32) -> Result<Option<Instruction>, ParseError> {
         debug_assert_eq!(self.idx, 9);
-        debug_assert_ne!(len, 0);
 
         let bytes = match buf.get(self.idx..self.idx + len as usize) {
             Some(bytes) => bytes,
@@ -395,6 +394,12 @@ impl Context {
             ResponseType::List => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(
+                        Vec::<Vec<u8>>::new(),
+                    ))));
+                }
+
                 Stage::List {
                     args: Vec::new(),
                     len,
@@ -415,6 +420,10 @@ impl Context {
             ResponseType::Set => {
                 let len = u16::from_be_bytes(bytes.try_into().unwrap());
 
+                if len == 0 {
+                    return Ok(Some(Instruction::Concluded(Response::from(DashSet::new()))));
+                }
+
                 Stage::Set {
                     args: DashSet::new(),
                     len,
-- 
2.43.0


From e3dc9ad25f6ba3d5f2bb18f558938daa16302fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 20/47] fix: don't panic on malformed responses

Unknown error codes were unwrapped even though there are errors for them, and
the number of bytes missing from a truncated length underflowed.
---
 engine/src/command/response/context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 7861a6c..624afc1 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -214,7 +214,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = DispatchError::try_from(byte).unwrap();
+        let variant =
+            DispatchError::try_from(byte).map_err(|_| ParseError::DispatchErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -365,7 +366,8 @@ impl Context {
             None => return Ok(Some(Instruction::ReadBytes(1))),
         };
 
-        let variant = RequestParseError::try_from(byte).unwrap();
+        let variant =
+            RequestParseError::try_from(byte).map_err(|_| ParseError::ParseErrorInvalid)?;
 
         Ok(Some(Instruction::Concluded(Response::from(variant))))
     }
@@ -380,7 +382,7 @@ impl Context {
 
         let bytes = match buf.get(self.idx..self.idx + read_len) {
             Some(bytes) => bytes,
-            None => return Ok(Some(Instruction::ReadBytes(read_len + 1 - buf.len()))),
+            None => return Ok(Some(Instruction::ReadBytes(self.idx + read_len - buf.len()))),
         };
 
         debug_assert_eq!(bytes.len(), read_len);
-- 
2.43.0


From e95b54205c845dd6557dc60647140215d7ed8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 21/47] fix: ask for exactly the missing bytes of maps and sets

End positions were passed as lengths, so more bytes were requested than the
item needs.
---
 engine/src/command/response/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index 624afc1..f57eb6e 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -311,7 +311,7 @@ impl Context {
         let key = match buf.get(key_size_end..key_value_end) {
             Some(key) => key,
             None => {
-                let remaining = remaining_bytes(key_size_end, buf.len(), key_value_end);
+                let remaining = key_value_end - buf.len();
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -322,7 +322,7 @@ impl Context {
         let value_len = match buf.get(key_value_end..value_size_end) {
             Some(value_len) => u32::from_be_bytes(value_len.try_into().unwrap()),
             None => {
-                let remaining = remaining_bytes(self.idx, buf.len(), value_size_end);
+                let remaining = value_size_end - buf.len();
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -333,7 +333,7 @@ impl Context {
         let value = match buf.get(value_size_end..value_end) {
             Some(value) => value,
             None => {
-                let remaining = remaining_bytes(value_size_end, buf.len(), value_end);
+                let remaining = value_end - buf.len();
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
@@ -480,7 +480,7 @@ impl Context {
         let arg = match buf.get(arg_size_end..arg_value_end) {
             Some(arg) => arg,
             None => {
-                let remaining = remaining_bytes(arg_size_end, buf.len(), arg_value_end);
+                let remaining = arg_value_end - buf.len();
 
                 return Ok(Some(Instruction::ReadBytes(remaining)));
             }
-- 
2.43.0


From 0669e15ea502cc2a99cb4f2ed75980ba3b49cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 22/47] fix: return an error when a request would have too many
 arguments

The 256th argument overflowed the argument count, and the up-front check for
lists, maps and sets truncated their length and took a map entry for a single
argument.
---
 engine/src/command/request/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 47562eb..13ebd5c 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -171,7 +171,7 @@ impl RequestBuilder {
             }
             Value::Integer(int) => self.push_argument(Cow::Borrowed(int.to_be_bytes().as_ref()))?,
             Value::List(list) => {
-                if self.arguments_would_overfill(list.len() as u8) {
+                if self.arguments_would_overfill(list.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -184,7 +184,7 @@ impl RequestBuilder {
                 }
             }
             Value::Map(map) => {
-                if self.arguments_would_overfill(map.len() as u8) {
+                if self.arguments_would_overfill(map.len().saturating_mul(2)) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -198,7 +198,7 @@ impl RequestBuilder {
                 }
             }
             Value::Set(set) => {
-                if self.arguments_would_overfill(set.len() as u8) {
+                if self.arguments_would_overfill(set.len()) {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
@@ -222,8 +222,8 @@ impl RequestBuilder {
         Ok(self)
     }
 
-    fn arguments_would_overfill(&self, amount: u8) -> bool {
-        self.argument_count.checked_add(amount).is_none()
+    fn arguments_would_overfill(&self, amount: usize) -> bool {
+        amount > usize::from(u8::MAX - self.argument_count)
     }
 
     fn update_count(&mut self) {
@@ -242,6 +242,10 @@ impl RequestBuilder {
         &mut self,
         argument: impl Into<Cow<'a, [u8]>>,
     ) -> Result<(), RequestBuilderError> {
+        if self.arguments_would_overfill(1) {
+            return Err(RequestBuilderError::TooManyArguments);
+        }
+
         let argument = argument.into();
         let argument_len = argument.len();
 
-- 
2.43.0


From 56e726c6a88b8a426902a700fba92427f675cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 23/47] fix: refuse empty lists in the request builder

This is documented, and done for every other kind of empty value.
---
 engine/src/command/request/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 13ebd5c..560fead 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,6 +175,10 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
+                if list.is_empty() {
+                    return Err(RequestBuilderError::ValueEmpty);
+                }
+
                 for item in list {
                     if item.is_empty() {
                         return Err(RequestBuilderError::ValueEmpty);
-- 
2.43.0


From 9572b46a5b14e20f6c74b169b5987073f2a5d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 24/47] fix: restore the argument count when converting a
 request to a builder

Adding an argument to such a builder reset the argument count to 1.
---
 engine/src/command/request/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 560fead..53f848f 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -287,6 +287,7 @@ impl From<Request<'_>> for RequestBuilder {
         let mut builder = Self::new_with_key_type(request.command_id, request.key_type);
         builder.buf = request.buf.into_owned();
         builder.positions = request.positions.into_owned();
+        builder.argument_count = builder.positions.len() as u8;
 
         builder
     }
-- 
2.43.0


From 5f7601d2df95821cb0e72d5f5a464e285e4b4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 25/47] fix: refuse to add arguments to simple commands

There is no argument count in a simple request, so the first byte of the
argument's length was overwritten and the request was malformed.
---
 engine/src/command/request/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index 53f848f..b8dac2f 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -227,7 +227,8 @@ impl RequestBuilder {
     }
 
     fn arguments_would_overfill(&self, amount: usize) -> bool {
-        amount > usize::from(u8::MAX - self.argument_count)
+        // Simple commands don't have a list of arguments at all.
+        self.command_id.is_simple() || amount > usize::from(u8::MAX - self.argument_count)
     }
 
     fn update_count(&mut self) {
-- 
2.43.0


From 821b9d84e26261e0ba5a38b05053019a26b3dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 26/47] fix: answer requests as soon as they are complete

The server only looked at requests after a newline although the protocol is
binary and clients don't send any, answered at most one request per read and
dropped whatever followed it.
---
 server/src/main.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index ed393e0..299eb24 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -14,7 +14,7 @@ use std::{
     str::FromStr as _,
 };
 use tokio::{
-    io::{AsyncBufReadExt, AsyncWriteExt, BufReader},
+    io::{AsyncReadExt, AsyncWriteExt, BufReader},
     net::{TcpListener, TcpStream},
     stream::StreamExt,
     task,
@@ -87,32 +87,42 @@ async fn handle_socket_inner(socket: TcpStream, hop: Hop) -> Result<(), Box<dyn
     let mut reader = BufReader::new(reader);
     let mut resp = Vec::new();
 
-    while let Ok(size) = reader.read_until(b'\n', &mut input).await {
+    while let Ok(size) = reader.read_buf(&mut input).await {
         // If we get no bytes then we're EOF.
         if size == 0 {
             break;
         }
 
-        match ctx.feed(&input) {
-            Ok(Some(req)) => match hop.dispatch(&req, &mut resp) {
-                Ok(()) => {}
+        // A single read can complete any number of requests.
+        while !input.is_empty() {
+            let consumed = match ctx.feed(&input) {
+                Ok(Some(req)) => {
+                    match hop.dispatch(&req, &mut resp) {
+                        Ok(()) => {}
+                        Err(why) => {
+                            let res = Response::DispatchError(why);
+
+                            res.copy_to(&mut resp);
+                        }
+                    }
+
+                    req.as_bytes().len()
+                }
+                Ok(None) => break,
                 Err(why) => {
-                    let res = Response::DispatchError(why);
+                    let res = Response::ParseError(why);
 
                     res.copy_to(&mut resp);
-                }
-            },
-            Ok(None) => continue,
-            Err(why) => {
-                let res = Response::ParseError(why);
 
-                res.copy_to(&mut resp);
-            }
-        };
+                    // There's no telling where the next request would start.
+                    input.len()
+                }
+            };
 
-        writer.write_all(&resp).await?;
-        resp.clear();
-        input.clear();
+            writer.write_all(&resp).await?;
+            resp.clear();
+            input.drain(..consumed);
+        }
     }
 
     Ok(())
-- 
2.43.0


From b103b17205898bd640bea2aeb49a20c5ed663dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 27/47] fix: keep accepting connections after an accept error

Errors like a connection that was aborted before it was accepted are transient
but shut down the whole server.
---
 server/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/src/main.rs b/server/src/main.rs
index 299eb24..0d0a838 100755
--- a/server/src/main.rs
+++ b/server/src/main.rs
@@ -61,8 +61,13 @@ async fn main() -> Result<(), Box<dyn Error>> {
 
     debug!("Listening for new connections on {}", addr);
 
-    while let Some(Ok(socket)) = incoming.next().await {
-        task::spawn(handle_socket(socket, hop.clone()));
+    while let Some(socket) = incoming.next().await {
+        match socket {
+            Ok(socket) => {
+                task::spawn(handle_socket(socket, hop.clone()));
+            }
+            Err(why) => warn!("Failed to accept a connection: {:?}", why),
+        }
     }
 
     Ok(())
-- 
2.43.0


From eaaf6933ad665273ac105dbcf7136f2c89488ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 28/47] fix: pair responses with requests when a server backend
 is shared

The reader was locked after the request had been written, so two concurrent
requests could read each other's response.
---
 client/src/backend/server.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 9cb7484..67adb0f 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -115,6 +115,10 @@ impl ServerBackend {
     }
 
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
+        // Responses arrive in the order of the requests, so the reader has to be
+        // held on to from before the request is written.
+        let mut reader = self.reader.lock().await;
+
         self.writer
             .lock()
             .await
@@ -125,8 +129,6 @@ impl ServerBackend {
         let mut ctx = Context::new();
         let mut resp = Vec::with_capacity(1);
 
-        let mut reader = self.reader.lock().await;
-
         loop {
             let read_amount = reader
                 .read_exact(&mut resp)
-- 
2.43.0


From bbdbeac9b8f8828af2153e677e6047d47d4f784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 29/47] fix: read responses in the server backend

Reads went into an empty buffer and returned 0 bytes, which was reported as a
closed connection for every request.
---
 client/src/backend/server.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 67adb0f..5193848 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -1,6 +1,6 @@
 use super::Backend;
 use crate::model::StatsData;
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, vec, vec::Vec};
 use async_trait::async_trait;
 use core::{
     convert::TryInto,
@@ -127,11 +127,12 @@ impl ServerBackend {
             .map_err(|source| Error::WritingMessage { source })?;
 
         let mut ctx = Context::new();
-        let mut resp = Vec::with_capacity(1);
+        let mut resp = vec![0];
+        let mut read = 0;
 
         loop {
             let read_amount = reader
-                .read_exact(&mut resp)
+                .read_exact(&mut resp[read..])
                 .await
                 .map_err(|source| Error::ReadingMessage { source })?;
 
@@ -139,6 +140,8 @@ impl ServerBackend {
                 return Err(Error::ConnectionClosed);
             }
 
+            read += read_amount;
+
             match ctx.feed(&resp).unwrap() {
                 Instruction::Concluded(response) => {
                     return match response {
@@ -148,7 +151,7 @@ impl ServerBackend {
                     }
                 }
                 Instruction::ReadBytes(bytes) => {
-                    resp.reserve_exact(bytes);
+                    resp.resize(read + bytes, 0);
                 }
             }
         }
-- 
2.43.0


From d68b943704003546e24f102548286edcee2fa855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 30/47] fix: report malformed responses as an error in the
 server backend

They panicked in the task that was waiting for the response.
---
 client/src/backend/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 5193848..caed6c4 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -142,7 +142,7 @@ impl ServerBackend {
 
             read += read_amount;
 
-            match ctx.feed(&resp).unwrap() {
+            match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
                     return match response {
                         Response::Value(value) => Ok(value),
-- 
2.43.0


From d313daae85f0105f7d4dfff5cdd4eda416c86681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 31/47] fix: send the key type of increment requests to the
 server

The server backend ignored it, unlike the memory backend.
---
 client/src/backend/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index caed6c4..645fa6c 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -292,8 +292,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn increment(&self, key: &[u8], _: Option<KeyType>) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Increment);
+    async fn increment(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Increment, key_type);
         builder.bytes(key)?;
 
         let value = self.send_and_wait(builder).await?;
-- 
2.43.0


From 5f8baa4ca16452b8b9ccda29f9b356f2b93c87d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 32/47] fix: return connection errors from Client::connect

The function already returns a Result, but it panicked when connecting failed.
---
 client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index b3f4459..8e10c47 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -48,7 +48,7 @@ impl Client<backend::ServerBackend> {
     pub async fn connect(
         addrs: impl tokio::net::ToSocketAddrs,
     ) -> Result<Self, <backend::ServerBackend as Backend>::Error> {
-        let backend = backend::ServerBackend::connect(addrs).await.unwrap();
+        let backend = backend::ServerBackend::connect(addrs).await?;
 
         Ok(Self {
             backend: Arc::new(backend),
-- 
2.43.0


From d135b1c35e4988e70e4c846b3d2e8f25923f79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 33/47] fix: return an error when a typed get finds another
 type of key

---
 client/src/backend/memory.rs          | 4 ++--
 client/src/backend/mod.rs             | 2 +-
 client/src/backend/server.rs          | 4 ++--
 client/src/request/get/get_boolean.rs | 4 ++--
 client/src/request/get/get_bytes.rs   | 4 ++--
 client/src/request/get/get_float.rs   | 4 ++--
 client/src/request/get/get_integer.rs | 4 ++--
 client/src/request/get/get_list.rs    | 4 ++--
 client/src/request/get/get_map.rs     | 4 ++--
 client/src/request/get/get_set.rs     | 4 ++--
 client/src/request/get/get_string.rs  | 4 ++--
 client/src/request/get/mod.rs         | 2 +-
 12 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/client/src/backend/memory.rs b/client/src/backend/memory.rs
index 1d00a44..c216280 100644
--- a/client/src/backend/memory.rs
+++ b/client/src/backend/memory.rs
@@ -216,8 +216,8 @@ impl Backend for MemoryBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send(builder)
diff --git a/client/src/backend/mod.rs b/client/src/backend/mod.rs
index df98f63..3483158 100644
--- a/client/src/backend/mod.rs
+++ b/client/src/backend/mod.rs
@@ -52,7 +52,7 @@ pub trait Backend: Send + Sync {
     where
         Self: Sized;
 
-    async fn get(&self, key: &[u8]) -> Result<Value, Self::Error>
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value, Self::Error>
     where
         Self: Sized;
 
diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 645fa6c..3dcf30d 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -264,8 +264,8 @@ impl Backend for ServerBackend {
         }
     }
 
-    async fn get(&self, key: &[u8]) -> Result<Value> {
-        let mut builder = RequestBuilder::new(CommandId::Get);
+    async fn get(&self, key: &[u8], key_type: Option<KeyType>) -> Result<Value> {
+        let mut builder = RequestBuilder::new_with_key_type(CommandId::Get, key_type);
         builder.bytes(key)?;
 
         self.send_and_wait(builder).await
diff --git a/client/src/request/get/get_boolean.rs b/client/src/request/get/get_boolean.rs
index 9a18fa9..dfd34ce 100644
--- a/client/src/request/get/get_boolean.rs
+++ b/client/src/request/get/get_boolean.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a boolean when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Boolean)).await?;
 
                 match value {
                     Value::Boolean(bool) => Ok(bool),
diff --git a/client/src/request/get/get_bytes.rs b/client/src/request/get/get_bytes.rs
index 1d7622f..0f10cb3 100644
--- a/client/src/request/get/get_bytes.rs
+++ b/client/src/request/get/get_bytes.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to bytes when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Bytes)).await?;
 
                 match value {
                     Value::Bytes(bytes) => Ok(bytes),
diff --git a/client/src/request/get/get_float.rs b/client/src/request/get/get_float.rs
index 512960e..dc4c2f4 100644
--- a/client/src/request/get/get_float.rs
+++ b/client/src/request/get/get_float.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a float when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Float)).await?;
 
                 match value {
                     Value::Float(float) => Ok(float),
diff --git a/client/src/request/get/get_integer.rs b/client/src/request/get/get_integer.rs
index 18e1af2..cd09047 100644
--- a/client/src/request/get/get_integer.rs
+++ b/client/src/request/get/get_integer.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to an integer when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Integer)).await?;
 
                 match value {
                     Value::Integer(int) => Ok(int),
diff --git a/client/src/request/get/get_list.rs b/client/src/request/get/get_list.rs
index b4a6fe3..5a0afc6 100644
--- a/client/src/request/get/get_list.rs
+++ b/client/src/request/get/get_list.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a list when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::List)).await?;
 
                 match value {
                     Value::List(list) => Ok(list),
diff --git a/client/src/request/get/get_map.rs b/client/src/request/get/get_map.rs
index 4641c57..fddf6e3 100644
--- a/client/src/request/get/get_map.rs
+++ b/client/src/request/get/get_map.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashMap, state::Value};
+use hop_engine::{dashmap::DashMap, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a map when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Map)).await?;
 
                 match value {
                     Value::Map(map) => Ok(map),
diff --git a/client/src/request/get/get_set.rs b/client/src/request/get/get_set.rs
index 91037c4..a2fee20 100644
--- a/client/src/request/get/get_set.rs
+++ b/client/src/request/get/get_set.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::{dashmap::DashSet, state::Value};
+use hop_engine::{dashmap::DashSet, state::{KeyType, Value}};
 
 /// A configured `get` command that will resolve to a set when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::Set)).await?;
 
                 match value {
                     Value::Set(set) => Ok(set),
diff --git a/client/src/request/get/get_string.rs b/client/src/request/get/get_string.rs
index 02ffc62..fc7c444 100644
--- a/client/src/request/get/get_string.rs
+++ b/client/src/request/get/get_string.rs
@@ -6,7 +6,7 @@ use core::{
     pin::Pin,
     task::{Context, Poll},
 };
-use hop_engine::state::Value;
+use hop_engine::state::{KeyType, Value};
 
 /// A configured `get` command that will resolve to a string when `await`ed.
 ///
@@ -41,7 +41,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin> Futu
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                let value = backend.get(key).await?;
+                let value = backend.get(key, Some(KeyType::String)).await?;
 
                 match value {
                     Value::String(string) => Ok(string),
diff --git a/client/src/request/get/mod.rs b/client/src/request/get/mod.rs
index 770d270..9819d4c 100644
--- a/client/src/request/get/mod.rs
+++ b/client/src/request/get/mod.rs
@@ -281,7 +281,7 @@ impl<'a, B: Backend + Send + Sync + 'static, K: AsRef<[u8]> + Send + Unpin + 'a>
 
             self.fut.replace(Box::pin(async move {
                 let key = key.as_ref();
-                backend.get(key).await
+                backend.get(key, None).await
             }));
         }
 
-- 
2.43.0


From 2eb2b098cbc74c99d1eeb2680fcf929408c3bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 34/47] fix: refuse maps with a key that has no value

---
 engine/src/command/request/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/command/request/mod.rs b/engine/src/command/request/mod.rs
index e111df0..976878f 100644
--- a/engine/src/command/request/mod.rs
+++ b/engine/src/command/request/mod.rs
@@ -66,7 +66,9 @@ impl MultiArgument<'_> for DashMap<Vec<u8>, Vec<u8>> {
     fn convert(mut args: Arguments<'_>) -> Option<Self> {
         let map = DashMap::new();
 
-        while let (Some(k), Some(v)) = (args.next(), args.next()) {
+        while let Some(k) = args.next() {
+            let v = args.next()?;
+
             map.insert(k.to_owned(), v.to_owned());
         }
 
-- 
2.43.0


From 0428701a0ff1500ad51ce6c6ceb7c15d5f4be35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 35/47] fix: don't specify a key type that wasn't in the input
 of the CLI

---
 cli/lib/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 77f9b9a..42180c5 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -69,8 +69,8 @@ pub fn parse(input: &str) -> Result<Request, ParseError> {
         provided_name: cmd_name.to_owned(),
     })?;
 
-    let key_type = key_type.unwrap_or(KeyType::Bytes);
     let mut builder = RequestBuilder::new_with_key_type(cmd_id, key_type);
+    let key_type = key_type.unwrap_or(KeyType::Bytes);
 
     let mut arg_iter = split.peekable();
 
-- 
2.43.0


From 2f5c10ba7dc24f749f2950a8bc0e421f99553827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 36/47] fix: report incomplete maps in the input of the CLI

---
 cli/lib/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/parse.rs b/cli/lib/src/parse.rs
index 42180c5..d7b8370 100644
--- a/cli/lib/src/parse.rs
+++ b/cli/lib/src/parse.rs
@@ -159,7 +159,11 @@ fn input_args<'a>(
             KeyType::Map => {
                 let value = match iter.next() {
                     Some(arg) => arg.as_bytes().to_vec(),
-                    None => break,
+                    None => {
+                        return Err(ParseError::MapIncomplete {
+                            key: arg.to_owned(),
+                        })
+                    }
                 };
 
                 args.push(arg.as_bytes().to_vec());
-- 
2.43.0


From 9162fbed710d1261bfb4530c8ca3dfaab300d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 37/47] fix: only remove the trailing newline of printed lists
 and maps

---
 cli/lib/src/print.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/print.rs b/cli/lib/src/print.rs
index 5342522..6b8899a 100644
--- a/cli/lib/src/print.rs
+++ b/cli/lib/src/print.rs
@@ -21,7 +21,7 @@ pub fn list<T: IntoIterator<Item = U>, U: AsRef<[u8]>>(items: T) -> String {
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
@@ -36,7 +36,7 @@ pub fn map<T: IntoIterator<Item = (U, V)>, U: AsRef<[u8]>, V: AsRef<[u8]>>(pairs
         output.push('\n');
     }
 
-    output.truncate(output.len() - 2);
+    output.pop();
 
     output
 }
-- 
2.43.0


From dc80d5584fb578ad23c362cf2d877a9e66098d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 38/47] fix: name the missing key of a rename in the CLI

---
 cli/lib/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index d3b37ba..4ba1ec6 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -294,10 +294,10 @@ where
         CommandId::Rename => {
             let from = req
                 .key()
-                .ok_or_else(|| InnerProcessError::KeyDestinationRequired)?;
+                .ok_or_else(|| InnerProcessError::KeySourceRequired)?;
             let to = req
                 .arg(1)
-                .ok_or_else(|| InnerProcessError::KeySourceRequired)?;
+                .ok_or_else(|| InnerProcessError::KeyDestinationRequired)?;
 
             let v = client.rename(from, to).await.map_err(backend_err)?;
 
-- 
2.43.0


From 386b32beb6e61094e212f29f4931ea493b983346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 39/47] fix: work with the key type given to commands in the
 CLI

---
 cli/lib/src/process.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 4ba1ec6..84642b5 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -9,7 +9,10 @@ use hop::{
     request::CommandConfigurationError,
     Client,
 };
-use hop_engine::command::{CommandId, DispatchError, Request};
+use hop_engine::{
+    command::{CommandId, DispatchError, Request},
+    state::{KeyType, Value},
+};
 use std::error::Error;
 
 #[derive(Debug)]
@@ -211,7 +214,13 @@ where
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.decrement(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => client.decrement(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.decrement(key).int().await.map(Value::Integer),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => client.decrement(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
@@ -260,14 +269,31 @@ where
         CommandId::Get => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let value = client.get(key).await.map_err(backend_err)?;
+            let value = match req.key_type() {
+                Some(KeyType::Boolean) => client.get(key).bool().await.map(Value::Boolean),
+                Some(KeyType::Bytes) => client.get(key).bytes().await.map(Value::Bytes),
+                Some(KeyType::Float) => client.get(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.get(key).int().await.map(Value::Integer),
+                Some(KeyType::List) => client.get(key).list().await.map(Value::List),
+                Some(KeyType::Map) => client.get(key).map().await.map(Value::Map),
+                Some(KeyType::Set) => client.get(key).set().await.map(Value::Set),
+                Some(KeyType::String) => client.get(key).string().await.map(Value::String),
+                None => client.get(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(value).into())
         }
         CommandId::Increment => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
-            let v = client.increment(key).await.map_err(backend_err)?;
+            let v = match req.key_type() {
+                Some(KeyType::Float) => client.increment(key).float().await.map(Value::Float),
+                Some(KeyType::Integer) => client.increment(key).int().await.map(Value::Integer),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => client.increment(key).await,
+            }
+            .map_err(backend_err)?;
 
             Ok(print::value(v).into())
         }
-- 
2.43.0


From 4faae71eeddb42a3d1ed6215af3704620dbc06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 40/47] fix: run the append, length, set, and increment and
 decrement by commands in the CLI

---
 cli/lib/src/process.rs | 110 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 109 insertions(+), 1 deletion(-)

diff --git a/cli/lib/src/process.rs b/cli/lib/src/process.rs
index 84642b5..b3b25c8 100644
--- a/cli/lib/src/process.rs
+++ b/cli/lib/src/process.rs
@@ -211,6 +211,24 @@ where
     B::Error: Error,
 {
     match req.command_id() {
+        CommandId::Append => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let key_type = req.key_type().unwrap_or(KeyType::Bytes);
+            let addition =
+                value(&req, key_type).ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+            let v = match addition {
+                Value::Bytes(bytes) => client.append(key).bytes(bytes).await.map(Value::Bytes),
+                Value::List(list) => client.append(key).list(list).await.map(Value::List),
+                Value::String(string) => {
+                    client.append(key).string(string).await.map(Value::String)
+                }
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Decrement => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -224,6 +242,31 @@ where
 
             Ok(print::value(v).into())
         }
+        CommandId::DecrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let key_type = req
+                .key_type()
+                .ok_or_else(|| InnerProcessError::KeyTypeRequired)?;
+            let amount =
+                value(&req, key_type).ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+            let v = match amount {
+                Value::Float(amount) => {
+                    let req = client.decrement(key).float().by(amount);
+
+                    req.await.map(Value::Float)
+                }
+                Value::Integer(amount) => {
+                    let req = client.decrement(key).int().by(amount);
+
+                    req.await.map(Value::Integer)
+                }
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Delete => {
             let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
 
@@ -297,6 +340,31 @@ where
 
             Ok(print::value(v).into())
         }
+        CommandId::IncrementBy => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let key_type = req
+                .key_type()
+                .ok_or_else(|| InnerProcessError::KeyTypeRequired)?;
+            let amount =
+                value(&req, key_type).ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+            let v = match amount {
+                Value::Float(amount) => {
+                    let req = client.increment(key).float().by(amount);
+
+                    req.await.map(Value::Float)
+                }
+                Value::Integer(amount) => {
+                    let req = client.increment(key).int().by(amount);
+
+                    req.await.map(Value::Integer)
+                }
+                _ => return Err(InnerProcessError::KeyTypeInvalid),
+            }
+            .map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Is => {
             let key_type = req
                 .key_type()
@@ -317,6 +385,24 @@ where
 
             Ok(print_list(v).into())
         }
+        CommandId::Length => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+
+            let length = client.length(key);
+            let length = match req.key_type() {
+                Some(KeyType::Bytes) => length.bytes(),
+                Some(KeyType::List) => length.list(),
+                Some(KeyType::Map) => length.map(),
+                Some(KeyType::Set) => length.set(),
+                Some(KeyType::String) => length.string(),
+                Some(_) => return Err(InnerProcessError::KeyTypeInvalid),
+                None => length,
+            };
+
+            let length = length.await.map_err(backend_err)?;
+
+            Ok(length.to_string().into())
+        }
         CommandId::Rename => {
             let from = req
                 .key()
@@ -329,6 +415,15 @@ where
 
             Ok(String::from_utf8_lossy(&v).into_owned().into())
         }
+        CommandId::Set => {
+            let key = req.key().ok_or_else(|| InnerProcessError::KeyUnspecified)?;
+            let key_type = req.key_type().unwrap_or(KeyType::Bytes);
+            let value = value(&req, key_type).ok_or_else(|| InnerProcessError::TooFewArguments)?;
+
+            let v = client.set(key).value(value).await.map_err(backend_err)?;
+
+            Ok(print::value(v).into())
+        }
         CommandId::Stats => {
             let stats = client.stats().await.map_err(backend_err)?;
 
@@ -355,10 +450,23 @@ where
 
             Ok(print::key_type_name(key_type).into())
         }
-        _ => panic!(),
     }
 }
 
+/// Retrieve the arguments following the key as a value of the given key type.
+fn value(req: &Request<'_>, key_type: KeyType) -> Option<Value> {
+    Some(match key_type {
+        KeyType::Boolean => Value::Boolean(req.typed_arg(1)?),
+        KeyType::Bytes => Value::Bytes(req.typed_arg::<&[u8]>(1)?.to_vec()),
+        KeyType::Float => Value::Float(req.typed_arg(1)?),
+        KeyType::Integer => Value::Integer(req.typed_arg(1)?),
+        KeyType::List => Value::List(req.args(1..)?.map(<[u8]>::to_vec).collect()),
+        KeyType::Map => Value::Map(req.typed_args()?),
+        KeyType::Set => Value::Set(req.typed_args()?),
+        KeyType::String => Value::String(req.typed_arg::<&str>(1)?.to_owned()),
+    })
+}
+
 fn print_list(list: Vec<Vec<u8>>) -> String {
     list.into_iter()
         .map(|item| String::from_utf8_lossy(&item).into_owned())
-- 
2.43.0


From a08ae2789be0599a6bd1d506157cd97c79164adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 41/47] fix: refuse to rename a key to an empty key

---
 engine/src/command/impl/rename.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/command/impl/rename.rs b/engine/src/command/impl/rename.rs
index 45d6c8c..fee5785 100644
--- a/engine/src/command/impl/rename.rs
+++ b/engine/src/command/impl/rename.rs
@@ -10,8 +10,11 @@ impl Dispatch for Rename {
             return Err(DispatchError::KeyTypeUnexpected);
         }
 
-        let key = req.arg(0).ok_or(DispatchError::KeyUnspecified)?;
-        let arg = req.arg(1).ok_or(DispatchError::ArgumentRetrieval)?;
+        let key = req.key().ok_or(DispatchError::KeyUnspecified)?;
+        let arg = req
+            .arg(1)
+            .filter(|arg| !arg.is_empty())
+            .ok_or(DispatchError::ArgumentRetrieval)?;
         let state = hop.state();
 
         if !state.contains_key(key) {
-- 
2.43.0


From 4c46803792f941ba3a284a6139e079a8e53de79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 42/47] fix: keep the CLI running after a line that fails and
 end it with its input

---
 cli/bin/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/bin/src/main.rs b/cli/bin/src/main.rs
index 4851b5b..2dcf56c 100644
--- a/cli/bin/src/main.rs
+++ b/cli/bin/src/main.rs
@@ -28,9 +28,15 @@ async fn run(
     loop {
         writer.write_all(b"> ").await?;
         writer.flush().await?;
-        reader.read_line(&mut input).await?;
 
-        let mut output = hop_cli::process(&client, input.trim_end()).await?;
+        if reader.read_line(&mut input).await? == 0 {
+            return Ok(());
+        }
+
+        let mut output = match hop_cli::process(&client, input.trim_end()).await {
+            Ok(output) => output,
+            Err(why) => why.to_string().into(),
+        };
         output.to_mut().push('\n');
 
         writer.write_all(output.as_bytes()).await?;
-- 
2.43.0


From eb9276ab1bf226cf001e68882ba3a5d47566907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 43/47] fix: start anew after a malformed response

The decoder stayed where it was in the malformed response and read the next
one from there, so that it was misread or, in a debug build, panicked.
---
 engine/src/command/response/context.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine/src/command/response/context.rs b/engine/src/command/response/context.rs
index f57eb6e..d4bc57d 100644
--- a/engine/src/command/response/context.rs
+++ b/engine/src/command/response/context.rs
@@ -95,6 +95,18 @@ impl Context {
     }
 
     pub fn feed(&mut self, buf: &[u8]) -> Result<Instruction, ParseError> {
+        let result = self.process(buf);
+
+        // What was malformed must not be taken for the start of the next
+        // response.
+        if result.is_err() {
+            self.reset();
+        }
+
+        result
+    }
+
+    fn process(&mut self, buf: &[u8]) -> Result<Instruction, ParseError> {
         loop {
             let instruction = match self.stage {
                 Stage::Init => self.stage_init(buf)?,
-- 
2.43.0


From e22d39f9f584cef4f7a81ad556b38695f4a3e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:05 +0000
Subject: [PATCH 44/47] fix: add nothing of a refused list to the request

---
 engine/src/command/request/builder.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/engine/src/command/request/builder.rs b/engine/src/command/request/builder.rs
index b8dac2f..3fa4cf9 100644
--- a/engine/src/command/request/builder.rs
+++ b/engine/src/command/request/builder.rs
@@ -175,15 +175,11 @@ impl RequestBuilder {
                     return Err(RequestBuilderError::TooManyArguments);
                 }
 
-                if list.is_empty() {
+                if list.is_empty() || list.iter().any(Vec::is_empty) {
                     return Err(RequestBuilderError::ValueEmpty);
                 }
 
                 for item in list {
-                    if item.is_empty() {
-                        return Err(RequestBuilderError::ValueEmpty);
-                    }
-
                     self.push_argument(item)?;
                 }
             }
-- 
2.43.0


From 3138c000c13c69316731580ad9dd5ebcf862df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:50 +0000
Subject: [PATCH 45/47] fix: keep the subscription indexes in agreement while
 they are changed at the same time

---
 engine/src/pubsub/manager.rs | 59 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index acd3685..50140f5 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -54,41 +54,42 @@ impl PubSubManager {
     /// Returns whether unsubscribing was successful. This will only be
     /// unsuccessful if the session wasn't subscribed to the key.
     pub fn unsubscribe(&self, object_key: &[u8], session_id: SessionId) -> bool {
-        let key_unsubbed = self
-            .0
-            .keys
-            .get(object_key)
-            .and_then(|sessions| sessions.remove(&session_id))
-            .is_some();
-        let session_unsubbed = self
-            .0
-            .sessions
-            .get(&session_id)
-            .and_then(|keys| keys.remove(object_key))
-            .is_some();
-
-        // Really either both of these should be true or both false, but we'll
-        // handle state inconsistencies elsewhere...
-        key_unsubbed || session_unsubbed
+        // The session is held until both indexes are changed, so that they can't
+        // come to disagree when the session subscribes at the same time.
+        let keys = match self.0.sessions.get(&session_id) {
+            Some(keys) => keys,
+            None => return false,
+        };
+        let unsubbed = keys.remove(object_key).is_some();
+
+        if let Some(sessions) = self.0.keys.get(object_key) {
+            sessions.remove(&session_id);
+        }
+
+        unsubbed
     }
 
     /// Unsubscribes a session from all of its subscriptions.
     ///
     /// Returns whether the session was subscribed to any channels.
     pub fn remove_session(&self, session_id: SessionId) -> bool {
-        self.0
-            .sessions
-            .remove(&session_id)
-            .map(|(_, subscriptions)| {
-                for (key, sub) in subscriptions.into_iter() {
-                    sub.close();
-
-                    if let Some(sessions) = self.0.keys.get(&key) {
-                        sessions.remove(&session_id);
-                    }
-                }
-            })
-            .is_some()
+        // As with unsubscribing, the session is held until it's left every key.
+        let session = match self.0.sessions.entry(session_id) {
+            Entry::Occupied(session) => session,
+            Entry::Vacant(_) => return false,
+        };
+
+        for sub in session.get().iter() {
+            sub.value().close();
+
+            if let Some(sessions) = self.0.keys.get(sub.key()) {
+                sessions.remove(&session_id);
+            }
+        }
+
+        session.remove();
+
+        true
     }
 }
 
-- 
2.43.0


From 9836dd627757876144ae2922589fb33e681228c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 46/47] fix: answer that an ended session was subscribed only
 if it had subscriptions left

---
 engine/src/pubsub/manager.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/engine/src/pubsub/manager.rs b/engine/src/pubsub/manager.rs
index 50140f5..9d8d527 100644
--- a/engine/src/pubsub/manager.rs
+++ b/engine/src/pubsub/manager.rs
@@ -87,9 +87,8 @@ impl PubSubManager {
             }
         }
 
-        session.remove();
-
-        true
+        // Subscriptions ended one by one leave an empty entry behind.
+        !session.remove().is_empty()
     }
 }
 
-- 
2.43.0


From 49a1aa85ee9bb7c7acf2f8d36eb3d227e7c7e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:39 +0000
Subject: [PATCH 47/47] fix: never take what a failed or dropped request left
 on the connection as the response to the next one

---
 client/src/backend/server.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/client/src/backend/server.rs b/client/src/backend/server.rs
index 3dcf30d..2b643f9 100644
--- a/client/src/backend/server.rs
+++ b/client/src/backend/server.rs
@@ -96,7 +96,8 @@ impl From<RequestBuilderError> for Error {
 
 #[derive(Debug)]
 pub struct ServerBackend {
-    reader: Mutex<BufReader<OwnedReadHalf>>,
+    // Taken while a response is due, and given up if it isn't read whole.
+    reader: Mutex<Option<BufReader<OwnedReadHalf>>>,
     writer: Mutex<OwnedWriteHalf>,
 }
 
@@ -109,7 +110,7 @@ impl ServerBackend {
         let (reader, writer) = stream.into_split();
 
         Ok(Self {
-            reader: Mutex::new(BufReader::new(reader)),
+            reader: Mutex::new(Some(BufReader::new(reader))),
             writer: Mutex::new(writer),
         })
     }
@@ -117,11 +118,15 @@ impl ServerBackend {
     async fn send_and_wait(&self, request: impl Into<Request<'_>>) -> Result<Value> {
         // Responses arrive in the order of the requests, so the reader has to be
         // held on to from before the request is written.
-        let mut reader = self.reader.lock().await;
+        let mut idle_reader = self.reader.lock().await;
+        let mut writer = self.writer.lock().await;
 
-        self.writer
-            .lock()
-            .await
+        // When a request fails or is dropped before its response has been read
+        // whole then what's left of the response would be taken as the response
+        // to the next request, so the connection can't be used any longer.
+        let mut reader = idle_reader.take().ok_or(Error::ConnectionClosed)?;
+
+        writer
             .write_all(request.into().as_bytes())
             .await
             .map_err(|source| Error::WritingMessage { source })?;
@@ -144,6 +149,8 @@ impl ServerBackend {
 
             match ctx.feed(&resp).map_err(|_| Error::BadResponse)? {
                 Instruction::Concluded(response) => {
+                    idle_reader.replace(reader);
+
                     return match response {
                         Response::Value(value) => Ok(value),
                         Response::DispatchError(reason) => Err(Error::Dispatching { reason }),
-- 
2.43.0

