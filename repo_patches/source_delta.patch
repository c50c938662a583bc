From dc2a3212ffbc7c59407a554e64bb0680edc7bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 01/21] fix: keep Env's `lowercase` setting when a filter or
 map is chained

`Env::raw().lowercase(false).split("_")` silently re-enabled lowercasing.
---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From 45c7711c4534971bffd3bf04775773140bcff2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 02/21] fix: slice escaped strings at byte, not char, indices
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A quoted value with a multi-byte character before its first escape, such as
`"é\n"`, panicked.
---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From efcdfdeceb7869ea3334f3c6ffc048b3f3a2cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 03/21] fix: parse lossy decimals as `f64`

Short decimals were parsed as `f32`, so a lossy extraction of "0.1" as `f64`
resulted in 0.10000000149011612.
---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From 35c80a0be63d764ad5992d01599bae0e68b83f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 04/21] fix: keep every error when chaining onto a chain

`chain()` overwrote the existing tail of `error`: of three failing providers,
the second's error was lost.
---
 src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..aa2ddbe 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,12 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        let mut tail = &mut error;
+        while tail.prev.is_some() {
+            tail = tail.prev.as_deref_mut().unwrap();
+        }
+
+        tail.prev = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From b6389f0b7394e713c03e4845b6d522b64d8c3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 05/21] fix: allow 128-bit integers to be deserialized

Values can hold `u128` and `i128`, but extracting into either failed with
"u128 is not supported".
---
 src/value/de.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..249954b 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -168,6 +168,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
             |e| e.retagged(de.value.tag()).resolved(de.config),
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
         deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
+        deserialize_u128, deserialize_i128,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
@@ -323,7 +324,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -374,7 +375,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +394,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From caaa63b6299be460c7b38c5ec208a2a165b904f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 06/21] fix: attribute sequence element errors to the element

An error raised while deserializing an element, but not by the element's own
visitor, was attributed to the provider of the array as opposed to that of the
element. These differ when arrays are concatenated by adjoin or admerge.
---
 src/value/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 249954b..2339818 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -249,7 +249,7 @@ impl<'v, 'de, D, F> de::SeqAccess<'de> for SeqDe<'v, D, F>
             // item.map_tag(|metadata| metadata.path.push(self.count.to_string()));
             self.len -= 1;
             seed.deserialize((self.make_deserializer)(item))
-                .map_err(|e: Error| e.prefixed(&i.to_string()))
+                .map_err(|e: Error| e.prefixed(&i.to_string()).retagged(item.tag()))
                 .map(Some)
         } else {
             Ok(None)
-- 
2.43.0


From 1edf0f4c4850d0ec55b93c3fbc1276aaa90e1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 07/21] fix: prefix, don't suffix, error paths with the path
 extracted

An error at `bar` from `extract_inner("foo")` is for key `foo.bar`, but was
reported as being for key `bar.foo`.
---
 src/error.rs   | 7 +++++++
 src/figment.rs | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index aa2ddbe..c02ccac 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,13 @@ impl Error {
         self
     }
 
+    pub(crate) fn rooted(mut self, path: &str) -> Self {
+        let inner = std::mem::take(&mut self.path);
+        self = self.with_path(path);
+        self.path.extend(inner);
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..b8a3df6 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.rooted(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.rooted(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From 34af8a230bb40a279ff4846f78ce9db363140bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 08/21] fix: keep the fields of magic types out of error paths

An error extracting a `Tagged` at `port` was reported as being for key
`port.___figment_tagged_value`, and similarly for `RelativePathBuf`.
---
 src/value/de.rs    | 19 +++++++++++++++----
 src/value/magic.rs |  8 ++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 2339818..484328a 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -187,11 +187,22 @@ pub struct MapDe<'m, D, F: Fn(&'m Value) -> D> {
     iter: Iter<'m, String, Value>,
     pair: Option<(&'m String, &'m Value)>,
     make_deserializer: F,
+    magic: bool,
 }
 
 impl<'m, D, F: Fn(&'m Value) -> D> MapDe<'m, D, F> {
     pub fn new(map: &'m Dict, maker: F) -> Self {
-        MapDe { iter: map.iter(), pair: None, make_deserializer: maker }
+        MapDe { iter: map.iter(), pair: None, make_deserializer: maker, magic: false }
+    }
+
+    /// A map whose keys were synthesized for a magic type: they're not part of
+    /// the configuration, so they're kept out of the path of any error.
+    pub fn magic(map: &'m Dict, maker: F) -> Self {
+        MapDe { magic: true, ..MapDe::new(map, maker) }
+    }
+
+    fn prefixed(&self, error: Error, key: &str) -> Error {
+        if self.magic { error } else { error.prefixed(key) }
     }
 }
 
@@ -205,7 +216,7 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
     {
         if let Some((k, v)) = self.iter.next() {
             let result = seed.deserialize(k.as_str().into_deserializer())
-                .map_err(|e: Error| e.prefixed(k).retagged(v.tag()))
+                .map_err(|e: Error| self.prefixed(e, k).retagged(v.tag()))
                 .map(Some);
 
             self.pair = Some((k, v));
@@ -221,7 +232,7 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
         let (key, value) = self.pair.take().expect("visit_value called before visit_key");
         let tag = value.tag();
         seed.deserialize((self.make_deserializer)(value))
-            .map_err(|e: Error| e.prefixed(key).retagged(tag))
+            .map_err(|e: Error| self.prefixed(e, key).retagged(tag))
     }
 }
 
@@ -415,7 +426,7 @@ impl Value {
         let mut map = Dict::new();
         map.insert(Self::FIELDS[0].into(), de.value.tag().into());
         map.insert(Self::FIELDS[1].into(), de.value.clone());
-        visitor.visit_map(MapDe::new(&map, |v| ConfiguredValueDe::<'_, I>::from(de.config, v)))
+        visitor.visit_map(MapDe::magic(&map, |v| ConfiguredValueDe::<'_, I>::from(de.config, v)))
     }
 }
 
diff --git a/src/value/magic.rs b/src/value/magic.rs
index ab37974..c286075 100644
--- a/src/value/magic.rs
+++ b/src/value/magic.rs
@@ -186,7 +186,7 @@ impl Magic for RelativePathBuf {
         if let Some(d) = de.value.as_dict() {
             if let Some(mpv) = d.get(Self::FIELDS[0]) {
                 if mpv.to_empty().is_none() {
-                    let map_de = MapDe::new(d, |v| ConfiguredValueDe::<I>::from(config, v));
+                    let map_de = MapDe::magic(d, |v| ConfiguredValueDe::<I>::from(config, v));
                     return visitor.visit_map(map_de);
                 }
             }
@@ -205,7 +205,7 @@ impl Magic for RelativePathBuf {
         // If we have this struct with no metadata_path, still use the value.
         let value = de.value.find_ref(Self::FIELDS[1]).unwrap_or(de.value);
         map.insert(Self::FIELDS[1].into(), value.clone());
-        visitor.visit_map(MapDe::new(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
+        visitor.visit_map(MapDe::magic(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
     }
 }
 
@@ -584,7 +584,7 @@ impl<T: for<'de> Deserialize<'de>> Magic for Tagged<T> {
         if let Some(dict) = de.value.as_dict() {
             if let Some(tagv) = dict.get(Self::FIELDS[0]) {
                 if let Ok(false) = tagv.deserialize::<Tag>().map(|t| t.is_default()) {
-                    return visitor.visit_map(MapDe::new(dict, |v| {
+                    return visitor.visit_map(MapDe::magic(dict, |v| {
                         ConfiguredValueDe::<I>::from(config, v)
                     }));
                 }
@@ -595,7 +595,7 @@ impl<T: for<'de> Deserialize<'de>> Magic for Tagged<T> {
         let value = de.value.find_ref(Self::FIELDS[1]).unwrap_or(de.value);
         map.insert(Self::FIELDS[0].into(), de.value.tag().into());
         map.insert(Self::FIELDS[1].into(), value.clone());
-        visitor.visit_map(MapDe::new(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
+        visitor.visit_map(MapDe::magic(&map, |v| ConfiguredValueDe::<I>::from(config, v)))
     }
 }
 
-- 
2.43.0


From 978407aaca7b2a6ca0605df45965230666b7561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 09/21] fix: attribute every error of a provider's chain to the
 provider

Only the first error of a chain returned by a provider was attributed to it:
the remaining errors had no metadata.
---
 src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index c02ccac..a17ba70 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -154,8 +154,13 @@ impl Error {
     }
 
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
-        if self.tag.is_default() {
-            self.tag = tag;
+        let mut error = Some(&mut self);
+        while let Some(e) = error {
+            if e.tag.is_default() {
+                e.tag = tag;
+            }
+
+            error = e.prev.as_deref_mut();
         }
 
         self
-- 
2.43.0


From 7f2907b866ca163c07f42eba0673c1a6b5155fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 10/21] fix: don't abort when `Jail::set_env` panics on an
 invalid name

The invalid name was saved before it was set, so restoring it while unwinding
panicked again, which aborts without restoring anything.
---
 src/jail.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..042ccee 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -344,11 +344,11 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
+        let previous = std::env::var_os(key);
+        std::env::set_var(key, v.to_string());
         if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
+            self.saved_env_vars.insert(key.into(), previous);
         }
-
-        std::env::set_var(key, v.to_string());
     }
 }
 
-- 
2.43.0


From a6d5cee48c6b4074937e4ad9b3ba59b3751d2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 11/21] fix: handle `.` and `..` in the base of `diff_paths`

The path to `a/b` from `./x` resulted in `a/../b`, and the path to `a` from
`x/../y` in `../../../a`, neither of which leads to the path.
---
 src/util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13b0930..8788e42 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -71,8 +71,8 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
         return None;
     }
 
-    let mut ita = path.components();
-    let mut itb = base.components();
+    let mut ita = path.components().filter(|c| *c != Component::CurDir);
+    let mut itb = base.components().filter(|c| *c != Component::CurDir);
     let mut comps: Vec<Component> = vec![];
     loop {
         match (ita.next(), itb.next()) {
@@ -82,13 +82,13 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
                 comps.extend(ita.by_ref());
                 break;
             }
-            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
-            (Some(a), Some(Component::CurDir)) => comps.push(a),
-            (Some(_), Some(Component::ParentDir)) => return None,
+            (_, Some(Component::ParentDir)) => return None,
+            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-                for _ in itb {
+                for b in itb {
+                    if b == Component::ParentDir { return None; }
                     comps.push(Component::ParentDir);
                 }
                 comps.push(a);
-- 
2.43.0


From d7090f27ef14f77cbff4e6246d6b813c60c307fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 12/21] Add scheduling points for model checking, behind
 cfg(figment_mc)

---
 src/jail.rs      |   2 +
 src/lib.rs       |   3 +
 src/mc.rs        | 246 +++++++++++++++++++++++++++++++++++++++++++++++
 src/value/tag.rs |   3 +
 4 files changed, 254 insertions(+)
 create mode 100644 src/mc.rs

diff --git a/src/jail.rs b/src/jail.rs
index 042ccee..6ab5570 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -10,6 +10,8 @@ use parking_lot::Mutex;
 
 use crate::error::Result;
 
+#[cfg(figment_mc)] use crate::mc::{std, parking_lot};
+
 // TODO: Clear environment variables before entering this? Will they mess with
 // anything else?
 /// A "sandboxed" environment with isolated env and file system namespace.
diff --git a/src/lib.rs b/src/lib.rs
index b576a98..c63dfdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![cfg_attr(nightly, feature(doc_cfg))]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 //! Semi-hierarchical configuration so con-free, it's unreal.
 //!
@@ -593,6 +594,8 @@ mod provider;
 #[cfg(any(test, feature = "test"))] mod jail;
 #[cfg(any(test, feature = "test"))] pub use jail::Jail;
 
+#[cfg(figment_mc)] #[doc(hidden)] pub mod mc;
+
 #[doc(inline)]
 pub use error::{Error, Result};
 pub use self::figment::Figment;
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..7298520
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,246 @@
+//! Scheduling points for model checking: only with `--cfg figment_mc`.
+//!
+//! An explorer installs a [`Hook`]. It is told of each access to state shared
+//! by threads before the access is made, and may block the calling thread.
+
+#![allow(missing_docs)]
+
+use ::std::sync::OnceLock;
+
+/// Receives the scheduling points of all threads.
+pub trait Hook: Sync {
+    /// The calling thread is about to make the shared access `what`.
+    fn point(&self, what: &'static str);
+
+    /// The calling thread is about to lock the mutex `id`: block until it's
+    /// free to be taken, which the caller then does.
+    fn lock(&self, id: usize);
+
+    /// The calling thread took the mutex `id` without blocking.
+    fn locked(&self, id: usize);
+
+    /// The calling thread released the mutex `id`.
+    fn unlocked(&self, id: usize);
+}
+
+static HOOK: OnceLock<&'static dyn Hook> = OnceLock::new();
+
+/// Installs `hook`, once.
+pub fn install(hook: &'static dyn Hook) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+fn point(what: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook.point(what);
+    }
+}
+
+/// `::std`, with scheduling points.
+#[doc(hidden)]
+pub mod std {
+    pub use ::std::*;
+
+    pub mod env {
+        pub use ::std::env::*;
+
+        use ::std::ffi::{OsStr, OsString};
+        use ::std::{io, path::{Path, PathBuf}};
+
+        pub fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(key: K, value: V) {
+            super::super::point("env::set_var");
+            ::std::env::set_var(key, value)
+        }
+
+        pub fn remove_var<K: AsRef<OsStr>>(key: K) {
+            super::super::point("env::remove_var");
+            ::std::env::remove_var(key)
+        }
+
+        pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
+            super::super::point("env::var_os");
+            ::std::env::var_os(key)
+        }
+
+        pub fn vars_os() -> ::std::env::VarsOs {
+            super::super::point("env::vars_os");
+            ::std::env::vars_os()
+        }
+
+        pub fn current_dir() -> io::Result<PathBuf> {
+            super::super::point("env::current_dir");
+            ::std::env::current_dir()
+        }
+
+        pub fn set_current_dir<P: AsRef<Path>>(path: P) -> io::Result<()> {
+            super::super::point("env::set_current_dir");
+            ::std::env::set_current_dir(path)
+        }
+    }
+
+    pub mod sync {
+        pub use ::std::sync::*;
+
+        pub mod atomic {
+            pub use ::std::sync::atomic::*;
+
+            macro_rules! atomic {
+                ($($Name:ident: $T:ty),*) => ($(
+                    #[derive(Debug, Default)]
+                    #[repr(transparent)]
+                    pub struct $Name(::std::sync::atomic::$Name);
+
+                    impl $Name {
+                        pub const fn new(value: $T) -> Self {
+                            Self(::std::sync::atomic::$Name::new(value))
+                        }
+
+                        pub fn get_mut(&mut self) -> &mut $T {
+                            self.0.get_mut()
+                        }
+
+                        pub fn into_inner(self) -> $T {
+                            self.0.into_inner()
+                        }
+
+                        pub fn load(&self, o: Ordering) -> $T {
+                            crate::mc::point("atomic::load");
+                            self.0.load(o)
+                        }
+
+                        pub fn store(&self, value: $T, o: Ordering) {
+                            crate::mc::point("atomic::store");
+                            self.0.store(value, o)
+                        }
+
+                        pub fn compare_exchange(
+                            &self, old: $T, new: $T, s: Ordering, f: Ordering
+                        ) -> Result<$T, $T> {
+                            crate::mc::point("atomic::compare_exchange");
+                            self.0.compare_exchange(old, new, s, f)
+                        }
+
+                        pub fn compare_exchange_weak(
+                            &self, old: $T, new: $T, s: Ordering, f: Ordering
+                        ) -> Result<$T, $T> {
+                            self.compare_exchange(old, new, s, f)
+                        }
+
+                        pub fn fetch_update<F: FnMut($T) -> Option<$T>>(
+                            &self, s: Ordering, l: Ordering, mut f: F
+                        ) -> Result<$T, $T> {
+                            let mut prev = self.load(l);
+                            while let Some(next) = f(prev) {
+                                match self.compare_exchange(prev, next, s, l) {
+                                    Ok(v) => return Ok(v),
+                                    Err(v) => prev = v,
+                                }
+                            }
+
+                            Err(prev)
+                        }
+
+                        atomic!(@$T: swap fetch_add fetch_sub fetch_max fetch_min
+                            fetch_and fetch_or fetch_xor fetch_nand);
+                    }
+                )*);
+
+                (@$T:ty: $($f:ident)*) => ($(
+                    pub fn $f(&self, value: $T, o: Ordering) -> $T {
+                        crate::mc::point(concat!("atomic::", stringify!($f)));
+                        self.0.$f(value, o)
+                    }
+                )*)
+            }
+
+            atomic!(AtomicU64: u64, AtomicU32: u32, AtomicUsize: usize);
+        }
+    }
+}
+
+/// `::parking_lot`, with scheduling points.
+#[cfg(any(test, feature = "test"))]
+#[doc(hidden)]
+pub mod parking_lot {
+    pub use ::parking_lot::*;
+
+    use ::std::ops::{Deref, DerefMut};
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T: ?Sized>(::parking_lot::Mutex<T>);
+
+    pub const fn const_mutex<T>(value: T) -> Mutex<T> {
+        Mutex(::parking_lot::const_mutex(value))
+    }
+
+    pub struct MutexGuard<'a, T: ?Sized> {
+        guard: Option<::parking_lot::MutexGuard<'a, T>>,
+        id: usize,
+    }
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            const_mutex(value)
+        }
+
+        pub fn into_inner(self) -> T {
+            self.0.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> Mutex<T> {
+        fn id(&self) -> usize {
+            self as *const Self as *const () as usize
+        }
+
+        pub fn lock(&self) -> MutexGuard<'_, T> {
+            if let Some(hook) = super::HOOK.get() {
+                hook.lock(self.id());
+            }
+
+            MutexGuard { guard: Some(self.0.lock()), id: self.id() }
+        }
+
+        pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            super::point("mutex::try_lock");
+            let guard = self.0.try_lock()?;
+            if let Some(hook) = super::HOOK.get() {
+                hook.locked(self.id());
+            }
+
+            Some(MutexGuard { guard: Some(guard), id: self.id() })
+        }
+
+        pub fn is_locked(&self) -> bool {
+            super::point("mutex::is_locked");
+            self.0.is_locked()
+        }
+
+        pub fn get_mut(&mut self) -> &mut T {
+            self.0.get_mut()
+        }
+    }
+
+    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.guard.as_ref().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.guard = None;
+            if let Some(hook) = super::HOOK.get() {
+                hook.unlocked(self.id);
+            }
+        }
+    }
+}
diff --git a/src/value/tag.rs b/src/value/tag.rs
index 6d92d41..fee1759 100644
--- a/src/value/tag.rs
+++ b/src/value/tag.rs
@@ -3,6 +3,9 @@ use std::sync::atomic::Ordering;
 
 use serde::{de, ser};
 use crate::profile::{Profile, ProfileTag};
+
+#[cfg(figment_mc)] use crate::mc::std;
+
 /// An opaque, unique tag identifying a value's [`Metadata`](crate::Metadata)
 /// and profile.
 ///
-- 
2.43.0


From b0a36f8a6f2d301f54be8f43891f84e332ce5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 13/21] fix: apply the merge keys of merged mappings in
 `YamlExtended`

With `b: &b {<<: *a}`, merging `*b` left a literal `<<` key, mapping to `*a`,
in the result, instead of the keys of `*a`.
---
 src/providers/data.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/providers/data.rs b/src/providers/data.rs
index d135de8..637383a 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -604,8 +604,21 @@ impl YamlExtended {
     /// });
     /// ```
     pub fn from_str<'de, T: DeserializeOwned>(s: &'de str) -> serde_yaml::Result<T> {
+        // `Value::apply_merge()` doesn't apply the merges _in_ what it merges,
+        // so apply merges from the inside out.
+        fn apply_merge(value: &mut serde_yaml::Value) -> serde_yaml::Result<()> {
+            match value {
+                serde_yaml::Value::Mapping(map) => map.values_mut().try_for_each(apply_merge)?,
+                serde_yaml::Value::Sequence(seq) => seq.iter_mut().try_for_each(apply_merge)?,
+                serde_yaml::Value::Tagged(tagged) => apply_merge(&mut tagged.value)?,
+                _ => return Ok(()),
+            }
+
+            value.apply_merge()
+        }
+
         let mut value: serde_yaml::Value = serde_yaml::from_str(s)?;
-        value.apply_merge()?;
+        apply_merge(&mut value)?;
         T::deserialize(value)
     }
 }
-- 
2.43.0


From f401e7ab5cdfe1df199b253363e0e05caec7e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 14/21] fix: attribute values tagged by unknown sources to the
 provider

---
 src/figment.rs     | 6 +++++-
 src/value/de.rs    | 2 +-
 src/value/value.rs | 5 +----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/figment.rs b/src/figment.rs
index b8a3df6..632138c 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -158,9 +158,13 @@ impl Figment {
             (Err(e), Ok(_)) => Err(e.retagged(tag)),
             (Err(e), Err(prev)) => Err(e.retagged(tag).chain(prev)),
             (Ok(mut new), Ok(old)) => {
+                // Values tagged by an unknown source are this provider's, too.
+                let known = &self.metadata;
                 new.iter_mut()
                     .flat_map(|(p, map)| std::iter::repeat(p).zip(map.values_mut()))
-                    .for_each(|(p, v)| v.map_tag(|t| *t = tag.for_profile(p)));
+                    .for_each(|(p, v)| v.map_tag(|t| if !known.contains_key(t) {
+                        *t = tag.for_profile(p);
+                    }));
 
                 Ok(old.coalesce(new, order))
             }
diff --git a/src/value/de.rs b/src/value/de.rs
index 484328a..0848149 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -519,7 +519,7 @@ impl<'de> Visitor<'de> for ValueVisitor {
 
         if let Some(mut value) = raw_val {
             if let Some(id) = id {
-                value.0.map_tag(|t| *t = id);
+                value.0.map_tag(|t| if t.is_default() { *t = id });
             }
 
             return Ok(value.0);
diff --git a/src/value/value.rs b/src/value/value.rs
index 162d4bb..edbee52 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -409,10 +409,7 @@ impl Value {
     pub(crate) fn map_tag<F>(&mut self, mut f: F)
         where F: FnMut(&mut Tag) + Copy
     {
-        if *self.tag_mut() == Tag::Default {
-            f(self.tag_mut());
-        }
-
+        f(self.tag_mut());
         match self {
             Value::Dict(_, v) => v.iter_mut().for_each(|(_, v)| v.map_tag(f)),
             Value::Array(_, v) => v.iter_mut().for_each(|v| v.map_tag(f)),
-- 
2.43.0


From 0e81b2dd8f14ff47c04c350ff6fecb4dc1b24f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 15/21] fix: attribute errors tagged by unknown sources to the
 provider

---
 src/error.rs   |  8 ++++++--
 src/figment.rs | 12 +++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index a17ba70..56101c8 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -153,10 +153,14 @@ impl Error {
         self
     }
 
-    pub(crate) fn retagged(mut self, tag: Tag) -> Self {
+    pub(crate) fn retagged(self, tag: Tag) -> Self {
+        self.retagged_if(tag, |t| t.is_default())
+    }
+
+    pub(crate) fn retagged_if(mut self, tag: Tag, f: impl Fn(Tag) -> bool) -> Self {
         let mut error = Some(&mut self);
         while let Some(e) = error {
-            if e.tag.is_default() {
+            if f(e.tag) {
                 e.tag = tag;
             }
 
diff --git a/src/figment.rs b/src/figment.rs
index 632138c..df17202 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -3,7 +3,7 @@ use std::panic::Location;
 use serde::de::Deserialize;
 
 use crate::{Profile, Provider, Metadata};
-use crate::error::{Kind, Result};
+use crate::error::{Error, Kind, Result};
 use crate::value::{Value, Map, Dict, Tag, ConfiguredValueDe, DefaultInterpreter, LossyInterpreter};
 use crate::coalesce::{Coalescible, Order};
 
@@ -153,13 +153,15 @@ impl Figment {
 
         let tag = Tag::next();
         self.metadata.insert(tag, metadata);
+
+        // Values and errors tagged by an unknown source are this provider's, too.
+        let known = &self.metadata;
+        let retag = |e: Error| e.retagged_if(tag, |t| !known.contains_key(&t));
         self.value = match (provider.data(), self.value) {
             (Ok(_), e@Err(_)) => e,
-            (Err(e), Ok(_)) => Err(e.retagged(tag)),
-            (Err(e), Err(prev)) => Err(e.retagged(tag).chain(prev)),
+            (Err(e), Ok(_)) => Err(retag(e)),
+            (Err(e), Err(prev)) => Err(retag(e).chain(prev)),
             (Ok(mut new), Ok(old)) => {
-                // Values tagged by an unknown source are this provider's, too.
-                let known = &self.metadata;
                 new.iter_mut()
                     .flat_map(|(p, map)| std::iter::repeat(p).zip(map.values_mut()))
                     .for_each(|(p, v)| v.map_tag(|t| if !known.contains_key(t) {
-- 
2.43.0


From 9bcd46f7bc14b9d2aff33a10322354def4850722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 16/21] fix: always report the format as human-readable to
 other types

---
 src/value/de.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 0848149..59ac13d 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -43,13 +43,12 @@ impl Interpreter for LossyInterpreter {
 pub struct ConfiguredValueDe<'c, I = DefaultInterpreter> {
     pub config: &'c Figment,
     pub value: &'c Value,
-    pub readable: Cell<bool>,
     _phantom: PhantomData<I>
 }
 
 impl<'c, I: Interpreter> ConfiguredValueDe<'c, I> {
     pub fn from(config: &'c Figment, value: &'c Value) -> Self {
-        Self { config, value, readable: Cell::from(true), _phantom: PhantomData }
+        Self { config, value, _phantom: PhantomData }
     }
 }
 
@@ -157,9 +156,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
     }
 
     fn is_human_readable(&self) -> bool {
-        let val = self.readable.get();
-        self.readable.set(!val);
-        val
+        !PROBING.with(|probing| probing.get())
     }
 
     apply_then_forward_to_deserialize_any! {
@@ -439,11 +436,24 @@ impl<'de> Deserialize<'de> for RawValue {
     }
 }
 
+thread_local! {
+    /// Set while `Value` checks if it is being deserialized by our deserializer.
+    static PROBING: Cell<bool> = Cell::new(false);
+}
+
 impl<'de> Deserialize<'de> for Value {
     fn deserialize<D: Deserializer<'de>>(de: D) -> result::Result<Value, D::Error> {
         // Total hack to "fingerprint" our deserializer by checking if
-        // human_readable changes, which does for ours but shouldn't for others.
-        let (a, b) = (de.is_human_readable(), de.is_human_readable());
+        // human_readable changes when probing, which does for ours but
+        // shouldn't for others.
+        let a = de.is_human_readable();
+        let b = PROBING.with(|probing| {
+            probing.set(true);
+            let readable = de.is_human_readable();
+            probing.set(false);
+            readable
+        });
+
         if a == b {
             de.deserialize_any(ValueVisitor)
         } else {
-- 
2.43.0


From 4625b4a4b855fbe1223cae9b2f16c7d21fab70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 17/21] fix: limit nesting depth of environment values

The recursive parser overflows the stack, aborting the process, when a value
nests arrays or dictionaries deeply, as '[' repeated a few thousand times.
---
 src/providers/env.rs |  5 +++--
 src/value/parse.rs   | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 4005dd6..1ac3414 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -56,8 +56,9 @@ crate::util::cloneable_fn_trait!(
 /// APP_VAR={\"key.key\"=123}`)
 /// ```
 ///
-/// Undelimited strings, or strings with invalid escape sequences, are
-/// interpreted exactly as written without any escaping.
+/// Undelimited strings, strings with invalid escape sequences, or arrays and
+/// dictionaries nested more than 128 levels deep are interpreted exactly as
+/// written without any escaping.
 ///
 /// [key paths]: crate::Figment#extraction
 /// [`Value`]: crate::value::Value
diff --git a/src/value/parse.rs b/src/value/parse.rs
index 4e4d271..7c51d0c 100644
--- a/src/value/parse.rs
+++ b/src/value/parse.rs
@@ -4,8 +4,13 @@ use crate::value::{Value, Dict, escape::escape};
 
 use super::Empty;
 
+/// The maximum depth of nested arrays and dictionaries. Deeper text isn't
+/// parsed so that its length alone can't overflow the stack.
+const MAX_DEPTH: usize = 128;
+
 struct Parser<'a> {
     cursor: &'a str,
+    depth: usize,
 }
 
 #[derive(Debug)]
@@ -14,13 +19,14 @@ pub enum Error {
     Expected(Value),
     Escape(super::escape::Error),
     Eof,
+    Depth,
 }
 
 type Result<T> = std::result::Result<T, Error>;
 
 impl<'a> Parser<'a> {
     fn new(cursor: &'a str) -> Self {
-        Self { cursor }
+        Self { cursor, depth: 0 }
     }
 
     fn peek(&self, c: char) -> bool {
@@ -115,6 +121,11 @@ impl<'a> Parser<'a> {
         self.eat(start)?;
         self.skip_whitespace();
 
+        if self.depth == MAX_DEPTH {
+            return Err(Error::Depth);
+        }
+
+        self.depth += 1;
         while !self.peek(end) {
             collection.extend(Some(value(self)?));
 
@@ -126,6 +137,7 @@ impl<'a> Parser<'a> {
             self.skip_whitespace();
         }
 
+        self.depth -= 1;
         self.eat(end)?;
         Ok(collection)
     }
-- 
2.43.0


From 90d2b3083a517ac463fe28f26c424c1e84caaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 18/21] mc: scheduling points for std's mutex, timed locking

---
 src/mc.rs | 100 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 100 insertions(+)

diff --git a/src/mc.rs b/src/mc.rs
index 7298520..daa2a6b 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -81,6 +81,97 @@ pub mod std {
     pub mod sync {
         pub use ::std::sync::*;
 
+        use ::std::ops::{Deref, DerefMut};
+        use crate::mc::HOOK;
+
+        #[derive(Debug, Default)]
+        pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
+
+        #[derive(Debug)]
+        pub struct MutexGuard<'a, T: ?Sized> {
+            guard: Option<::std::sync::MutexGuard<'a, T>>,
+            id: usize,
+        }
+
+        impl<T> Mutex<T> {
+            pub const fn new(value: T) -> Self {
+                Mutex(::std::sync::Mutex::new(value))
+            }
+
+            pub fn into_inner(self) -> LockResult<T> {
+                self.0.into_inner()
+            }
+        }
+
+        impl<T: ?Sized> Mutex<T> {
+            fn id(&self) -> usize {
+                self as *const Self as *const () as usize
+            }
+
+            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+                if let Some(hook) = HOOK.get() {
+                    hook.lock(self.id());
+                }
+
+                let guard = |g| MutexGuard { guard: Some(g), id: self.id() };
+                self.0.lock().map(guard).map_err(|e| PoisonError::new(guard(e.into_inner())))
+            }
+
+            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+                crate::mc::point("mutex::try_lock");
+                let guard = |g| {
+                    if let Some(hook) = HOOK.get() {
+                        hook.locked(self.id());
+                    }
+
+                    MutexGuard { guard: Some(g), id: self.id() }
+                };
+
+                match self.0.try_lock() {
+                    Ok(g) => Ok(guard(g)),
+                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                    Err(TryLockError::Poisoned(e)) => {
+                        Err(TryLockError::Poisoned(PoisonError::new(guard(e.into_inner()))))
+                    }
+                }
+            }
+
+            pub fn is_poisoned(&self) -> bool {
+                self.0.is_poisoned()
+            }
+
+            pub fn clear_poison(&self) {
+                self.0.clear_poison()
+            }
+
+            pub fn get_mut(&mut self) -> LockResult<&mut T> {
+                self.0.get_mut()
+            }
+        }
+
+        impl<T: ?Sized> Deref for MutexGuard<'_, T> {
+            type Target = T;
+
+            fn deref(&self) -> &T {
+                self.guard.as_ref().unwrap()
+            }
+        }
+
+        impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
+            fn deref_mut(&mut self) -> &mut T {
+                self.guard.as_mut().unwrap()
+            }
+        }
+
+        impl<T: ?Sized> Drop for MutexGuard<'_, T> {
+            fn drop(&mut self) {
+                self.guard = None;
+                if let Some(hook) = HOOK.get() {
+                    hook.unlocked(self.id);
+                }
+            }
+        }
+
         pub mod atomic {
             pub use ::std::sync::atomic::*;
 
@@ -211,6 +302,15 @@ pub mod parking_lot {
             Some(MutexGuard { guard: Some(guard), id: self.id() })
         }
 
+        /// Any time passes at once: either the mutex is free, or it times out.
+        pub fn try_lock_for(&self, _: ::std::time::Duration) -> Option<MutexGuard<'_, T>> {
+            self.try_lock()
+        }
+
+        pub fn try_lock_until(&self, _: ::std::time::Instant) -> Option<MutexGuard<'_, T>> {
+            self.try_lock()
+        }
+
         pub fn is_locked(&self) -> bool {
             super::point("mutex::is_locked");
             self.0.is_locked()
-- 
2.43.0


From e950d4a53536b228a969195ab06c6388f9b0db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:28 +0000
Subject: [PATCH 19/21] fix: keep the name of a tagged value as it is

Tags with dots, as in YAML's `!v1.0 5`, were split into nested dictionaries.
---
 src/value/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 59ac13d..7378f5f 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -540,7 +540,7 @@ impl<'de> Visitor<'de> for ValueVisitor {
 
     fn visit_enum<A: de::EnumAccess<'de>>(self, data: A) -> result::Result<Self::Value, A::Error> {
         let (tag, variant) = data.variant::<String>()?;
-        Ok(crate::util::nest(&tag, variant.newtype_variant()?))
+        Ok(crate::util::map![tag => variant.newtype_variant::<Value>()?].into())
     }
 
     fn visit_none<E: de::Error>(self) -> result::Result<Self::Value, E> {
-- 
2.43.0


From d2ec1a49e14a7c6d864f256bd19d28cf44801ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 20/21] fix: extract maps with newtype and optional keys

A map whose keys are newtypes or options of strings serializes, with the
keys as strings, but its keys could not be deserialized: they were always
presented as strings, never as newtypes or options. Present them as asked.
---
 src/value/de.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 7378f5f..4d19c20 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -212,7 +212,7 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
         where K: de::DeserializeSeed<'de>
     {
         if let Some((k, v)) = self.iter.next() {
-            let result = seed.deserialize(k.as_str().into_deserializer())
+            let result = seed.deserialize(KeyDe(k))
                 .map_err(|e: Error| self.prefixed(e, k).retagged(v.tag()))
                 .map(Some);
 
@@ -233,6 +233,44 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
     }
 }
 
+/// A key: a string, possibly within a newtype or an option.
+struct KeyDe<'k>(&'k str);
+
+impl<'de> Deserializer<'de> for KeyDe<'_> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_str(self.0)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        _: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_enum(self.0.into_deserializer())
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
+        string seq bytes byte_buf map unit struct
+        ignored_any unit_struct tuple_struct tuple identifier
+    }
+}
+
 pub struct SeqDe<'v, D, F: Fn(&'v Value) -> D> {
     iter: std::iter::Enumerate<std::slice::Iter<'v, Value>>,
     len: usize,
-- 
2.43.0


From 68976a111220ee17689ec7e73e749c810dc166ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 21/21] fix: reject enums with the keys of several variants

An enum is a dictionary with its variant as the only key. When there were
more keys, as when one source sets one variant and another, with a higher
priority, another, the alphabetically first one was used, whatever the
others were or who set them. Report the ambiguity instead.
---
 src/value/de.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value/de.rs b/src/value/de.rs
index 4d19c20..7608a0b 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -132,6 +132,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
         let (config, tag) = (self.config, self.value.tag());
         let result = match self.value {
             Value::String(_, s) => v.visit_enum((&**s).into_deserializer()),
+            Value::Dict(_, ref map) if map.len() > 1 => Err(ambiguous_variant()),
             Value::Dict(_, ref map) => {
                 let maker = |v| Self::from(self.config, v);
                 let map_access = MapDe::new(map, maker);
@@ -233,6 +234,12 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
     }
 }
 
+/// An enum's variant is named by the only key of a dictionary: if there are
+/// more, which of the variants is meant isn't known.
+fn ambiguous_variant() -> Error {
+    de::Error::invalid_value(de::Unexpected::Map, &"map with a single key")
+}
+
 /// A key: a string, possibly within a newtype or an option.
 struct KeyDe<'k>(&'k str);
 
@@ -347,6 +354,7 @@ impl<'de> Deserializer<'de> for &Value {
 
         let result = match self {
             Value::String(_, s) => v.visit_enum((&**s).into_deserializer()),
+            Value::Dict(_, ref map) if map.len() > 1 => Err(ambiguous_variant()),
             Value::Dict(_, ref map) => {
                 let map_access = MapDe::new(map, |v| v);
                 v.visit_enum(MapAccessDeserializer::new(map_access))
-- 
2.43.0

