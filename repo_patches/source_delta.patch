From b488933030a8772ed67f9164383916a1cac7e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 01/31] fix: unescape the first escape sequence of a tag value

unescape() kept the first backslash and did not unescape the byte after it.
---
 src/string/tf/escape.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..c1ecf63 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -62,13 +62,13 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
         // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
+        // The first of those bytes is the backslash, so the next one is escaped.
+        let (_, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
-    let mut esc = false;
+    let mut esc = true;
     for byte in rest {
         if esc {
             new_bytes.push(unescape_byte(byte));
-- 
2.43.0


From 89c1e6ebaefb806b8f7776ed5fbdf7f953fdb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 02/31] fix: keep secret tag values secret when (un)escaping
 them

---
 src/string/tf/escape.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index c1ecf63..cd307e9 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -50,7 +50,12 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    let escaped = unsafe { Word::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        escaped.secret()
+    } else {
+        escaped
+    }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -79,5 +84,10 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    let unescaped = unsafe { NoNul::from_unchecked(new_bytes.into()) };
+    if tag_value.is_secret() {
+        unescaped.secret()
+    } else {
+        unescaped
+    }
 }
-- 
2.43.0


From cae8e196a629c1618d699fe0628a19a745c924a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 03/31] fix: do not loop forever on tag keys starting with a
 colon

---
 src/ircmsg/tags.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..96e31a0 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -4,7 +4,7 @@ use crate::{
     names::{MsgTag, NameExtractor},
     string::{
         tf::{escape, unescape},
-        Key, NoNul, Splitter,
+        Key, NoNul, Splitter, Word,
     },
     util::{FlatMap, FlatMapEditGuard},
 };
@@ -73,7 +73,7 @@ impl<'a> Tags<'a> {
     /// Parses the provided semicolon-delimited list of tag strings.
     ///
     /// The provided word should NOT contain the leading '@'.
-    pub fn parse(word: impl Into<crate::string::Word<'a>>) -> Self {
+    pub fn parse(word: impl Into<Word<'a>>) -> Self {
         let word = word.into();
         if word.is_empty() {
             return Tags::new();
@@ -87,6 +87,10 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
+                if splitter.peek_byte() == Some(b':') {
+                    // Not an invalid byte for a key, but no key can start with it.
+                    splitter.save_end().until_byte_eq(b';').rest_or_default::<Word>();
+                }
                 splitter.consume_invalid::<Key>();
                 continue;
             };
-- 
2.43.0


From 1685c15233c203450a84985ac6bfefb18e624f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 04/31] fix: only split arguments on spaces

Tabs and form feeds are valid in arguments, but leading ones were dropped when parsing.
---
 src/ircmsg/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..1ef7d58 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -141,7 +141,8 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Of the bytes in a `Line`, only spaces are invalid for an `Arg`.
+            line.consume_invalid::<Arg>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From d4c21413f45fc5058ec09c8a7d1dbae4e514f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 05/31] fix: reject the empty string in Cmd::from_word

---
 src/string/subtypes/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string/subtypes/impls.rs b/src/string/subtypes/impls.rs
index 93f31b1..4cfa293 100644
--- a/src/string/subtypes/impls.rs
+++ b/src/string/subtypes/impls.rs
@@ -75,6 +75,9 @@ impl<'a> Cmd<'a> {
     /// Tries to convert `word` into an instance of this type, uppercasing where necessary.
     pub fn from_word(word: impl Into<Word<'a>>) -> Result<Self, InvalidString> {
         let mut word = word.into();
+        if word.is_empty() {
+            return Err(InvalidString::Empty);
+        }
         if let Some(inval) = word.iter().find(|b| !b.is_ascii_alphabetic()) {
             return Err(InvalidString::Byte(*inval));
         };
-- 
2.43.0


From d8113b4726b1e148f26a7d2f5258331174c23364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 06/31] fix: find, replace and remove elements added during the
 same FlatMap edit

Lookups missed unsorted elements that sort before a sorted one, accesses to
unsorted elements were out of bounds, and removal operated on the sorted
prefix only, duplicating or losing elements.
---
 src/util/flatmap.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..e5c4d46 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,24 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
-
+    /// Returns the number of elements in `self`.
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    /// Returns true if `self` contains no elements.
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    /// Return a mutable slice of all the elements in the `Vec`, sorted and otherwise.
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +208,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -228,7 +238,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         unsafe { self.src.set_len(sorted_until) };
         let mut ptr = self.src.as_mut_ptr();
         unsafe {
-            ptr = ptr.add(self.real_len);
+            ptr = ptr.add(self.real_len - 1);
             ptr.as_mut().unwrap_unchecked()
         }
     }
@@ -236,7 +246,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +268,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +278,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = std::cmp::min(idx, self.src.len());
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(sorted_until) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From a86dde36685724e7de46488ceab2e51de87cd300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 07/31] fix: do not write past the end of the buffer in
 OwnedSlice::init_capacity

---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From a700fdac4309dc2a3fec7cacdf2c49557db4ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 08/31] fix: keep secret strings secret in make_owning,
 into_utf8_lossy and to_base64_plus

---
 src/string/bytes.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..2c4c1a5 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,7 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            self.owning_force(self.secret);
         }
     }
 }
@@ -164,7 +164,14 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => {
+                let lossy = Bytes::from(o);
+                if self.secret {
+                    lossy.secret()
+                } else {
+                    lossy
+                }
+            }
         }
     }
     #[cfg(feature = "base64")]
@@ -192,7 +199,11 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            if self.secret {
+                crate::names::PLUS.secret()
+            } else {
+                crate::names::PLUS
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
-- 
2.43.0


From 6fd757896437f43acc0c3b5ff8f221fecf430597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 09/31] fix: do not read more bytes than requested in
 SecretBuf::read_from

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..fee324d 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,7 +82,7 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
             let last_read = read.read(write_to)?;
-- 
2.43.0


From 2c4038a5b61ee5e19dd12fdfcff901aca2d89191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 10/31] fix: do not keep an encoding found on a narrowed range
 after restoring a Splitter

---
 src/string/splitter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..471e1e7 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -77,6 +77,9 @@ impl Range {
         }
         if start && end {
             self.encoding = saved.encoding;
+        } else if start || end {
+            // `self.encoding` may describe only part of the restored range.
+            self.encoding = std::cmp::min(self.encoding, saved.encoding);
         }
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
@@ -117,6 +120,10 @@ impl<T: AsRef<[u8]>> Splitter<T> {
     fn check_encoding_inner(&mut self, accept: Encoding) -> Result<(), std::str::Utf8Error> {
         if self.range.encoding < accept {
             let slice = self.range.constrain(self.as_ref());
+            if slice.is_empty() {
+                // Learns nothing about the bytes around the range.
+                return Ok(());
+            }
             let idx = slice.iter().position(|c| !c.is_ascii());
             self.range.encoding = if let Some(idx) = idx {
                 let slice = &slice[idx..];
-- 
2.43.0


From 84d74094f4164b1723c74e30ecf1990e80b8e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 11/31] fix: deserialize numerics from the integers they are
 serialized as

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..24f6a5a 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(try_from = "u16", into = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From d339a4ba0267634f2fbf51c5e757964ceab92bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 12/31] fix: remove modes that type A shares with types C and D
 in ModeTypes::from_sets

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..164ded4 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -333,7 +333,8 @@ impl ModeTypes {
         overlap = overlap.union(b.intersection(c));
         overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
-        overlap = overlap.union(c.intersection(d));
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         (
             ModeTypes([
                 a.difference(overlap),
-- 
2.43.0


From 1982af5fc1088866986321e8f9f2d485b9ed596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 13/31] fix: do not treat missing status prefixes as duplicates
 of each other

---
 src/state/mode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 164ded4..a585ecd 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -474,7 +474,7 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From abf9890d9fa0e5efe67efa53d33471c0451fac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 14/31] fix: suffix nicks with hexadecimal digits, not letters
 past F

---
 src/client/nick/suffix.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..78a360d 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + num - 10,
+                num if !uc && num > 9 => b'a' + num - 10,
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + num - 9,
+                num if !uc && num > 8 => b'a' + num - 9,
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
-- 
2.43.0


From 929efa9713807459c04204f328dcce48377b88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 15/31] fix: do not underflow when every nick suffix is an
 empty choice

---
 src/client/nick/suffix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 78a360d..a5f49d8 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Generators yield at least one nick, even if every suffix is an empty choice.
+                (0, std::cmp::max(limit, 1))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 5aedec11174f787fe1dcaf41fe2bd0551a658bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 16/31] fix: enforce required authentication during
 registration

---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From f79af82f4c3ff72fb7729eb7f2553659928be812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 17/31] fix: split the mechanism list of a 908 on commas

---
 src/client/auth/handler.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..2bdab01 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -221,16 +221,20 @@ impl Handler {
             // Server is telling us something about the supported mechanisms.
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
-                #[allow(clippy::mutable_key_type)]
-                let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
-                self.queue.retain(&|ln| set.contains(ln));
+                let set: std::collections::BTreeSet<&[u8]> = msg
+                    .args
+                    .split_last()
+                    .0
+                    .iter()
+                    .flat_map(|a| a.as_bytes().split(|b| *b == b','))
+                    .collect();
+                self.queue.retain(&|ln| set.contains(ln.as_bytes()));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
                 // cycle to the next authenticator.
                 // However, we can short-circuit this if the queue is empty AND
                 // the authenticator is unsupported.
-                if self.queue.is_empty() && !set.contains(&self.logic.name()) {
+                if self.queue.is_empty() && !set.contains(self.logic.name().as_bytes()) {
                     Err(HandlerError::Unsupported)
                 } else {
                     Ok(false)
-- 
2.43.0


From abb1b9ddc1ad63bf920b5443cbe091541d2b67d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 18/31] fix: only accept the PONG token that was sent by Ping

---
 src/client/handlers/ping.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/client/handlers/ping.rs b/src/client/handlers/ping.rs
index 8ac01b0..eccc5ba 100644
--- a/src/client/handlers/ping.rs
+++ b/src/client/handlers/ping.rs
@@ -34,15 +34,7 @@ impl Handler for Ping {
         if msg.kind == PONG {
             if let Some(last) = msg.args.split_last().1 {
                 let hash = crate::util::mangle(&self.0);
-                let mut value: u32 = 0;
-                for byte in last.as_bytes().iter().cloned() {
-                    if !(b'0'..=b'7').contains(&byte) {
-                        return std::ops::ControlFlow::Continue(());
-                    }
-                    value <<= 3;
-                    value |= (byte - b'0') as u32;
-                }
-                if hash == value {
+                if last.as_bytes() == format!("{hash:o}").as_bytes() {
                     let duration = Instant::now().saturating_duration_since(self.0);
                     let source = msg.source.clone().map(crate::ircmsg::SharedSource::owning_merged);
                     channel.send((source, duration));
-- 
2.43.0


From 96403e9e0fa1e1bbd03dcb6036b9c7b87aefd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 19/31] fix: report EOF inside a message as an unexpected EOF

---
 src/ircmsg/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..97b6f09 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -15,7 +15,7 @@ macro_rules! read_msg {
             if buflen < $limit {
                 let read_count = $limit - buflen;
                 $read.set_limit(read_count as u64);
-                if $read_expr? == 0 {
+                if $read_expr? == 0 || ($buf.len() < $limit && $buf.last() != Some(&b'\n')) {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
             }
-- 
2.43.0


From 23968e3fae24d3fb8595b3eb39d0af7db03af5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:12 +0000
Subject: [PATCH 20/31] fix: strip the line terminator before parsing in the
 tokio codecs

---
 src/ircmsg/codec.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 97b6f09..32fcb02 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -422,6 +422,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::{InvalidString, ParseError},
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -450,6 +451,19 @@ pub(super) mod tokio_codec {
         }
     }
 
+    /// Strips the line terminator off of `line`.
+    fn strip_crlf(line: &[u8]) -> Result<&[u8], ParseError> {
+        let mut line = match line.split_last() {
+            Some((b'\n', line)) => line,
+            Some((b'\0', _)) => return Err(ParseError::InvalidLine(InvalidString::Byte(b'\0'))),
+            _ => return Err(ParseError::TooLong),
+        };
+        while let Some((b'\r', rest)) = line.split_last() {
+            line = rest;
+        }
+        Ok(line)
+    }
+
     pub fn scroll_buf(buf: &mut BytesMut, limit: usize) -> Option<NonZeroUsize> {
         let mut leading_ws = true;
         let mut trimmed_ws = 0usize;
@@ -482,7 +496,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(strip_crlf(&line_raw)?)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -496,7 +510,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(strip_crlf(&line_raw)?)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From fbed47f89c0400948f8f8dad713e1cae78cecb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:26 +0000
Subject: [PATCH 21/31] fix: reset the assumed source length along with the
 rest of the client state

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..a99b73a 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -221,6 +221,7 @@ impl ClientState {
     }
     /// Clears all state.
     pub(super) fn clear(&mut self) {
+        self.source_len = DEFAULT_SOURCE_LEN;
         self.state.clear();
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
-- 
2.43.0


From 627788a23b9569713fec8da964024f2e3196bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:40 +0000
Subject: [PATCH 22/31] fix: zero out the buffers of secret strings when they
 are dropped

---
 src/string/bytes.rs    | 32 ++++++++++++++++----------------
 src/util/ownedslice.rs | 15 +++++++++++++--
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 2c4c1a5..adb52ac 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -66,7 +66,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -106,7 +106,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -164,14 +164,10 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => {
-                let lossy = Bytes::from(o);
-                if self.secret {
-                    lossy.secret()
-                } else {
-                    lossy
-                }
-            }
+            Cow::Owned(o) => unsafe {
+                let (ownership, value) = OwnedBytes::from_vec(o.into_bytes(), self.secret);
+                Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
+            },
         }
     }
     #[cfg(feature = "base64")]
@@ -179,7 +175,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -276,7 +272,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -320,7 +316,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -329,7 +325,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -495,16 +491,20 @@ impl OwnedBytes {
     /// and a slice with an unbound lifetime (which does not).
     ///
     /// Returns `None` and an empty slice if `value` is empty.
+    /// If `secret` is true, the data is zeroed out when it is dropped.
     ///
     /// # Safety
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         if value.is_empty() {
             return (None, &[]);
         }
-        let (os, len) = crate::util::OwnedSlice::from_vec(value);
+        let (mut os, len) = crate::util::OwnedSlice::from_vec(value);
+        if secret {
+            os = os.wipe_on_drop();
+        }
         let slice = unsafe { os.as_slice(len) };
         (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
     }
diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 4174c83..fe7875c 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -4,7 +4,7 @@ use std::ptr::NonNull;
 ///
 /// # Safety
 /// This type doesn't run destructors. It creates unbound lifetimes.
-pub struct OwnedSlice<T>(NonNull<T>, usize);
+pub struct OwnedSlice<T>(NonNull<T>, usize, bool);
 
 unsafe impl<T: Send> Send for OwnedSlice<T> {}
 unsafe impl<T: Sync> Sync for OwnedSlice<T> {}
@@ -21,7 +21,7 @@ impl<T> OwnedSlice<T> {
         let cap = value.capacity();
         // Don't run the Vec's destructor as we're stealing ownership of its data.
         std::mem::forget(value);
-        (OwnedSlice(data, cap), len)
+        (OwnedSlice(data, cap, false), len)
     }
     /// Returns a reference to a slice of the contents.
     ///
@@ -84,6 +84,11 @@ impl<T> OwnedSlice<T> {
 }
 
 impl<T: Default + Copy> OwnedSlice<T> {
+    /// Causes `self`'s buffer to be overwritten with zeroes when dropped.
+    pub fn wipe_on_drop(mut self) -> Self {
+        self.2 = true;
+        self
+    }
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
@@ -115,6 +120,12 @@ impl<T: Default + Copy> OwnedSlice<T> {
 impl<T> Drop for OwnedSlice<T> {
     fn drop(&mut self) {
         unsafe {
+            if self.2 {
+                let start = self.0.as_ptr().cast::<u8>();
+                for idx in 0..self.1 * std::mem::size_of::<T>() {
+                    start.add(idx).write_volatile(0);
+                }
+            }
             std::mem::drop(Vec::from_raw_parts(self.0.as_ptr(), 0, self.1));
         }
     }
-- 
2.43.0


From 04ef39395026a43c763eda11fedec143f9ab0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:35 +0000
Subject: [PATCH 23/31] fix: don't leave an unwiped copy behind in
 SecretBuf::as_bytes

---
 src/string/secretbuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index fee324d..a1fb7b9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -22,7 +22,7 @@ impl SecretBuf {
     }
     /// Allows read-only access to the contents of this buffer through a [`Bytes`].
     pub fn as_bytes(&self) -> Bytes<'_> {
-        Bytes::from(self.as_ref()).secret()
+        Bytes::from_bytes(self.as_ref()).secret()
     }
     /// Effeciently converts `self` into a secret [`Bytes`].
     pub fn into_bytes<'a>(mut self) -> Bytes<'a> {
-- 
2.43.0


From 051a262000ef0cb60152ed5327b639b06b1e37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:35 +0000
Subject: [PATCH 24/31] fix: don't leave unwiped copies of secret tag values
 behind

---
 src/string/tf/escape.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index cd307e9..2725446 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -50,12 +50,9 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    let escaped = unsafe { Word::from_unchecked(new_bytes.into()) };
-    if tag_value.is_secret() {
-        escaped.secret()
-    } else {
-        escaped
-    }
+    let escaped =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { Word::from_unchecked(escaped) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -84,10 +81,7 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    let unescaped = unsafe { NoNul::from_unchecked(new_bytes.into()) };
-    if tag_value.is_secret() {
-        unescaped.secret()
-    } else {
-        unescaped
-    }
+    let unescaped =
+        if tag_value.is_secret() { Bytes::from_secret(new_bytes) } else { new_bytes.into() };
+    unsafe { NoNul::from_unchecked(unescaped) }
 }
-- 
2.43.0


From 1eeb08687b8b48f623283832e78f405a59c860ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:35 +0000
Subject: [PATCH 25/31] fix: don't leave unwiped copies of encoded secrets
 behind in ChunkEncoder

---
 src/string/base64.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/string/base64.rs b/src/string/base64.rs
index a118458..038b6b9 100644
--- a/src/string/base64.rs
+++ b/src/string/base64.rs
@@ -23,13 +23,14 @@ impl ChunkEncoder {
         if max == 0 {
             return ChunkEncoder::empty();
         }
-        let encoded: Bytes<'static> = ENGINE.encode(bytes).into();
+        let encoded = ENGINE.encode(bytes);
         let splitter = if !encoded.is_empty() {
-            let mut encoded = unsafe { Arg::from_unchecked(encoded) };
-            if secret {
-                encoded = encoded.secret();
-            }
-            Ok(Splitter::new(encoded))
+            let encoded: Bytes<'static> = if secret {
+                Bytes::from_secret(encoded.into_bytes())
+            } else {
+                encoded.into()
+            };
+            Ok(Splitter::new(unsafe { Arg::from_unchecked(encoded) }))
         } else {
             Err(secret)
         };
-- 
2.43.0


From bd14c90baba7a3d03d446db3921e3fbd556699f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:37 +0000
Subject: [PATCH 26/31] fix: keep single-nick generators unless their own nick
 is invalid

---
 src/client/nick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..afc8593 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -76,8 +76,8 @@ impl NickGen for Nick<'static> {
     }
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
-        let eq = *nick == *self;
-        eq.then_some(self)
+        let ne = *nick != *self;
+        ne.then_some(self)
     }
 }
 
-- 
2.43.0


From 35da378dcbc5e3deaa9dffe9c4c2f84f361855d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:43 +0000
Subject: [PATCH 27/31] fix: discard an incomplete challenge when switching
 SASL mechanisms

---
 src/client/auth/handler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 2bdab01..31fb8ba 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -125,6 +125,11 @@ impl Handler {
         msg
     }
 
+    /// Switches to another mechanism, discarding any incomplete challenge for the previous one.
+    fn use_logic(&mut self, logic: Box<dyn SaslLogic>) {
+        self.logic = logic;
+        self.decoder = crate::string::base64::ChunkDecoder::new(400);
+    }
     /// Constrains SASL authenticators to only support mechanisms whose names return `true`
     /// when passed to the provided function.
     ///
@@ -138,7 +143,7 @@ impl Handler {
         if supported(&self.logic.name()) {
             None
         } else if let Some(new_logic) = self.queue.pop() {
-            self.logic = new_logic;
+            self.use_logic(new_logic);
             Some(true)
         } else {
             Some(false)
@@ -177,7 +182,7 @@ impl Handler {
                         let name = self.logic.name();
                         self.queue.retain(&|ln| name != *ln);
                         return if let Some(new_logic) = self.queue.pop() {
-                            self.logic = new_logic;
+                            self.use_logic(new_logic);
                             // We can continue, but we need to wait for the server to
                             // acknowledge that we're stopping before sending AUTHENTICATE.
                             Ok(false)
@@ -198,7 +203,7 @@ impl Handler {
                 // In a more account-aware system, could purge all authenticators that are
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
-                    self.logic = next_logic;
+                    self.use_logic(next_logic);
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
-- 
2.43.0


From b8b779338779dc968163c8e52e46d1a5279a2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 28/31] fix: enforce required authentication when logged out
 after the welcome

---
 src/client/register/handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..2437603 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -270,7 +270,9 @@ impl Handler {
             }
         }
         let retval = match msg.kind.as_str() {
-            "001" | "002" | "003" | "004" if self.needs_auth && self.reg.account.is_none() => {
+            "001" | "002" | "003" | "004" | "376" | "422"
+                if self.needs_auth && self.reg.account.is_none() =>
+            {
                 // We hit the end of registration without logging in. Bail!
                 Err(HandlerError::NoLogin)
             }
-- 
2.43.0


From 58b8e41dd614ffc5bde55843db2fca74793b6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:40 +0000
Subject: [PATCH 29/31] fix: read every item of a USERHOST reply, which are
 separated by spaces in its last argument

---
 src/client/handlers/track.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..4bc3fb9 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -95,10 +95,22 @@ impl Handler for TrackClientSource {
         match msg.kind.as_str() {
             // RPL_USERHOST
             "302" => {
-                if let Some([_, items @ ..]) = msg.args.all() {
+                if let ([_, items @ ..], Some(last)) = msg.args.split_last() {
                     let src = get_client_source(state)?;
-                    for item in items {
-                        let userhost = match parse_userhost_item(item.clone(), &src.nick) {
+                    // The last argument is a space-separated list of items.
+                    let mut items = items.iter();
+                    let mut last = crate::string::Splitter::new(last.clone());
+                    loop {
+                        let item = if let Some(item) = items.next() {
+                            item.clone()
+                        } else {
+                            last.consume_whitespace();
+                            match last.string::<Arg>(false) {
+                                Ok(item) => item,
+                                Err(_) => break,
+                            }
+                        };
+                        let userhost = match parse_userhost_item(item, &src.nick) {
                             Ok(uh) => uh,
                             // TODO: Log warning on ParseError?
                             Err(_) => continue,
-- 
2.43.0


From 34b9b28f3efae1a54d6442d05f4e28d2a6115928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:33 +0000
Subject: [PATCH 30/31] fix: keep tracking the client's source when a message
 arrives before its nick is known

---
 src/client/handlers/track.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 4bc3fb9..b0fc065 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -8,7 +8,7 @@ use crate::{
         ClientState, Handler, SelfMadeHandler,
     },
     error::ParseError,
-    ircmsg::{ClientMsg, Source, UserHost},
+    ircmsg::{ClientMsg, UserHost},
     names::cmd::USERHOST,
     string::{Arg, Nick, User, Word},
 };
@@ -31,13 +31,6 @@ impl TrackClientSource {
     }
 }
 
-fn get_client_source(state: &mut ClientState) -> ControlFlow<(), &mut Source<'static>> {
-    match state.get_mut::<ClientSource>() {
-        Some(v) => ControlFlow::Continue(v),
-        None => ControlFlow::Break(()),
-    }
-}
-
 // TODO: Would be nice to extract RPL_USERHOST parsing.
 /// Attempts to parse out the UserHost for `nick` from the args for a RPL_USERHOST.
 ///
@@ -96,7 +89,10 @@ impl Handler for TrackClientSource {
             // RPL_USERHOST
             "302" => {
                 if let ([_, items @ ..], Some(last)) = msg.args.split_last() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Nothing to update until the client's nick is known.
+                        return ControlFlow::Continue(());
+                    };
                     // The last argument is a space-separated list of items.
                     let mut items = items.iter();
                     let mut last = crate::string::Splitter::new(last.clone());
@@ -124,7 +120,10 @@ impl Handler for TrackClientSource {
             }
             "NICK" => {
                 if let Some([nick]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Nothing to update until the client's nick is known.
+                        return ControlFlow::Continue(());
+                    };
                     let Ok(nick) = Nick::from_arg(nick.clone()) else {
                         // TODO: Log warning?
                         return ControlFlow::Continue(());
@@ -141,7 +140,10 @@ impl Handler for TrackClientSource {
             }
             "CHGHOST" => {
                 if let Some([user, host]) = msg.args.all() {
-                    let src = get_client_source(state)?;
+                    let Some(src) = state.get_mut::<ClientSource>() else {
+                        // Nothing to update until the client's nick is known.
+                        return ControlFlow::Continue(());
+                    };
                     match msg.source.as_ref() {
                         Some(m_src) if m_src.nick == src.nick => {
                             let user = match User::from_super(user.clone()) {
-- 
2.43.0


From b1ab9759b949b94d377835304cc596483dd0da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 31/31] fix: answer CTCP queries only when they come by PRIVMSG

---
 src/client/handlers/autoreply.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..c886beb 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -41,6 +41,10 @@ impl Handler for CtcpVersion {
         mut queue: QueueEditGuard<'_>,
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
+        // Only a PRIVMSG may be replied to. In particular, a NOTICE never is.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         // TODO: Should probably consider length limits.
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
-- 
2.43.0

