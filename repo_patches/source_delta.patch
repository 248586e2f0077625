From f3f420220c6f50014d007a56985bc65d916930ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 1/6] fix: don't panic when a tag ends before the queried
 component

`NormalLangTag::{script,region,variants,extensions,private_use}` sliced past
the end of the string when the tag stops at the preceding component, e.g.
`LangTag::new("fr").unwrap().script()`.
---
 src/normal/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..b1caa31 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -196,8 +196,11 @@ fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str)
 		i += 1
 	}
 
-	let subtag = &string[offset..];
-	if f(offset, subtag) { string.len() } else { end }
+	// `offset` is out of bounds when nothing follows the previous component.
+	match string.get(offset..) {
+		Some(subtag) if f(offset, subtag) => string.len(),
+		_ => end,
+	}
 }
 
 fn find_segment_end(string: &str, offset: usize) -> usize {
-- 
2.43.0


From 6ba56d9ab9653e7e4030fc738377c02ae9dfc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 2/6] fix: private use subtags start after the extensions

`private_use` returned the extensions as if they were the private use part,
e.g. `a-bbb-x-ccc` for `en-a-bbb-x-ccc`, and `a-bbb` for `en-a-bbb`.
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index b1caa31..ec20cf3 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 50dd7224ac755ed472da94b69567c2b46486c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 3/6] fix: look up extensions ignoring the case of the
 singleton

Language tags are case-insensitive, singletons included: `en-A-foo` and
`en-a-foo` are equal, but only one of them had an `a` extension.
---
 src/normal/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..152ccdf 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,7 +217,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if bytes[i].eq_ignore_ascii_case(&singleton.0) && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 4d66ca7410c1cff3e8faa37fa1968edfc16e9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 4/6] fix: accept primary languages of 4 to 8 letters

`Language::primary` returns them (`abcdef-Latn`), but `PrimaryLanguage`
rejected their text: such a value compared different from its own text and
could be serialized but not deserialized.
---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..d92f0a2 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of any language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..ab771a7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,35 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(
+			self.state,
+			2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32
+		)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0


From a8f87192f96e5c37899e58d52c24ab522ae9b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 5/6] fix: refuse byte strings that are not valid UTF-8

The automata decode UTF-8 leniently, so over-long encodings were accepted
(`LangTag::from_bytes(b"\xC1\xA6\xC1\xB2")`), yielding a `str` that is not
valid UTF-8, which is undefined behavior.
---
 src/ascii.rs                   | 42 ++++++++++++++++++++++++++++++++++
 src/lib.rs                     |  3 ++-
 src/normal/extension.rs        |  6 ++---
 src/normal/language/extlang.rs |  4 ++--
 src/normal/language/mod.rs     |  2 +-
 src/normal/language/primary.rs |  2 +-
 src/normal/mod.rs              |  2 +-
 src/normal/private_use.rs      |  4 ++--
 src/normal/region.rs           |  2 +-
 src/normal/script.rs           |  2 +-
 src/normal/variant.rs          |  4 ++--
 11 files changed, 58 insertions(+), 15 deletions(-)
 create mode 100644 src/ascii.rs

diff --git a/src/ascii.rs b/src/ascii.rs
new file mode 100644
index 0000000..460512b
--- /dev/null
+++ b/src/ascii.rs
@@ -0,0 +1,42 @@
+//! Byte string validation.
+//!
+//! The generated automata decode UTF-8 leniently: they take over-long
+//! encodings for the characters they encode. All the productions are made of
+//! ASCII characters, so it is enough to refuse any other byte.
+use crate::grammar;
+
+macro_rules! automata {
+	($($name:ident),*) => {
+		$(
+			pub struct $name;
+
+			impl $name {
+				pub const fn validate_str(input: &str) -> bool {
+					grammar::$name::validate_str(input)
+				}
+
+				pub const fn validate_bytes(input: &[u8]) -> bool {
+					input.is_ascii() && grammar::$name::validate_bytes(input)
+				}
+			}
+		)*
+	};
+}
+
+automata!(
+	LanguageTag,
+	Privateuse,
+	PrivateuseSubtag,
+	Langtag,
+	Language,
+	Primary,
+	Extlang,
+	ExtlangTag,
+	Script,
+	Region,
+	Variant,
+	Variants,
+	Extension,
+	ExtensionSubtag,
+	Extensions
+);
diff --git a/src/lib.rs b/src/lib.rs
index bd06239..61aff71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -33,6 +33,7 @@
 use core::hash::Hash;
 use static_automata::grammar;
 
+mod ascii;
 mod grandfathered;
 mod normal;
 mod private_use;
@@ -67,7 +68,7 @@ pub(crate) mod grammar {}
 
 /// Any language tag (normal, private use or grandfathered).
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::LanguageTag)]
+#[automaton(crate::ascii::LanguageTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 152ccdf..5e56526 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -107,7 +107,7 @@ impl fmt::Debug for Singleton {
 /// For instance `a-subtag1-subtag2`.
 /// Each subtag of the extension is represented by the [`ExtensionSubtag`] type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extension)]
+#[automaton(crate::ascii::Extension)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -196,7 +196,7 @@ impl<'a> Iterator for ExtensionIter<'a> {
 /// while extension subtags are represented by the [`ExtensionSubtag`]
 /// type.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extensions)]
+#[automaton(crate::ascii::Extensions)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -304,7 +304,7 @@ impl<'a> Iterator for ExtensionsIter<'a> {
 ///
 /// Extension subtag found in a language tag extension.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtensionSubtag)]
+#[automaton(crate::ascii::ExtensionSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/extlang.rs b/src/normal/language/extlang.rs
index 30729f6..134315b 100644
--- a/src/normal/language/extlang.rs
+++ b/src/normal/language/extlang.rs
@@ -14,7 +14,7 @@ use crate::utils;
 /// The type [`ExtendedLangTag`] represents a single extended
 /// language subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Extlang)]
+#[automaton(crate::ascii::Extlang)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -99,7 +99,7 @@ impl<'a> Iterator for LanguageExtensionIter<'a> {
 /// The type [`LanguageExtension`] represents a list of
 /// extended language.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::ExtlangTag)]
+#[automaton(crate::ascii::ExtlangTag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/mod.rs b/src/normal/language/mod.rs
index 8152db2..55757bf 100644
--- a/src/normal/language/mod.rs
+++ b/src/normal/language/mod.rs
@@ -13,7 +13,7 @@ pub use primary::*;
 /// This type represents the primary language subtag (first subtag in a
 /// language tag) and the extended language subtags associated with it.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Language)]
+#[automaton(crate::ascii::Language)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/language/primary.rs b/src/normal/language/primary.rs
index e6e05b5..8387729 100644
--- a/src/normal/language/primary.rs
+++ b/src/normal/language/primary.rs
@@ -6,7 +6,7 @@ use crate::utils;
 ///
 /// The primary language subtag is the first subtag in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Primary)]
+#[automaton(crate::ascii::Primary)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index ec20cf3..fc6d47a 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -18,7 +18,7 @@ pub use variant::*;
 
 /// Normal language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Langtag)]
+#[automaton(crate::ascii::Langtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/private_use.rs b/src/normal/private_use.rs
index fce5b23..400719d 100644
--- a/src/normal/private_use.rs
+++ b/src/normal/private_use.rs
@@ -4,7 +4,7 @@ use crate::utils;
 
 /// Private use.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Privateuse)]
+#[automaton(crate::ascii::Privateuse)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -84,7 +84,7 @@ impl<'a> Iterator for PrivateUseIter<'a> {
 
 /// Private use subtag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::PrivateuseSubtag)]
+#[automaton(crate::ascii::PrivateuseSubtag)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/region.rs b/src/normal/region.rs
index 0ee0da0..bf9e3f4 100644
--- a/src/normal/region.rs
+++ b/src/normal/region.rs
@@ -12,7 +12,7 @@ use crate::utils;
 /// that is appropriate for use throughout a region, for instance,
 /// Spanish content tailored to be useful throughout Latin America.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Region)]
+#[automaton(crate::ascii::Region)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/script.rs b/src/normal/script.rs
index 0660b17..244a901 100644
--- a/src/normal/script.rs
+++ b/src/normal/script.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that distinguish the written forms of a language or its
 /// dialects.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Script)]
+#[automaton(crate::ascii::Script)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
diff --git a/src/normal/variant.rs b/src/normal/variant.rs
index 114b605..e430951 100644
--- a/src/normal/variant.rs
+++ b/src/normal/variant.rs
@@ -8,7 +8,7 @@ use crate::utils;
 /// variations that define a language or its dialects that are not
 /// covered by other available subtags.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variant)]
+#[automaton(crate::ascii::Variant)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
@@ -51,7 +51,7 @@ impl Hash for Variant {
 /// Represents a list of variant subtags separated by a `-` character
 /// as found in a language tag.
 #[derive(static_automata::Validate, str_newtype::StrNewType)]
-#[automaton(crate::grammar::Variants)]
+#[automaton(crate::ascii::Variants)]
 #[newtype(
 	no_deref,
 	ord([u8], &[u8], str, &str)
-- 
2.43.0


From b52dc74ef4ca9aa30774d724b315cd416193f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 6/6] Preemption points for deterministic simulation, behind
 cfg(langtag_sim)

---
 src/grandfathered.rs    |  1 +
 src/lib.rs              | 12 ++++++++++++
 src/normal/extension.rs |  1 +
 src/normal/mod.rs       |  3 +++
 src/sim.rs              | 24 ++++++++++++++++++++++++
 src/utils.rs            |  3 +++
 6 files changed, 44 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/grandfathered.rs b/src/grandfathered.rs
index 4b0b680..9ce17a1 100644
--- a/src/grandfathered.rs
+++ b/src/grandfathered.rs
@@ -136,6 +136,7 @@ impl<'a> TryFrom<&'a [u8]> for GrandfatheredLangTag {
 	#[inline]
 	fn try_from(bytes: &'a [u8]) -> Result<GrandfatheredLangTag, Self::Error> {
 		for tag in &GRANDFATHERED {
+			sim_point!("grandfathered");
 			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
 				return Ok(*tag);
 			}
diff --git a/src/lib.rs b/src/lib.rs
index 61aff71..b3af26f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,10 +29,22 @@
 //! [`LangTag::new`]: crate::LangTag::new
 //! [`LangTagBuf`]: crate::LangTagBuf
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)]
 
 use core::hash::Hash;
 use static_automata::grammar;
 
+/// Marks a preemption point. Does nothing unless built with `--cfg langtag_sim`.
+macro_rules! sim_point {
+	($site:literal) => {
+		#[cfg(langtag_sim)]
+		crate::sim::point($site);
+	};
+}
+
+#[cfg(langtag_sim)]
+pub mod sim;
+
 mod ascii;
 mod grandfathered;
 mod normal;
diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 5e56526..e3d27de 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,6 +217,7 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
+				sim_point!("extension");
 				if bytes[i].eq_ignore_ascii_case(&singleton.0) && bytes[i + 1] == b'-' {
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index fc6d47a..8d961a6 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -184,6 +184,7 @@ fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str)
 	let mut end = i;
 	while i < bytes.len() {
 		if bytes[i] == b'-' {
+			sim_point!("list");
 			let subtag = &string[offset..i];
 			if f(offset, subtag) {
 				end = i;
@@ -206,6 +207,7 @@ fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str)
 fn find_segment_end(string: &str, offset: usize) -> usize {
 	let bytes = string.as_bytes();
 	let mut i = offset;
+	sim_point!("segment_end");
 	while i < bytes.len() {
 		if bytes[i] == b'-' {
 			return i;
@@ -221,6 +223,7 @@ fn find_segment_start(string: &str, end: usize) -> usize {
 	if end > 0 {
 		let bytes = string.as_bytes();
 		let mut i = end - 1;
+		sim_point!("segment_start");
 		loop {
 			if bytes[i] == b'-' {
 				break i + 1;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..edfa514
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,24 @@
+//! Preemption points for deterministic simulation.
+//!
+//! Only compiled with `--cfg langtag_sim`. The simulator registers a function
+//! which is called at each `sim_point!`, on the thread that reached it.
+use core::{
+	mem::transmute,
+	ptr,
+	sync::atomic::{AtomicPtr, Ordering},
+};
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(ptr::null_mut());
+
+/// Sets the function called at each preemption point.
+pub fn set_hook(hook: fn(&'static str)) {
+	HOOK.store(hook as *mut (), Ordering::SeqCst)
+}
+
+pub(crate) fn point(site: &'static str) {
+	let hook = HOOK.load(Ordering::SeqCst);
+	if !hook.is_null() {
+		// SAFETY: only `set_hook` writes `HOOK`.
+		unsafe { transmute::<*mut (), fn(&'static str)>(hook)(site) }
+	}
+}
diff --git a/src/utils.rs b/src/utils.rs
index 497a5bf..d5ea955 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -10,6 +10,7 @@ pub fn into_smallcase(c: u8) -> u8 {
 pub fn case_insensitive_eq(a: &[u8], b: &[u8]) -> bool {
 	if a.len() == b.len() {
 		for i in 0..a.len() {
+			sim_point!("eq");
 			if into_smallcase(a[i]) != into_smallcase(b[i]) {
 				return false;
 			}
@@ -23,6 +24,7 @@ pub fn case_insensitive_eq(a: &[u8], b: &[u8]) -> bool {
 
 pub fn case_insensitive_hash<H: Hasher>(bytes: &[u8], hasher: &mut H) {
 	for b in bytes {
+		sim_point!("hash");
 		into_smallcase(*b).hash(hasher)
 	}
 }
@@ -31,6 +33,7 @@ pub fn case_insensitive_cmp(a: &[u8], b: &[u8]) -> Ordering {
 	let mut i = 0;
 
 	loop {
+		sim_point!("cmp");
 		if a.len() <= i {
 			if b.len() <= i {
 				return Ordering::Equal;
-- 
2.43.0

