From 021f8c61900d6e38ef1d806b031ef12971319afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 01/12] fix: restore SHA-512 engines from a midstate in 8 byte
 words

from_midstate split the midstate in 4 byte chunks and converted each of
them to a u64, so it panicked for every input (SHA-384 and SHA-512/256
delegate to it).
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 7f56fcd0c478e8eac36680bddcde4b3c40f03859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:20 +0000
Subject: [PATCH 02/12] fix: read the RIPEMD-160 midstate as little-endian
 words

midstate() writes the chaining value little-endian, from_midstate() read
it big-endian, so a restored engine continued from a different state.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 8d5270dbfb4e16fca76d9577470c79bf07c668eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:21 +0000
Subject: [PATCH 03/12] fix: restore the outer HMAC engine with its own length

from_midstate gave the outer engine the number of bytes hashed by the
inner one, so the digest of a restored engine was wrong as soon as any
data followed the key block.
---
 src/hmac.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..3788ce4 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -266,7 +266,8 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            // Until finalization the outer engine has hashed the padded key and nothing else.
+            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
         }
     }
 }
-- 
2.43.0


From da3806311f758b7945bc321bf42e36495bc6b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:21 +0000
Subject: [PATCH 04/12] fix: keep the length when restoring a SipHash engine

from_midstate ignored length, but the final block encodes it, so a
restored engine produced a wrong hash.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From 23215d13ca02d09ed8984756ec831c1f351c5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:02 +0000
Subject: [PATCH 05/12] fix: build with alloc but without std

to_bytes named Vec, which is not in scope in a no_std crate, so every
feature set with alloc and without std failed to compile.
---
 src/hmac.rs            | 2 +-
 src/internal_macros.rs | 2 +-
 src/lib.rs             | 2 +-
 src/sha256t.rs         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 3788ce4..ee85672 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -77,7 +77,7 @@ impl<const N: usize> Hash<N> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..dacf92b 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -213,7 +213,7 @@ macro_rules! hash_type {
             /// Copies the underlying bytes into a new `Vec`.
             #[cfg(feature = "alloc")]
             #[inline]
-            pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+            pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
             /// Returns an all zero hash.
             ///
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..b631757 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
+#[cfg(feature = "alloc")]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..b84c2c5 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -118,7 +118,7 @@ impl<T: Tag> Hash<T> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
-- 
2.43.0


From 64ec45db3dac9b7ca393b02fe7bcc2ff840af893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:13 +0000
Subject: [PATCH 06/12] fix: build with schemars but without std

The JsonSchema impls named String, Box and to_owned, which a no_std crate
does not have in scope; schemars itself always links std.
---
 src/hmac.rs            | 9 +++++----
 src/internal_macros.rs | 9 +++++----
 src/lib.rs             | 3 +++
 src/sha256t.rs         | 9 +++++----
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index ee85672..77a263c 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -89,14 +89,15 @@ impl<const N: usize> Hash<N> {
 
 #[cfg(feature = "schemars")]
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
-    fn schema_name() -> std::string::String { "Hash".to_owned() }
+    fn schema_name() -> std::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <std::string::String>::json_schema(gen).into();
+        schema.string = Some(std::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(N as u32 * 2), // FIXME: Remove cast.
             min_length: Some(N as u32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index dacf92b..6597168 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -225,15 +225,16 @@ macro_rules! hash_type {
 
         #[cfg(feature = "schemars")]
         impl schemars::JsonSchema for Hash {
-            fn schema_name() -> String { "Hash".to_owned() }
+            fn schema_name() -> std::string::String { "Hash".into() }
 
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
-                let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-                schema.string = Some(Box::new(schemars::schema::StringValidation {
+                let mut schema: schemars::schema::SchemaObject =
+                    <std::string::String>::json_schema(gen).into();
+                schema.string = Some(std::boxed::Box::new(schemars::schema::StringValidation {
                     max_length: Some(len * 2),
                     min_length: Some(len * 2),
-                    pattern: Some("[0-9a-fA-F]+".to_owned()),
+                    pattern: Some("[0-9a-fA-F]+".into()),
                 }));
                 schema.into()
             }
diff --git a/src/lib.rs b/src/lib.rs
index b631757..d85e672 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,6 +110,9 @@ pub mod _export {
 
 #[cfg(feature = "schemars")]
 extern crate schemars;
+// `schemars` needs `std`, even if this crate is built without the "std" feature.
+#[cfg(feature = "schemars")]
+extern crate std;
 
 mod internal_macros;
 #[macro_use]
diff --git a/src/sha256t.rs b/src/sha256t.rs
index b84c2c5..235866c 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -130,14 +130,15 @@ impl<T: Tag> Hash<T> {
 
 #[cfg(feature = "schemars")]
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
-    fn schema_name() -> String { "Hash".to_owned() }
+    fn schema_name() -> std::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <std::string::String>::json_schema(gen).into();
+        schema.string = Some(std::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(32 * 2),
             min_length: Some(32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
-- 
2.43.0


From 9efae1fef2b79f091c3692b5b4dfe2583f797d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:14 +0000
Subject: [PATCH 07/12] fix: build with cfg(hashes_fuzz)

The SHA-256 fuzzing stub named an undefined variable.
---
 src/sha256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index b089486..c5f1989 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -74,7 +74,7 @@ impl HashEngine for Engine {
 
     #[cfg(hashes_fuzz)]
     fn finalize(mut self) -> Self::Digest {
-        let mut hash = e.midstate().to_byte_array();
+        let mut hash = self.midstate().to_byte_array();
         if hash == [0; 32] {
             // Assume sha256 is secure and never generate 0-hashes (which represent invalid
             // secp256k1 secret keys, causing downstream application breakage).
-- 
2.43.0


From 93c93bb768ca4ca724173ee7752dce6088a65bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:19 +0000
Subject: [PATCH 08/12] fix: do not share one JSON schema definition between
 hash types

Every hash type is named "Hash", so in a schema with more than one of
them all but the first got the first one's definition, whose length
rejects their values. Inline the schema instead.
---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index 77a263c..6439e6c 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -91,6 +91,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> std::string::String { "Hash".into() }
 
+    // All hash types share a name, inline the schema so that they do not share a definition.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <std::string::String>::json_schema(gen).into();
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index 6597168..97aa1c2 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> std::string::String { "Hash".into() }
 
+            // All hash types share a name, inline the schema so that they do not share a definition.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject =
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 235866c..6a21f3c 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> std::string::String { "Hash".into() }
 
+    // All hash types share a name, inline the schema so that they do not share a definition.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <std::string::String>::json_schema(gen).into();
-- 
2.43.0


From aa04668f6b2157622979a7936eeb549ad01385eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:45 +0000
Subject: [PATCH 09/12] fix: restore the outer HMAC engine of a tagged or
 nested hash

The engine of a tagged hash (or of an HMAC) does not start at length zero, take
that into account for the length of the restored outer engine.
---
 src/hmac.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 6439e6c..b2a8cea 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -270,8 +270,9 @@ impl<E: HashEngine> HashEngine for Engine<E> {
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            // Until finalization the outer engine has hashed the padded key and nothing else.
-            oengine: E::from_midstate(midstate.outer, E::BLOCK_SIZE),
+            // Until finalization the outer engine has hashed the padded key and nothing else (apart
+            // from what a new engine starts with e.g., the tag of a tagged hash).
+            oengine: E::from_midstate(midstate.outer, E::new().n_bytes_hashed() + E::BLOCK_SIZE),
         }
     }
 }
-- 
2.43.0


From a8dd314f51615c8c1b24a04ae58d4b4ee949627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 10/12] fix: format HMAC hashes correctly with a precision

Formatting an hmac::Hash with a precision printed upper case as lower case, a
wrong last digit if the precision was odd, and a wrong number of digits or wrong
padding in corner cases. Pad and truncate the encoded string as a whole.
---
 src/hmac.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index b2a8cea..0c6af86 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -10,7 +10,8 @@
 
 use core::{fmt, ops, str};
 
-use hex::DisplayHex;
+use hex::buf_encoder::BufEncoder;
+use hex::{Case, DisplayHex};
 
 use crate::{FromSliceError, HashEngine};
 
@@ -85,6 +86,23 @@ impl<const N: usize> Hash<N> {
     /// create it, however it is used in various places in Bitcoin e.g., the Bitcoin genesis
     /// block's previous blockhash and the coinbase transaction's outpoint txid.
     pub fn all_zeros() -> Self { Self([0x00; N]) }
+
+    // FIXME: Can't use hex_fmt_exact because of N.
+    //
+    // The `as_hex` formatting ignores the case and prints a wrong digit if there is a precision.
+    fn fmt_hex(&self, f: &mut fmt::Formatter, case: Case) -> fmt::Result {
+        const MAX: usize = 128; // Larger than any digest.
+
+        if N > MAX {
+            return match case {
+                Case::Lower => fmt::LowerHex::fmt(&self.0.as_hex(), f),
+                Case::Upper => fmt::UpperHex::fmt(&self.0.as_hex(), f),
+            };
+        }
+        let mut encoder = BufEncoder::<{ MAX * 2 }>::new();
+        encoder.put_bytes(self.0.iter(), case);
+        f.pad(encoder.as_str())
+    }
 }
 
 #[cfg(feature = "schemars")]
@@ -125,17 +143,11 @@ impl<const N: usize> fmt::Debug for Hash<N> {
 }
 
 impl<const N: usize> fmt::LowerHex for Hash<N> {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::LowerHex::fmt(&self.0.as_hex(), f)
-    }
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, Case::Lower) }
 }
 
 impl<const N: usize> fmt::UpperHex for Hash<N> {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::UpperHex::fmt(&self.0.as_hex(), f)
-    }
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, Case::Upper) }
 }
 impl<const N: usize> ops::Index<usize> for Hash<N> {
     type Output = u8;
-- 
2.43.0


From 57a58b1174e4b47cc2ee95779a7252e0c84e0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:37 +0000
Subject: [PATCH 11/12] fix: keep SipHash loads within the slice's provenance

load_int_le! copied up to 8 bytes through a pointer made from a reference to a
single element, which is undefined behaviour under Stacked Borrows (Miri reports
it for every hashed message of 8 or more bytes). Take the pointer from the slice.
---
 src/siphash24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 64164d0..132a85c 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -43,7 +43,7 @@ macro_rules! load_int_le {
         debug_assert!($i + mem::size_of::<$int_ty>() <= $buf.len());
         let mut data = 0 as $int_ty;
         ptr::copy_nonoverlapping(
-            $buf.get_unchecked($i),
+            $buf.as_ptr().add($i),
             &mut data as *mut _ as *mut u8,
             mem::size_of::<$int_ty>(),
         );
-- 
2.43.0


From 5d5352857c33b3c27f3229a0a87a9633e0f089f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:44 +0000
Subject: [PATCH 12/12] fix: format HMAC hashes of any length correctly with a
 precision

Hashes of more than 128 bytes still went through as_hex, which prints a wrong digit for an odd
precision and ignores the case of that digit.
---
 src/hmac.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 0c6af86..eb3ed5c 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -10,9 +10,6 @@
 
 use core::{fmt, ops, str};
 
-use hex::buf_encoder::BufEncoder;
-use hex::{Case, DisplayHex};
-
 use crate::{FromSliceError, HashEngine};
 
 /// A hash computed from a RFC 2104 HMAC. Parameterized by the size of the underlying hash function.
@@ -90,18 +87,29 @@ impl<const N: usize> Hash<N> {
     // FIXME: Can't use hex_fmt_exact because of N.
     //
     // The `as_hex` formatting ignores the case and prints a wrong digit if there is a precision.
-    fn fmt_hex(&self, f: &mut fmt::Formatter, case: Case) -> fmt::Result {
-        const MAX: usize = 128; // Larger than any digest.
-
-        if N > MAX {
-            return match case {
-                Case::Lower => fmt::LowerHex::fmt(&self.0.as_hex(), f),
-                Case::Upper => fmt::UpperHex::fmt(&self.0.as_hex(), f),
-            };
+    fn fmt_hex(&self, f: &mut fmt::Formatter, digits: &[u8; 16]) -> fmt::Result {
+        use fmt::Write;
+
+        let len = f.precision().map_or(N * 2, |precision| core::cmp::min(precision, N * 2));
+        let padding = f.width().map_or(0, |width| width.saturating_sub(len));
+        let (before, after) = match f.align() {
+            Some(fmt::Alignment::Right) => (padding, 0),
+            Some(fmt::Alignment::Center) => (padding / 2, padding - padding / 2),
+            Some(fmt::Alignment::Left) | None => (0, padding),
+        };
+        let fill = f.fill();
+
+        for _ in 0..before {
+            f.write_char(fill)?;
+        }
+        for i in 0..len {
+            let shift = if i % 2 == 0 { 4 } else { 0 };
+            f.write_char(digits[usize::from(self.0[i / 2] >> shift & 0xf)].into())?;
+        }
+        for _ in 0..after {
+            f.write_char(fill)?;
         }
-        let mut encoder = BufEncoder::<{ MAX * 2 }>::new();
-        encoder.put_bytes(self.0.iter(), case);
-        f.pad(encoder.as_str())
+        Ok(())
     }
 }
 
@@ -143,11 +151,11 @@ impl<const N: usize> fmt::Debug for Hash<N> {
 }
 
 impl<const N: usize> fmt::LowerHex for Hash<N> {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, Case::Lower) }
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, b"0123456789abcdef") }
 }
 
 impl<const N: usize> fmt::UpperHex for Hash<N> {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, Case::Upper) }
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.fmt_hex(f, b"0123456789ABCDEF") }
 }
 impl<const N: usize> ops::Index<usize> for Hash<N> {
     type Output = u8;
-- 
2.43.0

