From 8ba780351acdcd88fe17a0bd072523629f28ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 1/4] fix: report a failed re-read of hashed storage key data
 instead of panicking

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From 8ab07ca75bd71dc1004595dc1f0e192e92b440a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 2/4] fix: keep every half-word of a u64 bit sequence decoded
 on 32-bit targets

---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From c726189622a148220ef24d08147bdd9d9d655e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 3/4] hook: export the 32-bit u64 bit sequence decoder under
 cfg(substrate_parser_verif)

---
 src/decoding_sci.rs | 60 +++++++++++++++++++++++++++++++++------------
 src/lib.rs          |  2 ++
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..fe3db03 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1,8 +1,8 @@
 //! Decode types and calls using metadata with in-built type descriptors.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 use bitvec::prelude::BitOrder;
 use bitvec::prelude::{BitVec, Lsb0, Msb0};
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 use external_memory_tools::BufferError;
 use external_memory_tools::{AddressableBuffer, ExternalMemory};
 use num_bigint::{BigInt, BigUint};
@@ -906,18 +906,18 @@ pub struct BitVecPositions {
     bitvec_start: usize,
 
     /// Data start position, after bit length compact, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     data_start: usize,
 
     /// Encoded `BitVec` end position.
     pub bitvec_end: usize,
 
     /// Number of bits in `BitVec`, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     bit_length: usize,
 
     /// Number of `BitStore`-sized elements in `BitVec`, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     number_of_elements: usize,
 
     /// Minimal encoded data length.
@@ -964,12 +964,12 @@ impl BitVecPositions {
 
         Ok(Self {
             bitvec_start,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             data_start,
             bitvec_end,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             bit_length,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             number_of_elements,
             minimal_length,
         })
@@ -1000,7 +1000,7 @@ where
 }
 
 /// Provide patch for `BitVec` with `u64` `BitStore` in 32bit targets.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 trait Patched: BitOrder + Sized {
     fn patch_bitvec_u64<B, E>(
         data: &B,
@@ -1013,15 +1013,15 @@ trait Patched: BitOrder + Sized {
 }
 
 /// Bytes in each individual element of `BitVec`, for u64.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 const BYTES_PER_ELEMENT_U64: usize = 8;
 
 /// Bytes in each individual element of `BitVec`, for u32.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 const BYTES_PER_ELEMENT_U32: usize = 4;
 
 /// Implement `Patched` for available `BitOrder` types.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 macro_rules! impl_patched {
     ($($bitorder: ty, $reform_vec_fn: ident), *) => {
         $(
@@ -1073,7 +1073,7 @@ macro_rules! impl_patched {
 }
 
 /// Re-arrange SCALE-encoded data for 64bit `Lsb0` bitvecs.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
     for element in data_chunked.iter() {
@@ -1094,7 +1094,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 }
 
 /// Re-arrange SCALE-encoded data for 64bit `Msb0` bitvecs.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
     for x in data_chunked.iter() {
@@ -1116,12 +1116,40 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     data_reformed
 }
 
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 impl_patched!(Lsb0, reform_vec_lsb0);
 
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 impl_patched!(Msb0, reform_vec_msb0);
 
+/// Verification hook: the `u64` bit sequence decoder of 32-bit targets, `Lsb0`.
+#[cfg(substrate_parser_verif)]
+pub fn verif_patched_bitvec_u64_lsb0<B, E>(
+    data: &B,
+    ext_memory: &mut E,
+    position: &mut usize,
+) -> Result<BitVec<u32, Lsb0>, ParserError<E>>
+where
+    B: AddressableBuffer<E>,
+    E: ExternalMemory,
+{
+    Lsb0::patch_bitvec_u64::<B, E>(data, ext_memory, position)
+}
+
+/// Verification hook: the `u64` bit sequence decoder of 32-bit targets, `Msb0`.
+#[cfg(substrate_parser_verif)]
+pub fn verif_patched_bitvec_u64_msb0<B, E>(
+    data: &B,
+    ext_memory: &mut E,
+    position: &mut usize,
+) -> Result<BitVec<u32, Msb0>, ParserError<E>>
+where
+    B: AddressableBuffer<E>,
+    E: ExternalMemory,
+{
+    Msb0::patch_bitvec_u64::<B, E>(data, ext_memory, position)
+}
+
 /// Type of set element, resolved as completely as possible.
 ///
 /// Elements in set (vector or array) could have complex solvable descriptions.
diff --git a/src/lib.rs b/src/lib.rs
index b74f580..dcdfdb4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -490,6 +490,8 @@
 //! readable Strings.
 #![no_std]
 #![deny(unused_crate_dependencies)]
+// `substrate_parser_verif` is set only by external verification builds
+#![allow(unexpected_cfgs)]
 
 pub use external_memory_tools::{AddressableBuffer, ExternalMemory};
 use parity_scale_codec::{Decode, Encode};
-- 
2.43.0


From 35f8d6e90bd3865f4de40b062b7cdc09c26272e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 4/4] fix: report a memory failure inside a u64-store bit
 sequence on 32-bit targets

A failed read of one of the store elements was reported as data that is
too short.
---
 src/decoding_sci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index fe3db03..2b80537 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1045,6 +1045,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(BufferError::External(e)) => {
+                                return Err(ParserError::Buffer(BufferError::External(e)))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
-- 
2.43.0

