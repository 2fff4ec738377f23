From 9e3c3aa47d13547c76bca3996543c0678ee97a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 1/7] Add verification hooks behind --cfg baokeshed_verif

---
 src/lib.rs      | 19 ++++++++++++
 src/platform.rs | 20 ++++++++++++
 src/verif.rs    | 81 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 120 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 10a3798..df35567 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,6 +53,10 @@ pub mod portable64;
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 pub mod sse41;
 
+#[cfg(baokeshed_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(test)]
 mod test;
 
@@ -440,6 +444,21 @@ where
     RA: Send,
     RB: Send,
 {
+    #[cfg(baokeshed_verif)]
+    let (oper_a, oper_b) = (
+        move || {
+            verif::on_join(0);
+            let ret = oper_a();
+            verif::on_join(2);
+            ret
+        },
+        move || {
+            verif::on_join(1);
+            let ret = oper_b();
+            verif::on_join(3);
+            ret
+        },
+    );
     #[cfg(feature = "rayon")]
     return rayon::join(oper_a, oper_b);
     #[cfg(not(feature = "rayon"))]
diff --git a/src/platform.rs b/src/platform.rs
index 3409a7e..468ba8f 100644
--- a/src/platform.rs
+++ b/src/platform.rs
@@ -28,6 +28,12 @@ pub enum Platform {
 
 impl Platform {
     pub fn detect() -> Self {
+        #[cfg(baokeshed_verif)]
+        {
+            if let Some(platform) = crate::verif::forced_platform() {
+                return platform;
+            }
+        }
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
             if is_x86_feature_detected!("avx2") {
@@ -58,6 +64,8 @@ impl Platform {
         offset: u64,
         flags: u8,
     ) {
+        #[cfg(baokeshed_verif)]
+        crate::verif::on_node(&block[..], cv, block_len, offset, [flags; 3]);
         match self {
             Platform::Portable => portable::compress(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -76,6 +84,8 @@ impl Platform {
         offset: u64,
         flags: u8,
     ) -> [u8; 64] {
+        #[cfg(baokeshed_verif)]
+        crate::verif::on_node(&block[..], cv, block_len, offset, [flags; 3]);
         match self {
             Platform::Portable => portable::compress_xof(cv, block, block_len, offset, flags),
             // Safe because detect() checked for platform support.
@@ -97,6 +107,16 @@ impl Platform {
         flags_end: u8,
         out: &mut [u8],
     ) {
+        #[cfg(baokeshed_verif)]
+        for (i, input) in inputs.iter().enumerate() {
+            crate::verif::on_node(
+                input.as_slice(),
+                key,
+                BLOCK_LEN as u8,
+                offset.wrapping_add((i as u64).wrapping_mul(offset_delta)),
+                [flags | flags_start, flags, flags | flags_end],
+            );
+        }
         match self {
             Platform::Portable => portable::hash_many(
                 inputs,
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..693a439
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,81 @@
+//! Hooks for runtime verification, compiled only with `--cfg baokeshed_verif`.
+//!
+//! Nothing here changes what the library computes: callers can pin the SIMD
+//! level, watch the compressions and the fork-join tasks, and construct states
+//! that would otherwise take exabytes of input to reach.
+
+use crate::platform::Platform;
+use crate::{Hasher, Output, OUT_LEN};
+use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::SeqCst};
+
+/// Called with one node's input before it is compressed: the input bytes (one
+/// block, or all blocks of a batch input), the chaining value or key, the
+/// length of the last block, the offset, and the flags of the first, middle
+/// and last block.
+pub type NodeHook = fn(&[u8], &[u32; 8], u8, u64, [u8; 3]);
+
+/// Called when a task of a fork-join pair starts (0 left, 1 right) and ends (2
+/// left, 3 right).
+pub type JoinHook = fn(u8);
+
+static FORCED_LEVEL: AtomicU8 = AtomicU8::new(0);
+static NODE_HOOK: AtomicUsize = AtomicUsize::new(0);
+static JOIN_HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Pin the SIMD level: 0 detects it as usual, 1 is portable, 2 is SSE4.1 and
+/// 3 is AVX2. The caller makes sure that the CPU supports it.
+pub fn force_level(level: u8) {
+    FORCED_LEVEL.store(level, SeqCst);
+}
+
+pub(crate) fn forced_platform() -> Option<Platform> {
+    match FORCED_LEVEL.load(SeqCst) {
+        1 => Some(Platform::Portable),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        2 => Some(Platform::SSE41),
+        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+        3 => Some(Platform::AVX2),
+        _ => None,
+    }
+}
+
+pub fn set_node_hook(hook: Option<NodeHook>) {
+    NODE_HOOK.store(hook.map_or(0, |f| f as usize), SeqCst);
+}
+
+pub fn set_join_hook(hook: Option<JoinHook>) {
+    JOIN_HOOK.store(hook.map_or(0, |f| f as usize), SeqCst);
+}
+
+pub(crate) fn on_node(input: &[u8], key: &[u32; 8], block_len: u8, offset: u64, flags: [u8; 3]) {
+    let hook = NODE_HOOK.load(SeqCst);
+    if hook != 0 {
+        // Safe because only set_node_hook stores here.
+        let hook: NodeHook = unsafe { core::mem::transmute(hook) };
+        hook(input, key, block_len, offset, flags);
+    }
+}
+
+pub(crate) fn on_join(event: u8) {
+    let hook = JOIN_HOOK.load(SeqCst);
+    if hook != 0 {
+        // Safe because only set_join_hook stores here.
+        let hook: JoinHook = unsafe { core::mem::transmute(hook) };
+        hook(event);
+    }
+}
+
+/// Put an empty hasher into the state it would have after hashing `offset`
+/// bytes (a multiple of the chunk length) with these subtree hashes.
+pub fn jump_hasher(hasher: &mut Hasher, offset: u64, subtrees: &[[u8; OUT_LEN]]) {
+    hasher.chunk.reset(offset);
+    hasher.subtree_hashes.clear();
+    for subtree in subtrees {
+        hasher.subtree_hashes.push(*subtree);
+    }
+}
+
+/// Move an extended output to another position.
+pub fn seek_output(output: &mut Output, offset: u64) {
+    output.offset = offset;
+}
-- 
2.43.0


From 732c35d00ecbdf833090ea0a3062c2a4ee5bf4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 2/7] fix: make the FFI hasher as large as the C hasher

The C struct holds MAX_DEPTH = 53 subtree hashes, but the Rust binding
had room for only 52, so the 53rd (pushed at 2^63 bytes of input) was
written past the end of the Rust object.
---
 src/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.rs b/src/c.rs
index 23cda5b..a1ce9d8 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -25,7 +25,7 @@ pub struct ChunkState {
 pub struct Hasher {
     chunk: ChunkState,
     subtree_hashes_len: u8,
-    subtree_hashes: [u8; 1664usize],
+    subtree_hashes: [u8; 1696usize],
 }
 
 impl Hasher {
-- 
2.43.0


From 379626ffc43a240a6a0e52625748e61b144e141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 3/7] fix: check the C subtree stack for space after merging,
 not before

Merging is lazy, so the stack can be full until the next push merges it.
The assertion aborted on valid input longer than 2^63 bytes.
---
 c/baokeshed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/baokeshed.c b/c/baokeshed.c
index 771a9f1..bb9a01e 100644
--- a/c/baokeshed.c
+++ b/c/baokeshed.c
@@ -157,10 +157,10 @@ INLINE void hasher_merge_parent(hasher *self) {
 
 INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                    uint64_t offset) {
-  assert(self->subtree_hashes_len < MAX_DEPTH);
   while (hasher_needs_merge(self, offset)) {
     hasher_merge_parent(self);
   }
+  assert(self->subtree_hashes_len < MAX_DEPTH);
   memcpy(&self->subtree_hashes[self->subtree_hashes_len * OUT_LEN], hash,
          OUT_LEN);
   self->subtree_hashes_len += 1;
-- 
2.43.0


From 5a6b956b94428bbeeac0449d6ae97f87593259d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 4/7] fix: honour --length values of 2^63 and above

Counting hex digits overflowed a u64: a checked build panicked and a
release build printed too little.
---
 baokeshed_bin/src/main.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index d88b0f7..fd4166e 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -71,18 +71,18 @@ fn hash_one(
 }
 
 fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
-    let mut hex_bytes_remaining = 2 * byte_length;
-    while hex_bytes_remaining > 0 {
+    let mut bytes_remaining = byte_length;
+    while bytes_remaining > 0 {
         let bytes = output.read();
         let (hash1, hash2) = arrayref::array_refs!(&bytes, baokeshed::OUT_LEN, baokeshed::OUT_LEN);
         let hex1 = baokeshed::Hash::from(*hash1).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex1.len() as u64);
-        print!("{}", &hex1[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex1[..2 * take as usize]);
+        bytes_remaining -= take;
         let hex2 = baokeshed::Hash::from(*hash2).to_hex();
-        let take = cmp::min(hex_bytes_remaining, hex2.len() as u64);
-        print!("{}", &hex2[..take as usize]);
-        hex_bytes_remaining -= take;
+        let take = cmp::min(bytes_remaining, baokeshed::OUT_LEN as u64);
+        print!("{}", &hex2[..2 * take as usize]);
+        bytes_remaining -= take;
     }
 }
 
-- 
2.43.0


From 73016ad0ef777c43a8b1c00de2ee44405d551856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 5/7] fix: read files that cannot be memory mapped

Files in sysfs, for example, report a length but fail to map, and the
tool failed on them instead of reading them like a pipe.
---
 baokeshed_bin/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index fd4166e..f4e2f06 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -193,11 +193,12 @@ fn maybe_memmap_input(input: &Input) -> Result<Option<memmap::Mmap>> {
     } else {
         // Explicitly set the length of the memory map, so that filesystem changes can't race to
         // violate the invariants we just checked.
+        // Some readable files don't support mapping at all, for example in sysfs. Read those.
         let map = unsafe {
             memmap::MmapOptions::new()
                 .len(metadata.len() as usize)
-                .map(&in_file)?
+                .map(&in_file)
         };
-        Some(map)
+        map.ok()
     })
 }
-- 
2.43.0


From 97bd86c83949be1cfb2bfc8e23c66d61c19f2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 6/7] fix: refuse an empty --length

The option parser takes an empty or blank number for zero, so that
--length=$N with N unset printed an empty digest and succeeded.
---
 baokeshed_bin/src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/baokeshed_bin/src/main.rs b/baokeshed_bin/src/main.rs
index f4e2f06..0435c03 100644
--- a/baokeshed_bin/src/main.rs
+++ b/baokeshed_bin/src/main.rs
@@ -1,4 +1,4 @@
-use anyhow::{bail, Result};
+use anyhow::{bail, Context, Result};
 use serde::Deserialize;
 use std::cmp;
 use std::fs::File;
@@ -19,7 +19,7 @@ struct Args {
     flag_help: bool,
     flag_key: Option<String>,
     flag_derive_key: Option<String>,
-    flag_length: Option<u64>,
+    flag_length: Option<String>,
     flag_version: bool,
 }
 
@@ -87,7 +87,13 @@ fn print_hex(output: &mut baokeshed::Output, byte_length: u64) {
 }
 
 fn hash(args: &Args) -> Result<()> {
-    let byte_length = args.flag_length.unwrap_or(baokeshed::OUT_LEN as u64);
+    // Parsed here and not by docopt, which takes an empty number for zero.
+    let byte_length: u64 = match args.flag_length {
+        Some(ref length_str) => length_str
+            .parse()
+            .with_context(|| format!("invalid length {:?}", length_str))?,
+        None => baokeshed::OUT_LEN as u64,
+    };
     let derive_key = args.flag_derive_key.is_some();
     let key = if let Some(key_str) = args.flag_key.as_ref().or(args.flag_derive_key.as_ref()) {
         let key_bytes = hex::decode(key_str)?;
-- 
2.43.0


From 9ec6902e89b9d4a7ef453b55e459509c596d0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 7/7] fix: c::Hasher::new returned a value with uninitialized
 bytes

hasher_init doesn't write the subtree hashes, and assume_init of a value
with uninitialized integers in it is undefined behavior.
---
 src/c.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c.rs b/src/c.rs
index a1ce9d8..c324ee3 100644
--- a/src/c.rs
+++ b/src/c.rs
@@ -30,7 +30,9 @@ pub struct Hasher {
 
 impl Hasher {
     pub fn new(key: &[u8; KEY_LEN], flags: u8) -> Hasher {
-        let mut hasher: MaybeUninit<Hasher> = MaybeUninit::uninit();
+        // The C code doesn't initialize the subtree hashes, but an initialized
+        // value of this type must not have uninitialized bytes in it.
+        let mut hasher: MaybeUninit<Hasher> = MaybeUninit::zeroed();
         unsafe {
             ffi::hasher_init(hasher.as_mut_ptr(), key.as_ptr(), flags);
             hasher.assume_init()
-- 
2.43.0

