From 8c4e33539ace04c1bccc58bdef94874c92a7579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 01/22] fix: allow zero-width bit spans at the block-aligned
 end of a bit vector

---
 src/bit_vec/traits.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..f938499 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,9 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        // An empty span may sit at the very end, where there is no block.
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +163,9 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        // An empty span may sit at the very end, where there is no block.
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From 65ff01ddd84561596cef888255c95a9a2fa717bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/22] fix: refuse out-of-range positions in the default
 BitVecMut::set_block

---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index f938499..25f4ceb 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -139,6 +139,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 2b70b873b670f0555ce24c3195bc7bc7fe648150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 03/22] fix: let bit slices read and write their last partial
 block, and refuse block positions past it

---
 src/bit_vec/bit_slice.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..a12e4de 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -86,6 +86,16 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
     }
 }
 
+// The bit span of the block at `position` in a slice of `len` bits. The last
+// block may be partial.
+fn block_span<Block: BlockType>(position: usize, len: u64) -> (u64, usize) {
+    assert!(position < Block::ceil_div_nbits(len),
+            "BitSlice: block out of bounds");
+    let start = Block::mul_nbits(position);
+    let count = (len - start).min(Block::nbits() as u64) as usize;
+    (start, count)
+}
+
 impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     type Block = Base::Block;
 
@@ -108,7 +118,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.get_bits(start, count)
     }
 }
 
@@ -134,7 +145,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.get_bits(start, count)
     }
 }
 
@@ -153,8 +165,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        let (start, count) = block_span::<Self::Block>(position, self.len);
+        self.set_bits(start, count, value);
     }
 }
 
-- 
2.43.0


From aff1712133645170460bc725e4beb30d15b23e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 04/22] fix: refuse bit spans of words whose end overflows

---
 src/bit_vec/prim.rs | 6 ++++--
 src/storage.rs      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..4092aef 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= self.bit_len() &&
+                            count as u64 <= self.bit_len() - start,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= self.bit_len() &&
+                            count as u64 <= self.bit_len() - start,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..1b3ff75 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -178,7 +178,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
                 "Block::get_bits: out of bounds");;
 
         if len == 0 { return Self::zero(); }
@@ -193,7 +193,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From 2cda515dbee78c190f790b6d661121f17f73b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 05/22] fix: reserve room relative to the vector's length, not
 its capacity

---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From 4eaf7794fa9eb14bec150260535f6d5aad65788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 06/22] fix: do not overflow when rounding bit sizes near 2^64
 up to blocks

---
 src/storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 1b3ff75..e57e685 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        let partial = Self::mod_nbits(index) != 0;
+        Self::div_nbits(index) + partial as usize
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +70,9 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        let partial = Self::mod_nbits(index) != 0;
+        Self::checked_div_nbits(index)
+            .and_then(|n| n.checked_add(partial as usize))
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From bc7742ee849562a6ca17afead490982b153cb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 07/22] fix: keep an iterator's remaining length exact after
 nth past the end

---
 src/internal/vector_base.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..ec033ae 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -390,7 +390,8 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        // Never move `start` past `limit`, since `len` subtracts them.
+        self.start = self.start.saturating_add(n as u64).min(self.limit);
         self.next()
     }
 }
-- 
2.43.0


From f11e4715c8eba013e62fe86413b42508abbc4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 08/22] fix: do not overflow in BlockType::ceil_div when the
 sum exceeds the type

---
 src/storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index e57e685..c0c5714 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -226,7 +226,12 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if self % divisor == Self::zero() {
+            quotient
+        } else {
+            quotient + Self::one()
+        }
     }
 
     // I/O methods
-- 
2.43.0


From b13845558edf9b7947c6f453a8cf3e979ce2471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 09/22] fix: build JacobsonRank over empty and one-bit vectors

---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b6559d 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = cmp::max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = cmp::max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 0679310837f32daba7bb270a9085633772996b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 10/22] fix: ignore the unused bits of the last block when
 building JacobsonRank

---
 src/rank/jacobson.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b6559d..449ef24 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,14 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == bits.block_len() {
+                // The unused bits of the last block can be anything.
+                block = block & Store::Block::low_mask(
+                    Store::Block::last_block_bits(n));
+            }
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From 118ee98dfcca45fb25ee85226a9028dd4555c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 11/22] fix: find no bit in broadword select1 for ranks that do
 not fit a signed byte

---
 src/broadword.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..7f2aa34 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -78,6 +78,9 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    // The byte-wise comparisons below only work for small `r`.
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From ff27f3dd6add2092dc90e82719443031d9eb57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 12/22] fix: compare bytes in le8 correctly when their
 difference overflows

---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 7f2aa34..e6f8949 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -100,7 +100,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) | (x ^ y)) ^ (!x & y)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 75f36ec9ea7553d9cd03153b327da8f4aeca6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 13/22] fix: refuse Rank9 queries at or beyond the limit

---
 src/rank/rank9.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..bf23cfa 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,9 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_store.bit_len(),
+                "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 2d95d9dda4ce15c2fbd1145322da7198516a296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 14/22] fix: refuse rank queries at or beyond a word's width in
 every build

---
 src/broadword.rs | 2 +-
 src/rank/prim.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index e6f8949..3069b5a 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..60a57bf 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From dc8be46acc931122bf5035ff3276b5631981bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 15/22] fix: find nothing when selecting the occurrence with
 index 2^64-1

---
 src/select/bin_search.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..0ad404f 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,9 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|target|
+                    binary_search_function(0, self.limit(), target,
+                                           |i| self.$rank(i)))
             }
         }
     }
@@ -67,8 +68,9 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|target|
+            binary_search_function(0, self.limit(), target,
+                                   |i| self.rank(i, value)))
     }
 }
 
-- 
2.43.0


From 55841fb4a2935687503dc88e80c373c71cd38d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 16/22] fix: write big-endian integers exactly for zero bits
 and for full-width signed types

---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..074daaf 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit((value >> i) & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 77b6c0be7df8e1ad8e71cb4d9da523e2b88f1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 17/22] fix: refuse comma codewords whose value does not fit in
 64 bits

---
 src/coding/comma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..b0bf573 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r| r.checked_add(digit)) {
+                    Some(next) => next,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From db0cd12c69ac78149f7a0e85920cee0e676e9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 18/22] fix: refuse to encode zero in the omega code

---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..a0c38bf 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From c6233800174ad65f96302dc4a3f6e9983b1a1f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 19/22] fix: refuse omega codewords whose value does not fit in
 64 bits

---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index a0c38bf..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -81,6 +81,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From a14fddb032920382558b7f90ec2540724eb9b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 20/22] fix: report a truncated Fibonacci codeword even when
 only zeros were read

---
 src/coding/fib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..5a5047e 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,6 +72,7 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -84,12 +85,13 @@ impl UniversalCode for Fibonacci {
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From a4e3fce0056dbfdf4d0ac6561824e19aad6776b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 21/22] fix: refuse Fibonacci codewords whose value does not
 fit in 64 bits

---
 src/coding/fib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index 5a5047e..24705f7 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -69,7 +69,7 @@ impl UniversalCode for Fibonacci {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let mut result  = 0;
+        let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
         let mut consumed = false;
@@ -80,7 +80,10 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match result.checked_add(fib.i) {
+                    Some(sum) => sum,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
-- 
2.43.0


From c0dccb44355e5b5dbc4ff0782b81d1e7100b6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 22/22] fix: refuse lifted codewords of the code's zero instead
 of underflowing

---
 src/coding/trans.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..d0cf368 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -1,3 +1,5 @@
+use std::io::{Error, ErrorKind};
+
 use super::*;
 use internal::errors::*;
 use stream::*;
@@ -19,7 +21,11 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
-            Ok(Some(n)) => Ok(Some(n - 1)),
+            Ok(Some(n)) => match n.checked_sub(1) {
+                Some(n) => Ok(Some(n)),
+                None => Err(Error::new(ErrorKind::InvalidData,
+                                       "Lift0::decode: no value lifts to 0")),
+            },
             otherwise => otherwise,
         }
     }
-- 
2.43.0

