From c2c0caad724d2da49cb527778ffa4bde9279a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 01/14] fix: make unset_nth_bit clear the bit and return its
 old value

Unsetting a bit used an all-zero mask, so the bit stayed set and the
function always returned true.
---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 79cba8af43fc49b0c1667e51317d49e959352c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 02/14] fix: clear the index cache when clearing a v2 filter

Filters created with the speed or best optimization level kept their
index cache bits after clear(), so they did not go back to the empty
state.
---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..2f387bc 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -350,6 +350,7 @@ impl BloomFilter {
     /// Clears out the bloom filter
     #[inline(always)]
     pub fn clear(&mut self) {
+        self.index_cache.clear();
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
         self.count = 0;
     }
-- 
2.43.0


From aa65f32b19f4b3ea1897cfdcac75190d44f004bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 03/14] fix: keep enforcing the capacity once the count exceeds
 it

A union can bring the estimated count above the capacity. A v2 filter
then accepted new entries without limit and is_full() returned false.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b5c74cb 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -366,7 +366,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 2f387bc..a20f3d0 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -387,7 +387,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -549,7 +549,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From e6b2b3dad2b66ebfdb422f9b8cb2629943bc0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 04/14] fix: report errors met while flushing a written filter

The last buffered bytes were only flushed when the BufWriter was
dropped, which ignores errors, so write() could return Ok(()) for a
truncated file.
---
 poppy/src/bloom/v1.rs | 1 +
 poppy/src/bloom/v2.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b5c74cb..4659eb7 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,7 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index a20f3d0..b414e35 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,7 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 45f3d29a397fc32f7070e3d352b8f4ce2db61112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 05/14] fix: compute the size of a v1 filter from its number of
 u64 blocks

size_in_u64() returned a number of bits, so size_in_bytes() reported 64
times the real size.
---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 4659eb7..4ca0cea 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -344,7 +344,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        f64::ceil(self.bit_size as f64 / 64.0) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 4e3bf2de8c4d2a91527c89ab7805d7447f863dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 06/14] fix: give v1 filters at least one bit when they have a
 capacity

With a high false positive probability the computed size could be 0
bit. Inserting then succeeded but the entry was not found back.
---
 poppy/src/bloom/v1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 4ca0cea..61ef593 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -107,7 +107,11 @@ impl BloomFilter {
         }
 
         // size in bits, computed from the capacity we want and the probability
-        let bit_size = utils::bit_size(cap, fpp);
+        let mut bit_size = utils::bit_size(cap, fpp);
+        // a filter which can hold entries needs at least one bit
+        if cap > 0 {
+            bit_size = bit_size.max(1);
+        }
 
         // size in u64
         let u64_size = f64::ceil(bit_size as f64 / 64.0) as usize;
-- 
2.43.0


From c90779c6082fc81736a41b6e2fcd5c73f336a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 07/14] fix: do not panic on filters without any bit storage

Partially loaded filters, and files whose header announces no storage,
made insertions and v2 lookups panic, or made v1 insertions succeed
without recording the entry. Nothing can be stored in such filters, so
insertions now fail and lookups return false.
---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 61ef593..d93407c 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -259,7 +259,7 @@ impl BloomFilter {
     pub fn insert_bytes<S: AsRef<[u8]>>(&mut self, value: S) -> Result<bool, Error> {
         let mut new = false;
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.bitset.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index b414e35..05cf56d 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -368,7 +368,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Err(Error::TooManyEntries);
         }
 
@@ -459,7 +459,7 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Ok(false);
         }
 
-- 
2.43.0


From c63f4220c92ff4d7c12cfd3a75c46633ebef4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 08/14] fix: use at least one hash function in optimized v2
 filters

With a high false positive probability, the speed and best optimization
levels computed 0 hash functions. Entries were then never counted and
the capacity was never enforced.
---
 poppy/src/bloom/v2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 05cf56d..7d0f591 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -302,13 +302,15 @@ impl BloomFilter {
                 n_bucket = n_bucket.next_power_of_two();
                 n_hash_buck =
                     (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))
-                        .ceil() as u64;
+                        .ceil()
+                        .max(1.0) as u64;
             }
             OptLevel::Best => {
                 cache_bit_size = capacity.next_power_of_two();
                 n_hash_buck =
                     (f64::ln(2.0) * crate::estimate_p(capacity, cache_bit_size) * (bits_per_entry))
-                        .ceil() as u64;
+                        .ceil()
+                        .max(1.0) as u64;
             }
         }
 
-- 
2.43.0


From e82854f0e4bb9d3ccd58d7444579eca7907b1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 09/14] fix: saturate the estimated counts of v2 filters

The estimate of a bucket with all its bits set is the maximum integer.
Summing several of them overflowed, which panics in debug builds and
wraps in release builds.
---
 poppy/src/bloom/v2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 7d0f591..f08297d 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -572,7 +572,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b1.count_ones_in_common(b2) as f64 / b1.bit_len() as f64)))
                     / self.n_hash_buck as f64) as usize
             })
-            .sum())
+            .fold(0usize, |sum, n| sum.saturating_add(n)))
     }
 
     #[inline]
@@ -587,7 +587,7 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b.count_ones() as f64 / b.bit_len() as f64)))
                     / self.n_hash_buck as f64) as u64
             })
-            .sum();
+            .fold(0u64, |sum, n| sum.saturating_add(n));
     }
 
     /// returns an estimate of the number of element in the filter
-- 
2.43.0


From d522728c08e5abb8c181d506927085a9aba0a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 10/14] fix: write back the flags of a loaded filter

The reserved flags, and the optimization level of v1 filters, were reset
when writing. A filter loaded with such flags was then not considered as
having the same parameters as its own saved copy.
---
 poppy/src/bloom.rs    | 11 ++++++++++-
 poppy/src/bloom/v1.rs |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom.rs b/poppy/src/bloom.rs
index 9b896e7..c9c5d18 100644
--- a/poppy/src/bloom.rs
+++ b/poppy/src/bloom.rs
@@ -38,7 +38,16 @@ impl Flags {
     }
 
     pub(crate) fn to_bytes(&self) -> [u8; 8] {
-        [self.version, self.opt as u8, 0, 0, 0, 0, 0, 0]
+        [
+            self.version,
+            self.opt as u8,
+            self.reserved[0],
+            self.reserved[1],
+            self.reserved[2],
+            self.reserved[3],
+            self.reserved[4],
+            self.reserved[5],
+        ]
     }
 
     pub(crate) fn from_bytes(bytes: [u8; 8]) -> Result<Self, Error> {
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index d93407c..815755f 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -220,7 +220,7 @@ impl BloomFilter {
         let mut w = BufWriter::new(w);
 
         // writing version
-        w.write_all(&Flags::new(1).to_bytes())?;
+        w.write_all(&self.flags.to_bytes())?;
 
         w.write_all(&self.capacity.to_le_bytes())?;
         w.write_all(&self.fpp.to_le_bytes())?;
-- 
2.43.0


From 317b109163785255fae22ca48435832070819941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 11/14] fix: support -j 0 in the check command

The number of jobs was used as a divisor without resolving 0 to the
optimal number of jobs, so checking files with -j 0 panicked.
---
 poppy/src/bin/poppy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..a312c2d 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,8 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let jobs = optimal_jobs(args.jobs);
+                let batches = files.chunks(max(files.len() / jobs, 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From 9f7b486bfe71bd2516a23ca89b37606eecec776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 12/14] fix: saturate ByteSize::from_mb

The bench command uses from_mb(usize::MAX) when the dataset size is not
limited, which overflows and panics in debug builds.
---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0


From f689edcdd1c140371415985779eb8ad29977fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:35 +0000
Subject: [PATCH 13/14] fix: return an error when a filter announces more data
 than available

The sizes found in the header were trusted, so loading a corrupted file
could panic or abort on a huge allocation instead of returning an error.
Partial loading also accepted truncated files.
---
 poppy/src/bloom/v1.rs |  7 +++++--
 poppy/src/bloom/v2.rs |  8 +++++++-
 poppy/src/utils.rs    | 13 ++++++++++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 815755f..5358109 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -6,7 +6,7 @@ use std::{
 use crate::{
     hash::fnv::Fnv1Hasher,
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{check_remaining, read_le_f64, read_le_u64},
     Flags, Params,
 };
 
@@ -180,9 +180,12 @@ impl BloomFilter {
 
         // initializing bitset
         let u64_size = f64::ceil((bit_size as f64) / 64.0) as u64;
+        let byte_size = u64_size * core::mem::size_of::<u64>() as u64;
+        // we make sure data is there before allocating memory or skipping it
+        check_remaining(r, byte_size)?;
         let bitset = {
             if partial {
-                r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
+                r.seek_relative(byte_size as i64)?;
                 vec![]
             } else {
                 let mut bitset = vec![0; u64_size as usize];
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index f08297d..3b4d088 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     hash::{digest, wyhash::WyHasher, PoppyHash, PoppyHasher},
     read_flags,
-    utils::{read_le_f64, read_le_u64},
+    utils::{check_remaining, read_le_f64, read_le_u64},
     Flags, OptLevel, Params,
 };
 use core::mem::size_of;
@@ -203,6 +203,8 @@ impl BloomFilter {
 
         let cache_bit_size = read_le_u64(r)?;
         let cache_byte_size = byte_cap_from_bit_cap(cache_bit_size as usize) as u64;
+        // we make sure data is there before allocating memory or skipping it
+        check_remaining(r, cache_byte_size)?;
         let index_cache = {
             if partial {
                 r.seek_relative(cache_byte_size as i64)?;
@@ -216,6 +218,10 @@ impl BloomFilter {
 
         // we read the number of buckets
         let n_buckets = read_le_u64(r)? as usize;
+        check_remaining(
+            r,
+            (n_buckets as u64).saturating_mul(core::mem::size_of::<Bucket>() as u64),
+        )?;
 
         let buckets = {
             if partial {
diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 40d1c99..ebc7282 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -2,7 +2,7 @@ use statrs::statistics::Statistics;
 use std::{
     fmt::Display,
     hash::Hash,
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     time::Duration,
 };
 
@@ -18,6 +18,17 @@ pub(crate) fn read_le_f64<R: Read>(r: &mut R) -> Result<f64, io::Error> {
     Ok(f64::from_le_bytes(bytes))
 }
 
+/// Returns an error if less than `size` bytes remain to be read
+pub(crate) fn check_remaining<R: Seek>(r: &mut R, size: u64) -> Result<(), io::Error> {
+    let pos = r.stream_position()?;
+    let end = r.seek(SeekFrom::End(0))?;
+    r.seek(SeekFrom::Start(pos))?;
+    if end.saturating_sub(pos) < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(())
+}
+
 pub enum ByteSize {
     Bytes(usize),
     Kilo(usize),
-- 
2.43.0


From a212d53f61be3d40161391c8f4a094c6404ed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:10 +0000
Subject: [PATCH 14/14] fix: report unreadable dataset files instead of
 counting lines forever

---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index a312c2d..df20ff1 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0

