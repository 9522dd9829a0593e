From e35a50f841398d252e1e9d4dd3a97334baf9dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:16 +0000
Subject: [PATCH 1/9] fix: report errors writing the last buffered bytes of a
 filter

---
 poppy/src/bloom/v1.rs | 2 ++
 poppy/src/bloom/v2.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..8320e62 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // an error writing what is still buffered would be lost on drop
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..4de70c6 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // an error writing what is still buffered would be lost on drop
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From eddaf22b4a71a1551ddee4002d13222147331a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:16 +0000
Subject: [PATCH 2/9] fix: clear the lookup cache together with the filter

---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 4de70c6..ef0f535 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -353,6 +353,7 @@ impl BloomFilter {
     #[inline(always)]
     pub fn clear(&mut self) {
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
+        self.index_cache.clear();
         self.count = 0;
     }
 
-- 
2.43.0


From fe5c226f4bda2774566f825590eef0f0162afd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:16 +0000
Subject: [PATCH 3/9] fix: enforce capacity when the count has passed it after
 a merge

---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 8320e62..a7df12b 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -368,7 +368,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index ef0f535..c11fac1 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -389,7 +389,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -551,7 +551,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From df700a25feeea84e051dd62d33b9088216af31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:16 +0000
Subject: [PATCH 4/9] fix: version 1 filters without bits forgot accepted
 entries

---
 poppy/src/bloom/v1.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index a7df12b..2cd8ec8 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -305,7 +305,8 @@ impl BloomFilter {
     /// checks if an entry is contained in the bloom filter
     #[inline(always)]
     pub fn contains_bytes<S: AsRef<[u8]>>(&self, value: S) -> bool {
-        if self.bitset.is_empty() {
+        // a filter so tolerant that it needs no bit contains everything
+        if self.capacity == 0 || (self.bitset.is_empty() && self.n_hash > 0) {
             return false;
         }
         for index in self.fingerprint.fingerprint(value) {
-- 
2.43.0


From b18b3f2578709cbc5c6a1394d4c5c50e4f9fa0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:16 +0000
Subject: [PATCH 5/9] fix: size of version 1 filters was 64 times too large

---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 2cd8ec8..0e93461 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -346,7 +346,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        self.bit_size.div_ceil(64) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 341c179d9da5f2e79c2a61fcc38a253c66cff6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:22 +0000
Subject: [PATCH 6/9] fix: loading a damaged file no longer panics or allocates
 what it claims to hold

---
 poppy/src/bitset/vec.rs |  6 ++++++
 poppy/src/bloom/v1.rs   | 13 ++++++++++---
 poppy/src/bloom/v2.rs   | 25 ++++++++++++++++++-------
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..a8f7cbc 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -6,6 +6,12 @@ pub(crate) fn byte_cap_from_bit_cap(bit_cap: usize) -> usize {
     ((bit_cap as f64) / 8.0).ceil() as usize
 }
 
+impl From<Vec<u8>> for VecBitSet {
+    fn from(bytes: Vec<u8>) -> Self {
+        Self(bytes)
+    }
+}
+
 impl VecBitSet {
     /// Creates a new bitset with a given capacity
     pub fn with_bit_capacity(capacity: usize) -> Self {
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 0e93461..98d0597 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -170,6 +170,12 @@ impl BloomFilter {
 
         let cap = read_le_u64(r)?;
         let p = read_le_f64(r)?;
+
+        // we control fpp
+        if !(f64::MIN_POSITIVE..=1.0).contains(&p) {
+            return Err(Error::WrongFpp(p));
+        }
+
         let n_hash = read_le_u64(r)?;
         let bit_size = read_le_u64(r)?;
         let count = read_le_u64(r)?;
@@ -181,10 +187,11 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                // the size comes from the stream so we cannot trust it to allocate
+                let mut bitset = vec![];
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index c11fac1..dc70cf7 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -208,9 +208,13 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                // the size comes from the stream so we cannot trust it to allocate
+                let mut ic = vec![];
+                r.take(cache_byte_size).read_to_end(&mut ic)?;
+                if ic.len() as u64 != cache_byte_size {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
+                VecBitSet::from(ic)
             }
         };
 
@@ -219,13 +223,19 @@ impl BloomFilter {
 
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let size = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|s| i64::try_from(s).ok())
+                    .ok_or(io::Error::from(io::ErrorKind::InvalidData))?;
+                r.seek_relative(size)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                let mut buckets = vec![];
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
@@ -460,7 +470,8 @@ impl BloomFilter {
 
         it.set_count(self.n_hash_buck);
 
-        if self.capacity == 0 {
+        // there is nothing to look into if the filter has been partially read
+        if self.capacity == 0 || self.buckets.is_empty() {
             return Ok(false);
         }
 
-- 
2.43.0


From f70490b5e62e7d85b33d8d52018723d77917dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:19 +0000
Subject: [PATCH 7/9] fix: accept --jobs 0 in the check command

---
 poppy/src/bin/poppy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..4ea9a8f 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,7 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let batches = files.chunks(max(files.len() / optimal_jobs(args.jobs), 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From 7b7c8a2b93a24be8c9422187ceee90dc5d1bdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:19 +0000
Subject: [PATCH 8/9] fix: stop counting dataset lines at the first read error

---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 4ea9a8f..e732a7b 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From e72e6ee08a53274bc9323796778ba126273f1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:26 +0000
Subject: [PATCH 9/9] fix: do not overflow when the benchmark dataset size is
 unlimited

---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0

