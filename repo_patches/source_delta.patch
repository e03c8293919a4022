From 9f45e6efb7d65f4b45aa30b667dc2b3d80737ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 01/28] fix: PRIME-S: don't overflow 16-bit arithmetic for
 large layouts

Layouts that PrimeS::new accepts can have up to 44310 rows and stripes per
repetition, and more than 32767 data chunks, none of which fit in an i16.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..e63f233 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: u16
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = disks_per_stripe as u16 * (num_disks as u16 - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: u16,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From bf497c5055bcf793bce0b51c9399d615abe3cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 02/28] fix: a range that excludes both of its equal bounds is
 empty

---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From 86236e15f358b73ef385e6c4427028d974507878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 03/28] fix: accept recordsize=1048576, which is how
 RecordSize(20) is printed

---
 bfffs-core/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..367f8be 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        // 1_048_776 is an old misspelling of 1_048_576
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
-- 
2.43.0


From 06d1352d8315c075aa8fef304bea6d54ce2f35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 04/28] fix: print PropertySource::None as none, not as
 inherited

---
 bfffs-core/src/property.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 367f8be..4b6f72e 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -286,6 +286,7 @@ impl fmt::Display for PropertySource {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
             Self::Default => "default".fmt(f),
+            Self::None => "none".fmt(f),
             Self::LOCAL => "local".fmt(f),
             _ => "inherited".fmt(f)
         }
-- 
2.43.0


From d1179189783ddba7da8c8ffb854c4d6f4291134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 05/28] fix: don't hang readers of a block after a failed or
 cancelled cache insertion

If the task that promised to insert a block failed, was dropped, or the block
was evicted again before the waiters ran, then concurrent readers would panic,
and after a failure all later readers would wait forever.
---
 bfffs-core/src/cache/mod.rs | 65 ++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..109ee8a 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -8,6 +8,7 @@ use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    sync::{Arc, Mutex},
 };
 
 mod lru;
@@ -188,6 +189,43 @@ impl Cache {
     }
 }
 
+/// A task's promise to insert a block into the cache.
+///
+/// If the task fails or gets cancelled first, then dropping this structure will
+/// wake up any other tasks that were waiting for the block.
+#[derive(Debug)]
+pub struct PendingInsertion {
+    cache: Option<Arc<Mutex<Cache>>>,
+    key: Key,
+}
+
+impl PendingInsertion {
+    /// Insert the block as promised, and notify any waiters.
+    pub fn insert(mut self, buf: Box<dyn Cacheable>) {
+        let cache = self.cache.take().unwrap();
+        let mut guard = cache.lock().unwrap();
+        guard.insert(self.key, buf);
+        for s in guard.pending_insertions.remove(&self.key).into_iter().flatten() {
+            // Ignore any waiters that have been cancelled
+            let _ = s.send(());
+        }
+    }
+
+    pub fn new(cache: &Arc<Mutex<Cache>>, key: Key) -> Self {
+        Self{cache: Some(cache.clone()), key}
+    }
+}
+
+impl Drop for PendingInsertion {
+    fn drop(&mut self) {
+        if let Some(cache) = self.cache.take() {
+            if let Ok(mut guard) = cache.lock() {
+                guard.pending_insertions.remove(&self.key);
+            }
+        }
+    }
+}
+
 /// Get a read-only reference to a cached block, or if not present read it from
 /// disk and update cache.
 ///
@@ -220,27 +258,30 @@ macro_rules! get_or_insert {
                 v.push(tx);
                 drop(guard);
                 let cache2 = $amself.clone();
+                // In case the other task doesn't insert it
+                let f = $f;
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    if rx.await.is_ok() {
+                        let r = cache2.lock().unwrap().get::<$R>(&$key);
+                        if let Some(t) = r {
+                            return Ok(t);
+                        }
+                        // It must've been evicted already
+                    }
+                    let cacheable: Box<$C> = f.await?;
+                    let r = cacheable.make_ref();
+                    cache2.lock().unwrap().insert($key, cacheable);
+                    Ok(r.downcast::<$R>().unwrap())
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
                 drop(guard);
             }
 
-            let cache2 = $amself.clone();
+            let pending = $crate::cache::PendingInsertion::new($amself, $key);
             $f.map_ok(move |cacheable: Box<$C>| {
                 let r = cacheable.make_ref();
-                let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
-                    }
-                }
+                pending.insert(cacheable);
                 r.downcast::<$R>().unwrap()
             }).boxed()
         }
-- 
2.43.0


From c170dcdb0a92d0d09e633174d9851dd27063b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 06/28] fix: WriteBack: don't lose a wakeup when credit is
 repaid while a borrower goes to sleep

---
 bfffs-core/src/writeback/writeback.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..bb808f8 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -253,6 +253,11 @@ impl WriteBack {
                     let sleeper = Sleeper { tx, wants: iwants };
                     guard.push_back(sleeper);
                     self.supply.fetch_or(1, Release);
+                    // Credit may have been repaid after we last checked the
+                    // supply, but before we set the flag.  Then the repayer
+                    // didn't know that it had to awaken us.
+                    drop(guard);
+                    self.awaken();
                     break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
                 }
             } else {
-- 
2.43.0


From 1b61111d9f8bf057e41ac01735ccb5716922ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 07/28] fix: refuse labels with an absurd content length
 instead of panicking

---
 bfffs-core/src/label.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..cfac653 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -83,8 +83,10 @@ impl LabelReader {
             &buffer[length_start .. contents_start]);
         let mut hasher = MetroHash64::new();
         {
-            let csl = contents_start ..  contents_start + contents_len as usize;
-            let contents = if let Some(sl) = buffer.get(csl) {
+            let contents = if let Some(sl) = usize::try_from(contents_len).ok()
+                .and_then(|len| contents_start.checked_add(len))
+                .and_then(|contents_end| buffer.get(contents_start..contents_end))
+            {
                 sl
             } else {
                 tracing::warn!("Label too large");
-- 
2.43.0


From e9f448db4f3d5f4b56291dd9873a0cf75eea3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 08/28] fix: don't panic in VdevBlock if a caller drops its
 future

Callers may drop a VdevBlockFut before the operation completes.  For
example, Mirror does that to all of the other children's operations when
one child's operation fails.  Completing such an operation would panic,
without decrementing the queue depth, and possibly poison the lock.
---
 bfffs-core/src/vdev_block.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..6e2bbaa 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -475,7 +475,8 @@ impl Inner {
         if self.queue_depth == 0 {
             // All I/O operations are done.  Notify the remover.
             if let Some(remover) = self.remover.take() {
-                remover.send(()).unwrap()
+                // Ignore errors.  The caller may have dropped its future.
+                let _ = remover.send(());
             }
         }
         // Ran out of operations to issue or exceeded queue depth.  If queue
@@ -497,7 +498,8 @@ impl Inner {
         if self.remover.is_some() {
             // Abort the future immediately
             for sender in senders {
-                sender.send(Err(Error::ENXIO)).unwrap();
+                // Ignore errors.  The caller may have dropped its future.
+                let _ = sender.send(Err(Error::ENXIO));
                 self.queue_depth -= 1;
             }
             return None;
@@ -522,7 +524,8 @@ impl Inner {
                 tokio::spawn( async move {
                     let r = fut.await;
                     for sender in senders{
-                        sender.send(r).unwrap();
+                        // Ignore errors.  The caller may have dropped its future.
+                        let _ = sender.send(r);
                     }
                     inner.write().unwrap().queue_depth -= 1;
                     schfut.await
@@ -532,7 +535,8 @@ impl Inner {
                 // This normally doesn't happen, but it can happen on a
                 // heavily laden system or one with very fast storage.
                 for sender in senders {
-                    sender.send(r).unwrap();
+                    // Ignore errors.  The caller may have dropped its future.
+                    let _ = sender.send(r);
                 }
                 self.queue_depth -= 1;
             }
-- 
2.43.0


From f095aecf2980d5e6bcbcb42463f546747fdf9c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:27 +0000
Subject: [PATCH 09/28] fix: correct the queue depth when aborting accumulated
 operations

VdevBlock::remove would underflow the queue depth if any queued
operations had been accumulated together.
---
 bfffs-core/src/vdev_block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index 6e2bbaa..627b222 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -500,8 +500,10 @@ impl Inner {
             for sender in senders {
                 // Ignore errors.  The caller may have dropped its future.
                 let _ = sender.send(Err(Error::ENXIO));
-                self.queue_depth -= 1;
             }
+            // Accumulated operations have more than one sender, but only count
+            // once.
+            self.queue_depth -= 1;
             return None;
         }
 
-- 
2.43.0


From a9baee4d7af53e96113675af18dbc78828794cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:10 +0000
Subject: [PATCH 10/28] fix: don't panic if sync_all gets EAGAIN

VdevBlock polls such futures again later, but TryFutureExt's combinators
can't be polled again after they return an error.
---
 bfffs-core/src/vdev_file.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..cf33cbe 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -451,10 +451,8 @@ impl<'fd> VdevFile<'fd> {
     /// storage.
     pub fn sync_all(&self) -> VdevFileFut<'_>
     {
-        let fut = AioFileExt::sync_all(&self.fd).unwrap()
-            .map_ok(drop)
-            .map_err(Error::from);
-        Box::pin(fut)
+        let fut = AioFileExt::sync_all(&self.fd).unwrap();
+        Box::pin(SyncAll { fut })
     }
 
     /// Asynchronously write a contiguous portion of the vdev.
@@ -608,6 +606,33 @@ impl Future for WriteAt<'_> {
     }
 }
 
+#[pin_project]
+struct SyncAll<F> {
+    #[pin]
+    fut: F,
+}
+
+impl<F, T, E> Future for SyncAll<F>
+    where F: Future<Output = std::result::Result<T, E>>,
+          Error: From<E>
+{
+    type Output = Result<()>;
+
+    // aio_write and friends will sometimes return an error synchronously (like
+    // EAGAIN).  VdevBlock handles those errors synchronously by calling poll()
+    // once before spawning the future into the event loop.  But that results in
+    // calling poll again after it returns an error, which is incompatible with
+    // FuturesExt::{map, map_err}'s implementations.  So we have to define a
+    // custom poll method here, with map's and map_err's functionality inlined.
+    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        match self.project().fut.poll(cx) {
+            Poll::Ready(Ok(_aio_result)) => Poll::Ready(Ok(())),
+            Poll::Ready(Err(e)) => Poll::Ready(Err(Error::from(e))),
+            Poll::Pending => Poll::Pending
+        }
+    }
+}
+
 #[pin_project]
 struct ReadvAt<'fd> {
     #[pin]
-- 
2.43.0


From 0798378397228e640169ba5727db35ea197e8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 11/28] fix: VdevRaid: recover from unexpected read errors in
 every read

A read of part of a chunk paniced if a disk returned an unexpected error, because the rest of the chunk, which reconstruction needs, was never read.  A read of more than one stripe failed even if there was enough parity.
---
 bfffs-core/src/raid/vdev_raid.rs | 90 +++++++++++++++++++++++++-------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..38d1b95 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -995,8 +995,6 @@ impl VdevRaid {
         async move {
             let dv = rfut.collect::<Vec<_>>().await;
 
-            // TODO: on error, issue extra parity reads.
-
             if dv.iter().all(Result::is_ok) {
                 Ok(())
             } else {
@@ -1006,15 +1004,14 @@ impl VdevRaid {
                 drop(buf);
                 let mut rbuf = dbi.try_mut().unwrap();
                 let lbas_per_stripe = m as LbaT * chunksize as LbaT;
-                let mut exbufs = exbufs.into_iter();
-                (start_stripe..=last_stripe).map(move |s| {
+                let mut r = Ok(());
+                for (s, exbuf) in (start_stripe..=last_stripe).zip(exbufs) {
                     // Start of user data within this stripe
                     let usslba = ulba.max(s * lbas_per_stripe);
                     // End of user data within this stripe
                     let uselba = uelba.min((s + 1) * lbas_per_stripe);
                     let sbytes = (uselba - usslba) as usize * BYTES_PER_LBA;
-                    let data = rbuf.split_to(sbytes);
-                    let exbuf = exbufs.next().unwrap();
+                    let mut data = rbuf.split_to(sbytes);
                     let start_cid = ChunkId::Data(s * m as u64);
                     let end_cid = if faulted_children < f {
                         ChunkId::Parity(s * m as u64, faulted_children)
@@ -1025,29 +1022,53 @@ impl VdevRaid {
                     let dvs = lociter
                         .map(|(_cid, loc)| dv[loc.disk as usize])
                         .collect::<Vec<_>>();
-                    Self::read_at_reconstruction(&inner.codec, chunksize, data,
-                                           usslba, exbuf, dvs)
-                }).reduce(|acc, e| acc.and(e))
-                .unwrap()
+                    let survivors = dvs.iter().filter(|r| r.is_ok()).count();
+                    let sr = if survivors >= m as usize {
+                        Self::read_at_reconstruction(&inner.codec, chunksize,
+                            data, usslba, exbuf, dvs)
+                    } else {
+                        // Some disk must've had an unexpected error.  Read this
+                        // stripe again, by itself, including as much parity as
+                        // is necessary.
+                        let dbs = DivBufShared::uninitialized(sbytes);
+                        let dbm = dbs.try_mut().unwrap();
+                        let sr = Self::read_stripe(inner.clone(), chunksize,
+                            faulted_children, dbm, usslba).await;
+                        if sr.is_ok() {
+                            data.copy_from_slice(&dbs.try_const().unwrap()[..]);
+                        }
+                        sr
+                    };
+                    r = r.and(sr);
+                }
+                r
             }
         }
     }
 
     /// Read a (possibly improper) subset of one stripe
-    fn read_at_one(
-        &self,
+    fn read_at_one(&self, buf: IoVecMut, ulba: LbaT)
+        -> impl Future<Output=Result<()>> + Send + Sync
+    {
+        let inner = self.inner.clone();
+        let faulted_children = self.faulted_children();
+        Self::read_stripe(inner, self.chunksize, faulted_children, buf, ulba)
+    }
+
+    /// Helper for [`VdevRaid::read_at_one`] that doesn't borrow `self`.
+    fn read_stripe(
+        inner: Arc<Inner>,
+        chunksize: LbaT,
+        faulted_children: i16,
         mut buf: IoVecMut,
         ulba: LbaT
     ) -> impl Future<Output=Result<()>> + Send + Sync
     {
-        let col_len = self.chunksize as usize * BYTES_PER_LBA;
-        let chunksize = self.chunksize;
-        let f = self.inner.codec.protection();
-        let m = (self.inner.codec.stripesize() - f) as usize;
-        let inner = self.inner.clone();
+        let col_len = chunksize as usize * BYTES_PER_LBA;
+        let f = inner.codec.protection();
+        let m = (inner.codec.stripesize() - f) as usize;
         let lbas_per_stripe = chunksize * m as LbaT;
         let dbi = buf.clone_inaccessible();
-        let faulted_children = self.faulted_children();
 
         let unlbas = (buf.len() / BYTES_PER_LBA) as LbaT;
         // First LBA that the user does not want to read
@@ -1210,9 +1231,38 @@ impl VdevRaid {
                         Box::pin(inner.children[loc.disk as usize].read_at(dbm, disk_lba)) as BoxVdevFut
                     } else if cid.address() - start_chunk_addr < dv.len() as u64
                     {
-                        // should've already read it
+                        // should've already read it, at least partially
                         let dvidx = (cid.address() - start_chunk_addr) as usize;
-                        Box::pin(future::ready(dv[dvidx])) as BoxVdevFut
+                        let prior = dv[dvidx];
+                        let mut futs = Vec::new();
+                        if old_nerrs == 0 {
+                            // We only read the part that the user wants.  Read
+                            // the rest for parity reconstruction.
+                            let cid_lba = cid.address() * chunksize;
+                            let disk_lba = loc.offset * chunksize;
+                            let pre = ulba.saturating_sub(cid_lba);
+                            let post = (cid_lba + chunksize)
+                                .saturating_sub(uelba);
+                            for (lbas, ofs) in
+                                [(pre, 0), (post, chunksize - post)]
+                            {
+                                if lbas == 0 {
+                                    continue;
+                                }
+                                let len = lbas as usize * BYTES_PER_LBA;
+                                let dbs = DivBufShared::uninitialized(len);
+                                let dbm = dbs.try_mut().unwrap();
+                                exbufs.as_mut().unwrap().push(dbs);
+                                if prior.is_ok() {
+                                    let child = &inner.children[loc.disk as usize];
+                                    futs.push(child.read_at(dbm, disk_lba + ofs));
+                                }
+                            }
+                        }
+                        Box::pin(
+                            future::try_join_all(futs)
+                            .map(move |r| prior.and(r.map(drop)))
+                        ) as BoxVdevFut
                     } else {
                         // Need to read this data chunk for parity
                         // reconstruction
-- 
2.43.0


From 50a7ae1652c1bb6c153874462f721124f56b9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 12/28] fix: VdevRaid::read_long: attribute read errors to the
 right disk

---
 bfffs-core/src/raid/vdev_raid.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 38d1b95..6b1c7cb 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1349,9 +1349,12 @@ impl VdevRaid {
         .collect::<Vec<Result<()>>>()
         .map(move |dv| {
             let mut failures = FixedBitSet::with_capacity(n);
-            for (i, v) in dv.iter().enumerate() {
+            // NB: not every disk was necessarily read
+            let disks = args_per_disk.iter()
+                .positions(Option::is_some);
+            for (disk_idx, v) in disks.zip(dv.iter()) {
                 if v.is_err() {
-                    failures.set(i, true);
+                    failures.set(disk_idx, true);
                 }
             }
             // Now iterate over all combinations of disk failures
-- 
2.43.0


From 317526c80482a012395be4383b4179dc8e0a6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 13/28] fix: VdevRaid::read_long: don't reconstruct from the
 parity of a disk assumed bad

---
 bfffs-core/src/raid/vdev_raid.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 6b1c7cb..b2b0c03 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -1392,7 +1392,10 @@ impl VdevRaid {
                     {
                         let disk = loc.disk as usize;
                         let args = args_per_disk[disk].as_ref().unwrap();
-                        if disk_erasures.contains(disk) && cid.is_data() {
+                        if disk_erasures.contains(disk) && !cid.is_data() {
+                            // Don't reconstruct from the erased disks' parity
+                            erasures.set(chunkpos, true);
+                        } else if disk_erasures.contains(disk) {
                             erasures.set(chunkpos, true);
                             let mut dbm = sdbmi.next().unwrap();
                             missing.push(dbm.as_mut_ptr());
-- 
2.43.0


From 128f5955aebd262ab6dab5fa9b6a5aecdb83927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 14/28] fix: VdevRaid: don't panic on labels and space maps of
 a degraded array

---
 bfffs-core/src/raid/vdev_raid.rs | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index b2b0c03..6ccfe3d 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -312,8 +312,10 @@ impl Child {
         }
     }
 
-    fn read_spacemap(&self, buf: IoVecMut, smidx: u32) -> ChildReadSpacemap {
-        self.as_present().unwrap().read_spacemap(buf, smidx)
+    fn read_spacemap(&self, buf: IoVecMut, smidx: u32)
+        -> Option<ChildReadSpacemap>
+    {
+        self.as_present().map(|m| m.read_spacemap(buf, smidx))
     }
 
     fn readv_at(&self, bufs: SGListMut, lba: LbaT) -> ChildReadFut {
@@ -381,14 +383,16 @@ impl Child {
         }
     }
 
-    fn write_label(&self, labeller: LabelWriter, txg: TxgT) -> BoxVdevFut {
-        self.as_present().unwrap().write_label(labeller, txg, false)
+    fn write_label(&self, labeller: LabelWriter, txg: TxgT)
+        -> Option<BoxVdevFut>
+    {
+        self.as_present().map(|m| m.write_label(labeller, txg, false))
     }
 
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
-        ->  BoxVdevFut
+        ->  Option<BoxVdevFut>
     {
-        self.as_present().unwrap().write_spacemap(sglist, idx, block)
+        self.as_present().map(|m| m.write_spacemap(sglist, idx, block))
     }
 
     fn writev_at(&self, bufs: SGList, lba: LbaT) -> ChildWriteFut {
@@ -465,18 +469,23 @@ impl Future for ReadSpacemap {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                 Poll::Ready(Err(e)) => {
-                    if *pinned.next >= pinned.inner.children.len() {
+                    // Try a different child.
+                    let next = pinned.inner.children.iter()
+                        .skip(*pinned.next)
+                        .position(Child::is_present);
+                    if let Some(skipped) = next {
+                        *pinned.next += skipped;
+                    } else {
                         // Out of children.  Fail the Read.
                         return Poll::Ready(Err(e));
                     }
                 }
             }
-            // Try a different child.
             let buf = pinned.dbi.try_mut().unwrap();
             let child = &pinned.inner.children[*pinned.next];
             *pinned.next += 1;
             let new_fut = child.read_spacemap(buf, *pinned.smidx);
-            pinned.fut.replace(new_fut);
+            pinned.fut.set(new_fut);
         }
     }
 }
@@ -2316,11 +2325,12 @@ impl VdevRaidApi for VdevRaid {
     {
         let dbi = buf.clone_inaccessible();
         let inner = self.inner.clone();
-        let fut = inner.children.first().map(|child| child.read_spacemap(buf, smidx));
+        let first = inner.children.iter().position(Child::is_present);
+        let fut = first.and_then(|i| inner.children[i].read_spacemap(buf, smidx));
 
         Box::pin(ReadSpacemap {
             inner,
-            next: 1,
+            next: first.map(|i| i + 1).unwrap_or(0),
             dbi,
             smidx,
             fut
@@ -2521,7 +2531,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_label(&self, mut labeller: LabelWriter, txg: TxgT) -> BoxVdevFut
     {
         self.serialize_label(&mut labeller);
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
            bd.write_label(labeller.clone(), txg)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
@@ -2532,7 +2542,7 @@ impl VdevRaidApi for VdevRaid {
     fn write_spacemap(&self, sglist: SGList, idx: u32, block: LbaT)
         -> BoxVdevFut
     {
-        let fut = self.inner.children.iter().map(|bd| {
+        let fut = self.inner.children.iter().filter_map(|bd| {
             bd.write_spacemap(sglist.clone(), idx, block)
         }).collect::<FuturesUnordered<_>>()
         .try_collect::<Vec<_>>()
-- 
2.43.0


From 1b359d843fab49272ace8e35a610f4d1a1e10812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:08 +0000
Subject: [PATCH 15/28] fix: VdevRaid::restore: keep count of the faulted
 children

---
 bfffs-core/src/raid/vdev_raid.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 6ccfe3d..0ee7543 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -349,17 +349,19 @@ impl Child {
     /// Return any fully rebuilt disks on this mirror to service
     ///
     /// It is the caller's responsibility to ensure that all data has been fully
-    /// rebuilt.
-    fn restore(&mut self) {
+    /// rebuilt.  If its status changed from Faulted to Present, return 1.
+    fn restore(&mut self) -> i16 {
         let mut old = mem::replace(self, Child::Missing(Uuid::default()));
         if let Child::Present(ref mut m) = &mut old {
             m.restore();
         }
+        let r = i16::from(matches!(old, Child::Faulted(_)));
         *self = match old {
             Child::Present(m) => Child::Present(m),
             Child::Faulted(m) => Child::Present(m),
             Child::Missing(uuid) => Child::Missing(uuid),
         };
+        r
     }
 
     fn status(&self) -> Option<mirror::Status> {
@@ -2386,7 +2388,7 @@ impl VdevRaidApi for VdevRaid {
 
     fn restore(&mut self, mirror_idx: usize) -> Result<()> {
         if let Some(inner) = Arc::get_mut(&mut self.inner) {
-            inner.children[mirror_idx].restore();
+            self.faulted_children -= inner.children[mirror_idx].restore();
             Ok(())
         } else {
             Err(Error::EAGAIN)
-- 
2.43.0


From a4527503910d112fb1ca86e027f3ad2a286a09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 16/28] fix: reclaim zones that were entirely freed before they
 were closed

Cluster::free only kills closed zones.  If an open zone's data had all been
freed by the time it was closed, nothing ever killed it: its space was lost
(the cleaner finds nothing to move), and in debug builds the cleaner's
assert_clean_zone panicked.
---
 bfffs-core/src/cluster.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..3708660 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -898,6 +898,12 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            if wg.in_use(zone_id) == 0 {
+                // Everything in it was freed while it was still open, so
+                // Cluster::free will never get the chance to kill it.
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From 6ef7781a73363cd1c3a434f48ba8264d965621b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 17/28] fix: don't close zones when a write fails with ENOSPC

Cluster::write closed the nearly full zones before discovering that there was
no empty zone left, and then dropped the futures returned by
VdevRaidApi::finish_zone without ever polling them.  Whatever was still in the
zone's stripe buffer, already acknowledged to its writer, was lost.
---
 bfffs-core/src/cluster.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 3708660..3a3fa54 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -1263,6 +1263,15 @@ impl Cluster {
 
         let mut wg = self.fsm.write().unwrap();
         let (alloc_result, nearly_full_zones) = wg.try_allocate(space);
+        if alloc_result.is_none() {
+            // Before closing anything, ensure that a new zone can be opened.
+            // There would be nobody to wait for the nearly full zones to
+            // finish if this function failed after closing them.
+            let ez = wg.find_empty().map(|zid| self.vdev.zone_limits(zid));
+            if !ez.is_some_and(|(start, end)| end - start >= space) {
+                return Err(Error::ENOSPC);
+            }
+        }
         let futs = self.close_zones(&mut wg, &nearly_full_zones, txg);
         let (zone_id, lba, oz_fut) = if let Some(ac) = alloc_result {
             let zone_id = ac.0;
-- 
2.43.0


From eba93c25408cfd9af546119ed5f7dbf251536348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:45 +0000
Subject: [PATCH 18/28] fix: report damaged spacemaps as EINTEGRITY instead of
 panicking

If the damage was in the length field, deserialization itself failed, and
FreeSpaceMap::deserialize unwrapped the error.
---
 bfffs-core/src/cluster.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 3a3fa54..ddc21d4 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -242,12 +242,17 @@ impl<'a> FreeSpaceMap {
         let oz_futs = FuturesUnordered::new();
         let mut zid: ZoneT = 0;
         for (i, db) in buf.into_chunks(BYTES_PER_LBA).enumerate() {
-            let sod = SpacemapOnDisk::deserialize(i as u64, &db).unwrap();
-            if let Err(e) = sod {
-                let fut = future::err(e);
-                return Box::pin(fut);
-            }
-            for zod in sod.unwrap().zones.into_iter() {
+            let sod = match SpacemapOnDisk::deserialize(i as u64, &db) {
+                Ok(Ok(sod)) => sod,
+                Ok(Err(e)) => {
+                    return Box::pin(future::err(e));
+                },
+                Err(e) => {
+                    tracing::warn!("Malformed FreeSpaceMap: {}", e);
+                    return Box::pin(future::err(Error::EINTEGRITY));
+                }
+            };
+            for zod in sod.zones.into_iter() {
                 if zod.txgs.end > TxgT::from(0) {
                     let zl = vdev.zone_limits(zid);
                     fsm.open_zone(zid, zl.0, zl.1, 0, zod.txgs.start).unwrap();
-- 
2.43.0


From d43cc79fb15e462dfcc640d1458426a66a717280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 19/28] fix: don't ignore errors from reopening zones when
 opening a cluster

---
 bfffs-core/src/cluster.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index ddc21d4..15c6490 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -280,7 +280,8 @@ impl<'a> FreeSpaceMap {
         }
         assert_eq!(zid, zones);
         fsm.clear_dirty_zones();
-        let fut = oz_futs.try_collect::<Vec<_>>().map(|_| Ok((fsm, vdev)));
+        let fut = oz_futs.try_collect::<Vec<_>>()
+            .map(|r| r.map(|_| (fsm, vdev)));
         Box::pin(fut)
     }
 
-- 
2.43.0


From 4d8fe16be7af029a551baa2d0f4f834e3e1a6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:58 +0000
Subject: [PATCH 20/28] fix: DDML::read couldn't recover records that don't
 fill their last block

The reconstructions that Pool::read_long returns are whole LBAs, but
DDML::read compared the checksum of the entire reconstruction to that of
the record, which doesn't include the padding.  So any record that isn't a
multiple of the LBA size, such as any compressed record, could never be
recovered from a checksum error, despite sufficient redundancy.
---
 bfffs-core/src/ddml/ddml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/ddml/ddml.rs b/bfffs-core/src/ddml/ddml.rs
index 20d525f..244acb0 100644
--- a/bfffs-core/src/ddml/ddml.rs
+++ b/bfffs-core/src/ddml/ddml.rs
@@ -337,7 +337,10 @@ impl DDML {
                     match r {
                         Ok(reconstructions) => {
                             for rdbs in reconstructions {
-                                let rdb = rdbs.try_const().unwrap();
+                                // Reconstructions are whole LBAs, but the
+                                // checksum doesn't cover any padding
+                                let rdb = rdbs.try_const().unwrap()
+                                    .slice_to(drp.csize as usize);
                                 let mut hasher = MetroHash64::new();
                                 checksum_iovec(&rdb, &mut hasher);
                                 let checksum = hasher.finish();
-- 
2.43.0


From 62a3d1e82374ef58bef32ddd7c54f99f4ed2d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 21/28] fix: Pool::write failed with ENOSPC while another
 Cluster had space

Pool::choose_cluster weighs utilization and queue depth, but it doesn't
consider whether the best Cluster really has room for the buffer.  Fall
back to the other Clusters if the first choice returns ENOSPC.
---
 bfffs-core/src/pool.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/bfffs-core/src/pool.rs b/bfffs-core/src/pool.rs
index 957d92d..86c66d9 100644
--- a/bfffs-core/src/pool.rs
+++ b/bfffs-core/src/pool.rs
@@ -512,18 +512,23 @@ impl Pool {
     pub fn write(&self, buf: IoVec, txg: TxgT) ->
         impl Future<Output=Result<PBA>> + Send
     {
-        let cluster = self.choose_cluster();
-        let cidx = cluster as usize;
+        let best = self.choose_cluster() as usize;
         let space = buf.len().div_ceil(BYTES_PER_LBA) as LbaT;
-        let stats2 = self.stats.clone();
-        match self.clusters[cidx].write(buf, txg) {
-            Ok((lba, wfut)) => {
-                self.stats.queue_depth[cidx].fetch_add(1, Ordering::Relaxed);
-                let pba = PBA::new(cluster, lba);
-                Write::Write(wfut, stats2, cidx, space, pba)
-            },
-            Err(e) => Write::EarlyErr(e)
+        // If the best Cluster has no room, then try the others.
+        let nclusters = self.clusters.len();
+        for cidx in (best..nclusters).chain(0..best) {
+            match self.clusters[cidx].write(buf.clone(), txg) {
+                Ok((lba, wfut)) => {
+                    let stats2 = self.stats.clone();
+                    stats2.queue_depth[cidx].fetch_add(1, Ordering::Relaxed);
+                    let pba = PBA::new(cidx as ClusterT, lba);
+                    return Write::Write(wfut, stats2, cidx, space, pba);
+                },
+                Err(Error::ENOSPC) => continue,
+                Err(e) => return Write::EarlyErr(e)
+            }
         }
+        Write::EarlyErr(Error::ENOSPC)
     }
 
     /// Asynchronously write this `Pool`'s label to all component devices
-- 
2.43.0


From 68b45252311f5ce5e19cf3ccc0e92000f5ea1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 22/28] fix: don't move a record while it's being deleted

The cleaner's move_record looks a record up, rewrites it, frees its old
location and reinserts it into the RIDT and AllocT.  If the record got deleted
or popped in the meantime, then its old location was freed twice (which panics)
and it reappeared in the RIDT; if it got deleted between being listed and being
looked up, then the cleaner panicked.  Exclude deletes while a record is being
moved, and skip records which are gone already.
---
 bfffs-core/src/idml/idml.rs | 66 ++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..e5c2dc6 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -51,6 +51,12 @@ pub struct IDML {
     // can be 'static
     alloct: Arc<DTree<PBA, RID>>,
 
+    /// Held for writing while the cleaner moves a record, and for reading while
+    /// a record gets deleted.  A record must never be deleted while it's being
+    /// moved, or its old location would be freed twice and the record would
+    /// reappear in the RIDT.
+    moving: RwLock<()>,
+
     /// Record indirection table.  Maps record IDs to disk addresses.
     // Even though it has a single owner, the tree must be Arc so IDML methods
     // can be 'static
@@ -203,6 +209,7 @@ impl<'a> IDML {
         let ridt2 = self.ridt.clone();
         let ridt3 = self.ridt.clone();
         let ddml2 = self.ddml.clone();
+        let moving = self.moving.clone();
         #[cfg(debug_assertions)]
         let ddml3 = self.ddml.clone();
         #[cfg(debug_assertions)]
@@ -213,13 +220,28 @@ impl<'a> IDML {
         // 1, so as not to interfere too much with foreground tasks
         self.list_indirect_records(&zone)
         .try_for_each(move |record| {
-            IDML::move_record(&cache2, ridt2.clone(), alloct2.clone(), &ddml2,
-                record, txg)
-            .map_ok(move |drp| {
-                // We shouldn't have moved the record into the same zone
-                debug_assert!(drp.pba().cluster != pba.cluster ||
-                              drp.pba().lba < pba.lba ||
-                              drp.pba().lba >= pba.lba + total_blocks);
+            let cache3 = cache2.clone();
+            let alloct4 = alloct2.clone();
+            let ridt4 = ridt2.clone();
+            let ddml4 = ddml2.clone();
+            moving.write().then(move |guard| {
+                IDML::move_record(&cache3, ridt4, alloct4, &ddml4, record, txg)
+                .map(move |r| {
+                    drop(guard);
+                    match r {
+                        Ok(drp) => {
+                            // We shouldn't have moved the record into the same
+                            // zone
+                            debug_assert!(drp.pba().cluster != pba.cluster ||
+                                drp.pba().lba < pba.lba ||
+                                drp.pba().lba >= pba.lba + total_blocks);
+                            Ok(())
+                        },
+                        // The record was deleted after we listed it
+                        Err(Error::ENOENT) => Ok(()),
+                        Err(e) => Err(e)
+                    }
+                })
             })
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
@@ -256,7 +278,8 @@ impl<'a> IDML {
         let transaction = RwLock::new(TxgT::from(0));
         // TODO: apply configurable writeback size
         let writeback = WriteBack::limitless();
-        IDML{cache, ddml, next_rid, transaction, alloct, ridt, writeback}
+        let moving = RwLock::new(());
+        IDML{cache, ddml, next_rid, transaction, alloct, moving, ridt, writeback}
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -357,6 +380,7 @@ impl<'a> IDML {
             next_rid,
             transaction,
             alloct,
+            moving: RwLock::new(()),
             ridt,
             writeback
         };
@@ -364,6 +388,8 @@ impl<'a> IDML {
     }
 
     /// Rewrite the given direct Record and update its metadata.
+    ///
+    /// Returns `ENOENT` if the record no longer exists.
     fn move_record(cache: &Arc<Mutex<Cache>>, ridt: Arc<DTree<RID, RidtEntry>>,
                    alloct: Arc<DTree<PBA, RID>>,
                    ddml: &Arc<DDML>, rid: RID, txg: TxgT)
@@ -377,8 +403,10 @@ impl<'a> IDML {
         let ridt2 = ridt.clone();
         ridt.get(rid)
             .and_then(move |v| {
-                let mut entry = v.expect(
-                    "Inconsistency in alloct.  Entry not found in RIDT");
+                let mut entry = match v {
+                    Some(entry) => entry,
+                    None => return future::err(Error::ENOENT).boxed()
+                };
                 let compressed = entry.drp.is_compressed();
 
                 let cache_miss = || {
@@ -437,7 +465,7 @@ impl<'a> IDML {
                                                    Credit::null());
                     future::try_join(ridt_fut, alloct_fut)
                     .map_ok(move |_| drp)
-                })
+                }).boxed()
             })
     }
 
@@ -525,7 +553,10 @@ impl DML for IDML {
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
         let rid = *ridp;
-        let fut = self.ridt.get(rid)
+        let ridt3 = self.ridt.clone();
+        let fut = self.moving.read()
+        .then(move |guard| {
+            ridt3.get(rid)
             .and_then(move |oentry| {
                 let mut entry = match oentry {
                     Some(e) => e,
@@ -549,7 +580,11 @@ impl DML for IDML {
                         .map_ok(|old| assert!(old.is_some()));
                     ridt_fut.boxed()
                 }
-            });
+            }).map(move |r| {
+                drop(guard);
+                r
+            })
+        });
         Box::pin(fut)
     }
 
@@ -587,9 +622,10 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
-        let efut = self.ridt.get(rid);
+        let moving = self.moving.read();
         async move {
-            let mut entry = efut.await?
+            let _guard = moving.await;
+            let mut entry = ridt2.get(rid).await?
                 .ok_or(Error::ENOENT)?;
             entry.refcount -= 1;
             if entry.refcount == 0 {
-- 
2.43.0


From 2795705620b8f2e94ebb69a450caeac8082f3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:10 +0000
Subject: [PATCH 23/28] fix: don't panic when writing part of an IoVec whose
 whole isn't LBA-sized

DivBuf's Borrow implementation returns the entire shared buffer rather than the
DivBuf's own slice.  So with debug assertions enabled, writing a record that
isn't a multiple of the LBA size to a RAID (which splits it into chunks)
panicked.
---
 bfffs-core/src/vdev_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index cf33cbe..962b357 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -473,10 +472,7 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From 6e33b834691e990c9d09181dc36512a549b4b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:41 +0000
Subject: [PATCH 24/28] fix: don't open two copies of the same file system tree

If two tasks concurrently accessed a file system that wasn't yet open, then each
got its own copy of the tree but only one would ever be flushed.  Anything
written through the other was lost.
---
 bfffs-core/src/database/database.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..b9614a1 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -210,13 +210,11 @@ impl Inner {
         let idml2 = inner.idml.clone();
         let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
         let atree = Arc::new(tree);
-        let atree2 = atree.clone();
         inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
-        })
+            // If somebody else opened it in the meantime, use theirs.  There
+            // must never be two copies of the same tree.
+            future::ready(wguard.entry(tree_id).or_insert(atree).clone())
+        }).map(Ok)
     }
 
     // Must be called from within a Tokio executor context
-- 
2.43.0


From e3be4bf1c437b46f538a2ba8b4fdba593a35b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 25/28] fix: don't lose track of writes that race with a sync

The dirty flag was set before the writer had joined the transaction, so a
concurrent sync could clear it without writing the data, and the next sync
would then do nothing.
---
 bfffs-core/src/database/database.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index b9614a1..a59eb92 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -170,12 +170,14 @@ impl Inner {
         // from disk.  Ensure that it does not remain in the cache, too.  Do
         // this all in a single transaction.
         let tname = name.split('/').next_back().unwrap();
-        inner.dirty.store(true, Ordering::Relaxed);
 
         // First check that the tree exists ane ensure it is cached.
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        // Set dirty only while holding the txg, or else a concurrent sync could
+        // clear it without syncing our changes.
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -249,7 +251,6 @@ impl Inner {
         where F: FnOnce(ReadWriteFilesystem) -> B,
               B: Future<Output=Result<R>>,
     {
-        inner.dirty.store(true, Ordering::Relaxed);
         Inner::open_filesystem(&inner, tree_id)
         .and_then(move |itree| async move {
             let cr = itree.credit_requirements();
@@ -261,6 +262,9 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            // Set dirty only while holding the txg, or else a concurrent sync
+            // could clear it without syncing our changes.
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -490,7 +494,6 @@ impl Database {
         -> Result<TreeID>
         where S: Into<String> + Debug + 'static
     {
-        self.inner.dirty.store(true, Ordering::Relaxed);
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
@@ -502,6 +505,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        inner3.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
-- 
2.43.0


From 851d76563377b4428ba83726100fd05c2bd7b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 26/28] fix: a sync that failed must not make the next one a
 no-op

---
 bfffs-core/src/database/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index a59eb92..f4a060f 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -735,6 +735,7 @@ impl Database {
             future::ok(())
         } else {
             let inner2 = inner.clone();
+            let inner3 = inner.clone();
             inner.idml.advance_transaction(move |txg| async move {
                 let guard = inner2.fs_trees.read().await;
                 guard.values()
@@ -766,6 +767,9 @@ impl Database {
                 inner2.idml.sync_all(txg).await?;
                 inner2.write_label(&label, 1, txg).await?;
                 inner2.idml.sync_all(txg).await
+            }).inspect_err(move |_| {
+                // Not everything is on disk.  Try again next time.
+                inner3.dirty.store(true, Ordering::Relaxed);
             })
         }
     }
-- 
2.43.0


From fa0ee791d7c5faf69077d36e18f62864b016e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:41 +0000
Subject: [PATCH 27/28] fix: a read error while writing to a tree must not drop
 WriteBack credit

Dropping credit panics.  Repay it instead, and return the error.
---
 bfffs-core/src/tree/node.rs     | 16 ++++++++++++++--
 bfffs-core/src/tree/tree/mod.rs |  8 +++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/tree/node.rs b/bfffs-core/src/tree/node.rs
index 6a647c1..b7a14a7 100644
--- a/bfffs-core/src/tree/node.rs
+++ b/bfffs-core/src/tree/node.rs
@@ -838,8 +838,14 @@ impl<A: Addr, K: Key, V: Value> TreeWriteGuard<A, K, V> {
                             .as_addr();
             let afut = dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(&addr,
                                                                   txg);
+            let dml2 = dml.clone();
             async move {
-                let arc = afut.await?;
+                let r = afut.await;
+                if r.is_err() {
+                    // Credit must never be dropped
+                    dml2.repay(credit.take());
+                }
+                let arc = r?;
                 let mut child_guard = arc.xlock().await;
                 if child_guard.is_leaf() {
                     let ld = child_guard.as_leaf_mut();
@@ -899,8 +905,14 @@ impl<A: Addr, K: Key, V: Value> TreeWriteGuard<A, K, V> {
             let addr = *self.as_int().children[child_idx].ptr.as_addr();
             let afut = dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(&addr,
                                                                          txg);
+            let dml2 = dml.clone();
             async move {
-                let arc = afut.await?;
+                let r = afut.await;
+                if r.is_err() {
+                    // Credit must never be dropped
+                    dml2.repay(credit.take());
+                }
+                let arc = r?;
                 let mut child_guard = arc.xlock().await;
                 if child_guard.is_leaf() {
                     let ld = child_guard.as_leaf_mut();
diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..6a701ed 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2274,8 +2274,14 @@ impl<A, D, K, V> Tree<A, D, K, V>
             let addr = *guard.elem.ptr.as_addr();
             let afut = dml.pop::<Arc<Node<A, K, V>>, Arc<Node<A, K, V>>>(
                 &addr, txg);
+            let dml2 = dml.clone();
             async move {
-                let arc = afut.await?;
+                let r = afut.await;
+                if r.is_err() {
+                    // Credit must never be dropped
+                    dml2.repay(credit.take());
+                }
+                let arc = r?;
                 let mut child_guard = arc.xlock().await;
                 if child_guard.is_leaf() {
                     let ld = child_guard.as_leaf_mut();
-- 
2.43.0


From 234a13e73c2158ee6a8f14390375a0cb851ede5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:01 +0000
Subject: [PATCH 28/28] fix: don't panic if a tree changes while it is being
 cleaned

The tree may shrink between the two passes or before the first, and the
node to be rewritten may have been merged with its left neighbor.
---
 bfffs-core/src/tree/tree/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 6a701ed..7a77010 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2399,7 +2399,11 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
     {
         let tree_guard = self.read().await;
         let h = tree_guard.height;
-        if h == params.echelon + 1 {
+        if h <= params.echelon {
+            // The tree has shrunk since we started cleaning it.  There is
+            // nothing left to clean at this echelon.
+            Ok((VecDeque::new(), None))
+        } else if h == params.echelon + 1 {
             // Clean the tree root
             let dirty = if tree_guard.elem.ptr.is_addr() &&
                 tree_guard.elem.ptr.as_addr().pba() >= params.pbas.start &&
@@ -2482,6 +2486,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
         .then(move |mut guard| {
             let h = guard.height;
             let dml2 = self.dml.clone();
+            if h <= node.height {
+                // The tree has shrunk since pass 1, so the node is gone.
+                return future::ok(()).boxed();
+            }
             if h == node.height + 1 {
                 // Clean the root node
                 if guard.elem.ptr.is_mem() {
@@ -2530,12 +2538,8 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                                 Arc<Node<ddml::DRP, K, V>>>(
                         guard.as_int().children[child_idx].ptr.as_addr(), txg)
                 .and_then(move |arc| {
-                    #[cfg(debug_assertions)]
-                    {
-                        if let Ok(guard) = arc.0.try_read() {
-                            assert!(node.key <= *guard.key());
-                        }   // LCOV_EXCL_LINE   grcov false negative
-                    }
+                    // NB: if the target node has been removed since pass 1,
+                    // then we'll needlessly rewrite its left neighbor.
                     dml2.put(*arc, Compression::None, txg)
                 }).map_ok(move |addr| {
                     let new = TreePtr::Addr(addr);
-- 
2.43.0

