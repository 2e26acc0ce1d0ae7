From f3bcba4b2d128e34e44aebdc6b01f08b762fd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 01/23] Add cfg(rexecutor_verif) hooks for model checking

---
 rexecutor/src/backend/memory.rs |  13 +-
 rexecutor/src/backoff.rs        |   7 +-
 rexecutor/src/lib.rs            |   4 +
 rexecutor/src/verif.rs          | 210 ++++++++++++++++++++++++++++++++
 4 files changed, 229 insertions(+), 5 deletions(-)
 create mode 100644 rexecutor/src/verif.rs

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..dee5e05 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -3,16 +3,21 @@
 //! Currently this is provided for testing purposes and not designed for use in a production system.
 //!
 //! It is not optimized instead is designed to be a correct implementation for use in a test setup.
+#[cfg(not(rexecutor_verif))]
+use std::sync::{
+    RwLock,
+    atomic::{AtomicBool, AtomicI32},
+};
 use std::{
     collections::HashMap,
     ops::Sub,
     pin::Pin,
-    sync::{
-        Arc, RwLock,
-        atomic::{AtomicBool, AtomicI32, Ordering},
-    },
+    sync::{Arc, atomic::Ordering},
 };
 
+#[cfg(rexecutor_verif)]
+use crate::verif::{AtomicBool, AtomicI32, RwLock};
+
 use crate::{
     executor::ExecutorIdentifier,
     job::{
diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..644f6f8 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -33,6 +33,11 @@
 
 use chrono::TimeDelta;
 use rand::RngExt;
+#[cfg(not(rexecutor_verif))]
+use rand::rng;
+
+#[cfg(rexecutor_verif)]
+use crate::verif::rng;
 
 /// Type that can be used to implement a backoff strategy.
 pub trait Strategy {
@@ -206,7 +211,7 @@ impl Jitter {
             Self::Absolute(delta) => delta.num_milliseconds(),
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
         };
-        let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
+        let rand_jitter_seconds = rng().random_range(-milliseconds..=milliseconds);
         value + TimeDelta::milliseconds(rand_jitter_seconds)
     }
 }
diff --git a/rexecutor/src/lib.rs b/rexecutor/src/lib.rs
index 47bb8ad..d5fc66c 100644
--- a/rexecutor/src/lib.rs
+++ b/rexecutor/src/lib.rs
@@ -430,6 +430,7 @@
 //! Note, using a global backend has many of the same drawbacks of any global variable in
 //! particular it can make unit testing more difficult.
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 use std::{hash::Hash, marker::PhantomData};
 
 pub mod backend;
@@ -442,6 +443,9 @@ pub mod job;
 pub mod prelude;
 pub mod pruner;
 pub mod testing;
+#[cfg(rexecutor_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 use backend::{Backend, BackendError};
 use chrono::{TimeZone, Utc};
diff --git a/rexecutor/src/verif.rs b/rexecutor/src/verif.rs
new file mode 100644
index 0000000..1bb2e7d
--- /dev/null
+++ b/rexecutor/src/verif.rs
@@ -0,0 +1,210 @@
+//! Instrumentation for model checking, only compiled with `--cfg rexecutor_verif`.
+//!
+//! Drop in replacements for the synchronisation primitives used by the in memory backend, which
+//! announce every operation to a registered hook before performing it, so that a controlled
+//! scheduler can decide which thread goes next. Without a registered hook they behave exactly as
+//! the primitives from [`std`].
+use std::sync::{
+    LockResult, OnceLock, RwLockReadGuard, RwLockWriteGuard, TryLockError, atomic::Ordering,
+};
+
+/// Called with the name of the operation, the address of the object, and whether the operation was
+/// just found to be blocked.
+pub type Hook = fn(operation: &'static str, address: usize, blocked: bool);
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Register the hook, returns false if one has been registered before.
+pub fn set_hook(hook: Hook) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+fn announce(operation: &'static str, address: usize, blocked: bool) {
+    if let Some(hook) = HOOK.get() {
+        hook(operation, address, blocked)
+    }
+}
+
+/// Instrumented version of [`std::sync::RwLock`].
+#[derive(Debug, Default)]
+pub struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    /// See [`std::sync::RwLock::new`].
+    pub const fn new(value: T) -> Self {
+        Self(std::sync::RwLock::new(value))
+    }
+
+    fn address(&self) -> usize {
+        std::ptr::from_ref(&self.0) as *const () as usize
+    }
+
+    /// See [`std::sync::RwLock::read`].
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        if HOOK.get().is_none() {
+            return self.0.read();
+        }
+        announce("read", self.address(), false);
+        loop {
+            match self.0.try_read() {
+                Ok(guard) => return Ok(guard),
+                Err(TryLockError::Poisoned(err)) => return Err(err),
+                Err(TryLockError::WouldBlock) => announce("read", self.address(), true),
+            }
+        }
+    }
+
+    /// See [`std::sync::RwLock::write`].
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        if HOOK.get().is_none() {
+            return self.0.write();
+        }
+        announce("write", self.address(), false);
+        loop {
+            match self.0.try_write() {
+                Ok(guard) => return Ok(guard),
+                Err(TryLockError::Poisoned(err)) => return Err(err),
+                Err(TryLockError::WouldBlock) => announce("write", self.address(), true),
+            }
+        }
+    }
+}
+
+// Whatever is not instrumented goes straight to the primitive.
+impl<T> std::ops::Deref for RwLock<T> {
+    type Target = std::sync::RwLock<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+/// Instrumented version of [`std::sync::atomic::AtomicI32`].
+#[derive(Debug, Default)]
+pub struct AtomicI32(std::sync::atomic::AtomicI32);
+
+impl AtomicI32 {
+    fn address(&self) -> usize {
+        std::ptr::from_ref(&self.0) as usize
+    }
+
+    /// See [`std::sync::atomic::AtomicI32::new`].
+    pub const fn new(value: i32) -> Self {
+        Self(std::sync::atomic::AtomicI32::new(value))
+    }
+
+    /// See [`std::sync::atomic::AtomicI32::load`].
+    pub fn load(&self, order: Ordering) -> i32 {
+        announce("load", self.address(), false);
+        self.0.load(order)
+    }
+
+    /// See [`std::sync::atomic::AtomicI32::store`].
+    pub fn store(&self, value: i32, order: Ordering) {
+        announce("store", self.address(), false);
+        self.0.store(value, order)
+    }
+
+    /// See [`std::sync::atomic::AtomicI32::fetch_add`].
+    pub fn fetch_add(&self, value: i32, order: Ordering) -> i32 {
+        announce("fetch_add", self.address(), false);
+        self.0.fetch_add(value, order)
+    }
+}
+
+// Whatever is not instrumented goes straight to the primitive.
+impl std::ops::Deref for AtomicI32 {
+    type Target = std::sync::atomic::AtomicI32;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+/// Instrumented version of [`std::sync::atomic::AtomicBool`].
+#[derive(Debug, Default)]
+pub struct AtomicBool(std::sync::atomic::AtomicBool);
+
+impl AtomicBool {
+    fn address(&self) -> usize {
+        std::ptr::from_ref(&self.0) as usize
+    }
+
+    /// See [`std::sync::atomic::AtomicBool::new`].
+    pub const fn new(value: bool) -> Self {
+        Self(std::sync::atomic::AtomicBool::new(value))
+    }
+
+    /// See [`std::sync::atomic::AtomicBool::load`].
+    pub fn load(&self, order: Ordering) -> bool {
+        announce("load", self.address(), false);
+        self.0.load(order)
+    }
+
+    /// See [`std::sync::atomic::AtomicBool::store`].
+    pub fn store(&self, value: bool, order: Ordering) {
+        announce("store", self.address(), false);
+        self.0.store(value, order)
+    }
+
+    /// See [`std::sync::atomic::AtomicBool::swap`].
+    pub fn swap(&self, value: bool, order: Ordering) -> bool {
+        announce("swap", self.address(), false);
+        self.0.swap(value, order)
+    }
+}
+
+// Whatever is not instrumented goes straight to the primitive.
+impl std::ops::Deref for AtomicBool {
+    type Target = std::sync::atomic::AtomicBool;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+thread_local! {
+    static RANDOM_WORD: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
+    static RANDOM_DRAWS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+}
+
+/// Make every random word drawn on the current thread the given one, or really random again.
+pub fn set_random_word(word: Option<u64>) {
+    RANDOM_WORD.set(word);
+}
+
+/// The number of random words drawn on the current thread.
+pub fn random_draws() -> u64 {
+    RANDOM_DRAWS.get()
+}
+
+/// Stands in for [`rand::rng`].
+pub(crate) fn rng() -> ControlledRng {
+    ControlledRng
+}
+
+pub(crate) struct ControlledRng;
+
+impl rand::TryRng for ControlledRng {
+    type Error = std::convert::Infallible;
+
+    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
+        self.try_next_u64().map(|word| (word >> 32) as u32)
+    }
+
+    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
+        RANDOM_DRAWS.set(RANDOM_DRAWS.get() + 1);
+        match RANDOM_WORD.get() {
+            Some(word) => Ok(word),
+            None => rand::rng().try_next_u64(),
+        }
+    }
+
+    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
+        for chunk in dst.chunks_mut(8) {
+            let word = self.try_next_u64()?.to_le_bytes();
+            chunk.copy_from_slice(&word[..chunk.len()]);
+        }
+        Ok(())
+    }
+}
-- 
2.43.0


From f54ffbad08cea0d8153f499e514b34f47f0a8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 02/23] fix: prune the oldest jobs in the in memory backend

Pruning by length removed the first length jobs and kept all the others instead of keeping length
jobs, and pruning by age also removed jobs scheduled for the future.
---
 rexecutor/src/backend/memory.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index dee5e05..7974753 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -9,7 +9,7 @@ use std::sync::{
     atomic::{AtomicBool, AtomicI32},
 };
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     ops::Sub,
     pin::Pin,
     sync::{Arc, atomic::Ordering},
@@ -465,24 +465,21 @@ impl Backend for InMemoryBackend {
         let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
         match prune_spec.prune_by {
             PruneBy::MaxAge(delta) => {
-                let min_scheduled_at = now - delta;
-                let max_scheduled_at = now + delta;
-                jobs.retain(|job| {
-                    !prune_spec.matches(job)
-                        || (job.scheduled_at < max_scheduled_at
-                            && job.scheduled_at > min_scheduled_at)
-                });
+                let min_scheduled_at = now
+                    .checked_sub_signed(delta)
+                    .unwrap_or(DateTime::<Utc>::MIN_UTC);
+                jobs.retain(|job| !prune_spec.matches(job) || job.scheduled_at >= min_scheduled_at);
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
-                    }
-                });
+                let mut matching: Vec<_> = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect();
+                matching.sort();
+                let excess = matching.len().saturating_sub(length as usize);
+                let pruned: HashSet<_> = matching[..excess].iter().map(|(_, id)| *id).collect();
+                jobs.retain(|job| !pruned.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From 43e20bf2f07b73894a82b5e6e988d6925af5bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 03/23] fix: make unique inserts atomic in the in memory
 backend

Two concurrent enqueues could both find no match and insert duplicates, and a job claimed between
the match and the replacement was put back to its old status and ran twice.
---
 rexecutor/src/backend/memory.rs | 41 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 7974753..22d885b 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -231,18 +231,33 @@ impl InMemoryBackend {
         Ok(id.into())
     }
 
-    async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
-        }
+    fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        // The lock needs to be held from finding a match until the job is inserted or replaced,
+        // otherwise concurrent calls could insert duplicates or overwrite a job's new status.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        let (id, executor, scheduled_at) = match jobs.iter_mut().find(|other| job.matches(other)) {
+            None => {
+                let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
+                let executor = job.executor.clone();
+                let scheduled_at = job.scheduled_at;
+                jobs.push(job.into_job(id));
+                (id, executor, scheduled_at)
+            }
+            Some(matching_job) => {
+                matching_job.replace(job);
+                (
+                    matching_job.id,
+                    matching_job.executor.clone(),
+                    matching_job.scheduled_at,
+                )
+            }
+        };
+        drop(jobs);
+
+        self.notify_subscribers(executor.as_str(), scheduled_at)?;
+
+        Ok(id.into())
     }
 }
 
@@ -388,7 +403,7 @@ impl Backend for InMemoryBackend {
     async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
         match job.uniqueness_criteria {
             None => self.insert_new_job(job),
-            Some(_) => self.insert_unique_job(job).await,
+            Some(_) => self.insert_unique_job(job),
         }
     }
     async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
-- 
2.43.0


From c3305bf51709e01067610f3627b17a423fec6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 04/23] fix: uniqueness criteria without key should match jobs
 with a key

As documented for UniquenessCriteria::key, and as done by the postgres backend.
---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..a9f46d8 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0


From db5e769b83e5fa9e96d452c60d17aa66ee1ba4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 05/23] fix: only enqueue one cron job per tick when running
 several instances

The in memory backend never matched a zero duration, and once the job of the current tick had been
picked up (which happens up to 100ms early) it did no longer count as a duplicate.
---
 rexecutor/src/backend/queryable.rs | 3 ++-
 rexecutor/src/cron_runner.rs       | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index a9f46d8..4d551ea 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -65,7 +65,8 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                 (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
-                    && (job.scheduled_at - Utc::now()).abs() < duration
+                    && (job.scheduled_at == self.scheduled_at
+                        || (job.scheduled_at - Utc::now()).abs() < duration)
             }
         }
     }
diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 25ef308..2cfa8c2 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -5,7 +5,11 @@ use cron::Schedule;
 use serde::{Serialize, de::DeserializeOwned};
 use tokio_util::sync::CancellationToken;
 
-use crate::{backend::Backend, executor::Executor, job::uniqueness_criteria::UniquenessCriteria};
+use crate::{
+    backend::Backend,
+    executor::Executor,
+    job::{JobStatus, uniqueness_criteria::UniquenessCriteria},
+};
 
 pub(crate) struct CronRunner<B, E>
 where
@@ -77,6 +81,7 @@ where
         let criteria = UniquenessCriteria::by_executor()
             .and_within(TimeDelta::zero())
             .and_key(&self.data)
+            .and_statuses(&JobStatus::ALL)
             .and_executor();
 
         let _ = E::builder()
-- 
2.43.0


From 9cbcfcd7dc3afbe4bbdc1e320aa0ddd0bf75cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 06/23] fix: discard failing jobs when max_attempts was lowered
 below the current attempt

They were retried forever.
---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From c162a92150f850de7124ee9a4f27221562e194a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 07/23] fix: do not panic in the job runner for out of range
 counters

Rerunning a job with the largest max_attempts stopped its job runner.
---
 rexecutor/src/job.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 1286e2e..af32dec 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -121,10 +121,10 @@ where
             executor: value.executor,
             data,
             metadata,
-            attempt: value.attempt.try_into().unwrap(),
+            attempt: saturating_u16(value.attempt),
             attempted_at: value.attempted_at,
-            max_attempts: value.max_attempts.try_into().unwrap(),
-            priority: value.priority.try_into().unwrap(),
+            max_attempts: saturating_u16(value.max_attempts),
+            priority: saturating_u16(value.priority),
             tags: value.tags,
             errors: value.errors,
             inserted_at: value.inserted_at,
@@ -136,6 +136,11 @@ where
     }
 }
 
+/// Rerunning a job increments its max attempts, so this can exceed what was originally allowed.
+fn saturating_u16(value: i32) -> u16 {
+    value.clamp(0, u16::MAX.into()) as u16
+}
+
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
         self.attempt >= self.max_attempts
-- 
2.43.0


From ffa39d6d6e055c2a4c506045b4723cdcb6b40257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 08/23] fix: saturate backoff delays instead of panicking on
 overflow

The delay is computed by the job runner, so an overflow stopped it for all jobs of the executor.
---
 rexecutor/src/backoff.rs    | 39 +++++++++++++++++++++++++++++++------
 rexecutor/src/job/runner.rs | 18 +++++++++++++----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 644f6f8..9c3b918 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -115,7 +115,7 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(TimeDelta::MAX)
     }
 }
 
@@ -148,7 +148,7 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = saturating_mul(self.factor, attempt.into());
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -188,7 +188,8 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff =
+            saturating_mul(self.factor, i128::from(attempt).saturating_pow(self.power));
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -196,6 +197,31 @@ impl Strategy for Polynomial {
     }
 }
 
+fn saturated(positive: bool) -> TimeDelta {
+    if positive {
+        TimeDelta::MAX
+    } else {
+        TimeDelta::MIN
+    }
+}
+
+fn saturating_add(lhs: TimeDelta, rhs: TimeDelta) -> TimeDelta {
+    lhs.checked_add(&rhs)
+        .unwrap_or_else(|| saturated(rhs > TimeDelta::zero()))
+}
+
+fn saturating_mul(delta: TimeDelta, factor: i128) -> TimeDelta {
+    const NANOS_PER_SEC: i128 = 1_000_000_000;
+    let nanos = i128::from(delta.num_seconds()) * NANOS_PER_SEC + i128::from(delta.subsec_nanos());
+    nanos
+        .checked_mul(factor)
+        .and_then(|nanos| {
+            let seconds = nanos.div_euclid(NANOS_PER_SEC).try_into().ok()?;
+            TimeDelta::new(seconds, nanos.rem_euclid(NANOS_PER_SEC) as u32)
+        })
+        .unwrap_or_else(|| saturated(delta > TimeDelta::zero()))
+}
+
 /// A random jitter to be applied to a given backoff.
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub enum Jitter {
@@ -210,9 +236,10 @@ impl Jitter {
         let milliseconds = match self {
             Self::Absolute(delta) => delta.num_milliseconds(),
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
-        };
+        }
+        .saturating_abs();
         let rand_jitter_seconds = rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        saturating_add(value, TimeDelta::milliseconds(rand_jitter_seconds))
     }
 }
 
@@ -429,7 +456,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = saturating_add(backoff, additional_offset);
         }
 
         if let Some(jitter) = self.jitter {
diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..746d28b 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = scheduled_in(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = scheduled_in(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,16 @@ where
     }
 }
 
+fn scheduled_in(delay: TimeDelta) -> DateTime<Utc> {
+    Utc::now()
+        .checked_add_signed(delay)
+        .unwrap_or(if delay > TimeDelta::zero() {
+            DateTime::<Utc>::MAX_UTC
+        } else {
+            DateTime::<Utc>::MIN_UTC
+        })
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From 93d393be8585e1a297bcfd5cbdf017da1d3440bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 09/23] fix: respect the max_concurrency of the pruner

It only limited the logging of errors, all pruners were always run concurrently.
---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..b385896 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::StreamExt;
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        futures::stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From c4e7e509e9ed46400130216a90dafcce6c4289c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 10/23] fix: assert_enqueued with 1 job should not accept
 several jobs

Any other number of jobs is required to match exactly.
---
 rexecutor/src/testing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/testing.rs b/rexecutor/src/testing.rs
index 7921b3a..cf78608 100644
--- a/rexecutor/src/testing.rs
+++ b/rexecutor/src/testing.rs
@@ -143,13 +143,13 @@ macro_rules! assert_enqueued {
         assert_enqueued!(@global $n $($tail)*);
     };
     (to: $backend:ident, $($tail:tt)*) => {
-        assert_enqueued!(@internal 1 to: $backend, $($tail)*);
+        assert_enqueued!(@internal some to: $backend, $($tail)*);
     };
-    (@global $n:literal $($tail:tt)*) => {{
+    (@global $n:tt $($tail:tt)*) => {{
         let backend = $crate::global_backend::GlobalBackend::as_ref().expect("Global backend not set");
         assert_enqueued!(@internal $n to: backend, $($tail)*);
     }};
-    (@internal 1 to: $backend:ident, $($tail:tt)*) => {{
+    (@internal some to: $backend:ident, $($tail:tt)*) => {{
         use $crate::backend::Query;
         use $crate::backend::Backend;
         let mut queries = Vec::new();
@@ -241,7 +241,7 @@ macro_rules! assert_enqueued {
         $(assert_enqueued!(@query $vec; $($tail)*))?
     };
     ($($tail:tt)*) => {
-        assert_enqueued!(@global 1 $($tail)*);
+        assert_enqueued!(@global some $($tail)*);
     };
 }
 
-- 
2.43.0


From b18e5a2b0636ab044f28d45fa69a10ab8278fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:02 +0000
Subject: [PATCH 11/23] fix: store the uniqueness key which is compared when
 checking for duplicates

The postgres backend stored the identifier used for locking, so jobs with the same key were never
identified as duplicates.
---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From c4cc0f8d1c98385e91da7682887746ab5684cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:02 +0000
Subject: [PATCH 12/23] fix: match any of the given ids in the postgres backend

IdIn compared with ALL and so did not match anything for more than one id.
---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..857a7d2 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -131,7 +131,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From 8883e11ef1c22a6ea2f1cc29be0c2e8e115e2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 13/23] fix: respect the nesting of queries in the postgres
 backend

The generated condition had no parentheses, so AND bound tighter than OR and NOT tighter than both
regardless of the query, and empty conjunctions and disjunctions were a syntax error.
---
 rexecutor-sqlx/src/query.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 857a7d2..b15105e 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -89,26 +89,35 @@ impl ToQuery for Query<'_> {
 fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'_>) {
     match query {
         Query::Not(inner) => {
-            builder.push(" NOT");
+            builder.push(" NOT (");
             handle_query(builder, inner);
+            builder.push(")");
         }
         Query::And(queries) => {
+            builder.push(" (");
             if let Some((last, elements)) = &queries[..].split_last() {
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" AND");
                 });
                 handle_query(builder, last);
+            } else {
+                builder.push("TRUE");
             }
+            builder.push(")");
         }
         Query::Or(queries) => {
+            builder.push(" (");
             if let Some((last, elements)) = &queries[..].split_last() {
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" OR");
                 });
                 handle_query(builder, last);
+            } else {
+                builder.push("FALSE");
             }
+            builder.push(")");
         }
         Query::DataEquals(data) => {
             builder.push(" data = ");
-- 
2.43.0


From 424995e12103bd61da70d6b35e8132007877258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 14/23] fix: replacing nothing should not be a syntax error in
 the postgres backend

---
 rexecutor-sqlx/src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index a7a0f69..064e4ad 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -230,11 +230,16 @@ impl RexecutorPgBackend {
                 let status = val.get::<JobStatus, _>(1);
                 match uniqueness_criteria.on_conflict {
                     Resolution::Replace(replace)
-                        if replace
-                            .for_statuses
-                            .iter()
-                            .map(|js| JobStatus::from(*js))
-                            .any(|js| js == status) =>
+                        if (replace.scheduled_at
+                            || replace.data
+                            || replace.metadata
+                            || replace.priority
+                            || replace.max_attempts)
+                            && replace
+                                .for_statuses
+                                .iter()
+                                .map(|js| JobStatus::from(*js))
+                                .any(|js| js == status) =>
                     {
                         let mut builder = QueryBuilder::new("UPDATE rexecutor_jobs SET ");
                         let mut seperated = builder.separated(", ");
-- 
2.43.0


From 712f562e0ebbdda5f8564fdc1473f646b000a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:43 +0000
Subject: [PATCH 15/23] fix: do not overwrite the progress of a job when
 updating it in the in memory backend

A job obtained from a query may have been started or finished by the time it
is updated. Overwriting its status and attempt made workers run the same
attempt again, as in the postgres backend only the details are updated.
---
 rexecutor/src/backend/memory.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 22d885b..748e1db 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -515,7 +515,14 @@ impl Backend for InMemoryBackend {
         match jobs.iter_mut().find(|j| j.id == job.id) {
             None => Err(BackendError::JobNotFound(job.id.into())),
             Some(j) => {
-                j.job = job;
+                // The given job might be out of date, so the progress made since (e.g. the status
+                // and attempt) must not be overwritten.
+                j.data = job.data;
+                j.metadata = job.metadata;
+                j.max_attempts = job.max_attempts;
+                j.scheduled_at = job.scheduled_at;
+                j.priority = job.priority;
+                j.tags = job.tags;
                 self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                 Ok(())
             }
-- 
2.43.0


From cb35d92284578abdce0140158dd425343ad6d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 16/23] fix: do not start a cron tick or pruning round after
 shutdown was requested

---
 rexecutor/src/cron_runner.rs   | 10 ++++++----
 rexecutor/src/pruner/runner.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 2cfa8c2..05487db 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -60,6 +60,12 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        // Do not start anything once a shutdown has been requested.
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.enqueue_job(next).await;
                             let delay = next - Utc::now();
@@ -67,10 +73,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         },
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
-                            break;
-                        },
                     }
                 }
             }
diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index b385896..1ee5253 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -36,6 +36,12 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        // Do not start anything once a shutdown has been requested.
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down the job pruner");
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.prune().await;
                             let delay = next - Utc::now();
@@ -43,10 +49,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         }
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down the job pruner");
-                            break;
-                        },
                     }
                 }
             }
-- 
2.43.0


From 06207e7af77135d58788ea8b7edaa2317276b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 17/23] fix: enqueue one cron job per tick even if the job was
 rescheduled meanwhile

---
 rexecutor/src/cron_runner.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 05487db..b044c4d 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -80,11 +80,11 @@ where
     }
 
     async fn enqueue_job(&self, scheduled_at: DateTime<Utc>) {
+        // The tick is part of the key, since the job might have been rescheduled, e.g. after failing,
+        // before another instance gets to enqueue it.
         let criteria = UniquenessCriteria::by_executor()
-            .and_within(TimeDelta::zero())
-            .and_key(&self.data)
-            .and_statuses(&JobStatus::ALL)
-            .and_executor();
+            .and_key(&(&self.data, scheduled_at))
+            .and_statuses(&JobStatus::ALL);
 
         let _ = E::builder()
             .schedule_at(scheduled_at)
-- 
2.43.0


From 17d3ce9d761a764494ba1cd4c362ba409b9aef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 18/23] Add cfg(rexecutor_verif) hook for the global backend

---
 rexecutor/src/global_backend.rs |  3 +++
 rexecutor/src/verif.rs          | 42 +++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/rexecutor/src/global_backend.rs b/rexecutor/src/global_backend.rs
index d1c652b..34eb3a1 100644
--- a/rexecutor/src/global_backend.rs
+++ b/rexecutor/src/global_backend.rs
@@ -9,8 +9,11 @@
 //!
 //! Setting the global backed should be done via [`crate::Rexecutor::set_global_backend`].
 use std::sync::Arc;
+#[cfg(not(rexecutor_verif))]
 use tokio::sync::OnceCell;
 
+#[cfg(rexecutor_verif)]
+use crate::verif::OnceCell;
 use crate::{RexecutorError, backend::Backend};
 
 /// The global backend.
diff --git a/rexecutor/src/verif.rs b/rexecutor/src/verif.rs
index 1bb2e7d..e6f2131 100644
--- a/rexecutor/src/verif.rs
+++ b/rexecutor/src/verif.rs
@@ -208,3 +208,45 @@ impl rand::TryRng for ControlledRng {
         Ok(())
     }
 }
+
+/// Instrumented version of [`tokio::sync::OnceCell`].
+#[derive(Debug)]
+pub struct OnceCell<T>(tokio::sync::OnceCell<T>);
+
+impl<T> OnceCell<T> {
+    fn address(&self) -> usize {
+        std::ptr::from_ref(&self.0) as *const () as usize
+    }
+
+    /// See [`tokio::sync::OnceCell::const_new`].
+    pub const fn const_new() -> Self {
+        Self(tokio::sync::OnceCell::const_new())
+    }
+
+    /// See [`tokio::sync::OnceCell::get`].
+    pub fn get(&self) -> Option<&T> {
+        announce("get", self.address(), false);
+        self.0.get()
+    }
+
+    /// See [`tokio::sync::OnceCell::set`].
+    pub fn set(&self, value: T) -> Result<(), tokio::sync::SetError<T>> {
+        announce("set", self.address(), false);
+        self.0.set(value)
+    }
+
+    /// See [`tokio::sync::OnceCell::initialized`].
+    pub fn initialized(&self) -> bool {
+        announce("initialized", self.address(), false);
+        self.0.initialized()
+    }
+}
+
+// Whatever is not instrumented goes straight to the primitive.
+impl<T> std::ops::Deref for OnceCell<T> {
+    type Target = tokio::sync::OnceCell<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
-- 
2.43.0


From af7fb8625ea04141b3224fafebd614207ba112f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:39 +0000
Subject: [PATCH 19/23] fix: do not prune a job whose status changed
 concurrently (PostgreSQL)

---
 rexecutor-sqlx/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 064e4ad..b322401 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -412,7 +412,13 @@ impl RexecutorPgBackend {
     }
 
     async fn delete_from_spec(&self, spec: &PruneSpec) -> sqlx::Result<()> {
-        let result = spec.query().build().execute(&self.pool).await?;
+        let mut query = spec.query();
+        // The sub-select is not evaluated again if the job was changed concurrently, thus without
+        // this a job which has just been claimed or rerun would be removed.
+        query
+            .push(" AND status = ")
+            .push_bind(JobStatus::from(spec.status));
+        let result = query.build().execute(&self.pool).await?;
         tracing::debug!(
             ?spec,
             "Clean up query completed {} rows removed",
-- 
2.43.0


From 54309aaba569b79606f4ed030a9dd0f0e7dd3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:23 +0000
Subject: [PATCH 20/23] fix: lock the conflicting job while a uniqueness
 conflict is resolved (PostgreSQL)

---
 rexecutor-sqlx/src/unique.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index a2022d4..66c8e0f 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -59,7 +59,8 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         }
         // TODO: orderby closest to today
         // builder.push(" ORDER BY scheduled_at ")
-        builder.push(" LIMIT 1");
+        // The lock makes sure that the status stays as it is until the conflict is resolved.
+        builder.push(" LIMIT 1 FOR UPDATE");
 
         builder
     }
-- 
2.43.0


From 32abb77f4e1f05f7b8593ec0f137593343365831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:14 +0000
Subject: [PATCH 21/23] fix: do not panic for very long prune ages and
 uniqueness durations (PostgreSQL)

---
 rexecutor-sqlx/src/query.rs  | 17 ++++++++++++++---
 rexecutor-sqlx/src/unique.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index b15105e..1611455 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -1,4 +1,4 @@
-use chrono::Utc;
+use chrono::{DateTime, TimeDelta, Utc};
 use rexecutor::backend::Query;
 use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
 use sqlx::{Postgres, QueryBuilder};
@@ -9,6 +9,17 @@ pub(crate) trait ToQuery {
     fn query(&self) -> QueryBuilder<'_, Postgres>;
 }
 
+/// Shifts the time without leaving the range of timestamps known to chrono and PostgreSQL.
+pub(crate) fn shift(time: DateTime<Utc>, by: TimeDelta) -> DateTime<Utc> {
+    // The first timestamp of PostgreSQL is in 4714 BC, its last one is later than the one of chrono.
+    let first = DateTime::UNIX_EPOCH - TimeDelta::days(6_000 * 365);
+    match time.checked_add_signed(by) {
+        Some(time) => time.max(first),
+        None if by < TimeDelta::zero() => first,
+        None => DateTime::<Utc>::MAX_UTC,
+    }
+}
+
 impl ToQuery for PruneSpec {
     fn query(&self) -> QueryBuilder<'_, Postgres> {
         let status: JobStatus = self.status.into();
@@ -35,10 +46,10 @@ impl ToQuery for PruneSpec {
                 builder.push(" AND scheduled_at");
                 if in_past {
                     builder.push(" < ");
-                    builder.push_bind(Utc::now() - time);
+                    builder.push_bind(shift(Utc::now(), -time));
                 } else {
                     builder.push(" > ");
-                    builder.push_bind(Utc::now() + time);
+                    builder.push_bind(shift(Utc::now(), time));
                 }
             }
             PruneBy::MaxLength(count) => {
diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index 66c8e0f..df5ea74 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Utc};
 use rexecutor::job::uniqueness_criteria::UniquenessCriteria;
 use sqlx::{Postgres, QueryBuilder};
 
-use crate::types::JobStatus;
+use crate::{query::shift, types::JobStatus};
 
 pub(crate) trait Unique {
     fn unique_identifier(&self, executor_identifier: &'_ str) -> i64;
@@ -52,9 +52,9 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         }
 
         if let Some(duration) = self.duration {
-            let cutoff = scheduled_at - duration;
+            let cutoff = shift(scheduled_at, -duration);
             builder.push(" AND scheduled_at >= ").push_bind(cutoff);
-            let cutoff = scheduled_at + duration;
+            let cutoff = shift(scheduled_at, duration);
             builder.push(" AND scheduled_at <= ").push_bind(cutoff);
         }
         // TODO: orderby closest to today
-- 
2.43.0


From 14bcafe9e01bf3da01fa85ed9466ea308db6b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:42 +0000
Subject: [PATCH 22/23] fix: keep listening for ready jobs after the connection
 was lost (PostgreSQL)

---
 rexecutor-sqlx/src/lib.rs | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index b322401..455c497 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -55,6 +55,8 @@ fn map_err(error: sqlx::Error) -> BackendError {
 }
 
 impl RexecutorPgBackend {
+    const RECONNECT_DELAY: std::time::Duration = std::time::Duration::from_secs(1);
+
     /// Creates a new [`RexecutorPgBackend`] from a db connection string.
     pub async fn from_db_url(db_url: &str) -> Result<Self, BackendError> {
         let pool = PgPoolOptions::new()
@@ -69,18 +71,38 @@ impl RexecutorPgBackend {
             pool,
             subscribers: Default::default(),
         };
-        let mut listener = PgListener::connect_with(&this.pool)
-            .await
-            .map_err(map_err)?;
-        listener
-            .listen("public.rexecutor_scheduled")
-            .await
-            .map_err(map_err)?;
+        let mut listener = Self::listen(&this.pool).await.map_err(map_err)?;
 
         tokio::spawn({
             let subscribers = this.subscribers.clone();
+            let pool = this.pool.clone();
             async move {
-                while let Ok(notification) = listener.recv().await {
+                loop {
+                    let notification = match listener.try_recv().await {
+                        Ok(Some(notification)) => notification,
+                        // The connection was lost, notifications might have been missed.
+                        result => {
+                            let mut error = result.err();
+                            while let Some(err) = error {
+                                if let sqlx::Error::PoolClosed = err {
+                                    return;
+                                }
+                                tracing::error!(?err, "Failed to listen for ready jobs");
+                                tokio::time::sleep(Self::RECONNECT_DELAY).await;
+                                match Self::listen(&pool).await {
+                                    Ok(new_listener) => {
+                                        listener = new_listener;
+                                        error = None;
+                                    }
+                                    Err(err) => error = Some(err),
+                                }
+                            }
+                            for sender in subscribers.read().await.values().flatten() {
+                                let _ = sender.send(Utc::now());
+                            }
+                            continue;
+                        }
+                    };
                     let notification =
                         serde_json::from_str::<Notification>(notification.payload()).unwrap();
 
@@ -103,6 +125,12 @@ impl RexecutorPgBackend {
         Ok(this)
     }
 
+    async fn listen(pool: &PgPool) -> sqlx::Result<PgListener> {
+        let mut listener = PgListener::connect_with(pool).await?;
+        listener.listen("public.rexecutor_scheduled").await?;
+        Ok(listener)
+    }
+
     /// This can be used to run the [`RexecutorPgBackend`]'s migrations.
     pub async fn run_migrations(&self) -> Result<(), BackendError> {
         tracing::info!("Running RexecutorPgBackend migrations");
-- 
2.43.0


From f5e6cec881d6dffc38a3bcd1579aafc147dddb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:43 +0000
Subject: [PATCH 23/23] fix: ignore unexpected notifications instead of no
 longer listening (PostgreSQL)

---
 rexecutor-sqlx/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 455c497..51d3ce4 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -104,7 +104,13 @@ impl RexecutorPgBackend {
                         }
                     };
                     let notification =
-                        serde_json::from_str::<Notification>(notification.payload()).unwrap();
+                        match serde_json::from_str::<Notification>(notification.payload()) {
+                            Ok(notification) => notification,
+                            Err(error) => {
+                                tracing::warn!(?error, "Ignoring unexpected notification");
+                                continue;
+                            }
+                        };
 
                     match subscribers
                         .read()
-- 
2.43.0

