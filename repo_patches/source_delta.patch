From a227a74e32ced3de0d674deca3b8452065e0153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 01/22] fix: Defense::visitor_threshold returns the threshold

It returned the current level's difficulty factor.
---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From 657b4a35a283d9ad1182859ecdd12c0ffdbbc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 02/22] fix: don't overflow the visitor count

add_visitor panicked (or wrapped to zero) with u32::MAX live visitors.
---
 src/mcaptcha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..2dc73de 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -91,7 +91,7 @@ impl MCaptcha {
     /// increments the visitor count by one
     #[inline]
     pub fn add_visitor(&mut self) {
-        self.visitor_threshold += 1;
+        self.visitor_threshold = self.visitor_threshold.saturating_add(1);
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-- 
2.43.0


From a0f30dc175963ac42c031f2f18b41fd5ac7ea724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 03/22] fix: keep the defense level while the load stays the
 same

add_visitor loosened the defense with every visitor that didn't exceed
the current level, even if it exceeded the level below. Under constant
load the difficulty alternated between two levels.
---
 src/defense.rs  | 7 +++++++
 src/mcaptcha.rs | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/defense.rs b/src/defense.rs
index 6d6e8c0..68ed340 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -216,6 +216,13 @@ impl Defense {
         &self.levels[self.current_visitor_threshold]
     }
 
+    /// Level just below the current one, if there is any
+    pub(crate) fn level_below(&self) -> Option<&Level> {
+        self.current_visitor_threshold
+            .checked_sub(1)
+            .map(|index| &self.levels[index])
+    }
+
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
         self.levels[self.current_visitor_threshold].visitor_threshold
diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index 2dc73de..8ae9fe5 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -95,8 +95,10 @@ impl MCaptcha {
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-        } else {
-            self.defense.loosen_up();
+        } else if let Some(level_below) = self.defense.level_below() {
+            if self.visitor_threshold <= level_below.visitor_threshold {
+                self.defense.loosen_up();
+            }
         }
     }
 
-- 
2.43.0


From 6134d58e6778bfd36ab5c8c05ff854fe5afaea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 04/22] hook: export the queue to monitors under
 cfg(libmcaptcha_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b85500..04be546 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -185,6 +185,8 @@
 //! }
 //! ```
 #![forbid(unsafe_code)]
+// libmcaptcha_verif, see the module verif
+#![allow(unexpected_cfgs)]
 pub mod defense;
 pub mod errors;
 pub mod master;
@@ -209,6 +211,12 @@ pub use crate::cache::hashcache::HashCache;
 #[cfg(feature = "full")]
 pub use master::embedded::counter::Counter;
 
+/// Access to the job queue for runtime monitors, see `RUSTFLAGS="--cfg libmcaptcha_verif"`
+#[cfg(all(libmcaptcha_verif, feature = "full"))]
+pub mod verif {
+    pub use crate::queue::{Manager, Runnable};
+}
+
 pub use crate::defense::{Defense, DefenseBuilder, LevelBuilder};
 pub use crate::master::AddVisitorResult;
 pub use crate::master::CreateMCaptcha;
-- 
2.43.0


From eda601274eee3fe6d614d873df941e339f323ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 05/22] fix: dispatch every waiting job to an idle worker, in
 turn per IP

The job queue lost wake-ups: a worker that became idle got a job only if
the one IP it looked at had one waiting, and a new job was sent to workers
whether they were busy or not. Jobs were never run (and verify_pow never
returned), or waited behind a busy worker while others were idle. IPs
without waiting jobs were never removed, so that after queue_length
different IPs every submission was refused with QueueFull.
---
 src/queue.rs | 52 +++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..d82dcbd 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,13 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
     ips: InnerManagerIP,
-    currnet_index: usize,
+    idle: VecDeque<usize>,
     queue_length: usize,
 }
 
@@ -114,30 +114,28 @@ impl Drop for InnerManager {
 }
 
 impl InnerManager {
-    fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
-            }
+    /// next job in the rotation of IPs. IPs without waiting jobs leave the rotation
+    fn next_job(&mut self) -> Option<Box<dyn Runnable>> {
+        let ip = self.ips.pop_front()?;
+        let ip_queue = self.queues.get_mut(&ip).unwrap();
+        let work = ip_queue.pop_front();
+        if ip_queue.is_empty() {
+            self.queues.remove(&ip);
+        } else {
+            self.ips.push_back(ip);
         }
+        work
     }
 
+    /// hand waiting jobs to idle runners
     fn dispatch(&mut self) {
-        for name in 0..self.runners.len() {
-            if !self.runners.contains_key(&name) {
-                panic!("unable to find thread: {name}");
+        while let Some(name) = self.idle.pop_front() {
+            if let Some(work) = self.next_job() {
+                let r = self.runners.get(&name).unwrap();
+                r.tx.send(Message::Prove(work)).unwrap();
             } else {
-                self.dispatch_to(name)
+                self.idle.push_front(name);
+                break;
             }
         }
     }
@@ -148,12 +146,13 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
+        let idle = (0..workers).collect();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
+            idle,
             queue_length,
         }
     }
@@ -172,7 +171,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
@@ -185,7 +184,10 @@ impl InnerManager {
                         drop(im);
                         break;
                     }
-                    InnerManagerMessage::Dispatch(name) => im.dispatch_to(name),
+                    InnerManagerMessage::Dispatch(name) => {
+                        im.idle.push_back(name);
+                        im.dispatch();
+                    }
                     InnerManagerMessage::Schedule(job) => {
                         let res = im.schedule(job.ip, job.job);
                         let _ = job.tx.send(res);
-- 
2.43.0


From 1849c03bf3f614b677a7766a91f83ea8f72e9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 06/22] fix: clean up survives counters that have stopped

---
 src/master/embedded/master.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..8700e70 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -171,10 +171,12 @@ impl Handler<CleanUp> for Master {
         info!("init master actor cleanup up");
         let task = async move {
             for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
+                // counters can be removed and stopped while the clean up is running;
+                // a stopped counter has no visitors
+                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap_or(0);
                 println!("{}", visitor_count);
                 if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
+                    let _ = addr.send(Stop).await;
                     master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
                     println!("cleaned up");
                 }
-- 
2.43.0


From d1c92f3878b3566dcb00f11ec26ad3bb768480f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 07/22] fix: clean up removes only sites that stayed idle

---
 src/master/embedded/master.rs | 50 ++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 8700e70..8fdb3e6 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -41,6 +41,9 @@ use super::counter::{GetCurrentVisitorCount, Stop};
 #[derive(Clone, Default)]
 pub struct Master {
     sites: BTreeMap<String, (Option<()>, Addr<Counter>)>,
+    /// number of clean ups before each site was last added, renamed or looked up
+    touched: HashMap<String, u64>,
+    cleanups: u64,
     gc: u64,
 }
 
@@ -49,6 +52,7 @@ impl MasterTrait for Master {}
 impl Master {
     /// add [Counter] actor to [Master]
     pub fn add_site(&mut self, addr: Addr<Counter>, id: String) {
+        self.touched.insert(id.clone(), self.cleanups);
         self.sites.insert(id, (None, addr));
     }
 
@@ -57,6 +61,8 @@ impl Master {
     pub fn new(gc: u64) -> Self {
         Master {
             sites: BTreeMap::new(),
+            touched: HashMap::new(),
+            cleanups: 0,
             gc,
         }
     }
@@ -67,20 +73,27 @@ impl Master {
         if let Some((read_val, addr)) = self.sites.get_mut(id) {
             r = Some(addr.clone());
             *read_val = Some(());
+            self.touched.insert(id.to_owned(), self.cleanups);
         };
         r
     }
 
     /// remvoes [Counter] actor from [Master]
     pub fn rm_site(&mut self, id: &str) -> Option<(Option<()>, Addr<Counter>)> {
+        self.touched.remove(id);
         self.sites.remove(id)
     }
 
+    /// was the site left alone since the clean up before this one?
+    fn is_untouched(&self, id: &str, cleanup: u64) -> bool {
+        self.touched.get(id).map_or(true, |last| *last < cleanup)
+    }
+
     /// renames [Counter] actor
     pub fn rename(&mut self, msg: Rename) {
         // If actor isn't present, it's okay to not throw an error
         // since actors are lazyily initialized and are cleaned up when inactive
-        if let Some((_, counter)) = self.sites.remove(&msg.name) {
+        if let Some((_, counter)) = self.rm_site(&msg.name) {
             self.add_site(counter, msg.rename_to);
         }
     }
@@ -156,6 +169,27 @@ impl Handler<GetSite> for Master {
     }
 }
 
+/// Message to remove a site that was found idle during clean up
+#[derive(Message)]
+#[rtype(result = "()")]
+struct RemoveIdle {
+    id: String,
+    cleanup: u64,
+}
+
+impl Handler<RemoveIdle> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: RemoveIdle, _ctx: &mut Self::Context) -> Self::Result {
+        // it's not idle any more if it was used in the meantime
+        if self.is_untouched(&m.id, m.cleanup) {
+            if let Some((_, addr)) = self.rm_site(&m.id) {
+                addr.do_send(Stop);
+            }
+        }
+    }
+}
+
 /// Message to clean up master of [Counter] actors with zero visitor count
 #[derive(Message)]
 #[rtype(result = "()")]
@@ -165,19 +199,23 @@ impl Handler<CleanUp> for Master {
     type Result = ();
 
     fn handle(&mut self, _: CleanUp, ctx: &mut Self::Context) -> Self::Result {
-        let sites = self.sites.clone();
+        let cleanup = self.cleanups;
+        self.cleanups += 1;
+        let mut sites = self.sites.clone();
+        // sites that were used since the previous clean up might be in use still
+        sites.retain(|id, (read_val, _)| read_val.is_some() && self.is_untouched(id, cleanup));
         let gc = self.gc;
         let master = ctx.address();
         info!("init master actor cleanup up");
         let task = async move {
-            for (id, (new, addr)) in sites.iter() {
+            for (id, (_, addr)) in sites.iter() {
                 // counters can be removed and stopped while the clean up is running;
                 // a stopped counter has no visitors
                 let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap_or(0);
                 println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    let _ = addr.send(Stop).await;
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
+                if visitor_count == 0 {
+                    let id = id.to_owned();
+                    master.send(RemoveIdle { id, cleanup }).await.unwrap();
                     println!("cleaned up");
                 }
             }
-- 
2.43.0


From 3d6c1f2c106da462e684eb222b92460a2b9cc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 08/22] fix: visitors of a restored site expire when the site
 was unknown

---
 src/master/embedded/master.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 8fdb3e6..d0ef4d8 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -307,20 +307,21 @@ impl Handler<SetInternalData> for Master {
     fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
+            let addr = match self.get_site(&name) {
+                Some(addr) => addr,
+                None => {
+                    let addr = Counter::from(mcaptcha.clone()).start();
+                    self.add_site(addr.clone(), name);
+                    addr
                 }
+            };
+            // visitors of new sites have to expire too
+            let req = addr.send(super::counter::SetInternalData(mcaptcha));
+            let fut = async move {
+                let _ = req.await;
+                // best effort basis
+                //let err: CaptchaError = e.into();
+                //let _ = tx.send(Err(err));
             }
             .into_actor(self);
             ctx.spawn(fut);
-- 
2.43.0


From 6655f1ebc1f3ac0a2e83a377f41c31dd1cfc02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 09/22] fix: earlier visitors don't expire from a restored site

---
 src/master/embedded/counter.rs | 42 +++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..46ee10f 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -92,26 +92,34 @@ use crate::mcaptcha::MCaptcha;
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(
+    MCaptcha,
+    /// number of times the state was replaced
+    #[serde(skip)]
+    u64,
+);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
 impl Actor for Counter {
     type Context = Context<Self>;
 }
 
-/// Message to decrement the visitor count
+/// Message to decrement the visitor count, for visitors of the given state
 #[derive(Message)]
 #[rtype(result = "()")]
-struct DeleteVisitor;
+struct DeleteVisitor(u64);
 
 impl Handler<DeleteVisitor> for Counter {
     type Result = ();
-    fn handle(&mut self, _msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
-        self.0.decrement_visitor_by(1);
+    fn handle(&mut self, msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(1);
+        }
     }
 }
 
@@ -129,10 +137,11 @@ impl Handler<AddVisitor> for Counter {
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let state = self.1;
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
+            addr.send(DeleteVisitor(state)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
@@ -193,6 +202,20 @@ impl Handler<BulkDecrement> for Counter {
     }
 }
 
+/// Message to decrement the visitor count by the visitors the given state was set with
+#[derive(Message)]
+#[rtype(result = "()")]
+struct DeleteRestored(u64, u32);
+
+impl Handler<DeleteRestored> for Counter {
+    type Result = ();
+    fn handle(&mut self, msg: DeleteRestored, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(msg.1);
+        }
+    }
+}
+
 /// Sets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "()")]
@@ -204,12 +227,15 @@ impl Handler<SetInternalData> for Counter {
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
         let addr = ctx.address();
         self.0 = d.0;
+        // visitors of the replaced state don't count any more, so they can't expire either
+        self.1 += 1;
+        let state = self.1;
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
         let count = self.0.get_visitors();
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
+            addr.send(DeleteRestored(state, count)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
-- 
2.43.0


From d5fb50779f90c26987736c94e1a349e5de2dc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 10/22] fix: a proof check sends one verdict and never blocks
 its worker

---
 src/pow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..39e1edf 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -95,6 +95,7 @@ impl QueuedWork {
             rx,
         )
     }
+    // sends exactly one verdict: a runner must never have to wait for the receiver
     fn validate(&self) {
         if !self
             .pow
@@ -103,12 +104,14 @@ impl QueuedWork {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if let Err(e) = self.tx.send(true) {
-- 
2.43.0


From c1bf10d467697260b0c5737498e389665b7a6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 11/22] fix: the Redis cache survives requesters that give up

---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 128f56969ae16ce73c2d27423f7b08ff61f53427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 12/22] fix: an error of Redis while storing a token is
 reported, not a panic

---
 src/redis/mcaptcha_redis.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..73de996 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From 36eb585723f5ee33ff0724a0be2319fa55f1113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 13/22] fix: malformed replies of the Redis module are
 reported, not a panic

---
 src/redis/mcaptcha_redis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 73de996..184961c 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -117,7 +117,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -188,7 +189,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
-- 
2.43.0


From 761797b9a97ed1c3691c388c2eed8c89e7e62043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 14/22] fix: a Redis connection can be used by several tasks at
 once

---
 src/redis/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..404280f 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -74,7 +74,11 @@ impl RedisConnection {
     /// execute a redis command against a [Self]
     pub async fn exec<T: FromRedisValue>(&self, cmd: &mut redis::Cmd) -> redis::RedisResult<T> {
         match self {
-            RedisConnection::Single(con) => cmd.query_async(&mut *con.borrow_mut()).await,
+            RedisConnection::Single(con) => {
+                // don't hold the borrow while waiting: others use the connection meanwhile
+                let mut con = con.borrow().clone();
+                cmd.query_async(&mut con).await
+            }
             RedisConnection::Cluster(con) => cmd.query(&mut *con.borrow_mut()),
         }
     }
-- 
2.43.0


From 53ffa449a7b3034e0bab3e1e45ec358cae42e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 15/22] fix: tokens of different sites never share a Redis key

---
 src/redis/mcaptcha_redis.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 184961c..9542247 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,12 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Key under which a token is stored. Site keys and tokens may contain the
+/// separator, so the length of the site key is part of it
+fn token_key(captcha: &str, token: &str) -> String {
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -208,8 +214,7 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
@@ -223,9 +228,7 @@ impl MCaptchaRedisConnection {
 
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
-        //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -236,9 +239,7 @@ impl MCaptchaRedisConnection {
 
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
-        //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From bd2fbb5512ae0bc2d2de3df190e7d9ce8a84b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 16/22] fix: connecting looks at every module and reports
 failures

---
 src/redis/mcaptcha_redis.rs | 32 +++++++++++++++-----------------
 src/redis/mod.rs            | 18 +++++++++++-------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 9542247..b4767c8 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -75,15 +75,13 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
-            }
+        let modules: Vec<Value> = self.0.exec(redis::cmd("MODULE").arg("LIST")).await?;
+        let is_loaded = modules.iter().any(|module| match module {
+            Value::Array(s) => s.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
+            _ => false,
+        });
+        if !is_loaded {
+            return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
         }
 
         let commands = vec![
@@ -99,18 +97,18 @@ impl MCaptchaRedisConnection {
         ];
 
         for cmd in commands.iter() {
-            if let Value::Array(mut val) = self
+            let info: Vec<Value> = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
-            {
-                if let Some(Value::Nil) = val.pop() {
+                .await?;
+            match info.last() {
+                Some(Value::Array(_)) => (),
+                _ => {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
                         cmd.to_string(),
-                    ));
-                };
-            };
+                    ))
+                }
+            }
         }
         Ok(())
     }
diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 404280f..dbc1c55 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -39,18 +39,22 @@ pub enum RedisConfig {
 impl RedisConfig {
     /// Create Redis connection
     pub async fn connect(&self) -> RedisClient {
-        match self {
+        self.try_connect().await.unwrap()
+    }
+
+    /// Create Redis connection, reporting failures
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
+        let client = match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
+                let client = ConnectionManager::new(Client::open(url.as_str())?).await?;
                 RedisClient::Single(client)
             }
             Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
+                let cluster_client = ClusterClient::new(nodes.to_owned())?;
                 RedisClient::Cluster(cluster_client)
             }
-        }
+        };
+        Ok(client)
     }
 }
 
@@ -126,7 +130,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From 52c644af7c94b06f49839fa462f988e51f660470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 17/22] fix: master: a visitor and a removal asked for later
 arrive in that order

The request to the counter was sent when the spawned future was first
polled, and futures that become ready are swapped with later ones: Stop
could overtake AddVisitor (which then failed with a mailbox error) and a
visitor counted after a rename could overtake one counted before it.
---
 src/master/embedded/master.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index d0ef4d8..cb4a524 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -122,8 +122,10 @@ impl Handler<AddVisitor> for Master {
                 let _ = tx.send(Ok(None));
             }
             Some(addr) => {
+                // sent right away, so that it gets there before anything asked for later
+                let req = addr.send(super::counter::AddVisitor);
                 let fut = async move {
-                    match addr.send(super::counter::AddVisitor).await {
+                    match req.await {
                         Ok(val) => {
                             let _ = tx.send(Ok(Some(val)));
                         }
-- 
2.43.0


From ee9f35b394ed5d25248e3e4a0acde7d96a4c83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 18/22] fix: a submission that waits for its verdict doesn't
 block its thread

The verdict was polled for in a loop that never yields: every other request,
timer and actor on that thread stood still, at full processor load, until a
worker had taken up and checked the proof.
---
 src/pow.rs    |  4 ++--
 src/system.rs | 20 ++++----------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index 39e1edf..b285f79 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -18,12 +18,12 @@
 //! PoW datatypes used in client-server interaction
 use std::sync::Arc;
 
-use crossbeam_channel::{self, Receiver, Sender};
 use log::debug;
 use mcaptcha_pow_sha256::Config;
 pub use mcaptcha_pow_sha256::ConfigBuilder;
 use mcaptcha_pow_sha256::PoW;
 use serde::{Deserialize, Serialize};
+use tokio::sync::mpsc::{self, UnboundedReceiver as Receiver, UnboundedSender as Sender};
 
 use crate::queue::Runnable;
 
@@ -83,7 +83,7 @@ impl QueuedWork {
         string: String,
         difficulty_factor: u32,
     ) -> (Self, Receiver<bool>) {
-        let (tx, rx) = crossbeam_channel::bounded(2);
+        let (tx, rx) = mpsc::unbounded_channel();
         (
             Self {
                 tx,
diff --git a/src/system.rs b/src/system.rs
index c5c27e9..b506461 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -127,8 +127,6 @@ where
 
     /// utility function to verify [Work]
     pub async fn verify_pow(&self, work: Work, ip: String) -> CaptchaResult<(String, u32)> {
-        use crossbeam_channel::TryRecvError;
-
         let string = work.string.clone();
         let msg = VerifyCaptchaResult {
             token: string.clone(),
@@ -152,26 +150,16 @@ where
 
         let res_difficulty_factor = cached_config.difficulty_factor;
 
-        let (queued_work, rx) = QueuedWork::new(
+        let (queued_work, mut rx) = QueuedWork::new(
             self.pow.clone(),
             pow,
             string,
             cached_config.difficulty_factor,
         );
         self.runners.add(ip, Box::new(queued_work)).await?;
-        loop {
-            match rx.try_recv() {
-                Err(TryRecvError::Empty) => continue,
-                Err(TryRecvError::Disconnected) => {
-                    return Err(CaptchaError::InsuffiencientDifficulty);
-                }
-                Ok(t) => {
-                    if !t {
-                        return Err(CaptchaError::InsuffiencientDifficulty);
-                    }
-                    break;
-                }
-            };
+        // other requests go on while this one waits
+        if rx.recv().await != Some(true) {
+            return Err(CaptchaError::InsuffiencientDifficulty);
         }
 
         //        if !self
-- 
2.43.0


From c5ab9ca47e7066c7e3f0b80b9483f1635a76f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 19/22] fix: get_pow reports an error of the registry

It was answered as if the site didn't exist.
---
 src/system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/system.rs b/src/system.rs
index b506461..52a5b71 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -121,7 +121,8 @@ where
                 self.cache.send(cache_msg).await?.await??;
                 Ok(Some(pow_config))
             }
-            _ => Ok(None),
+            Ok(None) => Ok(None),
+            Err(e) => Err(e),
         }
     }
 
-- 
2.43.0


From 7f4295fbbdb93631ee4bb478776b9ff099cc1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 20/22] fix: CaptchaDurationZero and StringNotFound say what
 they mean

The first was displayed as DifficultyFactorZero.
---
 src/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8ec0d34..3f508b4 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -39,7 +39,7 @@ pub enum CaptchaError {
     DifficultyFactorZero,
 
     /// captcha cooldown duration must be greater than 0
-    #[display("difficulty factor must be greater than zero")]
+    #[display("captcha cooldown duration must be greater than zero")]
     CaptchaDurationZero,
 
     /// Difficulty factor must be set
@@ -69,7 +69,7 @@ pub enum CaptchaError {
 
     /// Happens when submitted work is computed over string that
     /// isn't in cache
-    #[display("String now found")]
+    #[display("String not found")]
     StringNotFound,
 
     /// Happens when submitted work is computed over configuration intended for
-- 
2.43.0


From 186ebbb2a7adbf6218eff30dcc2101017a82825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 21/22] fix: a visitor of an unknown site is no error of the
 Redis registry

The module answers it with an error. The embedded registry says that there
is no such site, and that's what get_pow told its caller.
---
 src/redis/mcaptcha_redis.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index b4767c8..299debc 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -120,7 +120,14 @@ impl MCaptchaRedisConnection {
 
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
-        let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
+        let res: redis::RedisResult<String> =
+            self.0.exec(redis::cmd(ADD_VISITOR).arg(&[&msg.0])).await;
+        let res = match res {
+            Ok(res) => res,
+            // the module reports an error for captchas that don't exist
+            Err(_) if !self.check_captcha_exists(&msg.0).await? => return Ok(None),
+            Err(e) => return Err(e.into()),
+        };
         let res: AddVisitorResult =
             serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
-- 
2.43.0


From c6d24bf210e00603113d05a902fae59d8348a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 22/22] fix: an entry stored again in the embedded cache isn't
 removed by an earlier timer

---
 src/cache/hashcache.rs | 61 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/cache/hashcache.rs b/src/cache/hashcache.rs
index e45c66a..d2c409b 100644
--- a/src/cache/hashcache.rs
+++ b/src/cache/hashcache.rs
@@ -28,13 +28,22 @@ use crate::errors::*;
 #[derive(Clone, Default)]
 /// cache datastructure implementing [Save]
 pub struct HashCache {
-    difficulty_map: HashMap<String, CachedPoWConfig>,
-    result_map: HashMap<String, String>,
+    difficulty_map: HashMap<String, (u64, CachedPoWConfig)>,
+    result_map: HashMap<String, (u64, String)>,
+    // number of entries saved so far. Each entry keeps the number it was saved under,
+    // so that its timer doesn't remove an entry saved later under the same name
+    saved: u64,
 }
 
 impl HashCache {
+    // number for a new entry
+    fn next_id(&mut self) -> u64 {
+        self.saved += 1;
+        self.saved
+    }
+
     // save [PoWConfig] to cache
-    fn save_pow_config(&mut self, config: CachePoW) -> CaptchaResult<()> {
+    fn save_pow_config(&mut self, id: u64, config: CachePoW) -> CaptchaResult<()> {
         let challenge = config.string;
         let config: CachedPoWConfig = CachedPoWConfig {
             key: config.key,
@@ -42,7 +51,7 @@ impl HashCache {
             duration: config.duration,
         };
 
-        self.difficulty_map.insert(challenge, config);
+        self.difficulty_map.insert(challenge, (id, config));
         Ok(())
     }
 
@@ -60,12 +69,19 @@ impl HashCache {
 
     // delete [PoWConfig] from cache
     fn remove_pow_config(&mut self, string: &str) -> Option<CachedPoWConfig> {
-        self.difficulty_map.remove(string)
+        self.difficulty_map.remove(string).map(|(_, config)| config)
+    }
+
+    // delete [PoWConfig] when its time is over
+    fn expire_pow_config(&mut self, string: &str, id: u64) {
+        if matches!(self.difficulty_map.get(string), Some((saved, _)) if *saved == id) {
+            self.remove_pow_config(string);
+        }
     }
 
     // save captcha result
-    fn save_captcha_result(&mut self, res: CacheResult) -> CaptchaResult<()> {
-        self.result_map.insert(res.token, res.key);
+    fn save_captcha_result(&mut self, id: u64, res: CacheResult) -> CaptchaResult<()> {
+        self.result_map.insert(res.token, (id, res.key));
         Ok(())
     }
 
@@ -84,7 +100,14 @@ impl HashCache {
 
     // delete cache result
     fn remove_cache_result(&mut self, string: &str) -> Option<String> {
-        self.result_map.remove(string)
+        self.result_map.remove(string).map(|(_, key)| key)
+    }
+
+    // delete cache result when its time is over
+    fn expire_cache_result(&mut self, token: &str, id: u64) {
+        if matches!(self.result_map.get(token), Some((saved, _)) if *saved == id) {
+            self.remove_cache_result(token);
+        }
     }
 }
 
@@ -102,20 +125,20 @@ impl Handler<CachePoW> for HashCache {
         //use actix::clock::delay_for;
         use std::time::Duration;
 
-        let addr = ctx.address();
-        let del_msg = DeletePoW(msg.string.clone());
+        let id = self.next_id();
+        let string = msg.string.clone();
 
         let duration: Duration = Duration::new(msg.duration, 0);
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(del_msg).await.unwrap().unwrap();
         }
-        .into_actor(self);
+        .into_actor(self)
+        .map(move |_, cache, _| cache.expire_pow_config(&string, id));
         ctx.spawn(wait_for);
 
         let (tx, rx) = oneshot::channel();
-        tx.send(self.save_pow_config(msg)).unwrap();
+        tx.send(self.save_pow_config(id, msg)).unwrap();
         MessageResult(rx)
     }
 }
@@ -147,22 +170,20 @@ impl Handler<CacheResult> for HashCache {
         //use actix::clock::delay_for;
         use std::time::Duration;
 
-        let addr = ctx.address();
-        let del_msg = DeleteCaptchaResult {
-            token: msg.token.clone(),
-        };
+        let id = self.next_id();
+        let token = msg.token.clone();
 
         let duration: Duration = Duration::new(msg.duration, 0);
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(del_msg).await.unwrap().unwrap();
         }
-        .into_actor(self);
+        .into_actor(self)
+        .map(move |_, cache, _| cache.expire_cache_result(&token, id));
         ctx.spawn(wait_for);
 
         let (tx, rx) = oneshot::channel();
-        tx.send(self.save_captcha_result(msg)).unwrap();
+        tx.send(self.save_captcha_result(id, msg)).unwrap();
         MessageResult(rx)
     }
 }
-- 
2.43.0

