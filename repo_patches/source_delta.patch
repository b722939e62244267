From fb434f756034cec5d77064077b26b3d1c1a6904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 01/31] fix: implement Recipient::downgrade, and Clone and
 Debug for WeakRecipient

---
 src/actor/actor_ref.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..8f64595 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1333,7 +1333,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1341,7 +1341,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
@@ -1412,7 +1412,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 7a58034dcc7f70a726cb7b411e298d3fc078e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 02/31] fix: wait_for_stop waits for the actor to stop, not to
 start

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 8f64595..667f2df 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -349,7 +349,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From 88cfeb1bc30687ac1a27ae28dddfe08fec92a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 03/31] fix: route messages through the actor's on_message hook

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..de9eef8 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -112,7 +112,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From 1f5b9b02e67bf4818e7414fe7f89e06e3d0c7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 04/31] fix: stop the actor once every ActorRef is dropped

---
 src/actor/spawn.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..75cfcb2 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -404,8 +404,8 @@ impl<A: Actor> PreparedActor<A> {
         std::thread::Builder::new()
             .name(A::name().to_string())
             .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
+                let id = self.actor_ref.id();
+                move || handle.block_on(CURRENT_ACTOR_ID.scope(id, self.run(actor)))
             })
             .unwrap()
     }
@@ -458,9 +458,12 @@ where
     }
 
     let (actor_ref, links, startup_semaphore) = {
-        // Downgrade actor ref
+        // Downgrade actor ref, dropping the strong reference so the actor doesn't keep itself alive
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        let links = actor_ref.links.clone();
+        let startup_semaphore = actor_ref.startup_semaphore.clone();
+        drop(actor_ref);
+        (weak_actor_ref, links, startup_semaphore)
     };
 
     if let Err(err) = start_res {
-- 
2.43.0


From cc8211c12f86442c38c17278d80d5c23585653e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 05/31] fix: complete wait_for_startup whenever on_start has
 finished

---
 src/actor/spawn.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 75cfcb2..7cdc7d1 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -450,6 +450,10 @@ where
         }
     }
 
+    actor_ref
+        .startup_semaphore
+        .add_permits(Semaphore::MAX_PERMITS);
+
     let mut startup_finished = false;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
@@ -457,17 +461,15 @@ where
         startup_finished = true;
     }
 
-    let (actor_ref, links, startup_semaphore) = {
+    let (actor_ref, links) = {
         // Downgrade actor ref, dropping the strong reference so the actor doesn't keep itself alive
         let weak_actor_ref = actor_ref.downgrade();
         let links = actor_ref.links.clone();
-        let startup_semaphore = actor_ref.startup_semaphore.clone();
         drop(actor_ref);
-        (weak_actor_ref, links, startup_semaphore)
+        (weak_actor_ref, links)
     };
 
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -504,12 +506,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore,
-            startup_finished,
-        ),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
         abort_registration,
     )
     .await
@@ -596,7 +593,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -609,7 +605,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -619,7 +615,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -628,7 +623,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From 68781edad31c82100555df9c48135f5e83d52623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 06/31] fix: keep buffered startup messages and the stop signal
 when a panic is recovered

---
 src/actor/kind.rs  | 22 ++++++++++++++++++++--
 src/actor/spawn.rs |  3 +++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index de9eef8..d3c3d6d 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -24,6 +24,9 @@ pub(crate) trait ActorState<A: Actor>: Sized {
         &mut self,
     ) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
 
+    /// Continues the work which was interrupted by a panic the actor recovered from.
+    fn resume(&mut self) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
+
     fn handle_message(
         &mut self,
         message: BoxMessage<A>,
@@ -53,6 +56,7 @@ pub(crate) struct ActorBehaviour<A: Actor> {
     state: A,
     finished_startup: bool,
     startup_buffer: VecDeque<Signal<A>>,
+    stopping: bool,
 }
 
 impl<A> ActorState<A> for ActorBehaviour<A>
@@ -66,6 +70,7 @@ where
             state: actor,
             finished_startup: false,
             startup_buffer: VecDeque::new(),
+            stopping: false,
         }
     }
 
@@ -75,7 +80,7 @@ where
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
+        while let Some(signal) = self.startup_buffer.pop_front() {
             match signal {
                 Signal::Message {
                     message,
@@ -93,6 +98,18 @@ where
         ControlFlow::Continue(())
     }
 
+    #[inline]
+    async fn resume(&mut self) -> ControlFlow<ActorStopReason> {
+        if self.stopping {
+            return self.handle_stop().await;
+        }
+        if self.finished_startup {
+            return self.handle_startup_finished().await;
+        }
+
+        ControlFlow::Continue(())
+    }
+
     #[inline]
     async fn handle_message(
         &mut self,
@@ -151,6 +168,7 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
+        self.stopping = true;
         match self.handle_startup_finished().await {
             ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
             ControlFlow::Break(reason) => ControlFlow::Break(reason),
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 7cdc7d1..82b6623 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -620,6 +620,9 @@ where
     A: Actor,
     S: ActorState<A>,
 {
+    if let ControlFlow::Break(reason) = state.resume().await {
+        return reason;
+    }
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-- 
2.43.0


From 283d499eddd643b2610e63d090fa1380e9d3c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 07/31] fix: prioritise messages sent within on_start when the
 mailbox is full

---
 src/actor/spawn.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 82b6623..2a1bfa7 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -454,11 +454,12 @@ where
         .startup_semaphore
         .add_permits(Semaphore::MAX_PERMITS);
 
-    let mut startup_finished = false;
+    // When the mailbox has no space for the signal, startup is finished once the signals queued so far are received
+    let mut startup_pending = None;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
     {
-        startup_finished = true;
+        startup_pending = Some(mailbox_rx.len());
     }
 
     let (actor_ref, links) = {
@@ -506,7 +507,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_pending),
         abort_registration,
     )
     .await
@@ -593,19 +594,14 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_finished: bool,
+    mut startup_pending: Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
-    if startup_finished {
-        if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-            return reason;
-        }
-    }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx, &mut startup_pending).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -615,6 +611,7 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
+    startup_pending: &mut Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -624,7 +621,17 @@ where
         return reason;
     }
     loop {
-        match state.next(mailbox_rx).await {
+        if let Some(0) = startup_pending {
+            *startup_pending = None;
+            if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
+                return reason;
+            }
+        }
+        let signal = state.next(mailbox_rx).await;
+        if let Some(pending) = startup_pending {
+            *pending -= 1;
+        }
+        match signal {
             Some(Signal::StartupFinished) => {
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
-- 
2.43.0


From 7038402855949f95aed17e501c9897837a11eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 08/31] fix: complete the shutdown of an actor whose on_panic
 or on_stop panics

---
 src/actor/kind.rs  | 14 ++++++++++----
 src/actor/spawn.rs | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index d3c3d6d..0587d68 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -181,12 +181,18 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(ControlFlow::Continue(()))) => ControlFlow::Continue(()),
+                    Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 2a1bfa7..6bc118e 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -479,7 +479,12 @@ where
             .break_value()
             .unwrap_or(reason);
         let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+        let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+            .catch_unwind()
+            .await
+            .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+            .map_err(PanicError::new_from_panic_any)
+            .and_then(convert::identity);
         match on_stop_res {
             Ok(()) => {
                 if let Some(actor_ref) = actor_ref.upgrade() {
@@ -490,7 +495,6 @@ where
                 }
             }
             Err(err) => {
-                let err = PanicError::new(Box::new(err));
                 invoke_actor_error_hook(&err);
                 if let Some(actor_ref) = actor_ref.upgrade() {
                     actor_ref
@@ -560,7 +564,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
@@ -577,7 +586,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From 507e230683fa3722f722ad11a166c884e9b10525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 09/31] fix: notify links when on_start fails

---
 src/actor/spawn.rs | 60 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 6bc118e..d5f5c53 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -470,52 +470,24 @@ where
         (weak_actor_ref, links)
     };
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
-            .catch_unwind()
-            .await
-            .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
-            .map_err(PanicError::new_from_panic_any)
-            .and_then(convert::identity);
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_pending),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_pending),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From f847ae7b2b9aab180ef393851e3725e39132d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 10/31] fix: don't deadlock when linked actors with full
 mailboxes stop together

---
 src/actor/spawn.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index d5f5c53..3232029 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -2,11 +2,13 @@ use std::{
     convert,
     ops::ControlFlow,
     panic::AssertUnwindSafe,
+    pin::pin,
     sync::{Arc, OnceLock},
     thread,
 };
 
 use futures::{
+    future::{self, Either},
     stream::{AbortHandle, AbortRegistration, Abortable, FuturesUnordered},
     FutureExt, StreamExt,
 };
@@ -491,7 +493,7 @@ where
 
     let mut actor = state.shutdown().await;
 
-    let mut link_notification_futures = FuturesUnordered::new();
+    let link_notification_futures = FuturesUnordered::new();
     {
         let mut links = links.lock().await;
         #[allow(unused_variables)]
@@ -544,7 +546,19 @@ where
         .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
+    // Messages left in the mailbox are discarded meanwhile, since a linked actor which is also stopping
+    // may be waiting for space in this mailbox
+    let mut link_notifications = link_notification_futures.collect::<()>();
+    loop {
+        match future::select(&mut link_notifications, pin!(mailbox_rx.recv())).await {
+            Either::Left(_) => break,
+            Either::Right((Some(_), _)) => {}
+            Either::Right((None, link_notifications)) => {
+                link_notifications.await;
+                break;
+            }
+        }
+    }
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
-- 
2.43.0


From b97447354b98bdeea428ca9328ef02956b1582b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 11/31] fix: lock links in a consistent order so concurrent
 link and unlink can't deadlock

---
 src/actor/actor_ref.rs | 52 +++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 667f2df..e5dfdad 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -516,8 +516,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -555,8 +554,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -639,8 +637,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -677,8 +674,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -816,6 +812,38 @@ where
         &self.mailbox_sender
     }
 
+    /// Locks the links of both actors, always in the same order so concurrent calls can't deadlock.
+    async fn lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (MutexGuard<'a, LinksMap>, MutexGuard<'a, LinksMap>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.lock().await;
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_links)
+        }
+    }
+
+    /// Blockingly locks the links of both actors, in the same order as [`ActorRef::lock_links`].
+    fn blocking_lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (MutexGuard<'a, LinksMap>, MutexGuard<'a, LinksMap>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.blocking_lock();
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_links)
+        }
+    }
+
     #[inline]
     pub(crate) fn weak_signal_mailbox(&self) -> Box<dyn SignalMailbox> {
         Box::new(self.mailbox_sender.downgrade())
@@ -1354,10 +1382,12 @@ impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
 /// Links are used for parent-child or sibling relationships, allowing actors to observe each other's lifecycle.
 #[derive(Clone, Default)]
 #[allow(missing_debug_implementations)]
-pub(crate) struct Links(Arc<Mutex<HashMap<ActorID, Link>>>);
+pub(crate) struct Links(Arc<Mutex<LinksMap>>);
+
+type LinksMap = HashMap<ActorID, Link>;
 
 impl ops::Deref for Links {
-    type Target = Mutex<HashMap<ActorID, Link>>;
+    type Target = Mutex<LinksMap>;
 
     fn deref(&self) -> &Self::Target {
         &self.0
-- 
2.43.0


From a8499045832e67969da7dc91a637649c7f76342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 12/31] fix: return an error from stop_gracefully when the
 actor is not running

---
 src/actor/actor_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index e5dfdad..8abfd68 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
-- 
2.43.0


From 362e88c4e23f90274da36bb98c56f33360525db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 13/31] fix: return an error instead of panicking when enqueue
 or forward can't reach the mailbox

---
 src/mailbox.rs     | 19 ++++++++++-
 src/request/ask.rs | 85 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 88 insertions(+), 16 deletions(-)

diff --git a/src/mailbox.rs b/src/mailbox.rs
index 73b5084..e9fd368 100644
--- a/src/mailbox.rs
+++ b/src/mailbox.rs
@@ -15,7 +15,7 @@ use crate::{
     actor::{ActorID, ActorRef},
     error::{ActorStopReason, SendError},
     message::BoxMessage,
-    reply::BoxReplySender,
+    reply::{BoxReplySender, ReplySender},
     Actor,
 };
 
@@ -463,6 +463,23 @@ impl<A: Actor> Signal<A> {
             _ => None,
         }
     }
+
+    pub(crate) fn downcast_forwarded<M, R>(self) -> Option<(M, ReplySender<R>)>
+    where
+        M: 'static,
+    {
+        match self {
+            Signal::Message {
+                message,
+                reply: Some(reply),
+                ..
+            } => {
+                let message = *message.as_any().downcast().ok()?;
+                Some((message, ReplySender::new(reply)))
+            }
+            _ => None,
+        }
+    }
 }
 
 #[doc(hidden)]
diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..cbb2814 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,7 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{mpsc, oneshot};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -200,10 +200,12 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(enqueue_err::<M, _>)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(enqueue_err::<M, _>)?;
                     }
                 }
 
@@ -220,7 +222,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -267,16 +269,18 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(forward_err)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(forward_err)?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(forward_err)?;
                 Ok(())
             }
         }
@@ -307,11 +311,11 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(forward_err)?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(forward_err)?;
                 Ok(())
             }
         }
@@ -408,7 +412,7 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +427,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -499,11 +503,11 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(forward_err)?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(forward_err)?;
                 Ok(())
             }
         }
@@ -553,7 +557,7 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(enqueue_err::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +566,7 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_err::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -832,6 +836,57 @@ where
     }
 }
 
+/// Converts an error from enqueueing a message, dropping the message.
+fn enqueue_err<M, Err>(err: Err) -> SendError
+where
+    Err: Into<SendError<M>>,
+{
+    err.into().map_msg(drop)
+}
+
+/// Converts an error from forwarding a message, returning both the message and its reply sender.
+fn forward_err<A, M, R, E, Err>(err: Err) -> SendError<(M, ReplySender<R>), E>
+where
+    A: Actor,
+    M: 'static,
+    Err: ForwardError<A>,
+{
+    err.into_signal_err().map_msg(|signal| {
+        signal
+            .downcast_forwarded()
+            .expect("the signal should be the forwarded message")
+    })
+}
+
+/// An error from sending a signal to a mailbox.
+trait ForwardError<A: Actor> {
+    fn into_signal_err<E>(self) -> SendError<Signal<A>, E>;
+}
+
+impl<A: Actor> ForwardError<A> for mpsc::error::SendError<Signal<A>> {
+    fn into_signal_err<E>(self) -> SendError<Signal<A>, E> {
+        SendError::ActorNotRunning(self.0)
+    }
+}
+
+impl<A: Actor> ForwardError<A> for mpsc::error::TrySendError<Signal<A>> {
+    fn into_signal_err<E>(self) -> SendError<Signal<A>, E> {
+        match self {
+            mpsc::error::TrySendError::Full(signal) => SendError::MailboxFull(signal),
+            mpsc::error::TrySendError::Closed(signal) => SendError::ActorNotRunning(signal),
+        }
+    }
+}
+
+impl<A: Actor> ForwardError<A> for mpsc::error::SendTimeoutError<Signal<A>> {
+    fn into_signal_err<E>(self) -> SendError<Signal<A>, E> {
+        match self {
+            mpsc::error::SendTimeoutError::Timeout(signal) => SendError::Timeout(Some(signal)),
+            mpsc::error::SendTimeoutError::Closed(signal) => SendError::ActorNotRunning(signal),
+        }
+    }
+}
+
 #[cfg(all(debug_assertions, feature = "tracing"))]
 fn warn_deadlock<A: Actor>(
     actor_ref: &ActorRef<A>,
-- 
2.43.0


From 612df69731526dfdb2685efd6ebf4d72ae92450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 14/31] fix: downcast the error of a reply forwarded more than
 once

---
 src/reply.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..2ab8603 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -295,15 +295,8 @@ where
     /// The error is either from the inner `R`, or our outer `SendError`.
     /// We'll try both.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, Self::Error>()
+            .unwrap_or_else(|err| SendError::HandlerError(R::downcast_err::<M>(err)))
     }
 }
 
-- 
2.43.0


From 03c264344056026310db25ebb1520b11ab3130f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 15/31] fix: size pool worker mailboxes by capacity rather than
 by the space left

---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..9949d56 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -106,7 +106,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -135,7 +135,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -202,7 +202,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -212,7 +212,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From 12d17b6b29d6111744aced4a11f585c4045275bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 16/31] fix: return the error of a dispatched message instead
 of panicking in the caller

---
 actors/src/pool.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9949d56..23d57eb 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -41,7 +41,7 @@
 //! ```
 
 use std::{
-    fmt,
+    any, fmt,
     ops::ControlFlow,
     sync::{Arc, Weak},
 };
@@ -50,7 +50,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +299,22 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        // The worker replies with the error it got from asking the actor, containing the dispatched message
+        err.try_downcast::<N, SendError<M, Self::Error>>()
+            .map(|err| {
+                err.map_err(|err| {
+                    err.map_msg(|msg| {
+                        *(Box::new(Dispatch(msg)) as Box<dyn any::Any>)
+                            .downcast::<N>()
+                            .expect("the message should be a dispatch")
+                    })
+                })
+                .flatten()
+            })
+            .unwrap_or_else(|err| err.downcast())
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From b5f088128e8545c252107d9536f70e490fcac49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 17/31] fix: replace pool workers whose actor has stopped

---
 actors/src/pool.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 23d57eb..066e84d 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -43,16 +43,18 @@
 use std::{
     any, fmt,
     ops::ControlFlow,
+    pin::pin,
     sync::{Arc, Weak},
 };
 
 use futures::{
     Future, FutureExt, TryFutureExt,
-    future::{BoxFuture, join_all},
+    future::{BoxFuture, Either, join_all, select},
 };
 use kameo::{
     actor::spawn_with_mailbox,
     error::{BoxSendError, Infallible},
+    mailbox::Signal,
     prelude::*,
 };
 
@@ -234,6 +236,23 @@ struct Worker<A: Actor> {
 
 impl<A: Actor> Actor for Worker<A> {
     type Error = Infallible;
+
+    async fn next(
+        &mut self,
+        _actor_ref: WeakActorRef<Self>,
+        mailbox_rx: &mut MailboxReceiver<Self>,
+    ) -> Option<Signal<Self>> {
+        // Stop when the actor behind this worker has stopped, so the pool replaces it
+        match select(
+            pin!(self.actor_ref.wait_for_shutdown()),
+            pin!(mailbox_rx.recv()),
+        )
+        .await
+        {
+            Either::Left(((), _)) => None,
+            Either::Right((signal, _)) => signal,
+        }
+    }
 }
 
 /// A wrapper type which helps keep track of the load for each worker.
-- 
2.43.0


From 79faeacabbe486b2aeba66ccd889fa390acb2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 18/31] fix: replace a stopped pool worker when dispatching
 instead of failing the pool

---
 actors/src/pool.rs | 68 ++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 066e84d..b4890f2 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -159,13 +159,38 @@ where
         }
     }
 
-    fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
+    fn next_worker(&self) -> (usize, &ActorRef<Worker<A>>, Weak<()>) {
         self.workers
             .iter()
-            .min_by_key(|(_, load)| Arc::weak_count(load))
-            .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
+            .enumerate()
+            .min_by_key(|(_, (_, load))| Arc::weak_count(load))
+            .map(|(i, (actor_ref, counter))| (i, actor_ref, Arc::downgrade(counter)))
             .expect("ActorPool should have at least one worker")
     }
+
+    async fn replace_worker(&mut self, i: usize, actor_ref: &ActorRef<Self>) {
+        self.workers[i] = match &mut self.factory {
+            Factory::Sync(f) => {
+                let worker = Worker { actor_ref: f() };
+                let mailbox = match worker.actor_ref.mailbox_sender() {
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
+                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
+                };
+                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+            }
+            Factory::Async(f) => {
+                let worker = Worker {
+                    actor_ref: f().await,
+                };
+                let mailbox = match worker.actor_ref.mailbox_sender() {
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
+                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
+                };
+                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+            }
+        };
+        self.workers[i].0.link(actor_ref).await;
+    }
 }
 
 impl<A> Actor for ActorPool<A>
@@ -204,27 +229,7 @@ where
             return Ok(ControlFlow::Continue(()));
         };
 
-        self.workers[i] = match &mut self.factory {
-            Factory::Sync(f) => {
-                let worker = Worker { actor_ref: f() };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-            Factory::Async(f) => {
-                let worker = Worker {
-                    actor_ref: f().await,
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-        };
-        self.workers[i].0.link(&actor_ref).await;
+        self.replace_worker(i, &actor_ref).await;
 
         Ok(ControlFlow::Continue(()))
     }
@@ -354,8 +359,8 @@ where
         ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
-        for _ in 0..self.workers.len() {
-            let (worker, counter) = self.next_worker();
+        for _ in 0..=self.workers.len() {
+            let (i, worker, counter) = self.next_worker();
             match reply_sender {
                 Some(tx) => {
                     if let Err(err) = worker
@@ -372,6 +377,7 @@ where
                                 "message was forwarded, so the only error should be if the actor is not running"
                             ),
                         }
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -388,6 +394,7 @@ where
                                 "message was sent with `tell`, so the only error should be if the actor is not running"
                             ),
                         }
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -396,7 +403,14 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        let err = SendError::ActorNotRunning(msg);
+        match reply_sender {
+            Some(tx) => {
+                tx.send(Err(err));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(err),
+        }
     }
 }
 
-- 
2.43.0


From 50e5fda7ec37a9f82dec2e62439f815015f6b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 19/31] fix: return an error for actor id bytes which are too
 short

---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..c627488 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,9 +137,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From 40cdf3ceb7a7dd7dfc8dd6a4b365f27560c5d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 20/31] fix: deserialize actor ids from formats which can't
 lend their bytes

---
 src/actor/id.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index c627488..1276f03 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -4,7 +4,7 @@ use std::hash::Hasher;
 use std::sync::atomic::Ordering;
 use std::{fmt, sync::atomic::AtomicUsize};
 
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Serialize};
 
 use crate::error::ActorIDFromBytesError;
 #[cfg(feature = "remote")]
@@ -201,16 +201,43 @@ impl<'de> Deserialize<'de> for ActorID {
     where
         D: serde::Deserializer<'de>,
     {
-        let bytes = <&[u8]>::deserialize(deserializer)?;
+        deserializer.deserialize_bytes(ActorIDVisitor)
+    }
+}
+
+struct ActorIDVisitor;
+
+impl<'de> de::Visitor<'de> for ActorIDVisitor {
+    type Value = ActorID;
+
+    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "actor ID bytes")
+    }
+
+    fn visit_bytes<E>(self, bytes: &[u8]) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
         let bytes_len = bytes.len();
         ActorID::from_bytes(bytes).map_err(|err| match err {
             ActorIDFromBytesError::MissingSequenceID => {
-                serde::de::Error::invalid_length(bytes_len, &"sequence ID")
+                E::invalid_length(bytes_len, &"sequence ID")
             }
             #[cfg(feature = "remote")]
-            err @ ActorIDFromBytesError::ParsePeerID(_) => serde::de::Error::custom(err),
+            err @ ActorIDFromBytesError::ParsePeerID(_) => E::custom(err),
         })
     }
+
+    fn visit_seq<S>(self, mut seq: S) -> Result<Self::Value, S::Error>
+    where
+        S: de::SeqAccess<'de>,
+    {
+        let mut bytes = Vec::new();
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        self.visit_bytes(&bytes)
+    }
 }
 
 #[cfg(feature = "remote")]
-- 
2.43.0


From 1d8b6005bb8cd9cb46933eff815195c2e5a72258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 21/31] fix: keep the hash of local actor ids stable when the
 swarm is bootstrapped

---
 src/actor/id.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 1276f03..7d642bc 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -270,8 +270,14 @@ impl Eq for PeerIdKind {}
 #[cfg(feature = "remote")]
 impl Hash for PeerIdKind {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if let Some(peer_id) = self.peer_id() {
-            state.write(&peer_id.to_bytes());
+        // The local peer ID is left out, so the hash of a local actor's ID stays the same when the swarm is bootstrapped
+        match self {
+            PeerIdKind::Local => {}
+            PeerIdKind::PeerId(peer_id) => {
+                if ActorSwarm::get().map(ActorSwarm::local_peer_id) != Some(peer_id) {
+                    state.write(&peer_id.to_bytes());
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 97a3bf5497e5b230b779546e83481b4211cb59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 22/31] fix: unregister actors which were registered without
 any peers

---
 src/remote/swarm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..50f1025 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -596,7 +596,7 @@ impl ActorSwarmHandler {
             }
             SwarmCommand::Unregister { key, reply } => {
                 if swarm.network_info().num_peers() == 0 {
-                    swarm.behaviour_mut().kademlia_remove_record(&key);
+                    swarm.behaviour_mut().kademlia_remove_record_local(&key);
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-- 
2.43.0


From 7bb92dc9e75b9d91b1f0364d020b47e5716d790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 23/31] fix: don't panic on unregistered or invalid records
 when looking up actors

---
 src/remote/swarm.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 50f1025..1924523 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -330,14 +330,13 @@ impl ActorSwarm {
         async move {
             match reply_rx.await {
                 Ok(kad::PeerRecord { record, .. }) => {
-                    if record.value.is_empty() {
-                        return Ok(None);
-                    }
-
-                    let ActorRegistration {
+                    let Some(ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    }) = ActorRegistration::from_bytes(&record.value)
+                    else {
+                        return Ok(None);
+                    };
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -575,7 +574,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1214,11 +1216,13 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` if the bytes are empty, which marks an unregistered actor, or aren't a valid registration.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let (&peer_id_bytes_len, bytes) = bytes.split_first()?;
+        let actor_id_len = 8 + peer_id_bytes_len as usize;
+        let actor_id = ActorID::from_bytes(bytes.get(..actor_id_len)?).ok()?;
+        let remote_id = std::str::from_utf8(bytes.get(actor_id_len..)?).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From 8f209e1eaf9af3ee1c4f654d43926eb49a97303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 24/31] fix: deliver messages to actors of the local peer
 without dialing it

---
 src/remote/swarm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 1924523..138ac8b 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -621,7 +621,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -659,7 +659,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -698,7 +698,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -728,7 +728,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -752,7 +752,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if notified_actor_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
-- 
2.43.0


From 6133c789a4c19aa2eef7d6e9535aafd82c5c869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 25/31] fix: notify remote links once, when the last connection
 to the peer closes

---
 src/remote/swarm.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 138ac8b..9cdfd14 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -790,7 +790,16 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
-            ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
+            ActorSwarmEvent::ConnectionClosed {
+                peer_id,
+                num_established,
+                ..
+            } => {
+                if num_established > 0 {
+                    // There are other connections remaining to this peer
+                    return;
+                }
+
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
                     for RemoteRegistryActorRef {
@@ -799,20 +808,23 @@ impl ActorSwarmHandler {
                         ..
                     } in REMOTE_REGISTRY.lock().await.values()
                     {
-                        for linked_actor_id in (*links.lock().await).keys() {
-                            if linked_actor_id.peer_id() == Some(&peer_id) {
-                                let signal_mailbox = signal_mailbox.clone();
-                                let linked_actor_id = *linked_actor_id;
-                                futures.push(async move {
-                                    signal_mailbox
-                                        .signal_link_died(
-                                            linked_actor_id,
-                                            ActorStopReason::PeerDisconnected,
-                                        )
-                                        .await
-                                });
+                        links.lock().await.retain(|linked_actor_id, _| {
+                            if linked_actor_id.peer_id() != Some(&peer_id) {
+                                return true;
                             }
-                        }
+
+                            let signal_mailbox = signal_mailbox.clone();
+                            let linked_actor_id = *linked_actor_id;
+                            futures.push(async move {
+                                signal_mailbox
+                                    .signal_link_died(
+                                        linked_actor_id,
+                                        ActorStopReason::PeerDisconnected,
+                                    )
+                                    .await
+                            });
+                            false
+                        });
                     }
 
                     while (futures.next().await).is_some() {}
-- 
2.43.0


From 04d059294d2ac5e5651bc679c7d8abc7c1bdbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 26/31] fix: return an error when an actor can't be registered
 instead of stopping the swarm

---
 src/remote/swarm.rs | 53 +++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9cdfd14..de025bd 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZeroUsize, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -583,17 +583,13 @@ impl ActorSwarmHandler {
             SwarmCommand::Register { record, reply } => {
                 if swarm.network_info().num_peers() == 0 {
                     let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let res = swarm.behaviour_mut().kademlia_put_record_local(record);
+                    let _ = reply.send(match res {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(put_record_failed(key)),
+                    });
                 } else {
-                    let query_id = swarm
-                        .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    self.put_record(swarm, record, reply);
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -602,12 +598,8 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
-                        .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                    self.put_record(swarm, record, reply);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
                 }
             }
             SwarmCommand::Ask {
@@ -781,6 +773,26 @@ impl ActorSwarmHandler {
         }
     }
 
+    fn put_record<B: SwarmBehaviour>(
+        &mut self,
+        swarm: &mut Swarm<B>,
+        record: kad::Record,
+        reply: oneshot::Sender<kad::PutRecordResult>,
+    ) {
+        let key = record.key.clone();
+        let res = swarm
+            .behaviour_mut()
+            .kademlia_put_record(record, kad::Quorum::One);
+        match res {
+            Ok(query_id) => {
+                self.put_queries.insert(query_id, reply);
+            }
+            Err(_) => {
+                let _ = reply.send(Err(put_record_failed(key)));
+            }
+        }
+    }
+
     /// Handles a swarm event.
     ///
     /// ConnectionClosed, Mdns, Kademlia, and RequestResponse events should be handled always.
@@ -1010,6 +1022,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The error of a record which can't be put, since the store has no space for it.
+fn put_record_failed(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: Vec::new(),
+        quorum: NonZeroUsize::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From 7330d7f5a522ed7f80c535d795c6ba529c632aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 27/31] fix: release askers whose message was sent while the
 mailbox was being closed

---
 src/actor/spawn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 3232029..6e07357 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -582,6 +582,16 @@ where
         }
     }
 
+    // A message sent while the mailbox is being closed would stay in it for as long as any sender exists,
+    // with its asker waiting for a reply, so everything accepted is received before dropping the receiver
+    mailbox_rx.close();
+    let mut discard = async move { while mailbox_rx.recv().await.is_some() {} }.boxed();
+    if (&mut discard).now_or_never().is_none() {
+        if let Ok(handle) = Handle::try_current() {
+            handle.spawn(discard);
+        }
+    }
+
     (actor, reason)
 }
 
-- 
2.43.0


From 4c310dbc2503fed19b005a003d756f237ff9d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 28/31] fix: link pool workers before they start, so one which
 ends at once is replaced

---
 actors/src/pool.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index b4890f2..9ac4766 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -52,7 +52,6 @@ use futures::{
     future::{BoxFuture, Either, join_all, select},
 };
 use kameo::{
-    actor::spawn_with_mailbox,
     error::{BoxSendError, Infallible},
     mailbox::Signal,
     prelude::*,
@@ -75,6 +74,8 @@ enum Factory<A: Actor> {
 /// sent using the `WorkerMsg` and `BroadcastMsg` messages for individual or broadcast communication with workers.
 pub struct ActorPool<A: Actor> {
     workers: Vec<(ActorRef<Worker<A>>, Arc<()>)>,
+    /// Workers which are spawned once linked to the pool, so none can end without the pool being notified.
+    unstarted: Vec<(PreparedActor<Worker<A>>, Worker<A>)>,
     size: usize,
     factory: Factory<A>,
 }
@@ -106,7 +107,7 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = (0..size)
+        let unstarted: Vec<_> = (0..size)
             .map(|_| {
                 let worker = Worker {
                     actor_ref: factory(),
@@ -115,12 +116,16 @@ where
                     MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+                (PreparedActor::new(mailbox), worker)
             })
             .collect();
 
         ActorPool {
-            workers,
+            workers: unstarted
+                .iter()
+                .map(|(prepared, _)| (prepared.actor_ref().clone(), Arc::new(())))
+                .collect(),
+            unstarted,
             size,
             factory: Factory::Sync(Box::new(factory)),
         }
@@ -137,20 +142,24 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = join_all((0..size).map(|_| {
+        let unstarted = join_all((0..size).map(|_| {
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
                     MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+                (PreparedActor::new(mailbox), worker)
             })
         }))
         .await;
 
         ActorPool {
-            workers,
+            workers: unstarted
+                .iter()
+                .map(|(prepared, _)| (prepared.actor_ref().clone(), Arc::new(())))
+                .collect(),
+            unstarted,
             size,
             factory: Factory::Async(Box::new(move || {
                 let mut factory = factory.clone();
@@ -169,14 +178,14 @@ where
     }
 
     async fn replace_worker(&mut self, i: usize, actor_ref: &ActorRef<Self>) {
-        self.workers[i] = match &mut self.factory {
+        let (prepared, worker) = match &mut self.factory {
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
                     MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+                (PreparedActor::new(mailbox), worker)
             }
             Factory::Async(f) => {
                 let worker = Worker {
@@ -186,10 +195,12 @@ where
                     MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
+                (PreparedActor::new(mailbox), worker)
             }
         };
-        self.workers[i].0.link(actor_ref).await;
+        prepared.actor_ref().link(actor_ref).await;
+        self.workers[i] = (prepared.actor_ref().clone(), Arc::new(()));
+        prepared.spawn(worker);
     }
 }
 
@@ -204,8 +215,9 @@ where
     }
 
     async fn on_start(&mut self, actor_ref: ActorRef<Self>) -> Result<(), Self::Error> {
-        for (worker, _) in &self.workers {
-            worker.link(&actor_ref).await;
+        for (prepared, worker) in self.unstarted.drain(..) {
+            prepared.actor_ref().link(&actor_ref).await;
+            prepared.spawn(worker);
         }
 
         Ok(())
-- 
2.43.0


From 3ac20dc28d38e8f5c281d0c24d7fd8a4f0413b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 29/31] fix: let values passed to panic_any be downcast from a
 PanicError

---
 src/error.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index b929257..47d1e53 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -725,10 +725,15 @@ impl PanicError {
         T: ReplyError,
         F: FnOnce(&T) -> R,
     {
-        match self.0.lock() {
-            Ok(lock) => lock.downcast_ref().map(f),
-            Err(err) => err.get_ref().downcast_ref().map(f),
-        }
+        self.with(|err| {
+            err.downcast_ref()
+                // Values passed to `panic_any` are held in a box
+                .or_else(|| {
+                    err.downcast_ref::<Box<dyn any::Any + Send>>()
+                        .and_then(|err| err.downcast_ref())
+                })
+                .map(f)
+        })
     }
 
     /// Returns a reference to the error as a `&Box<dyn ReplyError>`.
-- 
2.43.0


From 8aa630606e3944c51ca68cebbd0ca1e67ab4bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 30/31] fix: find the generics of a message in all of its
 arguments, each once

Arguments such as Option<T> were not searched, the return type added
generics no field uses, and a generic used by arguments which are not
next to each other was listed twice; none of these messages compiled.
---
 macros/src/messages.rs | 47 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5a7de82..0c01362 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -6,8 +6,8 @@ use syn::{
     parse_quote, parse_quote_spanned,
     punctuated::Punctuated,
     spanned::Spanned,
-    Attribute, Field, FnArg, GenericParam, Generics, Ident, ImplItem, ItemImpl, Meta, ReturnType,
-    Signature, Token, Type, Visibility,
+    Attribute, Field, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, ItemImpl,
+    Meta, Path, PathArguments, ReturnType, Signature, Token, Type, Visibility,
 };
 
 pub struct Messages {
@@ -165,11 +165,16 @@ impl Messages {
                                     generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
                                 }
                             }
-                            if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
-                                generics.extend(contains_generic_in_param(ty, &impl_item_generics));
-                            }
 
-                            generics.dedup();
+                            // Each generic is a parameter of the message only once, whatever the order of the arguments
+                            let mut seen = Vec::new();
+                            generics.retain(|param| {
+                                let is_new = !seen.contains(param);
+                                if is_new {
+                                    seen.push(param.clone());
+                                }
+                                is_new
+                            });
                             let generics = if generics.is_empty() {
                                 impl_item_fn.sig.generics.clone()
                             } else {
@@ -473,7 +478,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                 }
             }
 
-            vec![]
+            contains_generic_in_path_args(&path.path, generics)
         }
         Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),
         Type::Reference(reference) => {
@@ -513,7 +518,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                         }
                     }
 
-                    vec![]
+                    contains_generic_in_path_args(&trt.path, generics)
                 }
                 syn::TypeParamBound::Lifetime(lifetime) => {
                     let is_in_generics = generics
@@ -542,3 +547,29 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
         _ => vec![],
     }
 }
+
+fn contains_generic_in_path_args(path: &Path, generics: &[GenericParam]) -> Vec<GenericParam> {
+    path.segments
+        .iter()
+        .flat_map(|segment| match &segment.arguments {
+            PathArguments::None => vec![],
+            PathArguments::AngleBracketed(args) => args
+                .args
+                .iter()
+                .flat_map(|arg| match arg {
+                    GenericArgument::Type(ty) => contains_generic_in_param(ty, generics),
+                    _ => vec![],
+                })
+                .collect(),
+            PathArguments::Parenthesized(args) => args
+                .inputs
+                .iter()
+                .chain(match &args.output {
+                    ReturnType::Default => None,
+                    ReturnType::Type(_, ty) => Some(ty.as_ref()),
+                })
+                .flat_map(|ty| contains_generic_in_param(ty, generics))
+                .collect(),
+        })
+        .collect()
+}
-- 
2.43.0


From e87d0e242e0039693bd6b4723dd4ed768be350f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:29 +0000
Subject: [PATCH 31/31] fix: implement messages for the actor type as written
 in the impl block

The generics of the impl were used as the generics of the type, so that
an impl block for Actor<String> did not compile.
---
 macros/src/messages.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 0c01362..3aed5d3 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -12,7 +12,6 @@ use syn::{
 
 pub struct Messages {
     item_impl: ItemImpl,
-    ident: Ident,
     messages: Vec<Message>,
     errors: Option<syn::Error>,
 }
@@ -307,11 +306,10 @@ impl Messages {
     fn expand_msg_impls(&self) -> proc_macro2::TokenStream {
         let Self {
             item_impl,
-            ident: actor_ident,
             messages,
             ..
         } = self;
-        let (_, actor_ty_generics, _) = item_impl.generics.split_for_impl();
+        let actor_ty = &item_impl.self_ty;
 
         let msg_impls = messages.iter().map(
             |Message {
@@ -359,7 +357,7 @@ impl Messages {
 
                 quote_spanned! {sig.span()=>
                     #[automatically_derived]
-                    impl #impl_generics ::kameo::message::#trait_name<#msg_ident #msg_ty_generics> for #actor_ident #actor_ty_generics #where_clause {
+                    impl #impl_generics ::kameo::message::#trait_name<#msg_ident #msg_ty_generics> for #actor_ty #where_clause {
                         type Reply = #reply;
 
                         async fn handle(#self_ref, #[allow(unused_variables)] #msg, _ctx: &mut ::kameo::message::Context<Self, Self::Reply>) -> Self::Reply {
@@ -397,27 +395,16 @@ impl Parse for Messages {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         let mut item_impl: ItemImpl = input.parse()?;
 
-        let ident = match item_impl.self_ty.as_ref() {
-            Type::Path(type_path) => type_path
-                .path
-                .segments
-                .last()
-                .as_ref()
-                .ok_or_else(|| syn::Error::new(type_path.path.span(), "missing ident from path"))?
-                .ident
-                .clone(),
-            _ => {
-                return Err(syn::Error::new(
-                    item_impl.self_ty.span(),
-                    "expected a path or ident",
-                ))
-            }
-        };
+        if !matches!(item_impl.self_ty.as_ref(), Type::Path(_)) {
+            return Err(syn::Error::new(
+                item_impl.self_ty.span(),
+                "expected a path or ident",
+            ));
+        }
         let (messages, errors) = Messages::extract_messages(&mut item_impl);
 
         Ok(Messages {
             item_impl,
-            ident,
             messages,
             errors,
         })
-- 
2.43.0

