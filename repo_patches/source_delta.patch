From 81ab551a02c3b6b41e4b35385d023bd503bd4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:14 +0000
Subject: [PATCH 01/12] fix: do not count a failed publish as a pending send

A publish that failed left the pending send count incremented, so the
receiving end of the coordinated channel never terminated.
---
 .../channel/coordinated_channel/coordinated_publisher.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..a49ec15 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,10 +60,11 @@ where
 
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            // The payload was never sent, so the receiver must not wait for it.
+            self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst);
+            return Err(CoordinatedPublisherError::Inner(err).into());
+        }
 
         Ok(())
     }
-- 
2.43.0


From 3f6d7a565992020e90cce643272e6b1593c47f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:34 +0000
Subject: [PATCH 02/12] fix: do not end a coordinated stream while a send is
 being admitted

The receiver read the pending send count before the closed flag, and the
publisher checked the closed flag before counting its send. A publish
followed by a close in between made the receiver end early, losing the
result.
---
 .../channel/coordinated_channel/coordinated_publisher.rs  | 8 ++++++--
 .../src/channel/coordinated_channel/coordinated_stream.rs | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index a49ec15..694ba25 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,12 +54,16 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Count the send _before_ checking that the channel is open. A receiver that
+        // observes the closed channel is then guaranteed to also observe every send that
+        // was admitted.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst);
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         if let Err(err) = self.inner.publish(payload).await {
             // The payload was never sent, so the receiver must not wait for it.
             self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst);
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..a70e948 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -135,9 +135,10 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
             Poll::Pending => {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
-                // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                // stream has terminated. The order matters: no send is admitted once the
+                // channel is closed, so the pending sends must be read last.
+                let closed = this.state.closed.load(Ordering::SeqCst);
+                if closed && this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
                     return Poll::Ready(None);
                 }
 
-- 
2.43.0


From 7ee0ef4019a447a390e63fa6da128a040c8ad05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:35 +0000
Subject: [PATCH 03/12] fix: wake the receiver of a coordinated channel when it
 closes

Closing or dropping the publisher did not wake a receiver that was already
waiting, and acknowledging the last item only woke the task that had
received it. In both cases the receiver waited forever.
---
 .../coordinated_channel/coordinated_publisher.rs    |  4 ++--
 .../coordinated_channel/coordinated_stream.rs       |  4 ++++
 paladin-core/src/channel/coordinated_channel/mod.rs | 13 ++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index 694ba25..3323a30 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,13 +60,13 @@ where
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
         if self.state.closed.load(Ordering::SeqCst) {
-            self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst);
+            self.state.withdraw_send();
             return err_closed();
         }
 
         if let Err(err) = self.inner.publish(payload).await {
             // The payload was never sent, so the receiver must not wait for it.
-            self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst);
+            self.state.withdraw_send();
             return Err(CoordinatedPublisherError::Inner(err).into());
         }
 
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index a70e948..0643121 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -95,6 +95,8 @@ impl CoordinatedAcker {
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
             self.waker.wake_by_ref();
+            // The stream may have been polled by a different task in the meantime.
+            self.state.receiver.wake();
         }
     }
 
@@ -124,6 +126,8 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
+        // Register before reading the state below, such that no change is missed.
+        this.state.receiver.register(cx.waker());
         let item = this.inner.poll_next(cx);
 
         match item {
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..4070af5 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task waiting on the receiving end of the channel.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +49,15 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        // The receiver may be waiting on a channel that has nothing left to deliver.
+        self.receiver.wake();
+    }
+
+    /// Withdraw a pending send that was not delivered.
+    fn withdraw_send(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+        }
     }
 }
 
-- 
2.43.0


From a9e7a87fca18319011fb83eb87ce1a5d940f8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 04/12] fix: finish a fold whose final result arrives before
 its input ends

A result spanning the whole input that was received before the input
stream ended was queued rather than recognized as final, and nothing looked
at it again once the size became known: the fold never completed.
---
 .../src/directive/indexed_stream/foldable.rs         | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..7eb77b1 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -223,7 +223,17 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            _ => {
+                                // The final result may have been received before the size was
+                                // known, in which case the result stream has queued it.
+                                if let Some(result) = dispatcher.dequeue(&0).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From b882f5076b067d612489bc0e278797c134b8736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:05 +0000
Subject: [PATCH 05/12] fix: keep executing the tasks of a job after an ignored
 failure

A worker marked the job as terminated on any failure, so that a failure with
FatalStrategy::Ignore silently dropped all later tasks of the job.
---
 paladin-core/src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..dd5994d 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -782,7 +782,10 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            // An ignored failure does not terminate the rest of the job.
+                            if let FatalStrategy::Terminate = err.fatal_strategy() {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
-- 
2.43.0


From 04d5c9bd53dcce2017cbf4bef2493e9788e4dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:26 +0000
Subject: [PATCH 06/12] fix: stop a worker's background tasks whenever its main
 loop ends

The tasks clearing the terminated jobs and listening for commands were only
aborted when the main loop ran to its end. They were leaked when it failed
or was cancelled, as happens when an in-memory runtime is dropped.
---
 paladin-core/src/runtime/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index dd5994d..ec7c026 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -58,7 +58,11 @@ use anyhow::Result;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::{stream::BoxStream, Stream, StreamExt};
 use serde::{Deserialize, Serialize};
-use tokio::{select, task::JoinHandle, try_join};
+use tokio::{
+    select,
+    task::{JoinHandle, JoinSet},
+    try_join,
+};
 use tracing::{debug, debug_span, error, instrument, trace, warn, Instrument};
 
 use self::dynamic_channel::{DynamicChannel, DynamicChannelFactory};
@@ -669,8 +673,11 @@ impl WorkerRuntime {
         // them.
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
+        // The tasks running in the background, which are aborted when this is dropped.
+        let mut background_tasks = JoinSet::new();
+
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        background_tasks.spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -689,7 +696,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        background_tasks.spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -808,9 +815,6 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
-- 
2.43.0


From dd11ae4d5bff22d45d879b1334293d2ad125600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 07/12] fix: keep polling an AMQP consumer after an erroneous
 delivery

The consumer returned Poll::Pending without arranging to be woken, so that
messages behind an erroneous delivery were only seen once another arrived.
---
 paladin-core/src/queue/amqp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..174af56 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -521,6 +521,8 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
                     Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
+                        // There may be more messages available.
+                        cx.waker().wake_by_ref();
                         Poll::Pending
                     }
                 }
@@ -528,6 +530,8 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
             Poll::Ready(Some(Err(err))) => {
                 let err = anyhow::Error::from(err);
                 error!("Error receiving message, error: {err}",);
+                // There may be more messages available.
+                cx.waker().wake_by_ref();
                 Poll::Pending
             }
             Poll::Ready(None) => Poll::Ready(None),
-- 
2.43.0


From b037bef866f1225e213d60a3e8ccdb5057f1f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 08/12] fix: fail a task of an unknown operation instead of
 panicking

An operation id out of range panicked in the worker, ending its main loop
instead of reporting the failure to the leader.
---
 paladin-core/src/task/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..178bafb 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -166,6 +166,13 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        match OPERATIONS.get(self.operation_id as usize) {
+            Some(execute) => execute(self, abort).await,
+            None => FatalError::from_str(
+                &format!("unknown operation id {}", self.operation_id),
+                FatalStrategy::Terminate,
+            )
+            .into(),
+        }
     }
 }
-- 
2.43.0


From 2e23931ff9e099709dd886b8afee597c454f12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:15 +0000
Subject: [PATCH 09/12] fix: do not retry an operation that fails fatally while
 being retried

A fatal error raised by a retry of a transient error was itself retried, and
its strategy was overwritten by that of the transient error.
---
 paladin-core/src/operation/error.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 7263858..9404899 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -422,10 +422,19 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
-                let result = retry_with_strategy(f, retry_strategy, tracer).await;
-                result.map_err(|err| Self::Fatal {
-                    err: err.into_err(),
-                    strategy: fatal_strategy,
+                // A fatal error is not retried, and retains its own strategy.
+                let attempt = || async {
+                    match f().await {
+                        Err(err @ Self::Fatal { .. }) => Ok(Err(err)),
+                        result => result.map(Ok),
+                    }
+                };
+                let result = retry_with_strategy(attempt, retry_strategy, tracer).await;
+                result.unwrap_or_else(|err| {
+                    Err(Self::Fatal {
+                        err: err.into_err(),
+                        strategy: fatal_strategy,
+                    })
                 })
             }
             _ => Err(self),
-- 
2.43.0


From 23d599fecb648babf100811fa4d7368b3d3032ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:58 +0000
Subject: [PATCH 10/12] fix: do not hold a map lock while deleting an AMQP
 queue

The entry of the queue options map, vacant or not, was held across the
requests to the broker. A second delete_queue on the same connection then
blocked its executor thread, and with it, on a single-threaded runtime, the
first one.
---
 paladin-core/src/queue/amqp.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 174af56..bc980c5 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -50,7 +50,7 @@ use std::{
 
 use anyhow::Result;
 use async_trait::async_trait;
-use dashmap::{mapref::entry::Entry, DashMap};
+use dashmap::DashMap;
 use futures::Stream;
 use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
 use pin_project::pin_project;
@@ -308,18 +308,14 @@ impl Connection for AMQPConnection {
     }
 
     async fn delete_queue(&self, name: &str) -> Result<()> {
-        match self.queue_options.entry(name.to_string()) {
-            Entry::Occupied(options) => {
-                match options.get().syndication_mode {
-                    SyndicationMode::ExactlyOnce => self.delete_single(name).await?,
-                    SyndicationMode::Broadcast => self.delete_broadcast(name).await?,
-                };
-
-                options.remove();
-
-                Ok(())
-            }
-            Entry::Vacant(_) => self.delete_broadcast(name).await,
+        // The map is locked for as long as an entry is held, so do not hold one while
+        // awaiting.
+        match self.queue_options.remove(name) {
+            Some((_, options)) => match options.syndication_mode {
+                SyndicationMode::ExactlyOnce => self.delete_single(name).await,
+                SyndicationMode::Broadcast => self.delete_broadcast(name).await,
+            },
+            None => self.delete_broadcast(name).await,
         }
     }
 }
-- 
2.43.0


From fa98220660e4c7ca57ecc4cb5caeff8bdf359eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 11/12] fix: reject more operations than there are operation
 ids

The operation id counter silently wrapped around after 256 operations, giving
different operations the same id.
---
 paladin-opkind-derive/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..7c46e80 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -18,13 +18,13 @@
 //! enabling efficient lookup and execution of the appropriate operation.
 extern crate proc_macro;
 
-use std::sync::atomic::{AtomicU8, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::{parse_macro_input, Attribute, DeriveInput, Error, Ident, Result};
 
-static OPERATION_ID_COUNTER: AtomicU8 = AtomicU8::new(0);
+static OPERATION_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
 /// Check if the `internal` attribute is present on the derive macro.
 ///
@@ -100,6 +100,15 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let generics = &input.generics;
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
+    // Operation identifiers must not wrap around, as they'd no longer be unique.
+    let operation_id = match u8::try_from(operation_id) {
+        Ok(operation_id) => operation_id,
+        Err(_) => {
+            return Error::new(name.span(), "too many operations: at most 256 are supported")
+                .to_compile_error()
+                .into()
+        }
+    };
     let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
 
     let expanded = quote! {
-- 
2.43.0


From c91af2f2b7ac274fb1fa923723ca30e4946760de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:05 +0000
Subject: [PATCH 12/12] fix: do not let a later abort signal replace one that
 aborts everything

---
 paladin-core/src/runtime/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index ec7c026..bee4277 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -705,8 +705,16 @@ impl WorkerRuntime {
                         CommandIpc::Abort { routing_key } => {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
-                                // Notify any currently executing task about the termination.
-                                ipc_sig_term_tx.send_replace(routing_key.clone());
+                                // Notify any currently executing task about the termination. A
+                                // signal to abort everything is final: a later one must not
+                                // replace it before it is seen.
+                                ipc_sig_term_tx.send_if_modified(|signal| {
+                                    if signal == COMMAND_IPC_ABORT_ALL_KEY {
+                                        return false;
+                                    }
+                                    *signal = routing_key.clone();
+                                    true
+                                });
                             }
                         }
                     }
-- 
2.43.0

