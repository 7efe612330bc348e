From c582bf3640e7184214cb0456f10ed89d99297c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:29 +0000
Subject: [PATCH 01/14] fix: Scan::size_hint claimed a lower bound and forgot
 the item in flight

The closure may stop the stream at any item, so the lower bound is 0; the
future in flight may still produce an item, so it counts towards the upper bound.
---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..f084042 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 506138158dcf1c81f4c4e264982be77cd1d17090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:29 +0000
Subject: [PATCH 02/14] fix: TakeUntil::size_hint claimed the inner lower bound

The stopping future may end the stream at any point, so while it is present
nothing can be promised.
---
 futures-util/src/stream/stream/take_until.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..48f01b9 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -145,7 +145,9 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // The stopping future may resolve before the next item.
+        (if self.free { lower } else { 0 }, upper)
     }
 }
 
-- 
2.43.0


From 233941df2d87c7d58fba251b2d3fcb9f028083ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:29 +0000
Subject: [PATCH 03/14] fix: TakeUntil reported itself live after its stream
 ended

With the stopping future taken out, the end of the inner stream left
is_terminated() false, and a further poll reached the finished inner stream.
---
 futures-util/src/stream/stream/take_until.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 48f01b9..b049abb 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -135,6 +135,7 @@ where
             let item = ready!(this.stream.poll_next(cx));
             if item.is_none() {
                 this.fut.set(None);
+                *this.free = false;
             }
             Poll::Ready(item)
         }
-- 
2.43.0


From 6cee27bae50b38a5b27143cf0e883bf2797866d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 04/14] fix: TryTakeWhile/TrySkipWhile kept the item of a
 failed predicate

When the predicate's future resolved to an error the item it was called
with stayed in pending_item, so is_terminated() never became true again
after the stream had ended and size_hint() kept counting that item.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From eac1a9570e8c8b277b61ffbe2718b734224d2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:15 +0000
Subject: [PATCH 05/14] fix: stream::PollImmediate::size_hint claimed the inner
 upper bound

Each pending poll of the inner stream yields a Poll::Pending item, so the
inner upper bound does not bound the number of items.
---
 futures-util/src/stream/poll_immediate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..7f40d35 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,11 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        match &self.stream {
+            // every pending poll of the inner stream yields an extra item
+            Some(stream) => (stream.size_hint().0, None),
+            None => (0, Some(0)),
+        }
     }
 }
 
-- 
2.43.0


From 2b057de8041c2aa3287c24a8cd82c013fe98b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:15 +0000
Subject: [PATCH 06/14] fix: Lines leaked the start of a failed line into a
 later one

---
 futures-util/src/io/lines.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..f069624 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,14 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read)) {
+            Ok(n) => n,
+            Err(e) => {
+                // Drop what was read of the failed line so that it cannot leak into a later one.
+                this.buf.clear();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From 53de1dbc2c74405ff92c272f3d07d07f0c707f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:22 +0000
Subject: [PATCH 07/14] fix: IntoSink looped forever on a writer that accepts
 no more bytes

---
 futures-util/src/io/into_sink.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..62618f3 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,10 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    // The writer accepts nothing more: retrying would loop forever.
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0


From afeb01dc3b7ea05588cee35f4085af72cf07a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:47 +0000
Subject: [PATCH 08/14] fix: keep a waiting sender's waker when try_send finds
 the channel full

Sender::poll_ready returned Pending after queueing the current task to be
notified; a later try_send on the same (still parked) sender replaced the
stored waker with None, so the task was never woken when the receiver made
room or went away.
---
 futures-channel/src/mpsc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..364661d 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -704,8 +704,11 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a context the task that is already waiting stays
+            // registered.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From ffb4e4f417ead75085c84aac83e76f1b565cc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 09/14] fix: wake the other clones of a Shared when its future
 panics

The panicking poll only marked the shared state as poisoned, so tasks
waiting on other clones were never woken and hung forever instead of
observing the panic.
---
 futures-util/src/future/future/shared.rs | 30 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..ec012fa 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -313,19 +313,28 @@ where
         let mut cx = Context::from_waker(&waker);
 
         struct Reset<'a> {
-            state: &'a AtomicUsize,
+            notifier: &'a Notifier,
             did_not_panic: bool,
         }
 
         impl Drop for Reset<'_> {
             fn drop(&mut self) {
                 if !self.did_not_panic {
-                    self.state.store(POISONED, SeqCst);
+                    self.notifier.state.store(POISONED, SeqCst);
+
+                    // No other clone will ever complete: wake them so that
+                    // they get to observe the panic.
+                    #[cfg(feature = "std")]
+                    if let Ok(mut wakers) = self.notifier.wakers.lock() {
+                        wake_all(&mut wakers);
+                    }
+                    #[cfg(not(feature = "std"))]
+                    wake_all(&mut self.notifier.wakers.lock());
                 }
             }
         }
 
-        let mut reset = Reset { state: &inner.notifier.state, did_not_panic: false };
+        let mut reset = Reset { notifier: &inner.notifier, did_not_panic: false };
 
         let output = {
             let future = unsafe {
@@ -417,11 +426,16 @@ impl ArcWake for Notifier {
         #[cfg(not(feature = "std"))]
         let wakers = &mut *arc_self.wakers.lock();
 
-        if let Some(wakers) = wakers.as_mut() {
-            for (_key, opt_waker) in wakers {
-                if let Some(waker) = opt_waker.take() {
-                    waker.wake();
-                }
+        wake_all(wakers);
+    }
+}
+
+/// Wakes all registered tasks, leaving their slots empty.
+fn wake_all(wakers: &mut Option<Slab<Option<Waker>>>) {
+    if let Some(wakers) = wakers.as_mut() {
+        for (_key, opt_waker) in wakers {
+            if let Some(waker) = opt_waker.take() {
+                waker.wake();
             }
         }
     }
-- 
2.43.0


From 58690ec2d771ceda671f01c1a7d5ee2c6eeeeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:28 +0000
Subject: [PATCH 10/14] fix: pass a wakeup on when a woken clone of a Shared is
 dropped

A clone that was woken while the inner future was being polled, and then
dropped instead of polled again, swallowed the wakeup: clones that had
registered in the meantime were never woken.
---
 futures-util/src/future/future/shared.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index ec012fa..58bea68 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -406,14 +406,10 @@ where
             if let Some(ref inner) = self.inner {
                 #[cfg(feature = "std")]
                 if let Ok(mut wakers) = inner.notifier.wakers.lock() {
-                    if let Some(wakers) = wakers.as_mut() {
-                        wakers.remove(self.waker_key);
-                    }
+                    remove_waker(&mut wakers, self.waker_key);
                 }
                 #[cfg(not(feature = "std"))]
-                if let Some(wakers) = inner.notifier.wakers.lock().as_mut() {
-                    wakers.remove(self.waker_key);
-                }
+                remove_waker(&mut inner.notifier.wakers.lock(), self.waker_key);
             }
         }
     }
@@ -430,6 +426,16 @@ impl ArcWake for Notifier {
     }
 }
 
+/// Removes the slot of a clone that is dropped before it completed.
+fn remove_waker(wakers: &mut Option<Slab<Option<Waker>>>, waker_key: usize) {
+    let removed = wakers.as_mut().map(|wakers| wakers.remove(waker_key));
+    // The clone was woken but will not poll the inner future anymore: pass the
+    // wakeup on to the clones that registered after it was sent.
+    if let Some(None) = removed {
+        wake_all(wakers);
+    }
+}
+
 /// Wakes all registered tasks, leaving their slots empty.
 fn wake_all(wakers: &mut Option<Slab<Option<Waker>>>) {
     if let Some(wakers) = wakers.as_mut() {
-- 
2.43.0


From 3dcbac9bf68e372fa32fc143cea04f51dca6dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:39 +0000
Subject: [PATCH 11/14] fix: FuturesUnordered::poll_next reports an empty set
 as ended while a completed task is being enqueued

A waker of a completed future that is half way through enqueueing its
task made poll_next return Pending on an empty set. ForEachConcurrent and
TryForEachConcurrent were then pending and is_terminated() at the same
time, so select! never polled them to completion.
---
 futures-util/src/stream/futures_unordered/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/futures-util/src/stream/futures_unordered/mod.rs b/futures-util/src/stream/futures_unordered/mod.rs
index b40b894..ffb5053 100644
--- a/futures-util/src/stream/futures_unordered/mod.rs
+++ b/futures-util/src/stream/futures_unordered/mod.rs
@@ -437,6 +437,12 @@ impl<Fut: Future> Stream for FuturesUnordered<Fut> {
                     }
                 }
                 Dequeue::Inconsistent => {
+                    if self.is_empty() {
+                        // What is being enqueued is a task whose future has
+                        // already completed, so nothing is left to wait for.
+                        *self.is_terminated.get_mut() = true;
+                        return Poll::Ready(None);
+                    }
                     // At this point, it may be worth yielding the thread &
                     // spinning a few times... but for now, just yield using the
                     // task system.
-- 
2.43.0


From 5feb8d17c587a7d964375abb2308e48df82dc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:51 +0000
Subject: [PATCH 12/14] fix: stream_select! forgot that a stream had ended when
 another one was ready in the same poll, and polled it again

---
 futures-macro/src/stream_select.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..8216c84 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut ready = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -63,8 +64,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                                 continue;
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
-                                    r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                    __futures_crate::task::Poll::Ready(Some(item)) => {
+                                        ready = Some(item);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +88,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if ready.is_some() {
+                        __futures_crate::task::Poll::Ready(ready)
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From ac16dfa30d53a7e6ef79b877ab21ea562fac24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 13/14] fix: size_hint of stream_select! overflowed when the
 hints do not fit into a usize together

---
 futures-macro/src/stream_select.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index 8216c84..8a4311b 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -98,12 +98,12 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                 }
 
                 fn size_hint(&self) -> (usize, Option<usize>) {
-                    let mut s = (0, Some(0));
+                    let mut s = (0usize, Some(0usize));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = s.0.saturating_add(new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a: usize| new_hint.1.and_then(|b| a.checked_add(b)));
                         }
                     )*
                     s
-- 
2.43.0


From fc440facb14537975363c472b8f52d7852f490b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:42 +0000
Subject: [PATCH 14/14] fix: BufReader::poll_seek_relative overflows when asked
 to seek by i64::MIN

---
 futures-util/src/io/buf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_reader.rs b/futures-util/src/io/buf_reader.rs
index 117eb98..a3b2924 100644
--- a/futures-util/src/io/buf_reader.rs
+++ b/futures-util/src/io/buf_reader.rs
@@ -95,7 +95,7 @@ impl<R: AsyncRead + AsyncSeek> BufReader<R> {
     ) -> Poll<io::Result<()>> {
         let pos = self.pos as u64;
         if offset < 0 {
-            if let Some(new_pos) = pos.checked_sub((-offset) as u64) {
+            if let Some(new_pos) = pos.checked_sub(offset.unsigned_abs()) {
                 *self.project().pos = new_pos as usize;
                 return Poll::Ready(Ok(()));
             }
-- 
2.43.0

