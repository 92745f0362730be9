From fee4c5291e404310c172eb0f5ed07e9678acfe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/14] fix: filter and filter_map emit the right old_index for
 Move

---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..f3f2785 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2067,10 +2067,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must be calculated before the element is inserted again
+                        let old_output = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index: old_output,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From 7f85046ceac007fbd6e24e8de1a4f5a0b0f2879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 02/14] fix: filter_signal_cloned emits the right old_index for
 Move

---
 src/signal_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index f3f2785..0329eae 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1768,11 +1768,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must be calculated before the element is inserted again
+                            let old_output = Self::find_index(signals, old_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index: old_output,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
-- 
2.43.0


From 278d770071ec8259d9ea3ffb75b8ed7385eba493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 03/14] fix: chain keeps polling after a change which produces
 no output

---
 src/signal_vec.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 0329eae..8580f42 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -790,10 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Ready(None) if it made progress without producing a change
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,14 +836,14 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Ready(None)
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
@@ -927,9 +928,12 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
-        let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
-        self.process_right_change(change)
+    // Returns Ready(None) if it made progress without producing a change
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
+        match self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
+            Some(Poll::Pending) | None => Poll::Pending,
+            change => Poll::Ready(self.process_right_change(change)),
+        }
     }
 }
 
@@ -947,18 +951,16 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_left(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
-            if let Some(change) = this.process_right(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_right(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
             if this.left.is_none() && this.right.is_none() {
-- 
2.43.0


From e18b4da786070ca76c5c9f8ab3b89bc229537a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 04/14] fix: flatten removes and moves the elements of removed,
 replaced and moved inner SignalVecs

---
 src/signal_vec.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 8580f42..1af196c 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1122,6 +1122,17 @@ impl<A> SignalVec for Flatten<A>
 
     // TODO implement this more efficiently
     fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<Self::Item>>> {
+        // The output index of the first element of inner[index]
+        fn start_of<A>(inner: &[FlattenState<A>], index: usize) -> usize {
+            inner[0..index].iter().map(|state| state.len).sum()
+        }
+
+        fn push_removes<A>(pending: &mut PendingBuilder<VecDiff<A>>, start: usize, len: usize) {
+            for index in (0..len).rev() {
+                pending.push(VecDiff::RemoveAt { index: start + index });
+            }
+        }
+
         let mut this = self.project();
 
         if let Some(diff) = this.pending.pop_front() {
@@ -1147,20 +1158,37 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            push_removes(&mut pending, start_of(&this.inner, index), this.inner[index].len);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
+                            push_removes(&mut pending, start_of(&this.inner, index), this.inner[index].len);
                             this.inner.remove(index);
                         },
                         VecDiff::Move { old_index, new_index } => {
+                            let old_start = start_of(&this.inner, old_index);
+
                             let value = this.inner.remove(old_index);
+                            let len = value.len;
                             this.inner.insert(new_index, value);
+
+                            let new_start = start_of(&this.inner, new_index);
+
+                            for index in 0..len {
+                                if old_start < new_start {
+                                    pending.push(VecDiff::Move { old_index: old_start, new_index: new_start + (len - 1) });
+
+                                } else {
+                                    pending.push(VecDiff::Move { old_index: old_start + index, new_index: new_start + index });
+                                }
+                            }
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let value = this.inner.pop().unwrap();
+                            push_removes(&mut pending, start_of(&this.inner, this.inner.len()), value.len);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From afeba12a5528288b3680b0136b7a9158dd3b352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 05/14] fix: is_empty ends when its source ended together with
 a length change

---
 src/signal_vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 1af196c..e92c48f 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1920,16 +1920,20 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { mut len, old } = self.project();
 
-        match len.poll_change(cx) {
-            Poll::Ready(Some(len)) => {
-                let new = Some(len == 0);
+        match len.as_mut().poll_change(cx) {
+            Poll::Ready(Some(new_len)) => {
+                let new = Some(new_len == 0);
 
                 if *old != new {
                     *old = new;
                     Poll::Ready(new)
 
+                } else if len.signal.is_none() {
+                    // The SignalVec ended, so there is nothing which could wake up the task
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 49a32fb79d51c823250ef7e9f5dc1461b1ccd899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 06/14] fix: switch_signal_vec clears the old contents before
 it ends

---
 src/signal/signal.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..1bb88a8 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,11 +1728,9 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
-                        Poll::Ready(None)
-
-                    } else {
-                        new_signal_vec(len)
+                    match new_signal_vec(len) {
+                        Poll::Pending if signal_done => Poll::Ready(None),
+                        poll => poll,
                     }
                 },
 
-- 
2.43.0


From 55cd4fb4bfd41107688dcbe6b92b2e9cffe88a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 07/14] fix: key_cloned does not poll its source again after it
 ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..8d21741 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,11 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                None => {
+                    true
+                },
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,10 +443,11 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
             }
-- 
2.43.0


From c46102bde75d16ccfc56703da3a5fd71a9eef653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 08/14] fix: Mutable signals do not miss a change or drop made
 while they are being polled

---
 src/signal/mutable.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..974c6a7 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -99,20 +99,31 @@ impl<A> MutableSignalState<A> {
         }
     }
 
+    fn read<B, F>(&self, f: F) -> B where F: FnOnce(&A) -> B {
+        let lock = self.state.lock.read().unwrap();
+        f(&lock.value)
+    }
+
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
         if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
-
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            Poll::Ready(Some(self.read(f)))
 
         } else {
+            // The waker must be set before checking, or else it might miss a change made by another thread
             self.waker.set_waker(cx);
-            Poll::Pending
+
+            // This must be loaded before checking for changes, or else it might miss the final change
+            let is_done = self.state.senders.load(Ordering::SeqCst) == 0;
+
+            if self.waker.is_changed() {
+                Poll::Ready(Some(self.read(f)))
+
+            } else if is_done {
+                Poll::Ready(None)
+
+            } else {
+                Poll::Pending
+            }
         }
     }
 }
-- 
2.43.0


From 772d30fd3c10ca3def832382b2202b9c92b4b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 09/14] fix: Mutable::swap does not dead lock

---
 src/signal/mutable.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index 974c6a7..81ed9fd 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -288,9 +288,23 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        let (first, second) = (self.state(), other.state());
+
+        // Swapping with itself doesn't change the value, and locking twice would dead lock
+        if Arc::ptr_eq(first, second) {
+            first.lock.write().unwrap().notify(true);
+            return;
+        }
+
+        // Always locks in the same order, so that concurrent swaps can't dead lock
+        let (first, second) = if Arc::as_ptr(first) < Arc::as_ptr(second) {
+            (first, second)
+        } else {
+            (second, first)
+        };
+
+        let mut state1 = first.lock.write().unwrap();
+        let mut state2 = second.lock.write().unwrap();
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From 5c2f6f297479147c86086455c7098ee5f9ef9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 10/14] fix: channel Receiver does not miss a value or drop
 sent while it is being polled

---
 src/signal/channel.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..3edbad7 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -123,12 +123,21 @@ impl<A> Signal for Receiver<A> {
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+                // The waker must be stored before checking, or else it might miss a change made by another thread
+                self.inner.waker.store(Some(cx.waker().clone()));
 
-                } else {
-                    Poll::Ready(None)
+                // This must be loaded before checking the value, or else it might miss the final value
+                let has_senders = self.inner.has_senders();
+
+                match self.inner.value.take() {
+                    None => if has_senders {
+                        Poll::Pending
+
+                    } else {
+                        Poll::Ready(None)
+                    },
+
+                    a => Poll::Ready(a),
                 }
             },
 
-- 
2.43.0


From ea27dd0a72deb00b325718cc93f89cc86579ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 11/14] fix: cloning or dropping a channel Sender while it is
 being closed keeps it closed

---
 src/signal/channel.rs | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 3edbad7..aca0bab 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,15 +22,36 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
-    #[inline]
+    /// Does nothing if the channel was closed
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            match self.senders.compare_exchange_weak(senders, senders + 1, Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => return,
+                Err(new_senders) => {
+                    senders = new_senders;
+                },
+            }
+        }
     }
 
     /// Returns `true` if it no longer has any senders
-    #[inline]
+    ///
+    /// Does nothing if the channel was closed
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        let mut senders = self.senders.load(Ordering::Acquire);
+
+        while senders != 0 {
+            match self.senders.compare_exchange_weak(senders, senders - 1, Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => return senders == 1,
+                Err(new_senders) => {
+                    senders = new_senders;
+                },
+            }
+        }
+
+        false
     }
 
     #[inline]
@@ -81,10 +102,7 @@ impl<A> Sender<A> {
 impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            inner.add_sender();
         }
 
         Self {
@@ -96,12 +114,9 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
-- 
2.43.0


From f88c034d7b3e4a5e9b46d1d34c068365404eafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 12/14] fix: Broadcaster signals do not miss a change made
 while they are being polled

---
 src/signal/broadcaster.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..81880de 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -42,6 +42,10 @@ impl BroadcasterNotifier {
         });
     }
 
+    fn has_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
     fn is_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
@@ -126,10 +130,13 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
     }
 
     fn poll<B, F>(&self, f: F) -> B where F: FnOnce(&BroadcasterInnerState<A>) -> B {
-        if self.notifier.is_changed() {
+        if self.notifier.has_changed() {
             let mut lock = self.inner.write().unwrap();
 
-            lock.poll_signal();
+            // This must be reset while it is locked, or else another thread might see the old value
+            if self.notifier.is_changed() {
+                lock.poll_signal();
+            }
 
             f(&lock)
 
@@ -180,7 +187,7 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
-        shared_state.poll(|state| {
+        let poll = shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
                 if state.signal.is_none() {
@@ -195,7 +202,14 @@ impl<A> BroadcasterState<A> where A: Signal {
                 *epoch = state.epoch;
                 Poll::Ready(Some(f(state.value.as_ref().unwrap())))
             }
-        })
+        });
+
+        // If it was notified before the waker was set then nothing else will wake up the task
+        if poll.is_pending() && shared_state.notifier.has_changed() {
+            waker.wake(false);
+        }
+
+        poll
     }
 }
 
-- 
2.43.0


From 08c16f6ff71fa8e52d50ba4ff301f7556b15c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 13/14] fix: cancelable_future does not miss a cancellation
 made while it is being polled

---
 src/future.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..e0e7b37 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -58,24 +58,26 @@ impl<A, B> Future for CancelableFuture<A, B>
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
-        // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // It might have been cancelled by another thread while it was being polled
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(cx.waker().clone());
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From afbf6d84d744e0a027f9780c8bb7b0c183379af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 14/14] fix: Broadcaster signals check for a missed
 notification before another signal can reset it

---
 src/signal/broadcaster.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 81880de..0077519 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -187,6 +187,8 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
+        let mut was_notified = false;
+
         let poll = shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
@@ -195,6 +197,10 @@ impl<A> BroadcasterState<A> where A: Signal {
 
                 } else {
                     waker.set_waker(cx);
+
+                    // This must be checked while it is locked, or else another signal might reset it
+                    was_notified = shared_state.notifier.has_changed();
+
                     Poll::Pending
                 }
 
@@ -205,7 +211,7 @@ impl<A> BroadcasterState<A> where A: Signal {
         });
 
         // If it was notified before the waker was set then nothing else will wake up the task
-        if poll.is_pending() && shared_state.notifier.has_changed() {
+        if was_notified {
             waker.wake(false);
         }
 
-- 
2.43.0

