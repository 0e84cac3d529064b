From 4c291a61260994909fc0e4ae1256598036fe6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:10 +0000
Subject: [PATCH 01/32] fix: ref_count/replay connect without holding a lock,
 and reconnect / disconnect properly

---
 src/observer.rs            |  10 ++--
 src/operators/ref_count.rs | 104 ++++++++++++++++++++++++-------------
 src/operators/replay.rs    |  95 ++++++++++++++++++++-------------
 3 files changed, 134 insertions(+), 75 deletions(-)

diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..1f13d68 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -44,14 +44,18 @@ where
     self.fn_complete.call_and_clear_if_available(());
   }
   pub fn unsubscribe(&self) {
-    self.fn_next.clear();
-    self.fn_error.clear();
-    self.fn_complete.clear();
+    self.close();
     if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
       f.call(());
     }
     *self.fn_on_unsubscribe.write().unwrap() = None;
   }
+  /// stops delivery, `unsubscribe()` must follow
+  pub(crate) fn close(&self) {
+    self.fn_next.clear();
+    self.fn_error.clear();
+    self.fn_complete.clear();
+  }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
   }
diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..44083ad 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,15 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Connection<'a, Item>>>,
+}
+
+struct Connection<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  count: isize,
+  observer: Option<Observer<'a, Item>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,58 +28,82 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(Connection {
+        count: 0,
+        observer: None,
+      })),
     };
     _self.set_ref_count();
     _self
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    let subscribers = self.subject.observable();
+    Observable::create(move |s| {
+      subscribers.inner_subscribe(s);
+      _self.connect();
+    })
   }
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        }
+      let connection = Arc::clone(&self.connection);
+      self.subject.set_on_subscribe(move |_| {
+        connection.write().unwrap().count += 1;
       });
     }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
+    let connection = Arc::clone(&self.connection);
+    self.subject.set_on_unsubscribe(move |_| {
+      let observer = {
+        let mut connection = connection.write().unwrap();
+        connection.count -= 1;
+        if connection.count > 0 {
           return;
         }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
+        let observer = connection.observer.take();
+        if let Some(o) = &observer {
+          // the next connection must not overlap with this one
+          o.close();
+        }
+        observer
+      };
+      if let Some(o) = observer {
+        o.unsubscribe();
       }
     });
   }
+
+  fn connect(&self) {
+    let observer = {
+      let mut connection = self.connection.write().unwrap();
+      let connected = match &connection.observer {
+        Some(o) => o.is_subscribed(),
+        None => false,
+      };
+      if connected || connection.count <= 0 {
+        return;
+      }
+      let sbj_next = self.subject.clone();
+      let sbj_error = self.subject.clone();
+      let sbj_complete = self.subject.clone();
+      let observer = Observer::new(
+        move |x| {
+          sbj_next.next(x);
+        },
+        move |e| {
+          sbj_error.error(e);
+        },
+        move || {
+          sbj_complete.complete();
+        },
+      );
+      connection.observer = Some(observer.clone());
+      observer
+    };
+    // no lock is held: the source may emit (and end) right here
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..91e88a8 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,15 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Connection<'a, Item>>>,
+}
+
+struct Connection<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  count: isize,
+  observer: Option<Observer<'a, Item>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,58 +27,73 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(Connection {
+        count: 0,
+        observer: None,
+      })),
     };
     _self.set_ref_count();
     _self
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    let subscribers = self.subject.observable();
+    Observable::create(move |s| {
+      subscribers.inner_subscribe(s);
+      _self.connect();
+    })
   }
 
   fn set_ref_count(&self) {
     {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        }
+      let connection = Arc::clone(&self.connection);
+      self.subject.set_on_subscribe(move |_| {
+        connection.write().unwrap().count += 1;
       });
     }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
+    let connection = Arc::clone(&self.connection);
+    self.subject.set_on_unsubscribe(move |_| {
+      let observer = {
+        let mut connection = connection.write().unwrap();
+        connection.count -= 1;
+        if connection.count > 0 {
           return;
         }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
+        connection.observer.clone()
+      };
+      if let Some(o) = observer {
+        o.unsubscribe();
       }
     });
   }
+
+  fn connect(&self) {
+    let observer = {
+      let mut connection = self.connection.write().unwrap();
+      if connection.observer.is_some() || connection.count <= 0 {
+        return;
+      }
+      let sbj_next = self.subject.clone();
+      let sbj_error = self.subject.clone();
+      let sbj_complete = self.subject.clone();
+      let observer = Observer::new(
+        move |x| {
+          sbj_next.next(x);
+        },
+        move |e| {
+          sbj_error.error(e);
+        },
+        move || {
+          sbj_complete.complete();
+        },
+      );
+      connection.observer = Some(observer.clone());
+      observer
+    };
+    // no lock is held: the source may emit (and end) right here
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
-- 
2.43.0


From 96cdc4319117abf044b3664e5cb13dfcb9b441d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:26 +0000
Subject: [PATCH 02/32] fix: an observer delivers one terminal, tears down on
 it and runs its teardown exactly once

---
 src/internals/function_wrapper.rs |  7 ++++++-
 src/observer.rs                   | 34 +++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..9f8ea3a 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -36,7 +36,12 @@ where
     }
   }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    self.take();
+  }
+  /// takes the function out of the wrapper: only one caller ever gets it
+  pub fn take(&self) -> Option<impl Fn(In) -> Out + 'a> {
+    let f = self.inner.write().unwrap().take();
+    f.map(|f| move |indata: In| (f.func)(indata))
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index 1f13d68..4a6bd33 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -38,17 +38,29 @@ where
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    // whoever takes `fn_next` delivers the one and only terminal
+    if self.fn_next.take().is_some() {
+      self.fn_complete.clear();
+      let f = self.fn_error.take();
+      self.teardown();
+      if let Some(f) = f {
+        f(x);
+      }
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.fn_next.take().is_some() {
+      self.fn_error.clear();
+      let f = self.fn_complete.take();
+      self.teardown();
+      if let Some(f) = f {
+        f(());
+      }
+    }
   }
   pub fn unsubscribe(&self) {
     self.close();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
-      f.call(());
-    }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
+    self.teardown();
   }
   /// stops delivery, `unsubscribe()` must follow
   pub(crate) fn close(&self) {
@@ -56,6 +68,12 @@ where
     self.fn_error.clear();
     self.fn_complete.clear();
   }
+  fn teardown(&self) {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
+      f.call(());
+    }
+  }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
   }
@@ -65,6 +83,10 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      // already ended, nobody else will call it
+      self.teardown();
+    }
   }
 }
 
-- 
2.43.0


From 39cabe3e658e4e391a239a38fe2092615fa3c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 03/32] fix: StreamController calls out without its locks and
 drops upstreams of a dead subscriber

---
 src/internals/stream_controller.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..7b48d36 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,14 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      // ended meanwhile, the new upstream is not wanted any more
+      self.finalize();
+    }
     observer
   }
 
@@ -100,11 +106,14 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        (observers.remove(serial), observers.len() == 0)
       };
+      if let Some(o) = o {
+        // nothing more is wanted from this upstream
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
@@ -122,25 +131,24 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    // no lock is held while calling out
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.into_iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
     if self.subscriber.is_subscribed() {
       self.subscriber.unsubscribe();
     }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From 2b7097b70ffd3f00fe45d71090357f03965de7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:55 +0000
Subject: [PATCH 04/32] fix: do not run a source for an observer that has
 already ended

---
 src/observable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 62f0014..2310573 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -26,7 +26,9 @@ where
   ) -> Subscription<'a> {
     let unsub_observer = observer.clone();
     let issub_observer = observer.clone();
-    self.source.call(observer.clone());
+    if observer.is_subscribed() {
+      self.source.call(observer);
+    }
     Subscription::new(
       move || {
         unsub_observer.unsubscribe();
-- 
2.43.0


From 3e6513df584a872ca1d21e479c48c879d77da505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 05/32] fix: Subject registers an observer before its teardown,
 and never calls it with a lock held

---
 src/subjects/subject.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..1168265 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -34,6 +34,10 @@ where
     Vec::from_iter(x)
   }
 
+  fn take_observers(&self) -> HashMap<i32, Observer<'a, Item>> {
+    std::mem::take(&mut *self.observers.write().unwrap())
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,14 +45,12 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(move |x| x.error(err.clone()));
+    let obs = self.take_observers();
+    obs.into_values().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
-    obs.into_iter().for_each(|x| x.complete());
+    let obs = self.take_observers();
+    obs.into_values().for_each(|x| x.complete());
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
@@ -64,28 +66,28 @@ where
         *serial += 1;
         *serial
       };
+      let len = {
+        let mut observers = observers.write().unwrap();
+        observers.insert(serial, s.clone());
+        observers.len()
+      };
+      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+        on_subscribe.call(len);
+      }
       {
+        // after the insertion: runs at once if `s` has ended meanwhile
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
         s.set_on_unsubscribe(move || {
-          let len = {
+          let (_observer, len) = {
             let mut observers = observers.write().unwrap();
-            observers.remove(&serial);
-            observers.len()
+            (observers.remove(&serial), observers.len())
           };
           if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
             on_unsubscribe.call(len);
           }
         });
       }
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
-        observers.len()
-      };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
-        on_subscribe.call(len);
-      }
     })
   }
 
-- 
2.43.0


From 5a8598699f8f9e00805e46ac6ad9be80f6e2fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 06/32] fix: ReplaySubject hands every subscriber the record in
 order, without a lock and without duplicates

---
 src/subjects/replay_subject.rs | 170 ++++++++++++++++++++++-----------
 1 file changed, 114 insertions(+), 56 deletions(-)

diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..38320be 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -6,10 +6,33 @@ pub struct ReplaySubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
+  // only tells the subscribers that the record has grown
   subject: Arc<subject::Subject<'a, Item>>,
-  items: Arc<RwLock<Vec<Item>>>,
-  was_error: Arc<RwLock<Option<RxError>>>,
-  was_completed: Arc<RwLock<bool>>,
+  record: Arc<RwLock<Record<Item>>>,
+}
+
+struct Record<Item> {
+  items: Vec<Item>,
+  error: Option<RxError>,
+  completed: bool,
+}
+
+impl<Item> Record<Item> {
+  fn terminated(&self) -> bool {
+    self.completed || self.error.is_some()
+  }
+}
+
+/// how far a subscriber has read the record
+struct Cursor {
+  position: usize,
+  busy: bool,
+}
+
+enum Event<Item> {
+  Next(Item),
+  Error(RxError),
+  Complete,
 }
 
 impl<'a, Item> ReplaySubject<'a, Item>
@@ -19,80 +42,115 @@ where
   pub fn new() -> ReplaySubject<'a, Item> {
     ReplaySubject {
       subject: Arc::new(subjects::Subject::new()),
-      items: Arc::new(RwLock::new(Vec::new())),
-      was_error: Arc::new(RwLock::new(None)),
-      was_completed: Arc::new(RwLock::new(false)),
+      record: Arc::new(RwLock::new(Record {
+        items: Vec::new(),
+        error: None,
+        completed: false,
+      })),
     }
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
+    {
+      let mut record = self.record.write().unwrap();
+      if record.terminated() {
+        return;
+      }
+      record.items.push(item.clone());
+    }
     self.subject.next(item);
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
+    {
+      let mut record = self.record.write().unwrap();
+      if record.terminated() {
+        return;
+      }
+      record.error = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
+    {
+      let mut record = self.record.write().unwrap();
+      if record.terminated() {
+        return;
+      }
+      record.completed = true;
+    }
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let items = Arc::clone(&self.items);
-    let was_error = Arc::clone(&self.was_error);
-    let was_completed = Arc::clone(&self.was_completed);
+    let record = Arc::clone(&self.record);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
+      let feed = {
+        let record = Arc::clone(&record);
+        let cursor =
+          Arc::new(RwLock::new(Cursor { position: 0, busy: false }));
+        let s = s.clone();
+        move || Self::feed(&record, &cursor, &s)
+      };
+      let feed_next = feed.clone();
+      let feed_error = feed.clone();
+      let feed_complete = feed.clone();
+      let observer = Observer::new(
+        move |_| feed_next(),
+        move |_| feed_error(),
+        move || feed_complete(),
+      );
       {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
       }
-
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
-            }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
-      );
+      subject.observable().inner_subscribe(observer);
+      feed();
     })
   }
 
+  /// delivers what the subscriber has not yet received, in recorded order
+  fn feed(
+    record: &RwLock<Record<Item>>,
+    cursor: &RwLock<Cursor>,
+    s: &Observer<'a, Item>,
+  ) {
+    {
+      let mut cursor = cursor.write().unwrap();
+      if cursor.busy {
+        // whoever is delivering will also find what is new
+        return;
+      }
+      cursor.busy = true;
+    }
+    loop {
+      // no lock is held while delivering
+      let event = {
+        let mut cursor = cursor.write().unwrap();
+        let record = record.read().unwrap();
+        if let Some(item) = record.items.get(cursor.position) {
+          cursor.position += 1;
+          Event::Next(item.clone())
+        } else if let Some(err) = &record.error {
+          Event::Error(err.clone())
+        } else if record.completed {
+          Event::Complete
+        } else {
+          cursor.busy = false;
+          return;
+        }
+      };
+      match event {
+        Event::Next(item) => s.next(item),
+        Event::Error(err) => return s.error(err),
+        Event::Complete => return s.complete(),
+      }
+      if !s.is_subscribed() {
+        return;
+      }
+    }
+  }
+
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From f0d0765e2c6507aeb6a6d610506523d073739493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 07/32] fix: BehaviorSubject hands over the latest value
 without a lock and without a gap

---
 src/subjects/behavior_subject.rs | 164 +++++++++++++++++++++++--------
 1 file changed, 122 insertions(+), 42 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..a92df5f 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,14 +1,36 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  // every item goes along with its number
+  subject: Arc<subject::Subject<'a, (usize, Item)>>,
+  last: Arc<RwLock<Last<Item>>>,
+}
+
+#[derive(Clone)]
+struct Last<Item> {
+  number: usize,
+  item: Option<Item>,
+  error: Option<RxError>,
+}
+
+impl<Item> Last<Item> {
+  fn terminated(&self) -> bool {
+    self.item.is_none() || self.error.is_some()
+  }
+}
+
+enum Event<Item> {
+  Next(Item),
+  Error(RxError),
+  Complete,
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -18,67 +40,125 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      last: Arc::new(RwLock::new(Last {
+        number: 0,
+        item: Some(initial),
+        error: None,
+      })),
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    let (number, _old) = {
+      let mut last = self.last.write().unwrap();
+      if last.terminated() {
+        return;
+      }
+      last.number += 1;
+      (last.number, last.item.replace(item.clone()))
+    };
+    self.subject.next((number, item));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
+    {
+      let mut last = self.last.write().unwrap();
+      if last.terminated() {
+        return;
+      }
+      last.error = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
+    let _old = {
+      let mut last = self.last.write().unwrap();
+      if last.terminated() {
+        return;
+      }
+      last.item.take()
+    };
     self.subject.complete();
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
+    let last = Arc::clone(&self.last);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
+      // what arrives before the last item has been handed over has to wait
+      let waiting = Arc::new(RwLock::new(Some(VecDeque::new())));
+      let deliver = {
+        let waiting = Arc::clone(&waiting);
+        let s = s.clone();
+        move |number: usize, event: Event<Item>| {
+          if let Some(waiting) = &mut *waiting.write().unwrap() {
+            waiting.push_back((number, event));
+            return;
+          }
+          Self::deliver(&s, event);
+        }
+      };
+      let handed_over = Arc::new(RwLock::new(0));
+      let observer = {
+        let deliver_error = deliver.clone();
+        let deliver_complete = deliver.clone();
+        let handed_over = Arc::clone(&handed_over);
+        Observer::new(
+          move |(number, item)| {
+            if number > *handed_over.read().unwrap() {
+              deliver(number, Event::Next(item));
+            }
+          },
+          move |err| deliver_error(usize::MAX, Event::Error(err)),
+          move || deliver_complete(usize::MAX, Event::Complete),
+        )
+      };
       {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
+      }
 
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
-        }
+      // registers first so that nothing gets lost
+      subject.observable().inner_subscribe(observer);
+
+      let last = last.read().unwrap().clone();
+      *handed_over.write().unwrap() = last.number;
+      if let Some(err) = last.error {
+        s.error(err);
+        return;
+      }
+      if let Some(item) = last.item {
+        s.next(item);
+      } else {
+        s.complete();
+        return;
       }
 
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
+      loop {
+        let next = {
+          let mut waiting = waiting.write().unwrap();
+          let next = waiting.as_mut().and_then(|w| w.pop_front());
+          if next.is_none() {
+            *waiting = None;
           }
-        });
+          next
+        };
+        match next {
+          // what was emitted before has been superseded
+          Some((number, _)) if number <= last.number => {}
+          Some((_, event)) => Self::deliver(&s, event),
+          None => break,
+        }
       }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
     })
   }
+
+  fn deliver(s: &Observer<'a, Item>, event: Event<Item>) {
+    match event {
+      Event::Next(item) => s.next(item),
+      Event::Error(err) => s.error(err),
+      Event::Complete => s.complete(),
+    }
+  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b5a2f51e358607cf221990a09713714d91a812e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 08/32] fix: AsyncSubject hands its last item to every
 subscriber

---
 src/subjects/async_subject.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..61dde82 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -1,12 +1,15 @@
 use crate::prelude::*;
-use std::sync::Arc;
+use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct AsyncSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  // hands out the last item and the terminal, also to late subscribers
+  subject: subjects::ReplaySubject<'a, Item>,
+  // `None` once terminated
+  last_item: Arc<RwLock<Option<Option<Item>>>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -15,21 +18,36 @@ where
 {
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
-      subject: Arc::new(subjects::Subject::new()),
+      subject: subjects::ReplaySubject::new(),
+      last_item: Arc::new(RwLock::new(Some(None))),
     }
   }
 
   pub fn next(&self, item: Item) {
-    self.subject.next(item);
+    let _old = match &mut *self.last_item.write().unwrap() {
+      Some(last_item) => last_item.replace(item),
+      None => None,
+    };
   }
   pub fn error(&self, err: RxError) {
-    self.subject.error(err);
+    if self.terminate().is_some() {
+      self.subject.error(err);
+    }
   }
   pub fn complete(&self) {
-    self.subject.complete();
+    if let Some(last_item) = self.terminate() {
+      if let Some(item) = last_item {
+        self.subject.next(item);
+      }
+      self.subject.complete();
+    }
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable().take_last(1).clone()
+    self.subject.observable()
+  }
+
+  fn terminate(&self) -> Option<Option<Item>> {
+    self.last_item.write().unwrap().take()
   }
 }
 
-- 
2.43.0


From d1dcc9016c580fc72c2b6220b5b5144b119627ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 09/32] fix: amb completes with its winner

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From 96b0a4249a85f9d91089edec2ce4573836619d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 10/32] fix: combine_latest emits the latest of every source

---
 src/operators/combine_latest.rs | 65 +++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..133dc85 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,56 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
+      let count = observables.len() + 1;
+      let latests = Arc::new(RwLock::new(vec![None::<Item>; count]));
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter((0..count).map(move |id| {
+          let latests = Arc::clone(&latests);
+          let combine_f = combine_f.clone();
+
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x: Item| {
+              let items = {
+                let mut latests = latests.write().unwrap();
+                latests[id] = Some(x);
+                latests.iter().cloned().collect::<Option<Vec<_>>>()
+              };
+              if let Some(items) = items {
+                sctl_next.sink_next(combine_f.call(items));
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |serial| {
+              sctl_complete.sink_complete(&serial);
+            },
+          )
+        }))
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From b099e8f8f7c1530efbf92311f8967366ae839ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 11/32] fix: sequence_equal compares lengths too

---
 src/operators/sequence_equal.rs | 109 +++++++++++++++++++++++++-------
 1 file changed, 85 insertions(+), 24 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..604de43 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -1,12 +1,22 @@
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
+}
+
+/// what a source has emitted ahead of the others
+struct Pending<Item> {
+  items: VecDeque<Item>,
+  completed: bool,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,37 +24,88 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    SequenceEqual { observables: observables.to_vec() }
+  }
+
+  /// `None` while it is undecided
+  fn compare(pendings: &mut Vec<Pending<Item>>) -> Option<bool> {
+    while pendings.iter().all(|x| !x.items.is_empty()) {
+      let items = Vec::from_iter(
+        pendings.iter_mut().map(|x| x.items.pop_front().unwrap()),
+      );
+      if !items.iter().all(|x| *x == items[0]) {
+        return Some(false);
+      }
+    }
+    if pendings.iter().any(|x| x.completed && x.items.is_empty()) {
+      if pendings.iter().any(|x| !x.items.is_empty()) {
+        return Some(false);
+      }
+      if pendings.iter().all(|x| x.completed) {
+        return Some(true);
+      }
+    }
+    None
   }
+
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-
       let sctl = StreamController::new(s);
+      let count = observables.len() + 1;
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      // `None` once decided
+      let pendings = Arc::new(RwLock::new(Some(Vec::from_iter(
+        (0..count)
+          .map(|_| Pending { items: VecDeque::<Item>::new(), completed: false }),
+      ))));
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
-          let check = x.get(0).unwrap();
-          if !x.iter().all(|i| i == check) {
-            sctl_next.upstream_abort_observe(&serial);
-            sctl_next.sink_next(false);
-            sctl_next.sink_complete(&serial);
+      let sctl_f = sctl.clone();
+      let register = move |id: usize, item: Option<Item>| {
+        let result = {
+          let mut pendings_ = pendings.write().unwrap();
+          let result = if let Some(pendings) = &mut *pendings_ {
+            match item {
+              Some(item) => pendings[id].items.push_back(item),
+              None => pendings[id].completed = true,
+            }
+            Self::compare(pendings)
+          } else {
+            None
+          };
+          if result.is_some() {
+            *pendings_ = None;
           }
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_next(true);
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+          result
+        };
+        if let Some(result) = result {
+          sctl_f.sink_next(result);
+          sctl_f.sink_complete_force();
+        }
+      };
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        VecDeque::from_iter((0..count).map(move |id| {
+          let register_next = register.clone();
+          let register_complete = register.clone();
+          let sctl_error = sctl.clone();
+          sctl.new_observer(
+            move |_, x| register_next(id, Some(x)),
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |_| register_complete(id, None),
+          )
+        }))
+      };
+
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From 7ecca1110e8ef1f0aaf706656134fc4053ddc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 12/32] fix: concat keeps its queue per subscription

---
 src/operators/concat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..4cf14ab 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        observables.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
-- 
2.43.0


From 64932df6c313d387e2c547c47c4433f1457ec6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 13/32] fix: default_if_empty keeps its flag per subscription

---
 src/operators/default_if_empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From a91b0db7d8f295abe1a9f7183f605b295bc2bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 14/32] fix: tap acts for every subscription

---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..61c2f61 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  tap_next: FunctionWrapper<'a, Item, ()>,
+  tap_error: FunctionWrapper<'a, RxError, ()>,
+  tap_complete: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      tap_next: FunctionWrapper::new(next),
+      tap_error: FunctionWrapper::new(error),
+      tap_complete: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let tap_next = self.tap_next.clone();
+    let tap_error = self.tap_error.clone();
+    let tap_complete = self.tap_complete.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let tap_next = tap_next.clone();
+      let tap_error = tap_error.clone();
+      let tap_complete = tap_complete.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          tap_next.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          tap_error.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          tap_complete.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 3b27c61e953c2956241f7eb97b927b9422ebbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 15/32] fix: element_at emits nothing when there are fewer
 items

---
 src/operators/element_at.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..9a94697 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From c0e4057fc9286194f1d08a158c248fa3bc520080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 16/32] fix: take(0) completes at once

---
 src/operators/take.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/take.rs b/src/operators/take.rs
index 099e236..5386ea1 100644
--- a/src/operators/take.rs
+++ b/src/operators/take.rs
@@ -25,6 +25,11 @@ where
     let count = self.count;
 
     Observable::<Item>::create(move |s| {
+      if count == 0 {
+        s.complete();
+        return;
+      }
+
       let n = Arc::new(RwLock::new(0));
 
       let sctl = StreamController::new(s);
-- 
2.43.0


From 4cdc4680b2e0d916a268bc474927861a739e30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 17/32] fix: skip_while skips while the predicate holds

---
 src/operators/skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..1379892 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,7 +38,7 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
+            if !f.call(x.clone()) {
               sctl_next.sink_next(x);
               *enable.write().unwrap() = true;
             }
-- 
2.43.0


From 9f5f6fad8e0ff3845a39a92bff4be17a61f154c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 18/32] fix: scan does not hold its lock while emitting

---
 src/operators/scan.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..f812e13 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
+            let x = if let Some(xx) = &*r {
+              f.call((xx.clone(), x))
             } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+              x
+            };
+            *r = Some(x.clone());
+            x
+          };
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0


From 1d15dad0f6a6ba4658941bc6152625e1dd6f309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 19/32] fix: group_by does not hold its lock while emitting

---
 src/operators/group_by.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..c3597f2 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,31 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, is_new) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if is_new {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_error.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjmap = sbjmap_complete.read().unwrap().clone();
+          sbjmap.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From d259a4b9baed1965f67795b93262b362a90e2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 20/32] fix: window_with_count(1) closes its windows, and no
 lock is held while emitting

---
 src/operators/window_with_count.rs | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..22ecc29 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,35 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
+          let (window, first, last) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let window = sbj.clone();
+            let first = *n == 0;
             *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
+            let last = *n == count;
+            if last {
+              *sbj = subjects::Subject::<Item>::new();
               *n = 0;
             }
+            (window, first, last)
+          };
+          if first {
+            sctl_next.sink_next(window.observable());
+          }
+          window.next(x);
+          if last {
+            window.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let window = sbj_error.read().unwrap().clone();
+          window.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let window = sbj_complete.read().unwrap().clone();
+          window.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 2d96bcf068f8d8d2df0d3929619404ceca0ee14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 21/32] fix: timeout cancels its timer when the subscription
 ends

---
 src/operators/timeout.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..bfd16fb 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,30 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      let cancel = {
+        let timer = Arc::clone(&timer);
+        move || {
+          let timer = timer.write().unwrap().take();
+          if let Some(timer) = timer {
+            timer.unsubscribe();
+          }
+        }
+      };
+      sctl.set_on_finalize(cancel.clone());
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          cancel();
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let sbsc =
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -72,8 +77,15 @@ where
                   },
                   junk_error!(),
                   junk_complete!(),
-                ),
-            );
+                );
+            let old = timer.write().unwrap().replace(sbsc);
+            if let Some(old) = old {
+              old.unsubscribe();
+            }
+            if !sctl_next.is_subscribed() {
+              // ended meanwhile, nobody else will cancel it
+              cancel();
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From 4d906c1af4e27220d79ca698cab1319c9099b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 22/32] fix: to_vec wakes without holding the waker's lock

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..1e53dd4 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let waker = waker_error.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let waker = waker_complete.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
-- 
2.43.0


From 130c415ed20a716acc07ae4a2621c6f8a1b2106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 23/32] fix: switch_on_next waits for its target when the
 source completes synchronously

---
 src/operators/switch_on_next.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/operators/switch_on_next.rs b/src/operators/switch_on_next.rs
index d999a14..0b49e9e 100644
--- a/src/operators/switch_on_next.rs
+++ b/src/operators/switch_on_next.rs
@@ -23,13 +23,14 @@ where
       let sctl = StreamController::new(s);
       let emitted = Arc::new(RwLock::new(false));
 
-      {
+      // both have to be known before either of them completes
+      let source_observer = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
 
-        source.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |serial, x| {
             if *emitted.read().unwrap() {
               sctl_next.upstream_abort_observe(&serial);
@@ -41,15 +42,15 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| sctl_complete.sink_complete(&serial),
-        ));
+        )
       };
 
-      {
+      let target_observer = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-        target.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |_, x| {
             *emitted.write().unwrap() = true;
             sctl_next.sink_next(x);
@@ -58,8 +59,11 @@ where
             sctl_error.sink_error(e);
           },
           move |_| sctl_complete.sink_complete_force(),
-        ));
-      }
+        )
+      };
+
+      source.inner_subscribe(source_observer);
+      target.inner_subscribe(target_observer);
     })
   }
 }
-- 
2.43.0


From b8b161c12fed27c31a86cf0ebcf36aacd9bbb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 24/32] fix: BehaviorSubject does not deliver the handed-over
 value a second time

---
 src/subjects/behavior_subject.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index a92df5f..a2e9734 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -86,28 +86,27 @@ where
     Observable::create(move |s| {
       // what arrives before the last item has been handed over has to wait
       let waiting = Arc::new(RwLock::new(Some(VecDeque::new())));
+      // what it supersedes must not follow it
+      let handed_over = Arc::new(RwLock::new(0));
       let deliver = {
         let waiting = Arc::clone(&waiting);
+        let handed_over = Arc::clone(&handed_over);
         let s = s.clone();
         move |number: usize, event: Event<Item>| {
           if let Some(waiting) = &mut *waiting.write().unwrap() {
             waiting.push_back((number, event));
             return;
           }
-          Self::deliver(&s, event);
+          if number > *handed_over.read().unwrap() {
+            Self::deliver(&s, event);
+          }
         }
       };
-      let handed_over = Arc::new(RwLock::new(0));
       let observer = {
         let deliver_error = deliver.clone();
         let deliver_complete = deliver.clone();
-        let handed_over = Arc::clone(&handed_over);
         Observer::new(
-          move |(number, item)| {
-            if number > *handed_over.read().unwrap() {
-              deliver(number, Event::Next(item));
-            }
-          },
+          move |(number, item)| deliver(number, Event::Next(item)),
           move |err| deliver_error(usize::MAX, Event::Error(err)),
           move || deliver_complete(usize::MAX, Event::Complete),
         )
-- 
2.43.0


From 44b9037c3b63b476e0e707c9b69dd1f2000f5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 25/32] fix: ref_count does not reconnect while its subscribers
 are being told the end

---
 src/operators/ref_count.rs | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 44083ad..0ed5eb3 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -17,7 +17,10 @@ where
   Item: Clone + Send + Sync,
 {
   count: isize,
+  number: usize,
   observer: Option<Observer<'a, Item>>,
+  // somebody arrived while the source's end was being told
+  waiting: bool,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -30,7 +33,9 @@ where
       source,
       connection: Arc::new(RwLock::new(Connection {
         count: 0,
+        number: 0,
         observer: None,
+        waiting: false,
       })),
     };
     _self.set_ref_count();
@@ -77,25 +82,30 @@ where
   fn connect(&self) {
     let observer = {
       let mut connection = self.connection.write().unwrap();
-      let connected = match &connection.observer {
-        Some(o) => o.is_subscribed(),
-        None => false,
-      };
-      if connected || connection.count <= 0 {
+      if let Some(o) = &connection.observer {
+        connection.waiting |= !o.is_subscribed();
+        return;
+      }
+      if connection.count <= 0 {
         return;
       }
+      connection.waiting = false;
+      connection.number += 1;
+      let number = connection.number;
       let sbj_next = self.subject.clone();
-      let sbj_error = self.subject.clone();
-      let sbj_complete = self.subject.clone();
+      let self_error = self.clone();
+      let self_complete = self.clone();
       let observer = Observer::new(
         move |x| {
           sbj_next.next(x);
         },
         move |e| {
-          sbj_error.error(e);
+          self_error.subject.error(e);
+          self_error.ended(number);
         },
         move || {
-          sbj_complete.complete();
+          self_complete.subject.complete();
+          self_complete.ended(number);
         },
       );
       connection.observer = Some(observer.clone());
@@ -104,6 +114,20 @@ where
     // no lock is held: the source may emit (and end) right here
     self.source.inner_subscribe(observer);
   }
+
+  /// the source has ended and everybody who was there has been told
+  fn ended(&self, number: usize) {
+    let (_observer, waiting) = {
+      let mut connection = self.connection.write().unwrap();
+      if connection.number != number {
+        return;
+      }
+      (connection.observer.take(), connection.waiting)
+    };
+    if waiting {
+      self.connect();
+    }
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
-- 
2.43.0


From b59b7eee652a8be3e024624a2a9c5cf75fbf353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 26/32] fix: ref_count counts a subscriber before anything is
 delivered to it

---
 src/subjects/subject.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 1168265..b253b0a 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -66,14 +66,12 @@ where
         *serial += 1;
         *serial
       };
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s.clone());
-        observers.len()
-      };
+      let len = observers.read().unwrap().len() + 1;
+      // before the insertion: nobody is told anything without being counted
       if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
         on_subscribe.call(len);
       }
+      observers.write().unwrap().insert(serial, s.clone());
       {
         // after the insertion: runs at once if `s` has ended meanwhile
         let observers = Arc::clone(&observers);
-- 
2.43.0


From 240f055d9717826164492ffbdba7b5ad8a13e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 27/32] fix: a connection ref_count gave up does not deliver to
 later subscribers

---
 src/operators/ref_count.rs | 41 ++++++++++++++++++++++++++++++++------
 src/subjects/subject.rs    |  4 ++--
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 0ed5eb3..43084d4 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -92,19 +92,31 @@ where
       connection.waiting = false;
       connection.number += 1;
       let number = connection.number;
-      let sbj_next = self.subject.clone();
+      let self_next = self.clone();
       let self_error = self.clone();
       let self_complete = self.clone();
       let observer = Observer::new(
-        move |x| {
-          sbj_next.next(x);
+        move |x: Item| {
+          if let Some(observers) =
+            self_next.fetch_if_current(number, |sbj| sbj.fetch_observers())
+          {
+            observers.into_iter().for_each(|o| o.next(x.clone()));
+          }
         },
-        move |e| {
-          self_error.subject.error(e);
+        move |e: RxError| {
+          if let Some(observers) =
+            self_error.fetch_if_current(number, |sbj| sbj.take_observers())
+          {
+            observers.into_values().for_each(|o| o.error(e.clone()));
+          }
           self_error.ended(number);
         },
         move || {
-          self_complete.subject.complete();
+          if let Some(observers) =
+            self_complete.fetch_if_current(number, |sbj| sbj.take_observers())
+          {
+            observers.into_values().for_each(|o| o.complete());
+          }
           self_complete.ended(number);
         },
       );
@@ -115,6 +127,23 @@ where
     self.source.inner_subscribe(observer);
   }
 
+  // what a given up connection still emits is not for those who came after
+  fn fetch_if_current<F, Observers>(
+    &self,
+    number: usize,
+    fetch: F,
+  ) -> Option<Observers>
+  where
+    F: Fn(&Subject<'a, Item>) -> Observers,
+  {
+    let connection = self.connection.read().unwrap();
+    if connection.number == number && connection.observer.is_some() {
+      Some(fetch(&self.subject))
+    } else {
+      None
+    }
+  }
+
   /// the source has ended and everybody who was there has been told
   fn ended(&self, number: usize) {
     let (_observer, waiting) = {
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index b253b0a..e1ada20 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -28,13 +28,13 @@ where
     }
   }
 
-  fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
+  pub(crate) fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
     let binding = self.observers.read().unwrap();
     let x = binding.iter().map(|x| x.1.clone());
     Vec::from_iter(x)
   }
 
-  fn take_observers(&self) -> HashMap<i32, Observer<'a, Item>> {
+  pub(crate) fn take_observers(&self) -> HashMap<i32, Observer<'a, Item>> {
     std::mem::take(&mut *self.observers.write().unwrap())
   }
 
-- 
2.43.0


From 94d3f4aa755471347c283a3739e3b33d308ffd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 28/32] fix: skip_while has opened before it hands out the
 first item

---
 src/operators/skip_while.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 1379892..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -39,8 +39,8 @@ where
             sctl_next.sink_next(x);
           } else {
             if !f.call(x.clone()) {
-              sctl_next.sink_next(x);
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From e043626ff7016aa11d8615dfb09db4251e5addbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:40 +0000
Subject: [PATCH 29/32] fix: contains lets go of its source before it hands out
 true

---
 src/operators/contains.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/contains.rs b/src/operators/contains.rs
index 43ecdb9..af0d5ee 100644
--- a/src/operators/contains.rs
+++ b/src/operators/contains.rs
@@ -28,6 +28,7 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |serial, x| {
           if x == target {
+            sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_next(true);
             sctl_next.sink_complete(&serial);
           }
-- 
2.43.0


From 544666cdfbfee93b15bc552c3ff1ee2099655221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 30/32] fix: time_interval holds no lock while delivering

---
 src/operators/time_interval.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..8adb129 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,16 +37,19 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          // no lock is held while delivering
+          let start_time =
+            start_time_next.write().unwrap().replace(Instant::now());
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
-          *start_time_next.write().unwrap() = Some(Instant::now());
         },
         move |_, e| {
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let start_time = *start_time_complete.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 153ed070677dfb605e97bdcd02e359ff347fb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:54 +0000
Subject: [PATCH 31/32] fix: discard queued functions without holding the
 scheduler's queue lock

What a discarded function owns is dropped by abort(); when that drop calls
back (a Using guard unsubscribing, a post, another abort) it blocked forever
on the queue lock abort() was still holding.
---
 src/schedulers/async_function_queue.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/schedulers/async_function_queue.rs b/src/schedulers/async_function_queue.rs
index 557d19d..db8375d 100644
--- a/src/schedulers/async_function_queue.rs
+++ b/src/schedulers/async_function_queue.rs
@@ -64,10 +64,13 @@ impl<'a> AsyncFunctionQueue<'a> {
   }
 
   pub fn stop(&self) {
-    let mut que_mtx = self.data.queue.lock().unwrap();
-    que_mtx.clear();
-    *self.data.abort.write().unwrap() = true;
-    self.data.cond.notify_one();
+    let _discarded = {
+      let mut que_mtx = self.data.queue.lock().unwrap();
+      *self.data.abort.write().unwrap() = true;
+      self.data.cond.notify_one();
+      // dropped without the lock: what the functions own may call back
+      std::mem::take(&mut *que_mtx)
+    };
   }
 }
 
-- 
2.43.0


From c009ab6897115db0f4312536ab70a1d493db5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:06 +0000
Subject: [PATCH 32/32] fix: range up to the last i64

---
 src/observables/range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/observables/range.rs b/src/observables/range.rs
index 5a36f87..fc99469 100644
--- a/src/observables/range.rs
+++ b/src/observables/range.rs
@@ -2,11 +2,12 @@ use crate::prelude::*;
 
 pub fn range<'a>(initial: i64, count: i64) -> Observable<'a, i64> {
   Observable::create(move |s| {
-    for n in initial..(initial + count) {
+    // (`initial + count` may lie beyond the last i64)
+    for n in 0..count {
       if !s.is_subscribed() {
         break;
       }
-      s.next(n.clone());
+      s.next(initial + n);
     }
     s.complete();
   })
-- 
2.43.0

