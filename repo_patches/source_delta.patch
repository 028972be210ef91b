From 5484bd24d36a1906efdc98d1bfa7c151dda96848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 1/9] fix: ask for the longest possible host timeout when a
 deadline is further away

setTimeout takes a 32-bit number of milliseconds. A longer delay was replaced by zero,
so a sleep of more than 24.8 days made the driver run callbacks back to back.
---
 src/timer/global.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..3fcc363 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -72,7 +72,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     } else {
         let _ = set_timeout(
             Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
+            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
         )
         .unwrap();
     }
@@ -80,7 +80,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     #[cfg(not(feature = "tokio-test-util"))]
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
+        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
-- 
2.43.0


From 3e7332ee1b32d835a855877ae9119a2a547bdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 2/9] fix: re-arm the host timeout however many callbacks are
 outstanding

---
 src/timer/global.rs | 132 ++++++++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 54 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 3fcc363..a1f434f 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -8,7 +8,7 @@ use std::task::Context;
 use std::time::Duration;
 use wasm_bindgen::{closure::Closure, JsCast};
 
-use crate::js::set_timeout;
+use crate::js::{performance_now, set_timeout};
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
@@ -20,77 +20,101 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Driver {
+        timer: Mutex::new(timer),
+        outstanding: Mutex::new(Vec::new()),
+    };
+    schedule_callback(Arc::new(driver), Duration::new(0, 0));
     handle
 }
 
+/// The global timer and the callbacks which were requested from the host to drive it.
+struct Driver {
+    timer: Mutex<Timer>,
+    /// Host time in milliseconds at which each callback that did not run yet is due.
+    outstanding: Mutex<Vec<f64>>,
+}
+
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
-    let cb = move || {
-        let mut timer_lock = timer.lock();
-
-        // We start by polling the timer. If any new `Delay` is created, the waker will be used
-        // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
-        // `schedule_callback` with a delay of `0`.
-        let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
-        }));
-        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
-
-        // Notify the timers that are ready.
-        let now = Instant::now();
-        timer_lock.advance_to(now);
-
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
+fn schedule_callback(driver: Arc<Driver>, when: Duration) {
+    // While the clock is paused nothing becomes due by the passing of time, so that the timer is
+    // processed right now and there is nothing to wait for.
+    #[cfg(feature = "tokio-test-util")]
+    if super::clock::clock().paused() {
+        run_timer(&driver);
+        return;
+    }
+
+    let millis = i32::try_from(when.as_millis()).unwrap_or(i32::MAX);
+    let due = performance_now() + f64::from(millis);
+
+    // A callback which is due earlier asks for the next one itself when it has run, so we don't
+    // need another one.
+    {
+        let mut outstanding = driver.outstanding.lock();
+        if outstanding.iter().any(|other| *other <= due) {
             return;
         }
+        outstanding.push(due);
+    }
+
+    let cb = move || {
+        {
+            let mut outstanding = driver.outstanding.lock();
+            if let Some(i) = outstanding.iter().position(|other| *other == due) {
+                outstanding.swap_remove(i);
+            }
+        }
 
         // We call `schedule_callback` again for the next event.
-        let sleep_dur = timer_lock
-            .next_event()
-            .map(|next_event| {
-                if next_event > now {
-                    next_event - now
-                } else {
-                    Duration::new(0, 0)
-                }
-            })
-            .unwrap_or(Duration::from_secs(5));
-        drop(timer_lock);
-
-        schedule_callback(timer, sleep_dur);
+        let sleep_dur = run_timer(&driver);
+
+        #[cfg(feature = "tokio-test-util")]
+        if super::clock::clock().paused() {
+            return;
+        }
+
+        schedule_callback(driver, sleep_dur);
     };
 
-    #[cfg(feature = "tokio-test-util")]
-    if super::clock::clock().paused() {
-        cb();
-    } else {
-        let _ = set_timeout(
-            Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
-        )
-        .unwrap();
-    }
+    let _ = set_timeout(Closure::once_into_js(cb).unchecked_ref(), millis).unwrap();
+}
+
+/// Processes everything and returns the time until the next event.
+fn run_timer(driver: &Arc<Driver>) -> Duration {
+    let mut timer_lock = driver.timer.lock();
+
+    // We start by polling the timer. If any new `Delay` is created, the waker will be used
+    // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
+    // `schedule_callback` with a delay of `0`.
+    let waker = task::waker(Arc::new(Waker {
+        driver: driver.clone(),
+    }));
+    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+
+    // Notify the timers that are ready.
+    let now = Instant::now();
+    timer_lock.advance_to(now);
 
-    #[cfg(not(feature = "tokio-test-util"))]
-    let _ = set_timeout(
-        Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
-    )
-    .unwrap();
+    timer_lock
+        .next_event()
+        .map(|next_event| {
+            if next_event > now {
+                next_event - now
+            } else {
+                Duration::new(0, 0)
+            }
+        })
+        .unwrap_or(Duration::from_secs(5))
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 8362f1de970839c995f4957458f4043516173519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 3/9] fix: accept durations too long to represent in sleep,
 timeout and interval

---
 src/std.rs            |  6 ++++++
 src/tokio/interval.rs | 40 ++++++++++++++++++++--------------------
 src/tokio/sleep.rs    |  2 +-
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index c63b8c4..4028f46 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -89,6 +89,12 @@ impl Instant {
     pub fn checked_sub(&self, duration: Duration) -> Option<Instant> {
         self.0.checked_sub(duration).map(Instant)
     }
+
+    /// Like [`Instant::checked_add`], returning the latest representable instant instead of `None`.
+    #[cfg(feature = "tokio")]
+    pub(crate) fn saturating_add(&self, duration: Duration) -> Instant {
+        Instant(self.0.saturating_add(duration))
+    }
 }
 
 impl Add<Duration> for Instant {
diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..ac0a853 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -63,11 +63,11 @@ impl Interval {
         let timeout = self.sleep.deadline();
         let now = Instant::now();
 
-        let next = if now > timeout + Duration::from_millis(5) {
+        let next = if now > timeout.saturating_add(Duration::from_millis(5)) {
             self.missed_tick_behavior
                 .next_timeout(timeout, now, self.interval)
         } else {
-            timeout + self.interval
+            timeout.saturating_add(self.interval)
         };
 
         Pin::new(&mut self.sleep).reset(next);
@@ -75,7 +75,7 @@ impl Interval {
     }
 
     pub fn reset(&mut self) {
-        Pin::new(&mut self.sleep).reset(Instant::now() + self.interval);
+        Pin::new(&mut self.sleep).reset(Instant::now().saturating_add(self.interval));
     }
 
     /// Returns the [`MissedTickBehavior`] strategy currently being used.
@@ -106,24 +106,24 @@ impl MissedTickBehavior {
     /// If a tick is missed, this method is called to determine when the next tick should happen.
     fn next_timeout(&self, timeout: Instant, now: Instant, period: Duration) -> Instant {
         match self {
-            Self::Burst => timeout + period,
-            Self::Delay => now + period,
+            Self::Burst => timeout.saturating_add(period),
+            Self::Delay => now.saturating_add(period),
             Self::Skip => {
-                now + period
-                    - Duration::from_nanos(
-                        ((now - timeout).as_nanos() % period.as_nanos())
-                            .try_into()
-                            // This operation is practically guaranteed not to
-                            // fail, as in order for it to fail, `period` would
-                            // have to be longer than `now - timeout`, and both
-                            // would have to be longer than 584 years.
-                            //
-                            // If it did fail, there's not a good way to pass
-                            // the error along to the user, so we just panic.
-                            .expect(
-                                "too much time has elapsed since the interval was supposed to tick",
-                            ),
-                    )
+                let since_last_tick = Duration::from_nanos(
+                    ((now - timeout).as_nanos() % period.as_nanos())
+                        .try_into()
+                        // This operation is practically guaranteed not to
+                        // fail, as in order for it to fail, `period` would
+                        // have to be longer than `now - timeout`, and both
+                        // would have to be longer than 584 years.
+                        //
+                        // If it did fail, there's not a good way to pass
+                        // the error along to the user, so we just panic.
+                        .expect(
+                            "too much time has elapsed since the interval was supposed to tick",
+                        ),
+                );
+                (now - since_last_tick).saturating_add(period)
             }
         }
     }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..d90b5a2 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -23,7 +23,7 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        Sleep::new_at(Instant::now() + dur)
+        Sleep::new_at(Instant::now().saturating_add(dur))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From e395c55d59a4f98681efafa30acbf40dfd9742b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 4/9] fix: keep delay queue items beyond the first rotation of
 the wheel

An item whose deadline lies in the next rotation of the top level was put into
a level that does not exist (a panic) or made the queue look for it in the
past. Its slot is now the one of the top level, and a slot before the current
position belongs to the next rotation.
---
 src/tokio_util/wheel/level.rs | 17 ++++++++++++++---
 src/tokio_util/wheel/mod.rs   |  7 ++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..c2e1581 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,15 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        if deadline < now {
+            // The top level is a ring: a slot before the current one belongs to
+            // its next rotation.
+            debug_assert_eq!(self.level, super::NUM_LEVELS - 1);
+
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
@@ -164,8 +172,11 @@ impl<T: Stack> Level<T> {
             return None;
         }
 
-        // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
+        // Get the first slot that does not start before now using Maths. The
+        // entries of the slot `now` is in the middle of, if there are any, are
+        // due in the next rotation and come last.
+        let slot_range = slot_range(self.level);
+        let now_slot = ((now + slot_range - 1) / slot_range % LEVEL_MULT as u64) as usize;
         let occupied = self.occupied.rotate_right(now_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
         let slot = (zeros + now_slot) % 64;
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..6cc101e 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -193,7 +193,12 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     // Mask in the trailing bits ignored by the level calculation in order to cap
     // the possible leading zeros
-    let masked = elapsed ^ when | SLOT_MASK;
+    let mut masked = elapsed ^ when | SLOT_MASK;
+
+    if masked >= MAX_DURATION {
+        // There is no level above the top one, whose slots act as a ring
+        masked = MAX_DURATION - 1;
+    }
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-- 
2.43.0


From ae5738cabb22ed9f4b0e2e40520405cec8c3e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 5/9] fix: wake the task waiting on a delay queue that is
 emptied or has an item reset into the past

remove, clear and reset_at could leave nothing that would ever wake the task
that polled the queue: the queue ended, or had an expired item, unnoticed.
---
 src/tokio_util/delay_queue.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..4c29cdc 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -371,6 +371,12 @@ impl<T> DelayQueue<T> {
             }
         }
 
+        if self.slab.is_empty() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
         Expired {
             key: Key::new(key.index),
             data: data.inner,
@@ -397,11 +403,20 @@ impl<T> DelayQueue<T> {
         self.slab[*key].expired = false;
 
         self.insert_idx(when, *key);
+        let inserted_expired = self.slab[*key].expired;
 
         let next_deadline = self.next_deadline();
-        if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
+        match (next_deadline, &mut self.delay) {
+            (None, _) => self.delay = None,
             // This should awaken us if necessary (ie, if already expired)
-            delay.as_mut().reset(deadline);
+            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
+            (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
+        }
+
+        if inserted_expired {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
         }
     }
 
@@ -425,10 +440,18 @@ impl<T> DelayQueue<T> {
     }
 
     pub fn clear(&mut self) {
+        let had_entries = !self.slab.is_empty();
+
         self.slab.clear();
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+
+        if had_entries {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From 077377a0f748fdc7c0c890dad22fa6a0fb55e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 6/9] fix: do not yield delay queue items a millisecond early
 with tokio-test-util

The queue's position was advanced one millisecond past its delay, which is not
needed for progress: polling the wheel leaves only deadlines after that
position.
---
 src/tokio_util/delay_queue.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 4c29cdc..7473f3f 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -492,18 +492,7 @@ impl<T> DelayQueue<T> {
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
 
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 8ad85035e069028d6268e5217aee53368ca32da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 7/9] fix: let tasks use timers while a paused clock notifies
 them

With a paused clock the timer is processed in place, also from inside a wakeup
that processing it had caused, where its lock is already held.
---
 src/timer/global.rs | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index a1f434f..106e821 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -3,6 +3,7 @@ use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
 use std::pin::Pin;
+use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
@@ -23,6 +24,7 @@ pub(crate) fn run() -> TimerHandle {
     let driver = Driver {
         timer: Mutex::new(timer),
         outstanding: Mutex::new(Vec::new()),
+        again: AtomicBool::new(false),
     };
     schedule_callback(Arc::new(driver), Duration::new(0, 0));
     handle
@@ -33,6 +35,8 @@ struct Driver {
     timer: Mutex<Timer>,
     /// Host time in milliseconds at which each callback that did not run yet is due.
     outstanding: Mutex<Vec<f64>>,
+    /// Whether the timer was to be processed while it was being processed.
+    again: AtomicBool,
 }
 
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
@@ -83,19 +87,33 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
 
 /// Processes everything and returns the time until the next event.
 fn run_timer(driver: &Arc<Driver>) -> Duration {
-    let mut timer_lock = driver.timer.lock();
-
-    // We start by polling the timer. If any new `Delay` is created, the waker will be used
-    // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
-    // `schedule_callback` with a delay of `0`.
-    let waker = task::waker(Arc::new(Waker {
-        driver: driver.clone(),
-    }));
-    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
-
-    // Notify the timers that are ready.
-    let now = Instant::now();
-    timer_lock.advance_to(now);
+    let mut timer_lock = match driver.timer.try_lock() {
+        Some(timer_lock) => timer_lock,
+        None => {
+            // With a paused clock a task that is being notified below may use timers, which
+            // brings us here. They are taken up as soon as it returns.
+            driver.again.store(true, SeqCst);
+            return Duration::new(0, 0);
+        }
+    };
+
+    let now = loop {
+        // We start by polling the timer. If any new `Delay` is created, the waker will be used
+        // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
+        // `schedule_callback` with a delay of `0`.
+        let waker = task::waker(Arc::new(Waker {
+            driver: driver.clone(),
+        }));
+        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+
+        // Notify the timers that are ready.
+        let now = Instant::now();
+        timer_lock.advance_to(now);
+
+        if !driver.again.swap(false, SeqCst) {
+            break now;
+        }
+    };
 
     timer_lock
         .next_event()
-- 
2.43.0


From fa0219af30b4026aa61d190ac099e1b68c8d2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 8/9] fix: reach the timer when the clock is paused before its
 first callback

A change to a timer wakes its driver once; until the host called back nobody
was woken by pause and advance, and sleeps did not fire.
---
 src/timer/global.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 106e821..237a7f9 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -21,17 +21,23 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    let driver = Driver {
+    let driver = Arc::new(Driver {
+        #[cfg(feature = "tokio-test-util")]
+        inner: handle.inner.clone(),
         timer: Mutex::new(timer),
         outstanding: Mutex::new(Vec::new()),
         again: AtomicBool::new(false),
-    };
-    schedule_callback(Arc::new(driver), Duration::new(0, 0));
+    });
+    #[cfg(feature = "tokio-test-util")]
+    register(&driver);
+    schedule_callback(driver, Duration::new(0, 0));
     handle
 }
 
 /// The global timer and the callbacks which were requested from the host to drive it.
 struct Driver {
+    #[cfg(feature = "tokio-test-util")]
+    inner: std::sync::Weak<crate::timer::Inner>,
     timer: Mutex<Timer>,
     /// Host time in milliseconds at which each callback that did not run yet is due.
     outstanding: Mutex<Vec<f64>>,
@@ -101,9 +107,7 @@ fn run_timer(driver: &Arc<Driver>) -> Duration {
         // We start by polling the timer. If any new `Delay` is created, the waker will be used
         // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
         // `schedule_callback` with a delay of `0`.
-        let waker = task::waker(Arc::new(Waker {
-            driver: driver.clone(),
-        }));
+        let waker = waker(driver);
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
         // Notify the timers that are ready.
@@ -127,12 +131,29 @@ fn run_timer(driver: &Arc<Driver>) -> Duration {
         .unwrap_or(Duration::from_secs(5))
 }
 
+fn waker(driver: &Arc<Driver>) -> task::Waker {
+    task::waker(Arc::new(Waker {
+        driver: driver.clone(),
+    }))
+}
+
+/// Lets the next change to the timer reach the driver. The timer does so too when it is polled,
+/// but the clock may be paused, or advanced, before the host calls back.
+#[cfg(feature = "tokio-test-util")]
+fn register(driver: &Arc<Driver>) {
+    if let Some(inner) = driver.inner.upgrade() {
+        inner.waker.register(&waker(driver));
+    }
+}
+
 struct Waker {
     driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
+        #[cfg(feature = "tokio-test-util")]
+        register(&arc_self.driver);
         schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 7c1af578b61a299eb0145ac268b7b9025cff4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 9/9] fix: clearing a delay queue does not move its wheel back
 to the start

DelayQueue::clear replaced the wheel by a new one at position zero. On a queue
older than 2^36 ms every insertion before the next poll then panicked with
"invalid deadline".
---
 src/tokio_util/delay_queue.rs | 2 +-
 src/tokio_util/wheel/mod.rs   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 7473f3f..d70ba74 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -444,7 +444,7 @@ impl<T> DelayQueue<T> {
 
         self.slab.clear();
         self.expired = Stack::default();
-        self.wheel = Wheel::new();
+        self.wheel.clear();
         self.delay = None;
 
         if had_entries {
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 6cc101e..43912e8 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -38,6 +38,11 @@ where
         self.elapsed
     }
 
+    /// Drops all entries and stays where it is in time.
+    pub(crate) fn clear(&mut self) {
+        self.levels = (0..NUM_LEVELS).map(Level::new).collect();
+    }
+
     pub(crate) fn insert(
         &mut self,
         when: u64,
-- 
2.43.0

