//! Intervals, timeouts and extreme durations.

use crate::sym::*;
use crate::world::*;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval, interval_at, sleep, sleep_until, timeout, timeout_at, Interval, MissedTickBehavior};

fn poll_interval(iv: &mut Interval, w: usize, as_future: bool) -> Poll<Instant> {
    if as_future {
        let f = iv.tick();
        let mut f = std::pin::pin!(f);
        poll_with(f.as_mut(), w)
    } else {
        let wk = waker(w);
        let mut cx = Context::from_waker(&wk);
        iv.poll_tick(&mut cx)
    }
}

/// params: 0 steps, 1 policy (0 burst, 1 delay, 2 skip, 3 default, 4 changed at
/// any time), 2 period (0 symbolic below
/// 4 s at nanosecond resolution, else milliseconds, negative: nanoseconds), 3 span of each
/// movement of the clock in units, 4 allow resets, 5 least symbolic period in ns, 6 that much more time may pass
/// at once, in units, 7 so many ticks before, each 8 units late, 9 a start at any nanosecond (1), 10 polled by
/// either of two tasks (1)
#[no_mangle]
pub extern "C" fn h_interval() {
    let steps = param(0);
    let policy = param(1);
    let span = param(3) as u64;
    let far = param(6) as u64;
    set_now(0);
    let zero = origin();
    let at = |u: u64| zero + dur_u(u);
    let t0 = range(0, 15);
    set_now(t0);
    let period = match param(2) {
        0 => {
            let s = range(0, 3);
            let n = range(0, 999_999_999);
            let least = if param(5) > 0 { param(5) as u64 } else { 1 };
            assume(s > 0 || n >= least);
            Duration::new(s, n as u32)
        }
        p if p > 0 => Duration::from_millis(p as u64),
        p => Duration::from_nanos((-p) as u64),
    };
    let (mut iv, mut exp) = match if param(7) > 0 { 0 } else { choice(2) } {
        0 => (interval(period), at(t0)),
        _ => {
            // the start may also lie in the past
            let s = at(near_or_far(span, far)) + if param(9) != 0 { Duration::from_nanos(range(0, 124_999)) } else { Duration::ZERO };
            (interval_at(s, period), s)
        }
    };
    check(iv.period() == period, "the period is the requested one");
    let mut pol = match policy {
        1 => MissedTickBehavior::Delay,
        2 => MissedTickBehavior::Skip,
        _ => MissedTickBehavior::Burst,
    };
    if policy < 3 {
        iv.set_missed_tick_behavior(pol);
    }
    check(iv.missed_tick_behavior() == pol, "the policy is the chosen one");
    // a long life before: param(7) ticks, each param(8) units late
    let mut u = t0;
    for _ in 0..param(7) {
        set_now(u + param(8) as u64);
        settle(3);
        let now = at(now_u());
        match poll_interval(&mut iv, 0, false) {
            Poll::Ready(t) => {
                check(t == exp, "each of many ticks reports the expected instant");
                exp = next_tick(pol, t, now, period);
                u = now_u() + (exp - now).as_nanos() as u64 / 125_000;
                assume(at(u) == exp);
            }
            Poll::Pending => check(false, "each of many ticks completes when it is due"),
        }
    }
    if param(7) > 0 {
        settle(3);
        reach("many ticks");
    }
    let mut waiting: Option<u32> = None;
    let mut task = 0;
    for _ in 0..steps {
        let dt = near_or_far(span, far);
        set_now(now_u() + dt);
        settle(3);
        let now = at(now_u());
        if let Some(seen) = waiting {
            if now >= exp {
                if now >= exp + Duration::from_millis(1) {
                    check(wakes(task) > seen, "the task waiting for the tick is woken");
                }
            } else {
                check(wakes(task) == seen, "no wakeup before the tick is due");
            }
        }
        if param(4) != 0 && choice(2) == 1 {
            iv.reset();
            exp = now + period;
            // a task that was waiting goes on to wait for the new tick
            settle(3);
            if waiting == Some(wakes(task)) && choice(2) == 1 {
                // it has not been woken for the old tick and now waits for the new one
                reach("reset while a task waits");
                continue;
            }
        }
        if policy == 4 {
            let p = choice(4);
            if p < 3 {
                pol = match p {
                    0 => MissedTickBehavior::Burst,
                    1 => MissedTickBehavior::Delay,
                    _ => MissedTickBehavior::Skip,
                };
                iv.set_missed_tick_behavior(pol);
                check(iv.missed_tick_behavior() == pol, "the policy is the chosen one");
            }
        }
        if param(10) != 0 {
            // the task that polled last is the one to be woken
            task = choice(2) as usize;
        }
        match poll_interval(&mut iv, task, choice(2) == 1) {
            Poll::Ready(t) => {
                reach("tick");
                waiting = None;
                check(t == exp, "a tick reports the expected instant");
                check(now >= t, "no tick before the instant it reports");
                exp = next_tick(pol, t, now, period);
                settle(3);
            }
            Poll::Pending => {
                reach("pending tick");
                check(now < exp + Duration::from_millis(1), "a due tick completes");
                waiting = Some(wakes(task));
            }
        }
    }
    drop(iv);
    settle(3);
    check(waker_refs(0) == 0 && waker_refs(1) == 0, "the waker is released");
    reach("end");
}

/// When the tick after the one of `t`, which came at `now`, is expected.
fn next_tick(pol: MissedTickBehavior, t: Instant, now: Instant, period: Duration) -> Instant {
    let late = now.duration_since(t);
    if late > Duration::from_millis(5) {
        reach("late tick");
        match pol {
            MissedTickBehavior::Burst => t + period,
            MissedTickBehavior::Delay => now + period,
            MissedTickBehavior::Skip => {
                let p = period.as_nanos() as u64;
                let n = late.as_nanos() as u64 / p + 1;
                let e = t + Duration::from_nanos(n * p);
                check(e > now && e <= now + period, "the oracle is the earliest later multiple");
                e
            }
        }
    } else {
        t + period
    }
}

struct Inner {
    ready: Rc<Cell<bool>>,
    value: u64,
    polls: Rc<Cell<u32>>,
    wk: Rc<Cell<Option<Waker>>>,
    tag: u32,
}
impl Future for Inner {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        self.polls.set(self.polls.get() + 1);
        if self.ready.get() {
            Poll::Ready(self.value)
        } else {
            self.wk.set(Some(cx.waker().clone()));
            Poll::Pending
        }
    }
}

/// params: 0 steps, 1 span in units, 2 times may be that much more, 3 so many polls before, 4 a
/// deadline at any nanosecond (1), 5 polled by either of two tasks (1)
#[no_mangle]
pub extern "C" fn h_timeout() {
    let steps = param(0);
    let span = param(1) as u64;
    let far = param(2) as u64;
    let some_ns = |d: u64| {
        let ns = if param(4) != 0 { range(0, 124_999) } else { 0 };
        assume(ns == 0 || d > 0);
        Duration::from_nanos(ns)
    };
    set_now(0);
    let zero = origin();
    let at = |u: u64| zero + dur_u(u);
    let t0 = range(0, 15);
    set_now(t0);
    let ready = Rc::new(Cell::new(choice(2) == 1));
    let polls = Rc::new(Cell::new(0));
    let wk = Rc::new(Cell::new(None));
    let value = range(0, u64::MAX);
    let inner = Inner { ready: ready.clone(), value, polls: polls.clone(), wk: wk.clone(), tag: 77 };
    let (t, dl) = if choice(2) == 0 {
        let d = near_or_far(span, far);
        (timeout(dur_u(d) - some_ns(d), inner), t0 + d)
    } else {
        let d = near_or_far(span, far);
        (timeout_at(at(d) - some_ns(d), inner), d)
    };
    // (the deadline in units, rounded up)
    let mut t = Box::pin(t);
    let mut n = 0;
    let mut task = 0;
    let mut seen: Option<u32> = None;
    // a long wait before: param(3) polls
    for _ in 0..param(3) {
        assume(!ready.get() && t0 < dl);
        n += 1;
        check(poll_with(t.as_mut(), 0).is_pending(), "each of many polls before the deadline is pending");
        check(polls.get() == n, "the wrapped future is polled on each of many polls");
        seen = Some(wakes(0));
    }
    for _ in 0..steps {
        let dt = near_or_far(span, far);
        set_now(now_u() + dt);
        let settled = choice(2) == 1;
        if settled {
            settle(3);
        }
        let now = now_u();
        let mut inner_woke = false;
        if !ready.get() && choice(2) == 1 {
            ready.set(true);
            if let Some(w) = wk.take() {
                w.wake();
                inner_woke = true;
            }
        }
        if let Some(s) = seen {
            if inner_woke || (settled && now >= dl + MS) {
                check(wakes(task) > s, "the task is woken by the deadline or the value");
            }
            if !inner_woke && now < dl {
                check(wakes(task) == s, "no wakeup before either");
            }
        }
        if param(5) != 0 {
            // the task that polled last is the one to be woken
            task = choice(2) as usize;
        }
        let r = poll_with(t.as_mut(), task);
        n += 1;
        check(polls.get() == n, "the wrapped future is polled on every poll");
        match r {
            Poll::Ready(Ok(v)) => {
                reach("value");
                check(ready.get(), "a value only when the future is ready");
                check(v == value, "the value is the future's");
                break;
            }
            Poll::Ready(Err(e)) => {
                reach("elapsed");
                check(
                    std::io::Error::from(e).kind() == std::io::ErrorKind::TimedOut,
                    "the error is a timed out one among I/O errors",
                );
                check(!ready.get(), "no error when the future is ready");
                check(now >= dl, "no error before the deadline");
                seen = None;
            }
            Poll::Pending => {
                reach("pending");
                check(!ready.get(), "a ready future completes");
                check(!settled || now < dl + MS, "the error is given once the deadline has passed");
                seen = Some(wakes(task));
            }
        }
    }
    check(t.get_ref().tag == 77 && t.get_ref().value == value, "the wrapped future is accessible");
    let inner = Pin::into_inner(t).into_inner();
    check(inner.tag == 77 && inner.value == value, "the wrapped future is returned intact");
    drop(inner);
    wk.set(None);
    settle(3);
    check(waker_refs(0) == 0 && waker_refs(1) == 0, "the waker is released");
    reach("end");
}

struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

/// Any duration at all.
/// params: 0 what (0 sleep, 1 timeout, 2 interval, 3 interval after a late tick, 4 re-armed
/// sleep), 1 span of the clock, 2 which may also move on by that much more
#[no_mangle]
pub extern "C" fn h_durations() {
    let what = param(0);
    let span = param(1) as u64;
    set_now(0);
    let zero = origin();
    let t0 = range(0, span);
    set_now(t0);
    let secs = range(0, u64::MAX);
    let nanos = range(0, 999_999_999);
    let d = Duration::new(secs, nanos as u32);
    let now = zero + dur_u(t0);
    // the deadline, if there is one
    let mut dl = now.checked_add(d);
    // anything longer than this is not reached here
    let soon = |dl: Option<Instant>, now: Instant| match dl {
        Some(x) => x <= now,
        None => false,
    };
    let later = |u: u64| {
        set_now(now_u() + u);
        settle(3);
        zero + dur_u(now_u())
    };
    let ms = Duration::from_millis(1);
    match what {
        0 | 4 => {
            let mut s = Box::pin(sleep(d));
            if what == 4 {
                // re-arm to any instant
                settle(3);
                let secs = range(0, u64::MAX);
                let nanos = range(0, 999_999_999);
                let x = now.checked_add(Duration::new(secs, nanos as u32));
                assume(x.is_some());
                s.as_mut().reset(x.unwrap());
                dl = x;
            }
            check(!s.is_elapsed() || soon(dl, now), "not early");
            let _ = poll_with(s.as_mut(), 0);
            match dl {
                Some(x) => check(s.deadline() == x, "the deadline is exact"),
                None => {
                    reach("too long to represent");
                    check(s.deadline() > now + Duration::from_secs(1 << 40), "the deadline is far away");
                }
            }
            let n = later(near_or_far(span, param(2) as u64));
            let r = poll_with(s.as_mut(), 0).is_ready();
            check(!r || soon(dl, n), "not early");
            check(r || !soon(dl, n) || dl.unwrap() + ms > n, "not late");
            if r {
                reach("completed");
            }
        }
        1 => {
            let mut s = Box::pin(timeout(d, Never));
            let r = poll_with(s.as_mut(), 0).is_ready();
            check(!r, "not early");
            let n = later(near_or_far(span, param(2) as u64));
            let r = poll_with(s.as_mut(), 0).is_ready();
            check(!r || soon(dl, n), "not early");
            check(r || !soon(dl, n) || dl.unwrap() + ms > n, "not late");
            if r {
                reach("completed");
            }
            if dl.is_none() {
                reach("too long to represent");
            }
        }
        2 => {
            assume(secs > 0 || nanos > 0);
            let mut iv = interval(d);
            settle(3);
            check(poll_interval(&mut iv, 0, false) == Poll::Ready(now), "the first tick is immediate");
            settle(3);
            if choice(2) == 1 {
                iv.reset();
                settle(3);
            }
            let n = later(near_or_far(span, param(2) as u64));
            let r = poll_interval(&mut iv, 0, false);
            match r {
                Poll::Ready(t) => {
                    check(Some(t) == dl && t <= n, "the second tick is one period later");
                    reach("completed");
                }
                Poll::Pending => check(!soon(dl, n) || dl.unwrap() + ms > n, "not late"),
            }
            if dl.is_none() {
                reach("too long to represent");
            }
        }
        _ => {
            // a first tick observed late
            assume(secs > 0 || nanos > 500_000_000);
            // the remainder by the period is only asked for periods longer than the delay
            let mut iv = interval(d);
            let pol = choice(3);
            iv.set_missed_tick_behavior(match pol {
                0 => MissedTickBehavior::Burst,
                1 => MissedTickBehavior::Delay,
                _ => MissedTickBehavior::Skip,
            });
            let n = later(range(48, 800));
            check(poll_interval(&mut iv, 0, false) == Poll::Ready(now), "the first tick reports the start");
            settle(3);
            let exp = match pol {
                1 => n.checked_add(d),
                _ => dl,
            };
            let n = later(near_or_far(span, param(2) as u64));
            match poll_interval(&mut iv, 0, false) {
                Poll::Ready(t) => {
                    check(Some(t) == exp && t <= n, "the second tick is at its instant");
                    reach("completed");
                }
                Poll::Pending => check(!soon(exp, n) || exp.unwrap() + ms > n, "not late"),
            }
            if exp.is_none() {
                reach("too long to represent");
            }
        }
    }
    // any instant can be waited for
    let s = sleep_until(now);
    drop(s);
    reach("end");
}

/// What intervals and timeouts hold is released, whatever happens to them.
/// params: 0 steps, 1 span in units, 2 kinds (1 interval, 2 timeout)
#[no_mangle]
pub extern "C" fn h_leak() {
    let span = param(1) as u64;
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    crate::sleeps::warm_up(1);
    let rest = crate::sleeps::blocks_at_rest();
    {
        let mut iv = None;
        if param(2) & 1 != 0 {
            let p = dur_u(range(1, span));
            iv = Some(match choice(2) {
                0 => interval(p),
                _ => interval_at(Instant::now() + dur_u(range(0, span)), p),
            });
        }
        let ready = Rc::new(Cell::new(false));
        let wk = Rc::new(Cell::new(None));
        let mut t = None;
        if param(2) & 2 != 0 {
            let d = dur_u(range(0, span));
            let f = Inner { ready: ready.clone(), value: 5, polls: Rc::new(Cell::new(0)), wk: wk.clone(), tag: 77 };
            t = Some(Box::pin(timeout(d, f)));
        }
        for _ in 0..param(0) {
            let what = choice(7);
            match what {
                0 | 1 => {
                    if let Some(iv) = iv.as_mut() {
                        let _ = poll_interval(iv, what as usize, what == 1);
                    }
                }
                2 => {
                    if let Some(iv) = iv.as_mut() {
                        iv.reset();
                    }
                }
                3 => {
                    iv = None;
                }
                4 | 5 => {
                    if let Some(f) = t.as_mut() {
                        if poll_with(f.as_mut(), what as usize - 4).is_ready() {
                            reach("timeout over");
                        }
                    }
                }
                _ => {
                    if let Some(f) = t.take() {
                        if choice(2) == 1 {
                            let inner = Pin::into_inner(f).into_inner();
                            check(inner.tag == 77, "the wrapped future is returned intact");
                        }
                    }
                }
            }
            let dt = range(0, span);
            set_now(now_u() + dt);
            if choice(2) == 1 {
                settle(3);
            }
        }
        wk.set(None);
    }
    settle(3);
    check(waker_refs(0) == 0 && waker_refs(1) == 0, "every waker is released");
    let end = crate::sleeps::blocks_at_rest();
    observe(end as u64);
    check(end == rest, "no memory is leaked");
    reach("compared memory at rest");
    reach("end");
}
