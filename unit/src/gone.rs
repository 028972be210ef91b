//! Sleeps whose timer is destroyed.

use crate::std::Instant;
use crate::sym::*;
use crate::timer::{Timer, TimerHandle};
use crate::tokio::Sleep;
use crate::world::*;
use ::std::future::Future;
use ::std::pin::Pin;
use ::std::task::{Context, Poll};
use ::std::time::Duration;

const N: usize = 6;

fn drive(t: &mut Timer, now: Instant) {
    let wk = waker(NW - 1);
    let mut cx = Context::from_waker(&wk);
    let _ = Pin::new(&mut *t).poll(&mut cx);
    t.advance_to(now);
}

struct One {
    s: Option<Pin<Box<Sleep>>>,
    dl: u64,
    /// the last poll was pending, and how often the task had been woken then
    waits: Option<u32>,
    done: bool,
}

static HANDLE: ::std::sync::Mutex<Option<TimerHandle>> = ::std::sync::Mutex::new(None);
static WHEN: ::std::sync::Mutex<Option<Instant>> = ::std::sync::Mutex::new(None);

/// what a woken task does with its sleep while the timer goes away
static AGAIN: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(usize::MAX);
static POLLS: ::std::sync::Mutex<Option<usize>> = ::std::sync::Mutex::new(None);
static BOX: ::std::sync::Mutex<Option<Pin<Box<Sleep>>>> = ::std::sync::Mutex::new(None);

/// re-arm the sleep in BOX for this instant from the next wakeup
static RESETS: ::std::sync::Mutex<Option<Instant>> = ::std::sync::Mutex::new(None);

fn on_wake(i: usize) {
    let reset = RESETS.lock().unwrap().take();
    if let Some(at) = reset {
        let s = BOX.lock().unwrap().take();
        if let Some(mut s) = s {
            s.as_mut().reset(at);
            check(!s.is_elapsed(), "a sleep of a timer that is going away never completes");
            *BOX.lock().unwrap() = Some(s);
        }
        return;
    }
    if *POLLS.lock().unwrap() == Some(i) {
        // the woken task polls the sleep it is waiting on
        if let Some(mut s) = BOX.lock().unwrap().take() {
            *POLLS.lock().unwrap() = None;
            reach("polled by the task it wakes");
            expect_panic(true);
            if poll_with(s.as_mut(), i).is_ready() {
                check(false, "a sleep of a destroyed timer never completes");
            }
            expect_panic(false);
            // told to wait: then it is woken once more
            AGAIN.store(wakes(i) as usize, ::std::sync::atomic::Ordering::SeqCst);
            *BOX.lock().unwrap() = Some(s);
        }
        return;
    }
    // a task that is run while the timer goes away binds another sleep to it
    let h = HANDLE.lock().unwrap().clone();
    let at = *WHEN.lock().unwrap();
    if let (Some(h), Some(at)) = (h, at) {
        let s = Sleep::new_handle(at, h);
        check(!s.is_elapsed(), "a sleep bound to a timer that is going away never completes");
        drop(s);
        reach("bound while going away");
    }
}

/// params: 0 sleeps, 1 steps, 2 span in units
#[no_mangle]
pub extern "C" fn h_gone() {
    let n = param(0) as usize;
    let span = param(2) as u64;
    set_now(0);
    let zero = Instant::now();
    let at = |u: u64| zero + Duration::from_micros(125 * u);
    // whatever is allocated once and kept
    {
        let mut t = Timer::new();
        let h = t.handle();
        let s = Sleep::new_handle(zero, h);
        drive(&mut t, zero);
        drop(s);
        drive(&mut t, zero);
        *HANDLE.lock().unwrap() = None;
        *RESETS.lock().unwrap() = None;
        *WHEN.lock().unwrap() = None;
        drop(t);
    }
    let base = live();
    let mut t = Timer::new();
    let h = t.handle();
    let mut now = 0u64;
    let mut v: [One; N] = [const { One { s: None, dl: 0, waits: None, done: false } }; N];
    for i in 0..n {
        let dl = range(0, span);
        v[i].dl = dl;
        v[i].s = Some(Box::pin(Sleep::new_handle(at(dl), h.clone())));
        if choice(2) == 1 {
            check(poll_with(v[i].s.as_mut().unwrap().as_mut(), i).is_pending(), "a new sleep is pending");
            v[i].waits = Some(wakes(i));
        }
    }
    for _ in 0..param(1) {
        match choice(4) {
            0 => {
                now += range(0, span);
                drive(&mut t, at(now));
                for (i, o) in v.iter_mut().enumerate() {
                    if let Some(s) = &o.s {
                        check(s.is_elapsed() == (o.dl <= now), "due sleeps and no others complete");
                        o.done = o.dl <= now;
                        if let (true, Some(w)) = (o.done, o.waits) {
                            check(wakes(i) > w, "a task is woken when its sleep completes");
                            o.waits = None;
                        }
                    }
                }
                reach("driven");
            }
            1 => {
                let i = choice(n as u32) as usize;
                let o = &mut v[i];
                if let Some(s) = &mut o.s {
                    match poll_with(s.as_mut(), i) {
                        Poll::Ready(()) => {
                            check(o.done, "not early");
                            o.waits = None;
                        }
                        Poll::Pending => {
                            check(!o.done, "a completed sleep is ready");
                            o.waits = Some(wakes(i));
                        }
                    }
                }
            }
            2 => {
                let i = choice(n as u32) as usize;
                let o = &mut v[i];
                if let Some(s) = &mut o.s {
                    o.dl = range(0, 2 * span);
                    s.as_mut().reset(at(o.dl));
                    o.done = false;
                    check(!s.is_elapsed(), "a re-armed sleep is pending");
                }
            }
            _ => {
                let i = choice(n as u32) as usize;
                v[i].s = None;
                v[i].waits = None;
            }
        }
    }
    match choice(4) {
        0 => {}
        3 => {
            // a task that re-arms any of the sleeps when it is woken
            let j = choice(n as u32) as usize;
            let o = &mut v[j];
            if o.s.is_some() {
                *BOX.lock().unwrap() = o.s.take();
                *RESETS.lock().unwrap() = Some(at(now + range(0, span)));
                set_wake_hook(Some(on_wake));
                drop(t);
                set_wake_hook(None);
                let unused = RESETS.lock().unwrap().take();
                if unused.is_none() {
                    let s = BOX.lock().unwrap().take();
                    reach("re-armed while going away");
                    expect_panic(true);
                    if let Some(mut s) = s {
                        let _ = poll_with(s.as_mut(), j);
                    }
                    check(false, "polling a sleep of a destroyed timer panics");
                }
                return;
            }
        }
        1 => {
            *HANDLE.lock().unwrap() = Some(h.clone());
            *WHEN.lock().unwrap() = Some(at(now));
            set_wake_hook(Some(on_wake));
        }
        _ => {
            // a task that polls its sleep at once when it is woken
            let i = choice(n as u32) as usize;
            let o = &mut v[i];
            if !o.done && o.waits.is_some() && o.s.is_some() {
                *BOX.lock().unwrap() = o.s.take();
                *POLLS.lock().unwrap() = Some(i);
                set_wake_hook(Some(on_wake));
                drop(t);
                set_wake_hook(None);
                let k = AGAIN.load(::std::sync::atomic::Ordering::SeqCst);
                check(k != usize::MAX && wakes(i) as usize > k, "a task waiting on a pending sleep is woken");
                return;
            }
        }
    }
    drop(t);
    set_wake_hook(None);
    reach("destroyed");
    for (i, o) in v.iter().enumerate() {
        if let Some(s) = &o.s {
            check(s.is_elapsed() == o.done, "completed sleeps stay completed, the others never complete");
            if let (false, Some(w)) = (o.done, o.waits) {
                check(wakes(i) > w, "a task waiting on a pending sleep is woken");
                reach("woken by destruction");
            }
        }
    }
    let late = Box::pin(Sleep::new_handle(at(now), h.clone()));
    check(!late.is_elapsed(), "a sleep bound to a destroyed timer never completes");
    match choice(3) {
        0 => {
            // everything can still be dropped
            drop(late);
            drop(h);
            drop(HANDLE.lock().unwrap().take());
            for o in v.iter_mut() {
                o.s = None;
            }
            for i in 0..n {
                check(waker_refs(i) == 0, "wakers are released");
            }
            check(waker_refs(NW - 1) == 0, "the driver's waker is released");
            drop(v);
            check(live() == base, "nothing is leaked");
            reach("all dropped");
        }
        1 => {
            let i = choice(n as u32) as usize;
            let o = &mut v[i];
            if let Some(s) = &mut o.s {
                if o.done {
                    check(poll_with(s.as_mut(), i).is_ready(), "completed sleeps stay completed");
                    reach("still ready");
                } else {
                    if choice(2) == 1 {
                        // re-arming does not revive it
                        s.as_mut().reset(at(now + range(0, span)));
                        check(!s.is_elapsed(), "a sleep of a destroyed timer never completes");
                    }
                    reach("polled after destruction");
                    expect_panic(true);
                    let _ = poll_with(s.as_mut(), i);
                    check(false, "polling a sleep of a destroyed timer panics");
                }
            }
        }
        _ => {
            let mut late = late;
            if choice(2) == 1 {
                late.as_mut().reset(at(now + range(0, span)));
                check(!late.is_elapsed(), "a sleep bound to a destroyed timer never completes");
            }
            reach("late sleep polled");
            expect_panic(true);
            let _ = poll_with(late.as_mut(), 0);
            check(false, "polling a sleep of a destroyed timer panics");
        }
    }
    reach("end");
}
