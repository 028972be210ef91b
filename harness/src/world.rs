//! The simulated surroundings of the crate under test: host clock and timeouts, counting wakers.

use crate::sym::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;
use wasm_bindgen::__host::host;
use wasmtimer::std::Instant;

/// one unit of host time is 125 microseconds; 8 units are a millisecond
pub const MS: u64 = 8;

pub fn set_now(u: u64) {
    host().now = u;
}
pub fn now_u() -> u64 {
    host().now
}
pub fn dur_u(u: u64) -> Duration {
    Duration::from_micros(u * 125)
}

/// the instant at which the host clock shows zero (call with an untouched host)
pub fn origin() -> Instant {
    let save = host().now;
    host().now = 0;
    let i = Instant::now();
    host().now = save;
    i
}

// ---- wakers: a counter per waker index ------------------------------------------------------

pub const NW: usize = 400;
struct Sync0<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Sync0<T> {}
static WAKES: Sync0<[u32; NW]> = Sync0(std::cell::UnsafeCell::new([0; NW]));
static REFS: Sync0<[i32; NW]> = Sync0(std::cell::UnsafeCell::new([0; NW]));
type Hook = fn(usize);
static HOOK: Sync0<Option<Hook>> = Sync0(std::cell::UnsafeCell::new(None));

pub fn wakes(i: usize) -> u32 {
    unsafe { (*WAKES.0.get())[i] }
}
pub fn waker_refs(i: usize) -> i32 {
    unsafe { (*REFS.0.get())[i] }
}
/// run this function from inside every wake call
pub fn set_wake_hook(h: Option<Hook>) {
    unsafe { *HOOK.0.get() = h }
}

unsafe fn w_clone(p: *const ()) -> RawWaker {
    (*REFS.0.get())[p as usize] += 1;
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(p: *const ()) {
    w_wake_ref(p);
    w_drop(p);
}
unsafe fn w_wake_ref(p: *const ()) {
    (*WAKES.0.get())[p as usize] += 1;
    if let Some(h) = *HOOK.0.get() {
        h(p as usize);
    }
}
unsafe fn w_drop(p: *const ()) {
    (*REFS.0.get())[p as usize] -= 1;
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

pub fn waker(i: usize) -> Waker {
    unsafe {
        (*REFS.0.get())[i] += 1;
        Waker::from_raw(RawWaker::new(i as *const (), &VT))
    }
}

pub fn poll_with<F: Future + ?Sized>(f: Pin<&mut F>, i: usize) -> Poll<F::Output> {
    let w = waker(i);
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}

// ---- host event loop ------------------------------------------------------------------------

/// One turn of the event loop: run the timeouts that are due and were requested before this turn.
/// Returns how many callbacks ran.
pub fn turn() -> u32 {
    let limit = host().next_id;
    let mut ran = 0;
    let mut i = 0;
    loop {
        let h = host();
        if i >= h.pending.len() || h.pending[i].id >= limit {
            return ran;
        }
        if h.pending[i].due <= h.now {
            let p = h.pending.remove(i);
            p.cb.host_invoke();
            ran += 1;
        } else {
            i += 1;
        }
    }
}

/// run turns until nothing is due any more, at most `max` of them
pub fn settle(max: u32) -> bool {
    for _ in 0..max {
        if turn() == 0 {
            return true;
        }
    }
    false
}

/// a pending timeout that fires no later than `u`
pub fn armed_by(u: u64) -> bool {
    let mut ok = false;
    for p in &host().pending {
        ok |= p.due <= u;
    }
    ok
}

pub fn pending_callbacks() -> usize {
    host().pending.len()
}

/// Let time pass up to `target` with a host that delivers every callback as soon as it is due,
/// at most `max` callbacks.  `look` runs after each of them.
pub fn run_until<F: FnMut()>(target: u64, max: u32, mut look: F) -> u32 {
    let mut n = 0;
    loop {
        let h = host();
        let mut k = usize::MAX;
        let mut best = 0;
        for (i, p) in h.pending.iter().enumerate() {
            if k == usize::MAX || p.due < best {
                k = i;
                best = p.due;
            }
        }
        if k == usize::MAX || best > target || n == max {
            break;
        }
        if h.now < best {
            h.now = best;
        }
        if h.pending[k].at == h.now {
            // a request takes some time to be granted
            h.now += 1;
            if h.now > target {
                break;
            }
        }
        let p = h.pending.remove(k);
        p.cb.host_invoke();
        look();
        n += 1;
    }
    if n < max && host().now < target {
        host().now = target;
    }
    n
}
