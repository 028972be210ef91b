//! Many sleeps at once.

use crate::sleeps::{ARMED, DROPPED, DUE, EARLY, LEAK, ORDER};
use crate::sym::*;
use crate::world::*;
use std::pin::Pin;
use wasmtimer::tokio::{sleep_until, Sleep};

const FIRST: usize = 8; // wakers from here on

struct C {
    s: Option<Pin<Box<Sleep>>>,
    dl: u64,
    /// the host has run since it was dropped
    quiet: Option<u32>,
}

static mut ORDER_OF: [u16; 512] = [0; 512];
static mut WOKEN: usize = 0;
fn log_wake(i: usize) {
    unsafe {
        if WOKEN < 512 {
            ORDER_OF[WOKEN] = i as u16;
            WOKEN += 1;
        }
    }
}

fn look(v: &mut [C], mask: i64, from: usize) {
    let now = now_u();
    for (i, c) in v.iter_mut().enumerate() {
        match c.s.as_ref() {
            None => {
                if mask & DROPPED != 0 {
                    check(waker_refs(FIRST + i) == 0, "a dropped sleep releases its waker");
                    match c.quiet {
                        None => c.quiet = Some(wakes(FIRST + i)),
                        Some(n) => check(wakes(FIRST + i) == n, "a dropped sleep wakes nobody"),
                    }
                }
            }
            Some(s) => {
                if s.is_elapsed() {
                    reach("a sleep fired");
                    if mask & EARLY != 0 {
                        check(now >= c.dl, "a sleep is not elapsed before its deadline");
                    }
                    if mask & DUE != 0 {
                        check(wakes(FIRST + i) > 0, "the waiting task is woken");
                    }
                } else {
                    if mask & DUE != 0 {
                        check(now < c.dl + MS, "a sleep is elapsed once its deadline has passed");
                    }
                    if mask & EARLY != 0 {
                        check(wakes(FIRST + i) == 0, "a task is not woken before its deadline");
                    }
                    if mask & ARMED != 0 {
                        check(armed_by(c.dl + MS), "a host callback is outstanding for the deadline");
                        reach("a sleep is pending while idle");
                    }
                }
            }
        }
    }
    if mask & ORDER != 0 {
        let mut last = 0;
        for k in from..unsafe { WOKEN } {
            let w = unsafe { ORDER_OF[k] } as usize;
            if w >= FIRST {
                let dl = v[w - FIRST].dl;
                check(k == from || last <= dl, "sleeps fire in deadline order");
                last = dl;
            }
        }
    }
}

/// n sleeps, one after another: one fires, one is dropped, one is re-armed and fires
fn forerunners(zero: wasmtimer::std::Instant, n: u64) {
    for i in 0..n {
        let dl = now_u() + MS + i % 5;
        let mut s = Box::pin(sleep_until(zero + dur_u(dl)));
        check(poll_with(s.as_mut(), 1).is_pending(), "a polled sleep is not ready before its deadline");
        if i % 2 == 0 {
            settle(2);
        }
        match i % 3 {
            0 => {
                set_now(dl + MS);
                settle(3);
                check(s.is_elapsed(), "each of many sleeps is elapsed once its deadline has passed");
            }
            1 => {}
            _ => {
                s.as_mut().reset(zero + dur_u(dl + MS));
                settle(2);
                set_now(dl + 2 * MS);
                settle(3);
                check(s.is_elapsed(), "each of many sleeps is elapsed once its deadline has passed");
            }
        }
        drop(s);
        if i % 4 != 1 {
            settle(2);
        }
        if i % 8 == 7 {
            set_now(now_u() + 400);
            settle(3);
        }
    }
    reach("forerunners");
}

/// params: 0 checks, 1 number of sleeps, 2 width of the window in units, 3 what happens to them (1 some
/// are re-armed, 2 some are dropped, 4 more are created later), 4 the window begins here, in units,
/// 5 number of sleeps that lived and ended before, one after another
#[no_mangle]
pub extern "C" fn h_crowd() {
    let mask = param(0);
    let n = param(1) as usize;
    let width = param(2) as u64;
    let what = param(3);
    set_now(0);
    let zero = origin();
    let rest = if mask & LEAK != 0 {
        crate::sleeps::warm_up(1);
        crate::sleeps::blocks_at_rest()
    } else {
        0
    };
    let t0 = now_u() + range(0, 7);
    set_now(t0);
    if mask & ORDER != 0 {
        set_wake_hook(Some(log_wake));
    }
    let t0 = if param(5) > 0 {
        forerunners(zero, param(5) as u64);
        now_u()
    } else {
        t0
    };
    let mut v: Vec<C> = Vec::with_capacity(2 * n + 1);
    let mut create = |v: &mut Vec<C>, dl: u64| {
        let mut s = Box::pin(sleep_until(zero + dur_u(dl)));
        let i = v.len();
        check(mask & EARLY == 0 || s.deadline() == zero + dur_u(dl), "a new sleep reports the requested deadline");
        let r = poll_with(s.as_mut(), FIRST + i);
        check(mask & EARLY == 0 || r.is_pending() || now_u() >= dl, "a polled sleep is not ready before its deadline");
        v.push(C { s: Some(s), dl, quiet: None });
    };
    let at = |i: u64| t0 + 40 + (i * 37 % 101) * 5 + (i % 11) * 128;
    let x = t0 + param(4) as u64 + range(0, width);
    let first = choice(2) == 1;
    if first {
        create(&mut v, x);
    }
    for i in 0..n {
        create(&mut v, at(i as u64));
    }
    if choice(2) == 1 {
        settle(3);
    }
    let m = v.len();
    for i in 0..m {
        if what & 1 != 0 && i % 3 == 1 {
            v[i].dl = at(i as u64 * 7 + 3);
            let dl = v[i].dl;
            v[i].s.as_mut().unwrap().as_mut().reset(zero + dur_u(dl));
        } else if what & 2 != 0 && i % 3 == 2 {
            v[i].s = None;
        }
    }
    if what & 4 != 0 {
        settle(3);
        for i in 0..n / 4 {
            create(&mut v, at(i as u64 * 11 + 5));
        }
        for i in 0..v.len() {
            if i % 5 == 4 {
                v[i].s = None;
            }
        }
    }
    if !first {
        create(&mut v, x);
    }
    settle(3);
    look(&mut v, mask, 0);
    let p = t0 + param(4) as u64 + range(0, width);
    for t in [p, t0 + 1000, t0 + 1400, t0 + 4000 + width + param(4) as u64] {
        if t > now_u() {
            set_now(t);
        }
        let from = unsafe { WOKEN };
        settle(3);
        look(&mut v, mask, from);
    }
    for c in v.iter_mut() {
        if let Some(s) = c.s.as_mut() {
            check(mask & DUE == 0 || poll_with(s.as_mut(), 7).is_ready(), "a sleep past its deadline is ready when polled");
        }
    }
    v.clear();
    settle(3);
    if mask & LEAK != 0 {
        for i in 0..NW {
            check(waker_refs(i) == 0, "every waker is released");
        }
        drop(v);
        check(crate::sleeps::blocks_at_rest() == rest, "no memory is leaked");
        reach("compared memory at rest");
    }
    reach("end");
}
