//! Sleeps driven through the public interface by the simulated host.
//!
//! params: 0 checks (bit mask, below), 1 sleeps created at the start, 2 further operations,
//! 3 allowed operations (bit mask), 4 warm-up sleeps, 5 span of the initial delays in units,
//! 6 initial sleeps are waited on from the start (1) or arbitrarily (0), 7 number of readings of
//! the clock, from an arbitrary step on, before which it moves on by up to 2 ms, 8 delays may be
//! and time may pass by that many more units, 9 how often the host may call back before its time,
//! 10 deadlines at any nanosecond (1)

use crate::sym::*;
use crate::world::*;
use std::pin::Pin;
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep, sleep_until, Sleep};

pub const EARLY: i64 = 1; // never complete early
pub const DUE: i64 = 2; // complete and wake when due
pub const DROPPED: i64 = 4; // dropped sleeps are silent and released
pub const ARMED: i64 = 8; // a host callback is outstanding in time
pub const SPIN: i64 = 16; // no needless host callbacks
pub const ORDER: i64 = 32; // wakeups in deadline order
pub const LEAK: i64 = 64; // nothing is leaked
pub const ONCE: i64 = 128; // a firing wakes once

pub const OP_NONE: i64 = 1;
pub const OP_CREATE: i64 = 2;
pub const OP_POLL: i64 = 4;
pub const OP_REPOLL: i64 = 8; // poll from a second task
pub const OP_RESET: i64 = 16;
pub const OP_DROP: i64 = 32;

const MAXN: usize = 8;

pub struct S {
    s: Option<Pin<Box<Sleep>>>,
    /// the deadline in units, rounded up
    pub dl: u64,
    /// how much earlier than that it is
    ns: u64,
    waiting: Option<usize>,
    seen: u32,
    /// wakers of dropped sleeps must stay at this count
    frozen: [Option<u32>; 2],
    silent: bool,
    done: bool,
}

impl S {
    pub fn elapsed(&self) -> bool {
        match self.s.as_ref() {
            Some(s) => s.is_elapsed(),
            None => false,
        }
    }
    /// no task was left waiting
    pub fn fired_at_creation(&self) -> bool {
        self.waiting.is_none()
    }
}

pub struct W {
    pub v: Vec<S>,
    pub zero: Instant,
    pub mask: i64,
    /// how much later than requested a callback may come because the clock moved on meanwhile
    pub slack: u64,
    /// how often the host may still call back before its time
    pub eager: i64,
    /// deadlines are at any nanosecond
    pub fine: bool,
}

impl W {
    pub fn new(mask: i64) -> W {
        W { v: Vec::with_capacity(MAXN), zero: origin(), mask, slack: 0, eager: 0, fine: false }
    }
    pub fn on(&self, m: i64) -> bool {
        self.mask & m != 0
    }
    pub fn at(&self, u: u64) -> Instant {
        self.zero + dur_u(u)
    }
    fn some_ns(&self, least: u64, dl: u64) -> u64 {
        if self.fine {
            let ns = range(0, 124_999);
            assume(ns == 0 || dl > least);
            ns
        } else {
            0
        }
    }
    pub fn create(&mut self, dl: u64, until: bool) {
        let now = now_u();
        let ns = self.some_ns(if until { 0 } else { now }, dl);
        let at = self.at(dl) - Duration::from_nanos(ns);
        let s = if until { sleep_until(at) } else { sleep(dur_u(dl - now) - Duration::from_nanos(ns)) };
        if self.on(EARLY) {
            check(s.deadline() == at, "a new sleep reports the requested deadline");
        }
        self.v.push(S {
            s: Some(Box::pin(s)),
            dl,
            ns,
            waiting: None,
            seen: 0,
            frozen: [None, None],
            silent: false,
            done: false,
        });
    }
    pub fn poll(&mut self, i: usize, second: bool) {
        let now = now_u();
        let w = if second { i + 8 } else { i };
        let zero = self.zero;
        let mask = self.mask;
        let e = &mut self.v[i];
        if let Some(s) = e.s.as_mut() {
            let ready = poll_with(s.as_mut(), w).is_ready();
            let el = s.is_elapsed();
            if mask & EARLY != 0 {
                check(ready == el, "poll is ready exactly when the sleep is elapsed");
                check(!ready || now >= e.dl, "a polled sleep is not ready before its deadline");
                check(s.deadline() == zero + dur_u(e.dl) - Duration::from_nanos(e.ns), "the reported deadline is the requested one");
            }
            if !ready {
                e.waiting = Some(w);
                e.seen = wakes(w);
            }
        }
    }
    pub fn reset(&mut self, i: usize, dl: u64) {
        let ns = self.some_ns(0, dl);
        let t = self.at(dl) - Duration::from_nanos(ns);
        let e = &mut self.v[i];
        if let Some(s) = e.s.as_mut() {
            s.as_mut().reset(t);
            e.dl = dl;
            e.ns = ns;
            e.done = false;
            if self.mask & EARLY != 0 {
                check(s.deadline() == t, "a re-armed sleep reports the new deadline");
                check(!s.is_elapsed() || now_u() >= dl, "a re-armed sleep is not complete before its new deadline");
            }
        }
    }
    pub fn drop_one(&mut self, i: usize) {
        let e = &mut self.v[i];
        if e.s.take().is_some() {
            e.waiting = None;
        }
    }
    /// let the host run what is due; `before` is the time of the previous host run
    pub fn host_runs(&mut self) {
        let h = wasm_bindgen::__host::host();
        if self.eager > 0 && h.pending.len() > 0 && choice(2) == 1 {
            self.eager -= 1;
            let k = choice(h.pending.len() as u32) as usize;
            let p = h.pending.remove(k);
            if p.due > h.now {
                reach("called back before its time");
            }
            p.cb.host_invoke();
        }
        let now = now_u();
        let start = unsafe { LOG.len };
        for e in self.v.iter_mut() {
            if e.s.is_none() && e.silent {
                e.frozen = [None, None];
            }
        }
        if self.on(SPIN) {
            self.spin_turns();
        } else {
            settle(3);
        }
        if self.on(ORDER) {
            // wakeups of this host run, by deadline
            let l = unsafe { &LOG };
            let mut last: Option<u64> = None;
            let mut k = start;
            while k < l.len {
                let w = l.w[k] % 8;
                if w < self.v.len() {
                    let d = self.v[w].dl * 125_000 - self.v[w].ns;
                    if let Some(p) = last {
                        check(p <= d, "sleeps fire in deadline order");
                        reach("two wakeups in one host run");
                    }
                    last = Some(d);
                }
                k += 1;
            }
        }
        let mut pending = false;
        // the clock may have moved on meanwhile
        let then = now;
        let slack = self.slack;
        let now = now_u();
        for i in 0..self.v.len() {
            let mask = self.mask;
            let e = &mut self.v[i];
            match e.s.as_ref() {
                None => {
                    if mask & DROPPED != 0 {
                        if !e.silent {
                            // the driver has run since the drop
                            check(waker_refs(i) == 0 && waker_refs(i + 8) == 0, "a dropped sleep releases its waker");
                            e.frozen = [Some(wakes(i)), Some(wakes(i + 8))];
                            e.silent = true;
                            reach("dropped sleep settled");
                        }
                    }
                }
                Some(s) => {
                    let el = s.is_elapsed();
                    if mask & EARLY != 0 {
                        check(!el || now >= e.dl, "a sleep is not elapsed before its deadline");
                    }
                    if !el {
                        pending = true;
                        if mask & DUE != 0 {
                            check(then < e.dl + MS + slack, "a sleep is elapsed once its deadline has passed");
                        }
                        if mask & ARMED != 0 {
                            check(armed_by(e.dl + MS + slack), "a host callback is outstanding for the deadline");
                            reach("a sleep is pending while idle");
                        }
                    } else {
                        reach("a sleep fired");
                        if let Some(w) = e.waiting {
                            if mask & DUE != 0 {
                                check(wakes(w) > e.seen, "the waiting task is woken");
                            }
                            if mask & ONCE != 0 {
                                check(wakes(w) == e.seen + 1, "the waiting task is woken once");
                            }
                            e.waiting = None;
                        }
                        e.done = true;
                    }
                }
            }
        }
        let _ = pending;
    }
    /// wakers of dropped sleeps must not have been used since
    pub fn check_silence(&self) {
        if !self.on(DROPPED) {
            return;
        }
        for (i, e) in self.v.iter().enumerate() {
            if e.silent {
                if let Some(k) = e.frozen[0] {
                    check(wakes(i) == k, "a dropped sleep wakes nobody");
                }
                if let Some(k) = e.frozen[1] {
                    check(wakes(i + 8) == k, "a dropped sleep wakes nobody");
                }
            }
        }
    }
    fn spin_turns(&mut self) {
        // as settle, looking at what each callback asks for
        for _ in 0..3 {
            let limit = wasm_bindgen::__host::host().next_id;
            let mut ran = 0;
            let mut i = 0;
            loop {
                let h = wasm_bindgen::__host::host();
                if i >= h.pending.len() || h.pending[i].id >= limit {
                    break;
                }
                if h.pending[i].due <= h.now {
                    let p = h.pending.remove(i);
                    let first = h.next_id;
                    p.cb.host_invoke();
                    ran += 1;
                    self.check_requests(first);
                } else {
                    i += 1;
                }
            }
            if ran == 0 {
                break;
            }
        }
        check(pending_callbacks() <= 24, "the number of outstanding host callbacks stays bounded");
    }
    fn check_requests(&self, first: u64) {
        let now = now_u();
        let mut next: Option<u64> = None;
        for e in &self.v {
            if let Some(s) = e.s.as_ref() {
                if !s.is_elapsed() {
                    next = Some(match next {
                        Some(n) if n <= e.dl => n,
                        _ => e.dl,
                    });
                }
            }
        }
        for p in &wasm_bindgen::__host::host().pending {
            if p.id >= first {
                match next {
                    Some(n) => {
                        reach("re-armed for a deadline");
                        check(
                            n < now + MS || p.due + MS > n || p.delay == i32::MAX as i64,
                            "a callback does not ask to be called long before the next deadline",
                        )
                    }
                    None => {
                        reach("re-armed while idle");
                        check(p.due >= now + 1000 * MS, "an idle driver polls rarely")
                    }
                }
            }
        }
    }
}

/// order of wakeups
pub struct Log {
    pub w: [usize; 64],
    pub len: usize,
}
pub static mut LOG: Log = Log { w: [0; 64], len: 0 };
fn log_wake(i: usize) {
    unsafe {
        if LOG.len < 64 {
            LOG.w[LOG.len] = i;
            LOG.len += 1;
        }
    }
}

/// create, register and drop sleeps so that lazily created structures exist
pub fn warm_up(k: i64) {
    for _ in 0..k {
        let mut s = Box::pin(sleep(dur_u(8)));
        let _ = poll_with(s.as_mut(), 15);
        settle(3);
        drop(s);
        set_now(now_u() + 80_000);
        settle(3);
    }
}

/// abandon all outstanding callbacks but the earliest
pub fn prune_callbacks() {
    let h = wasm_bindgen::__host::host();
    while h.pending.len() > 1 {
        let k = if h.pending[0].due <= h.pending[1].due { 1 } else { 0 };
        h.pending.remove(k);
    }
}

pub fn blocks_at_rest() -> u32 {
    set_now(now_u() + 20_000_000);
    settle(3);
    set_now(now_u() + 80_000);
    settle(3);
    prune_callbacks();
    live()
}

#[no_mangle]
pub extern "C" fn h_sleeps() {
    let mask = param(0);
    let n = param(1) as usize;
    let steps = param(2);
    let ops = param(3);
    let warm = param(4);
    let span = match param(5) {
        0 => 800,
        s => s as u64,
    };
    let poll_first = param(6) != 0;
    let drift = param(7);
    let more = param(8) as u64;
    set_now(0);
    let mut w = W::new(mask);
    w.fine = param(10) != 0;
    let mut rest = 0;
    if warm > 0 {
        warm_up(warm);
        if mask & LEAK != 0 {
            rest = blocks_at_rest();
        }
    }
    if mask & ORDER != 0 {
        set_wake_hook(Some(log_wake));
    }
    // sub-millisecond phase of the host clock against whole milliseconds
    let t0 = now_u() + range(0, 15);
    set_now(t0);
    for i in 0..n {
        let d = near_or_far(span, more);
        w.create(t0 + d, i % 2 == 1 || drift > 0);
        if poll_first || choice(2) == 1 {
            w.poll(i, false);
        }
    }
    w.eager = param(9);
    if drift > 0 && choice(2) == 1 {
        w.slack = 16 * drift as u64;
        let mut v = Vec::with_capacity(8);
        for _ in 0..drift {
            v.push(range(0, 16));
        }
        wasm_bindgen::__host::host().drift = v;
    }
    for _ in 0..steps {
        step(&mut w, ops, span, more);
    }
    // everything left comes due
    let far = near_or_far(2 * span + 16, more);
    set_now(now_u() + far);
    w.host_runs();
    w.check_silence();
    set_now(now_u() + 2 * span + 16 + (steps as u64 + 2) * more);
    w.host_runs();
    w.check_silence();
    for i in 0..w.v.len() {
        if mask & DUE != 0 {
            if let Some(s) = w.v[i].s.as_mut() {
                check(poll_with(s.as_mut(), 14).is_ready(), "a sleep past its deadline is ready when polled");
            }
        }
        observe(wakes(i) as u64);
    }
    for i in 0..w.v.len() {
        w.drop_one(i);
    }
    w.host_runs();
    if mask & LEAK != 0 {
        for i in 0..NW {
            check(waker_refs(i) == 0, "every waker is released");
        }
        let end = blocks_at_rest();
        observe(end as u64);
        check(end == rest, "no memory is leaked");
        reach("compared memory at rest");
    }
    reach("end");
}

fn step(w: &mut W, ops: i64, span: u64, more: u64) {
    // choose among the enabled operations
    let mut list = [(0i64, 0usize); 32];
    let mut k = 0;
    if ops & OP_NONE != 0 {
        list[k] = (OP_NONE, 0);
        k += 1;
    }
    if ops & OP_CREATE != 0 && w.v.len() < MAXN {
        list[k] = (OP_CREATE, 0);
        k += 1;
    }
    for i in 0..w.v.len() {
        if w.v[i].s.is_none() {
            continue;
        }
        for o in [OP_POLL, OP_REPOLL, OP_RESET, OP_DROP] {
            if ops & o != 0 {
                list[k] = (o, i);
                k += 1;
            }
        }
    }
    if k > 0 {
        let (o, i) = list[choice(k as u32) as usize];
        match o {
            OP_CREATE => {
                let d = near_or_far(span, more);
                w.create(now_u() + d, true);
                let i = w.v.len() - 1;
                w.poll(i, false);
            }
            OP_POLL => w.poll(i, false),
            OP_REPOLL => w.poll(i, true),
            OP_RESET => {
                let d = near_or_far(span, more);
                // also deadlines that have already passed
                let base = now_u();
                w.reset(i, base + d - if base > 16 { 16 } else { 0 });
            }
            OP_DROP => w.drop_one(i),
            _ => {}
        }
    }
    if choice(2) == 1 {
        let dt = near_or_far(span, more);
        set_now(now_u() + dt);
        w.host_runs();
        w.check_silence();
    }
}
