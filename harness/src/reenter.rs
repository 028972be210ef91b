//! Tasks that run synchronously inside the wakeups they get.

use crate::sym::*;
use crate::world::*;
use std::pin::Pin;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep_until, Sleep};

const MAXN: usize = 8;

struct E {
    s: Option<Pin<Box<Sleep>>>,
    /// being operated on by an outer task
    busy: bool,
    dl: u64,
    waiting: bool,
    woken: bool,
}
struct G {
    v: Vec<E>,
    zero: Option<Instant>,
    budget: i64,
    ops: i64,
    span: u64,
    depth: u32,
    /// virtual time in units
    vt: u64,
}
static mut G: G = G { v: Vec::new(), zero: None, budget: 0, ops: 0, span: 0, depth: 0, vt: 0 };

#[allow(static_mut_refs)]
fn g() -> &'static mut G {
    unsafe { &mut *std::ptr::addr_of_mut!(G) }
}

fn at(u: u64) -> Instant {
    g().zero.unwrap() + dur_u(u)
}
fn vnow() -> u64 {
    if paused() {
        g().vt
    } else {
        now_u()
    }
}
fn paused() -> bool {
    param(0) != 0
}

fn free(i: usize) -> bool {
    let e = &g().v[i];
    e.s.is_some() && !e.busy
}
fn create(dl: u64) -> usize {
    let i = g().v.len();
    g().v.push(E { s: None, busy: true, dl, waiting: false, woken: false });
    let s = Box::pin(sleep_until(at(dl)));
    let e = &mut g().v[i];
    e.s = Some(s);
    e.busy = false;
    i
}
fn poll(i: usize) {
    if !free(i) {
        return;
    }
    g().v[i].busy = true;
    let mut s = g().v[i].s.take().unwrap();
    let r = poll_with(s.as_mut(), i).is_ready();
    let e = &mut g().v[i];
    if r {
        check(vnow() >= e.dl, "a sleep is not ready before its deadline");
        e.waiting = false;
    } else {
        e.waiting = true;
        e.woken = false;
    }
    e.s = Some(s);
    e.busy = false;
}
fn reset(i: usize, dl: u64) {
    if !free(i) {
        return;
    }
    g().v[i].busy = true;
    let mut s = g().v[i].s.take().unwrap();
    g().v[i].dl = dl;
    g().v[i].woken = false;
    s.as_mut().reset(at(dl));
    let e = &mut g().v[i];
    e.s = Some(s);
    e.busy = false;
}
fn discard(i: usize) {
    if !free(i) {
        return;
    }
    let s = g().v[i].s.take();
    g().v[i].waiting = false;
    drop(s);
}

fn act(me: usize) {
    let mut list = [(0i64, 0usize); 40];
    let mut k = 1;
    if g().ops & 1 != 0 && g().v.len() < MAXN {
        list[k] = (1, 0);
        k += 1;
    }
    for i in 0..g().v.len() {
        if free(i) {
            for o in [2, 4, 8] {
                if g().ops & o != 0 && (o != 2 || i == me) {
                    list[k] = (o, i);
                    k += 1;
                }
            }
        }
    }
    let (o, i) = list[choice(k as u32) as usize];
    match o {
        1 => {
            let d = range(0, g().span);
            let i = create(vnow() + d);
            poll(i);
            reach("created inside a wakeup");
        }
        2 => poll(i),
        4 => {
            let d = range(0, g().span);
            reset(i, vnow() + d);
            poll(i);
            reach("re-armed inside a wakeup");
        }
        8 => {
            discard(i);
            reach("dropped inside a wakeup");
        }
        _ => {}
    }
}

fn hook(w: usize) {
    if w >= MAXN {
        return;
    }
    g().v[w].woken = true;
    if g().budget > 0 {
        g().budget -= 1;
        g().depth += 1;
        act(w);
        g().depth -= 1;
    }
}

fn look() {
    let now = vnow();
    // a paused clock is exact, the host's timeouts are late by up to a millisecond
    let slack = if paused() { 0 } else { MS };
    for i in 0..g().v.len() {
        let e = &g().v[i];
        if let Some(s) = e.s.as_ref() {
            if s.is_elapsed() {
                check(now >= e.dl, "a sleep is not elapsed before its deadline");
                if e.waiting {
                    check(e.woken, "the waiting task is woken");
                    reach("fired");
                }
            } else {
                check(now < e.dl + slack, "a sleep is elapsed once its deadline has passed");
            }
        }
    }
}

/// time passes and whatever is due fires
fn pass(u: u64) {
    if paused() {
        #[cfg(feature = "tt")]
        {
            g().vt += u;
            let f = wasmtimer::tokio::advance(dur_u(u));
            let mut f = std::pin::pin!(f);
            let _ = poll_with(f.as_mut(), 15);
        }
    } else {
        set_now(now_u() + u);
        settle(8);
    }
    look();
}

/// params: 0 paused clock (tt builds only), 1 sleeps, 2 actions inside wakeups, 3 allowed actions
/// (1 create and poll, 2 poll itself, 4 re-arm and poll any, 8 drop any), 4 span in units
#[no_mangle]
pub extern "C" fn h_reenter() {
    let n = param(1) as usize;
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    *g() = G {
        v: Vec::with_capacity(MAXN),
        zero: Some(origin()),
        budget: param(2),
        ops: param(3),
        span: param(4) as u64,
        depth: 0,
        vt: t0,
    };
    set_now(t0);
    #[cfg(feature = "tt")]
    if paused() {
        wasmtimer::tokio::pause();
    }
    settle(2);
    set_wake_hook(Some(hook));
    let span = g().span;
    for _ in 0..n {
        let d = range(0, span);
        let i = create(vnow() + d);
        poll(i);
    }
    settle(4);
    look();
    let u = range(0, span);
    pass(u);
    pass(span);
    // whatever was created meanwhile
    for _ in 0..param(2) + 1 {
        pass(span + MS);
    }
    for i in 0..g().v.len() {
        let e = &g().v[i];
        if let Some(s) = e.s.as_ref() {
            check(s.is_elapsed(), "everything completes in the end");
        }
        observe(wakes(i) as u64);
    }
    set_wake_hook(None);
    for i in 0..g().v.len() {
        discard(i);
    }
    reach("end");
}
