//! The driver behind many sleeps and long delays.

use crate::sleeps::*;
use crate::sym::*;
use crate::world::*;
use wasm_bindgen::__host::host;

/// A long history of sleeps before (or while) one is pending.
/// params: 0 number of sleeps in the history, 1 how the history ends (0 all fire,
/// 1 dropped unfired, 2 half of each), 2 span in units, 3 the timing of the history is arbitrary
/// (1), 4 the host runs after each creation (1)
#[no_mangle]
pub extern "C" fn h_history() {
    let k = param(0) as u64;
    let kind = param(1);
    let span = param(2) as u64;
    let free = param(3) != 0;
    set_now(0);
    let mut w = W::new(EARLY);
    let t0 = range(0, 7);
    set_now(t0);
    // the sleep under observation is created before or after the history
    let before = choice(2) == 1;
    let d = range(0, span);
    if before {
        w.create(now_u() + d, true);
        w.poll(0, false);
    }
    let mut hist: Vec<std::pin::Pin<Box<wasmtimer::tokio::Sleep>>> = Vec::new();
    let base = now_u();
    for i in 0..k {
        // deadlines a whole number of milliseconds apart
        let at = base + (i + 1) * MS;
        let mut s = Box::pin(wasmtimer::tokio::sleep_until(w.at(at)));
        let _ = poll_with(s.as_mut(), 15);
        hist.push(s);
        if param(4) != 0 {
            settle(1);
        }
    }
    if choice(2) == 1 {
        settle(2);
    }
    if kind >= 1 {
        let keep = if kind == 2 { k / 2 } else { 0 };
        while hist.len() > keep as usize {
            hist.pop();
        }
    }
    match choice(3) {
        0 => {}
        1 => {
            // the history fires while the host is busy: everything at once
            let late = if free { range(0, (k + 1) * MS) } else { (k + 1) * MS };
            set_now(now_u() + late);
            settle(3);
        }
        _ => {
            // the history fires bit by bit
            let t = now_u();
            run_until(t + (k + 1) * MS, 4000, || ());
        }
    }
    if !before {
        w.create(now_u() + d, false);
        w.poll(0, false);
    }
    let dl = w.v[0].dl;
    let polled_ready = w.v[0].fired_at_creation();
    settle(2);
    // an ideal host from here on
    let n = run_until(dl + MS, 2000, || {
        let now = now_u();
        if w.v[0].elapsed() {
            check(now >= dl, "not elapsed before its deadline");
        } else {
            check(armed_by(dl + MS), "a host callback is outstanding for the deadline");
            check(now < dl + MS, "elapsed at its deadline with a prompt host");
            reach("pending while idle");
        }
    });
    check(w.v[0].elapsed(), "elapsed at its deadline with a prompt host");
    for (i, s) in hist.iter().enumerate() {
        if !s.is_elapsed() {
            check(base + (i as u64 + 2) * MS > now_u(), "every other sleep elapses at its deadline, too");
        }
    }
    check(polled_ready || wakes(0) == 1, "the waiting task is woken");
    check(n < 2000, "the host is not called back without end");
    check(pending_callbacks() as u64 <= 24, "the number of outstanding host callbacks stays bounded");
    observe(n as u64);
    observe(pending_callbacks() as u64);
    reach("end");
}

/// Long delays.
/// params: 0 smallest delay in ms, 1 width of the range of delays in units
#[no_mangle]
pub extern "C" fn h_long() {
    let base = param(0) as u64;
    let width = param(1) as u64;
    set_now(0);
    let mut w = W::new(255);
    let t0 = range(0, 15);
    set_now(t0);
    let d = base * MS + range(0, width);
    w.create(t0 + d, true);
    w.poll(0, false);
    let dl = w.v[0].dl;
    settle(3);
    // what the driver asked for
    let now = now_u();
    if !w.v[0].elapsed() {
        let p = &host().pending;
        let mut got = false;
        let left = dl - now;
        for q in p.iter() {
            got |= q.due <= dl + MS;
            check(
                q.due + MS > dl || (q.delay >= (1 << 30)) || left < MS,
                "the driver does not ask to be called long before the deadline",
            );
        }
        check(got, "a host callback is outstanding for the deadline");
        check(p.len() <= 4, "few callbacks are outstanding");
        reach("armed");
        // the next callback, whenever it comes, leads towards the deadline
        let n = run_until(dl + MS, 8 + ((base + width / MS) >> 30) as u32, || ());
        check(w.v[0].elapsed(), "a long sleep completes at its deadline");
        check(wakes(0) == 1, "the task is woken once");
        observe(n as u64);
    } else {
        check(now >= dl, "not early");
        reach("fired at once");
    }
    reach("end");
}

/// A sleep that has been re-armed many times before.
/// params: 0 number of earlier re-armings, 1 what happens between them (0 nothing, 1 the host runs,
/// 2 the sleep fires each time), 2 span in units, 3 the host clock moves between them (1)
#[no_mangle]
pub extern "C" fn h_rearm() {
    let k = param(0) as u64;
    let kind = param(1);
    let span = param(2) as u64;
    set_now(0);
    let mut w = W::new(EARLY | DUE);
    set_now(range(0, 7));
    w.create(now_u() + 40, true);
    w.poll(0, false);
    for i in 0..k {
        if param(3) != 0 {
            set_now(now_u() + MS);
        }
        // alternately sooner and later than before, always ahead
        let dl = now_u() + MS * (4 + 3 * (i % 3));
        w.reset(0, dl);
        match kind {
            0 => {}
            1 => {
                settle(2);
            }
            _ => {
                if i % 2 == 0 {
                    w.poll(0, false);
                }
                set_now(dl);
                settle(3);
                check(w.v[0].elapsed(), "a re-armed sleep completes at its new deadline");
            }
        }
    }
    if choice(2) == 1 {
        w.poll(0, false);
    }
    // and once more
    let d = range(0, span);
    w.reset(0, now_u() + d);
    w.poll(0, false);
    let p = range(0, span);
    set_now(now_u() + p);
    w.host_runs();
    set_now(now_u() + span);
    w.host_runs();
    check(w.v[0].elapsed(), "a re-armed sleep completes at its last deadline");
    reach("end");
}
