//! The pausable clock (feature tokio-test-util).

use crate::sym::*;
use crate::world::*;
use std::pin::Pin;
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{advance, pause, resume, sleep, sleep_until, Sleep};

fn advance_now(d: Duration) {
    let f = advance(d);
    let mut f = std::pin::pin!(f);
    check(poll_with(f.as_mut(), 15).is_ready(), "advancing takes no time");
}

fn some_duration(big: bool) -> Duration {
    if big {
        let s = range(0, 1 << 40);
        let n = range(0, 999_999_999);
        Duration::new(s, n as u32)
    } else {
        Duration::from_nanos(range(0, 100_000_000))
    }
}

/// the clock's reading against a model
/// params: 0 steps, 1 whether seconds and more are advanced (1) or up to 100 ms (0)
#[no_mangle]
pub extern "C" fn h_clock() {
    let steps = param(0);
    let big = param(1) != 0;
    set_now(0);
    let t0 = if param(2) > 0 { 3 } else { range(0, 800) };
    set_now(t0);
    if choice(2) == 1 {
        // with a running driver
        let mut s = Box::pin(sleep(dur_u(8)));
        let _ = poll_with(s.as_mut(), 0);
        settle(2);
    }
    let start = Instant::now();
    let mut model = start;
    let mut frozen = false;
    // reading of the host clock up to which the model has followed
    let mut seen = now_u();
    // a long life before: param(2) pauses, each with the clock moved by hand, resumed later
    for _ in 0..param(2) {
        pause();
        set_now(now_u() + 8);
        advance_now(dur_u(12));
        model += dur_u(12);
        check(Instant::now() == model, "each of many advances moves the clock by what was asked");
        resume();
        set_now(now_u() + 4);
        model += dur_u(4);
        check(Instant::now() == model, "each of many resumes goes on from where the clock was");
        seen = now_u();
    }
    for _ in 0..steps {
        let dt = range(0, 800);
        set_now(now_u() + dt);
        if !frozen {
            model += dur_u(now_u() - seen);
        }
        seen = now_u();
        match choice(4) {
            0 => {}
            1 => {
                expect_panic(frozen);
                pause();
                check(!frozen, "pausing twice panics");
                reach("paused");
                frozen = true;
            }
            2 => {
                expect_panic(!frozen);
                resume();
                check(frozen, "resuming a running clock panics");
                reach("resumed");
                frozen = false;
            }
            _ => {
                let d = some_duration(big);
                expect_panic(!frozen);
                advance_now(d);
                check(frozen, "advancing a running clock panics");
                reach("advanced");
                model += d;
            }
        }
        expect_panic(false);
        let n = Instant::now();
        check(n == model, "the clock shows exactly the host time outside pauses plus the advances");
        settle(2);
        check(Instant::now() == model, "the clock does not move by itself");
    }
    let e = start.elapsed();
    check(start + e == model, "the elapsed time is that of the clock");
    observe(e.as_secs());
    observe(e.subsec_nanos() as u64);
    reach("end");
}

/// up to 100 ms in nanoseconds, or in units with parameter 5, or parameter 6 more
fn span() -> Duration {
    if param(6) != 0 && choice(2) == 1 {
        return Duration::from_millis(param(6) as u64) + Duration::from_nanos(range(0, 100_000_000));
    }
    if param(5) != 0 {
        dur_u(range(0, 800))
    } else {
        Duration::from_nanos(range(0, 100_000_000))
    }
}

const MAXN: usize = 6;

struct P {
    s: Option<Pin<Box<Sleep>>>,
    dl: Instant,
    seen: Option<u32>,
    /// dropped, and how often its task had been woken when the driver had run after that
    gone: Option<u32>,
}

struct T {
    v: Vec<P>,
}

impl T {
    fn create(&mut self, n: usize) {
        for _ in 0..n {
            if self.v.len() == MAXN {
                return;
            }
            let i = self.v.len();
            let d = span();
            let dl = Instant::now() + d;
            let s = if i % 2 == 0 { sleep(d) } else { sleep_until(dl) };
            check(s.deadline() == dl, "a sleep reports its deadline");
            self.v.push(P { s: Some(Box::pin(s)), dl, seen: None, gone: None });
            if choice(2) == 1 {
                self.poll(i);
            }
        }
    }
    fn poll(&mut self, i: usize) {
        let e = &mut self.v[i];
        if let Some(s) = e.s.as_mut() {
            if poll_with(s.as_mut(), i).is_ready() {
                check(Instant::now() >= e.dl, "a sleep is not ready before its deadline");
                e.seen = None;
            } else {
                e.seen = Some(wakes(i));
            }
        }
    }
    /// exactly what is due has fired (after an advance); what is not due never has
    fn exact(&mut self, advanced: bool) {
        let now = Instant::now();
        for (i, e) in self.v.iter_mut().enumerate() {
            if let Some(s) = e.s.as_ref() {
                let due = e.dl <= now;
                check(due || !s.is_elapsed(), "a sleep is not elapsed before the paused clock has reached its deadline");
                if !due {
                    reach("not due");
                } else if !advanced {
                    continue;
                }
                check(s.is_elapsed() || !due, "a sleep is elapsed once the paused clock has reached its deadline");
                if let Some(seen) = e.seen {
                    if due {
                        check(wakes(i) == seen + 1, "the waiting task is woken once");
                        reach("fired by an advance");
                        e.seen = None;
                    } else {
                        check(wakes(i) == seen, "no wakeup before the deadline");
                        reach("still pending after an advance");
                    }
                }
            } else {
                match e.gone {
                    Some(k) => check(wakes(i) == k, "a dropped sleep wakes nobody"),
                    None if advanced => {
                        // the driver has run since the drop
                        check(waker_refs(i) == 0, "a dropped sleep releases its waker");
                        e.gone = Some(wakes(i));
                        reach("dropped while paused");
                    }
                    None => {}
                }
            }
        }
    }
}

/// sleeps under a paused clock
/// params: 0 sleeps before the pause, 1 sleeps after it, 2 steps, 3 finally resume (1),
/// 4 the host runs between creation and pause (1), 5 durations are whole units (1),
/// 6 durations may also be that many milliseconds more, 7 pause again after the resume and advance once more (1)
#[no_mangle]
pub extern "C" fn h_paused() {
    let before = param(0) as usize;
    let after = param(1) as usize;
    let steps = param(2);
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    let mut t = T { v: Vec::with_capacity(MAXN) };
    t.create(before);
    if param(4) != 0 {
        let dt = range(0, 400);
        set_now(now_u() + dt);
        settle(3);
    }
    pause();
    reach("paused");
    t.exact(false);
    let dt = range(0, 800);
    set_now(now_u() + dt);
    t.create(after);
    t.exact(false);
    for _ in 0..steps {
        match choice(4) {
            0 | 1 => {
                let d = span();
                let was = Instant::now();
                advance_now(d);
                check(Instant::now() == was + d, "an advance moves the clock by the given duration");
                t.exact(true);
            }
            2 => {
                // the host may run what was requested before; nothing happens
                let dt = range(0, 80_000);
                set_now(now_u() + dt);
                settle(2);
                t.exact(false);
            }
            _ => {
                if t.v.len() > 0 {
                    let i = choice(t.v.len() as u32) as usize;
                    let e = &mut t.v[i];
                    match choice(2) {
                        0 => {
                            e.s = None;
                            e.seen = None;
                        }
                        _ => {
                            if let Some(s) = e.s.as_mut() {
                                let d = span();
                                e.dl = Instant::now() + d;
                                e.seen = None;
                                s.as_mut().reset(e.dl);
                            }
                            t.poll(i);
                        }
                    }
                }
                t.exact(false);
            }
        }
    }
    if param(3) != 0 {
        let mut far = Instant::now();
        for e in &t.v {
            if e.s.is_some() && e.dl > far {
                far = e.dl;
            }
        }
        resume();
        reach("resumed");
        let dt = range(0, 1600);
        set_now(now_u() + dt);
        settle(3);
        let now = Instant::now();
        for (i, e) in t.v.iter().enumerate() {
            if let Some(s) = e.s.as_ref() {
                if s.is_elapsed() {
                    check(now >= e.dl, "not elapsed before its deadline");
                    if let Some(seen) = e.seen {
                        check(wakes(i) > seen, "the waiting task is woken after a resume");
                    }
                } else {
                    check(now < e.dl + Duration::from_millis(1), "sleeps complete again after a resume");
                    reach("pending after a resume");
                }
            }
        }
        if param(7) != 0 {
            // and once more: what has not come due yet waits for the next advance
            for (i, e) in t.v.iter_mut().enumerate() {
                if let (Some(s), Some(_)) = (e.s.as_ref(), e.seen) {
                    e.seen = if s.is_elapsed() { None } else { Some(wakes(i)) };
                }
            }
            pause();
            t.create(1);
            t.exact(false);
            set_now(now_u() + 80);
            advance_now(span());
            t.exact(true);
            reach("paused again");
            reach("end");
            return;
        }
        let left = (far + Duration::from_millis(2)) - now;
        let u = (left.as_millis() as u64 + 1) * MS;
        set_now(now_u() + u);
        settle(3);
        for (i, e) in t.v.iter().enumerate() {
            if let Some(s) = e.s.as_ref() {
                check(s.is_elapsed(), "every sleep completes after a resume");
                if let Some(seen) = e.seen {
                    check(wakes(i) > seen, "the waiting task is woken after a resume");
                }
            }
        }
    }
    for i in 0..t.v.len() {
        observe(wakes(i) as u64);
    }
    reach("end");
}

/// Many sleeps under a paused clock.
/// params: 0 sleeps before the pause, 1 sleeps after it, 2 the first advance is about that many ms
#[no_mangle]
pub extern "C" fn h_paused_crowd() {
    let before = param(0) as u64;
    let after = param(1) as u64;
    set_now(0);
    set_now(range(0, 7));
    let start = Instant::now();
    // whole milliseconds, shared ones, and fractions down to a nanosecond
    let at = |i: u64| start + Duration::from_millis(1 + i * 37 % 101) + Duration::from_nanos((i % 4) * 333_333);
    let mut v: Vec<(Option<Pin<Box<Sleep>>>, Instant)> = Vec::with_capacity(NW);
    let add = |v: &mut Vec<(Option<Pin<Box<Sleep>>>, Instant)>, i: u64| {
        let mut s = Box::pin(sleep_until(at(i)));
        let _ = poll_with(s.as_mut(), v.len());
        v.push((Some(s), at(i)));
    };
    for i in 0..before {
        add(&mut v, i);
    }
    if choice(2) == 1 {
        settle(3);
    }
    pause();
    for i in before..before + after {
        add(&mut v, i);
    }
    for i in 0..v.len() {
        if i % 5 == 3 {
            v[i].0 = None;
        } else if i % 5 == 4 {
            let dl = at(i as u64 * 7 + 3);
            v[i].0.as_mut().unwrap().as_mut().reset(dl);
            v[i].1 = dl;
        }
    }
    let first = Duration::from_millis(param(2) as u64) + Duration::from_nanos(range(0, 4_000_000));
    for d in [first, Duration::from_nanos(range(0, 1_000_000)), Duration::from_millis(200)] {
        advance_now(d);
        let now = Instant::now();
        for (i, (s, dl)) in v.iter().enumerate() {
            if let Some(s) = s {
                let due = *dl <= now;
                check(s.is_elapsed() == due, "a sleep is elapsed exactly once the paused clock has reached its deadline");
                check(wakes(i) == due as u32, "the waiting task is woken exactly once the paused clock has reached its deadline");
            } else {
                check(wakes(i) == 0, "a dropped sleep wakes nobody");
            }
        }
    }
    reach("end");
}
