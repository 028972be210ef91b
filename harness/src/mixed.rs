//! A sleep, an interval, a timeout and a delay queue at the same time, each held to what it would
//! do alone.

use crate::sym::*;
use crate::world::*;
use futures::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval_at, sleep, timeout, Interval, Sleep, Timeout};
use wasmtimer::tokio_util::DelayQueue;

struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

const SLEEP: usize = 0;
const TICKS: usize = 1;
const LIMIT: usize = 2;
const QUEUE: usize = 3;

struct M {
    s: Option<Pin<Box<Sleep>>>,
    iv: Option<Interval>,
    t: Option<Pin<Box<Timeout<Never>>>>,
    q: Option<DelayQueue<u32>>,
    dl: [Instant; 4],
    seen: [Option<u32>; 4],
    done: [bool; 4],
    period: Duration,
    /// how late something due may be noticed
    grain: Duration,
}

impl M {
    fn there(&self, k: usize) -> bool {
        match k {
            SLEEP => self.s.is_some(),
            TICKS => self.iv.is_some(),
            LIMIT => self.t.is_some(),
            _ => self.q.is_some(),
        }
    }
    /// the task of this one polls it, as often as it makes progress
    fn poll(&mut self, k: usize) {
        let now = Instant::now();
        let due = now >= self.dl[k];
        let over = now >= self.dl[k] + self.grain;
        let w = waker(k);
        let mut cx = Context::from_waker(&w);
        let mut waits = false;
        let ready = match k {
            SLEEP => self.s.as_mut().map(|s| s.as_mut().poll(&mut cx).is_ready()),
            LIMIT => self.t.as_mut().map(|t| match t.as_mut().poll(&mut cx) {
                Poll::Ready(r) => {
                    check(r.is_err(), "no value from a future that is not ready");
                    true
                }
                Poll::Pending => false,
            }),
            TICKS => {
                let period = self.period;
                let dl = &mut self.dl[k];
                self.iv.as_mut().map(|iv| {
                    let mut any = false;
                    // burst: all that are due
                    for _ in 0..24 {
                        match iv.poll_tick(&mut cx) {
                            Poll::Ready(t) => {
                                check(t == *dl && now >= t, "a tick reports the expected instant");
                                any = true;
                                *dl = t + period;
                                settle(2);
                            }
                            Poll::Pending => {
                                waits = true;
                                break;
                            }
                        }
                    }
                    any
                })
            }
            _ => {
                let done = self.done[k];
                self.q.as_mut().map(|q| {
                    let mut r = Pin::new(&mut *q).poll_next(&mut cx);
                    for _ in 0..3 {
                        if r.is_ready() {
                            break;
                        }
                        // on the way down from a coarser level
                        settle(2);
                        r = Pin::new(&mut *q).poll_next(&mut cx);
                    }
                    match r {
                        Poll::Ready(Some(e)) => {
                            check(!done && e.into_inner() == 5, "the item is yielded once");
                            true
                        }
                        Poll::Ready(None) => {
                            check(done, "the queue ends only when it is empty");
                            true
                        }
                        Poll::Pending => {
                            check(!done, "an empty queue ends");
                            false
                        }
                    }
                })
            }
        };
        match ready {
            None => {}
            Some(true) => {
                check(due || self.done[k], "nothing completes before its time");
                reach(["slept", "ticked", "timed out", "yielded"][k]);
                self.seen[k] = None;
                if k == TICKS {
                    // and now waits for the next
                    if waits {
                        self.seen[k] = Some(wakes(k));
                    }
                } else {
                    self.done[k] = true;
                }
            }
            Some(false) => {
                check(!over, "what is due completes");
                self.seen[k] = Some(wakes(k));
            }
        }
    }
    /// the host or the driver has run
    fn look(&mut self) {
        let now = Instant::now();
        for k in 0..4 {
            if let Some(seen) = self.seen[k] {
                if !self.there(k) {
                    continue;
                }
                if now < self.dl[k] {
                    check(k == QUEUE || wakes(k) == seen, "no wakeup before the time");
                } else if now >= self.dl[k] + self.grain {
                    check(wakes(k) > seen, "the waiting task is woken");
                    reach("woken");
                }
            }
        }
    }
    fn drop_one(&mut self, k: usize) {
        match k {
            SLEEP => self.s = None,
            TICKS => self.iv = None,
            LIMIT => self.t = None,
            _ => self.q = None,
        }
        self.seen[k] = None;
    }
}

fn on(u: u64, paused: bool) {
    #[cfg(feature = "tt")]
    if paused {
        let f = wasmtimer::tokio::advance(dur_u(u));
        let mut f = std::pin::pin!(f);
        check(poll_with(f.as_mut(), 15).is_ready(), "advancing takes no time");
        return;
    }
    let _ = paused;
    set_now(now_u() + u);
    settle(3);
}

/// params: 0 steps, 1 span of the deadlines in units, 2 paused (1), 3 which kinds take part (mask),
/// 4 whether one may be dropped
#[no_mangle]
pub extern "C" fn h_mixed() {
    let steps = param(0);
    let span = param(1) as u64;
    let paused = param(2) != 0;
    let kinds = param(3);
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    #[cfg(feature = "tt")]
    if paused {
        wasmtimer::tokio::pause();
    }
    let start = Instant::now();
    let mut m = M {
        s: None,
        iv: None,
        t: None,
        q: None,
        dl: [start; 4],
        seen: [None; 4],
        done: [false; 4],
        period: Duration::from_millis(10),
        grain: if paused { Duration::ZERO } else { Duration::from_millis(1) },
    };
    for k in 0..4 {
        if kinds & (1 << k) == 0 {
            continue;
        }
        let u = range(0, span);
        let d = dur_u(u);
        m.dl[k] = start + d;
        match k {
            SLEEP => m.s = Some(Box::pin(sleep(d))),
            TICKS => m.iv = Some(interval_at(start + d, m.period)),
            LIMIT => m.t = Some(Box::pin(timeout(d, Never))),
            _ => {
                let mut q = DelayQueue::new();
                q.insert(5, d);
                m.q = Some(q);
                // whole milliseconds since its creation
                m.dl[k] = start + Duration::from_millis((u + MS - 1) / MS);
            }
        }
        m.poll(k);
    }
    for _ in 0..steps {
        if param(4) != 0 {
            let k = choice(5) as usize;
            if k < 4 {
                if !m.there(k) {
                    continue;
                }
                m.drop_one(k);
            }
        }
        let dt = range(0, span);
        on(dt, paused);
        m.look();
        for k in 0..4 {
            if m.there(k) && choice(2) == 1 {
                m.poll(k);
            }
        }
    }
    on(2 * span + MS, paused);
    m.look();
    for k in [QUEUE, LIMIT, SLEEP, TICKS] {
        m.poll(k);
    }
    for k in 0..4 {
        m.drop_one(k);
    }
    on(MS, paused);
    for k in 0..4 {
        check(waker_refs(k) == 0, "the wakers are released");
        observe(wakes(k) as u64);
    }
    reach("end");
}
