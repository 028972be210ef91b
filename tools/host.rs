//! A host for the crate under test: counting wakers and an event loop over the simulated timeouts.
#![allow(dead_code)]
pub use std::future::Future;
pub use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub use std::sync::Arc;
pub use std::task::{Context, Poll, Wake, Waker};
pub use std::time::Duration;
use wasm_bindgen::__host::host;

pub struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
impl Count {
    pub fn get(&self) -> usize {
        self.0.load(SeqCst)
    }
}
pub fn waker() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
pub fn poll<F: Future + Unpin>(f: &mut F, w: &Waker) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(w))
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}
pub fn ns(n: u64) -> Duration {
    Duration::from_nanos(n)
}
/// microseconds (a multiple of 125) the host clock shows
pub fn now_us() -> u64 {
    host().now * 125
}
/// what performance.now() returns from now on
pub fn raw(ms: f64) {
    host().raw = Some(ms);
}
/// let the clock pass without the host running anything
pub fn pass(us: u64) {
    assert!(us % 125 == 0);
    host().now += us / 125;
}
/// One turn of the event loop: the callbacks that are due and were requested before it.
pub fn turn() -> usize {
    let limit = host().next_id;
    let mut n = 0;
    while let Some(i) = host().pending.iter().position(|p| p.due <= host().now && p.id < limit) {
        let p = host().pending.remove(i);
        p.cb.host_invoke();
        n += 1;
    }
    n
}
/// a few turns of the event loop
pub fn run() -> usize {
    (0..4).map(|_| turn()).sum()
}
/// Let time pass with a host that delivers every callback on time; returns how many.
pub fn advance(us: u64) -> usize {
    let end = host().now + us / 125;
    let mut n = run();
    loop {
        // a callback that asks for no delay is delivered a moment later
        let due = host().pending.iter().map(|p| p.due.max(host().now + 1)).min();
        match due {
            Some(d) if d <= end => {
                host().now = d;
                n += run();
            }
            _ => break,
        }
    }
    host().now = end;
    n + run()
}
/// the delays of the outstanding timeouts in ms
pub fn outstanding() -> Vec<i64> {
    host().pending.iter().map(|p| p.delay).collect()
}
