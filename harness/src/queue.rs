//! Delay queues.

use crate::sym::*;
use crate::world::*;
use futures::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use wasmtimer::std::Instant;
use wasmtimer::tokio_util::delay_queue::{Expired, Key};
use wasmtimer::tokio_util::DelayQueue;

pub const EARLY: i64 = 1; // nothing early, reported deadlines
pub const YIELD: i64 = 2; // everything once, in order, then the end
pub const KEYS: i64 = 4; // key operations
pub const WAKE: i64 = 16; // wakeups
pub const LEAK: i64 = 64;

pub const INSERT: i64 = 1;
pub const POLL: i64 = 2;
pub const REMOVE: i64 = 4;
pub const TRYREMOVE: i64 = 8;
pub const RESET: i64 = 16;
pub const COMPACT: i64 = 32;
pub const SHRINK: i64 = 64;
pub const CLEAR: i64 = 128;
pub const RESERVE: i64 = 256;
pub const HANDOVER: i64 = 512; // another task polls from now on

const MAXI: usize = 8;
/// longest distance the queue takes, in ms
pub const MAX_MS: u64 = (1 << 36) - 1;

/// what an item carries: freed exactly once, owned by one place at a time
struct Val {
    tag: usize,
    cell: Box<u32>,
}

struct It {
    key: Key,
    /// requested deadline, units since the creation of the queue (0 if earlier)
    rel: u64,
    /// requested deadline in whole milliseconds since the creation
    want: u64,
    /// the latest deadline it may report
    most: u64,
    live: bool,
}

struct Q {
    q: DelayQueue<Val>,
    it: Vec<It>,
    start: Instant,
    start_u: u64,
    mask: i64,
    /// the task that was told to wait, and how often it had been woken then
    pending: Option<(usize, u32)>,
    /// the task that polls the queue
    task: usize,
    polls: u32,
    /// deadlines are at any nanosecond
    fine: bool,
}

/// windows in which deadlines lie: base in ms
const BASES: [u64; 8] = [0, 60, 4090, 262140, 64 * 262144 - 4, 1 << 30, (1 << 32) - 4, (1 << 36) - 4];

impl Q {
    fn on(&self, m: i64) -> bool {
        self.mask & m != 0
    }
    fn new(mask: i64) -> Q {
        let q = match choice(2) {
            0 => DelayQueue::new(),
            _ => DelayQueue::with_capacity(2),
        };
        Q { q, it: Vec::with_capacity(MAXI), start: Instant::now(), start_u: now_u(), mask, pending: None, task: 0, polls: 0, fine: false }
    }
    /// time since the creation in units
    fn age(&self) -> u64 {
        now_u() - self.start_u
    }
    fn at(&self, rel: u64) -> Instant {
        self.start + dur_u(rel)
    }
    fn live(&self) -> usize {
        self.it.iter().filter(|i| i.live).count()
    }
    fn lengths(&self) {
        if self.on(KEYS) {
            check(self.q.len() == self.live(), "the length is the number of items held");
            check(self.q.is_empty() == (self.live() == 0), "emptiness agrees with the items held");
        }
    }
    /// less than a unit more, and how many units that is, rounded up
    fn some_ns(&self) -> (Duration, u64) {
        if self.fine {
            let ns = range(0, 124_999);
            let up = range(0, 1);
            assume((ns > 0) == (up == 1));
            (Duration::from_nanos(ns), up)
        } else {
            (Duration::ZERO, 0)
        }
    }
    fn insert(&mut self, rel: u64, how: u32) {
        let tag = self.it.len();
        let v = Val { tag, cell: Box::new(tag as u32 * 3 + 1) };
        let age = self.age();
        let (ns, up) = self.some_ns();
        let (key, rel) = if how == 0 {
            (self.q.insert_at(v, self.at(rel) + ns), rel + up)
        } else {
            // as a timeout from now
            let d = if rel > age { rel - age } else { 0 };
            (self.q.insert(v, dur_u(d) + ns), age + d + up)
        };
        if self.on(KEYS) {
            for i in &self.it {
                check(!i.live || i.key != key, "a new key differs from every key in use");
            }
        }
        let it = self.item(key, rel);
        self.it.push(it);
        self.lengths();
    }
    fn item(&self, key: Key, rel: u64) -> It {
        let want = (rel + MS - 1) / MS;
        let now_ms = self.age() / MS;
        It { key, rel, want, most: if want < now_ms { now_ms } else { want }, live: true }
    }
    fn find(&self, key: Key) -> Option<usize> {
        self.it.iter().position(|i| i.live && i.key == key)
    }
    fn gone(&mut self, i: usize, mut e: Expired<Val>) -> u64 {
        let ms = {
            let d = e.deadline() - self.start;
            let mut ok = false;
            let w = self.it[i].want;
            let m = self.it[i].most;
            let lo = self.at(w * MS);
            let hi = self.at(m * MS);
            ok |= e.deadline() >= lo && e.deadline() <= hi;
            if self.mask & (EARLY | KEYS) != 0 {
                check(ok, "the reported deadline is the requested one in whole milliseconds");
                check(w == m || d.subsec_nanos() % 1_000_000 == 0, "the reported deadline is whole milliseconds");
            }
            d.as_secs() * 1000 + (d.subsec_nanos() / 1_000_000) as u64
        };
        if self.mask & (YIELD | KEYS) != 0 {
            check(e.get_ref().tag == i && e.get_mut().tag == i, "an item comes with its own value");
        }
        let v = e.into_inner();
        if self.mask & (YIELD | KEYS) != 0 {
            check(v.tag == i && *v.cell == i as u32 * 3 + 1, "an item comes with its own value");
        }
        self.it[i].live = false;
        ms
    }
    fn remove(&mut self, i: usize, try_it: bool) {
        let k = self.it[i].key;
        let e = if try_it {
            match self.q.try_remove(&k) {
                Some(e) => e,
                None => {
                    check(!self.on(KEYS), "an item in the queue can be removed");
                    return;
                }
            }
        } else {
            self.q.remove(&k)
        };
        if self.on(KEYS) {
            check(e.key() == k, "a removed item comes with its key");
        }
        self.gone(i, e);
        self.lengths();
    }
    fn reset(&mut self, i: usize, rel: u64, how: u32) {
        let k = self.it[i].key;
        let age = self.age();
        let (ns, up) = self.some_ns();
        let rel = if how == 0 {
            self.q.reset_at(&k, self.at(rel) + ns);
            rel + up
        } else {
            let d = if rel > age { rel - age } else { 0 };
            self.q.reset(&k, dur_u(d) + ns);
            age + d + up
        };
        self.it[i] = self.item(k, rel);
        self.lengths();
    }
    /// an item that must be available by now
    fn due(&self) -> bool {
        let age = self.age();
        let mut r = false;
        for i in &self.it {
            if i.live {
                r |= (i.most + 1) * MS <= age;
            }
        }
        r
    }
    fn poll(&mut self, w: usize) -> bool {
        let wk = waker(w);
        let mut cx = Context::from_waker(&wk);
        // as a stream every other time
        self.polls += 1;
        let r = if self.polls % 2 == 0 { Pin::new(&mut self.q).poll_next(&mut cx) } else { self.q.poll_expired(&mut cx) };
        let age = self.age();
        self.pending = None;
        match r {
            Poll::Ready(Some(e)) => {
                let k = e.key();
                let i = match self.find(k) {
                    Some(i) => i,
                    None => {
                        check(self.mask & (YIELD | KEYS) == 0, "a yielded key is one in use");
                        return true;
                    }
                };
                reach("yielded");
                if self.on(EARLY) {
                    check(self.it[i].rel <= age, "nothing is yielded before its requested deadline");
                    check(e.deadline() <= self.at(age), "nothing is yielded before its reported deadline");
                }
                let ms = self.gone(i, e);
                if self.on(YIELD) {
                    for j in &self.it {
                        if j.live && j.want == j.most {
                            check(j.want >= ms, "items come out in deadline order");
                        }
                    }
                }
                self.lengths();
                true
            }
            Poll::Ready(None) => {
                reach("ended");
                if self.on(YIELD) {
                    check(self.live() == 0, "the queue ends only when it is empty");
                }
                false
            }
            Poll::Pending => {
                reach("pending");
                self.pending = Some((w, wakes(w)));
                false
            }
        }
    }
    /// the host gets to run
    fn host(&mut self) {
        settle(3);
        self.wakeups();
    }
    fn wakeups(&self) {
        if self.on(WAKE) {
            if let Some((w, seen)) = self.pending {
                if self.live() == 0 {
                    reach("emptied while waiting");
                    check(wakes(w) > seen, "the task is woken when the queue becomes empty");
                } else if self.due() {
                    reach("due while waiting");
                    check(wakes(w) > seen, "the task is woken when something is available");
                }
            }
        }
    }
    fn pass(&mut self, u: u64, host: bool) {
        set_now(now_u() + u);
        if host {
            self.host();
        }
    }
    /// poll whenever woken, until nothing more comes
    fn drain(&mut self) {
        for _ in 0..4 * (MAXI + self.it.len()) {
            if self.poll(self.task) {
                continue;
            }
            match self.pending {
                None => return,
                Some((w, seen)) => {
                    self.host();
                    if wakes(w) == seen {
                        if self.on(YIELD) {
                            check(self.live() > 0, "an empty queue ends");
                            check(!self.due(), "a due item is yielded");
                        }
                        return;
                    }
                }
            }
        }
        check(!self.on(YIELD), "polling a queue settles");
    }
    fn poll_or_drain(&mut self) {
        if choice(2) == 1 {
            self.drain()
        } else {
            self.poll(self.task);
        }
    }
}

fn when(bases: i64, width: u64) -> u64 {
    // one of the enabled windows
    let mut list = [0u64; 8];
    let mut k = 0;
    for (i, b) in BASES.iter().enumerate() {
        if bases & (1 << i) != 0 {
            list[k] = *b;
            k += 1;
        }
    }
    let b = list[choice(k as u32) as usize];
    b * MS + range(0, width)
}

/// let the queue grow old: at least `aged` ms, at most `spread` ms more; returns its position, the
/// time up to which it was polled, in ms since its creation
fn grow_old(q: &mut Q, aged: u64, spread: u64) -> u64 {
    let mut left = aged;
    let mut pos = 0;
    while left > 0 {
        let mut s = if left > MAX_MS - 1000 { MAX_MS - 1000 } else { left };
        left -= s;
        if left == 0 && spread > 0 {
            s += range(0, spread);
        }
        q.q.insert(Val { tag: 0, cell: Box::new(1) }, dur_u(s * MS));
        set_now(now_u() + s * MS);
        settle(3);
        let wk = waker(1);
        let mut cx = Context::from_waker(&wk);
        let mut got = false;
        for _ in 0..8 {
            match q.q.poll_expired(&mut cx) {
                Poll::Ready(Some(_)) => got = true,
                Poll::Ready(None) => break,
                Poll::Pending => {
                    settle(2);
                }
            }
        }
        check(got, "the item is yielded at its deadline");
        check(q.q.is_empty(), "an emptied queue ends");
        pos += s;
    }
    pos
}

/// let the queue have a long life: n items, one after another
fn live_long(q: &mut Q, n: u64, how: i64) {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    let start = q.age();
    let mut kept = if how == 2 || how == 4 { Some(q.q.insert_at(Val { tag: 0, cell: Box::new(1) }, q.at(start + 80_000))) } else { None };
    for i in 0..n {
        let d = (1 + i % 3) * MS;
        match how {
            2 => q.q.reset_at(kept.as_ref().unwrap(), q.at(q.age() + 80_000 + d)),
            4 => {
                check(q.q.poll_expired(&mut cx).is_pending(), "a queue with nothing due is pending");
                continue;
            }
            _ => {
                let k = q.q.insert(Val { tag: i as usize, cell: Box::new(7) }, dur_u(d));
                check(q.q.len() == 1, "the length is the number of items held");
                check(q.q.poll_expired(&mut cx).is_pending(), "a queue with nothing due is pending");
                if how == 1 {
                    let v = q.q.remove(&k).into_inner();
                    check(v.tag == i as usize && *v.cell == 7, "an item comes with its own value");
                }
            }
        }
        if how == 3 {
            q.q.clear();
        }
        if how == 0 || i % 64 == 0 {
            let seen = wakes(1);
            set_now(now_u() + d + MS);
            settle(3);
            check(how != 0 || wakes(1) > seen, "the task is woken when something is available");
        }
        if how == 0 {
            match q.q.poll_expired(&mut cx) {
                Poll::Ready(Some(e)) => check(e.into_inner().tag == i as usize, "an item comes with its own value"),
                _ => check(false, "each of many items is yielded when it is due"),
            }
        }
        if how != 2 && how != 4 && i % 2 == 0 {
            check(matches!(q.q.poll_expired(&mut cx), Poll::Ready(None)), "an emptied queue ends");
        }
    }
    if let Some(k) = kept.take() {
        q.q.remove(&k);
    }
    settle(3);
    check(matches!(q.q.poll_expired(&mut cx), Poll::Ready(None)), "an emptied queue ends");
    check(q.q.is_empty(), "emptiness agrees with the items held");
    reach("a long life");
}

/// params: 0 checks, 1 items at the start, 2 steps, 3 operations, 4 windows (bit mask into BASES),
/// 5 width of a window in units, 6 age of the queue (0, or milliseconds it has run before; windows
/// then start one millisecond before the time up to which it was polled), 7 any
/// age up to this many milliseconds more, 8 how many items it has held one after another before, which
/// (9) 0 were yielded, 1 removed, 2 reset, 3 cleared, 4 waited for, 10 deadlines at any nanosecond (1)
#[no_mangle]
pub extern "C" fn h_queue() {
    let mask = param(0);
    let n = param(1) as usize;
    let steps = param(2);
    let ops = param(3);
    let bases = param(4);
    let width = param(5) as u64;
    let aged = param(6) as u64;
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    let before = if mask & LEAK != 0 {
        // structures created on first use
        crate::sleeps::warm_up(1);
        let r = crate::sleeps::blocks_at_rest();
        Some(r)
    } else {
        None
    };
    let mut q = Q::new(mask);
    let mut base = 0;
    if aged > 0 {
        // from just before its position, so that some deadlines are over at once
        base = grow_old(&mut q, aged, param(7) as u64) * MS - MS;
        // and some time passes without it being polled
        set_now(now_u() + range(0, MS));
    }
    q.fine = param(10) != 0;
    if param(8) > 0 {
        live_long(&mut q, param(8) as u64, param(9));
        base = (q.age() + MS - 1) / MS * MS;
    }
    for i in 0..n {
        let w = when(bases, width);
        q.insert(base + w, (i % 2) as u32);
    }
    for _ in 0..steps {
        step(&mut q, ops, bases, width, base);
    }
    // everything comes due, in two jumps
    let w = when(bases, width);
    let target = base + w;
    if target > q.age() {
        let d = target - q.age();
        q.pass(d, true);
    }
    q.drain();
    let mut far = q.age();
    for i in &q.it {
        if i.live && i.most * MS > far {
            far = i.most * MS;
        }
    }
    let d = far + MS - q.age();
    q.pass(d, true);
    let left = q.live();
    q.drain();
    if mask & YIELD != 0 {
        check(q.live() == 0, "every item is yielded once its deadline has passed");
        q.drain();
        check(q.pending.is_none(), "an emptied queue ends");
    }
    observe(left as u64);
    if let Some(rest) = before {
        // with or without items left
        if choice(2) == 1 {
            q.insert(q.age() + 80, 0);
        }
        drop(q);
        settle(3);
        check(waker_refs(0) == 0 && waker_refs(1) == 0, "every waker is released");
        let end = crate::sleeps::blocks_at_rest();
        observe(end as u64);
        check(end == rest, "no memory is leaked");
        reach("compared memory at rest");
    }
    reach("end");
}

fn step(q: &mut Q, ops: i64, bases: i64, width: u64, base: u64) {
    let mut list = [(0i64, 0usize); 40];
    let mut k = 0;
    for o in [POLL, COMPACT, SHRINK, CLEAR, RESERVE, HANDOVER] {
        if ops & o != 0 {
            list[k] = (o, 0);
            k += 1;
        }
    }
    if ops & INSERT != 0 && q.it.len() < MAXI {
        list[k] = (INSERT, 0);
        k += 1;
    }
    for i in 0..q.it.len() {
        if q.it[i].live {
            for o in [REMOVE, TRYREMOVE, RESET] {
                if ops & o != 0 {
                    list[k] = (o, i);
                    k += 1;
                }
            }
        } else if ops & TRYREMOVE != 0 && q.find(q.it[i].key).is_none() {
            list[k] = (TRYREMOVE, i);
            k += 1;
        }
    }
    if k == 0 {
        return;
    }
    let (o, i) = list[choice(k as u32) as usize];
    match o {
        INSERT => {
            let w = when(bases, width);
            q.insert(base + w, choice(2));
        }
        REMOVE => q.remove(i, false),
        TRYREMOVE => {
            if q.it[i].live {
                q.remove(i, true)
            } else {
                let k = q.it[i].key;
                check(q.q.try_remove(&k).is_none(), "an absent key is not found");
                q.lengths();
                reach("tried an absent key");
            }
        }
        RESET => {
            let w = when(bases, width);
            q.reset(i, base + w, choice(2));
        }
        COMPACT => q.q.compact(),
        SHRINK => q.q.shrink_to_fit(),
        RESERVE => q.q.reserve(3),
        HANDOVER => {
            // the first task may just have been told to wait
            q.poll(0);
            q.task = 2;
            q.poll_or_drain();
            reach("polled by another task");
        }
        CLEAR => {
            q.q.clear();
            for i in q.it.iter_mut() {
                i.live = false;
            }
            q.lengths();
        }
        _ => {
            // time passes and the queue is polled
            if choice(2) == 1 {
                let w = when(bases, width);
                let t = base + w;
                assume(t >= q.age());
                let d = t - q.age();
                q.pass(d, true);
            }
            q.poll_or_drain();
        }
    }
    if o != POLL {
        q.host();
    }
}

/// The limits of the queue's range.
/// params: 0 age in ms, 1 spread of the age in ms, 2 width of the window around the limit in units,
/// 3 time passed since the queue was last polled in units
#[no_mangle]
pub extern "C" fn h_limit() {
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    let mut q = Q::new(EARLY | YIELD | KEYS);
    let width = param(2) as u64;
    let pos = if param(0) > 0 { grow_old(&mut q, param(0) as u64, param(1) as u64) } else { 0 };
    let dt = range(0, param(3) as u64);
    set_now(now_u() + dt);
    if choice(2) == 1 {
        // clearing the queue does not move it back
        q.q.insert(Val { tag: 0, cell: Box::new(1) }, dur_u(80));
        q.q.clear();
        reach("cleared");
    }
    // the furthest deadline the queue takes, and a window around it
    let limit = pos + MAX_MS;
    let rel = limit * MS - width / 2 + range(0, width);
    let over = (rel + MS - 1) / MS > limit;
    let age = q.age();
    let how = choice(4);
    if how >= 2 {
        q.insert(age + 400, 0);
    }
    if over {
        expect_panic(true);
    }
    match how {
        0 => q.insert(rel, 0),
        1 => {
            q.insert(rel, 1);
        }
        2 => q.reset(0, rel, 0),
        _ => q.reset(0, rel, 1),
    }
    check(!over, "a deadline beyond the range is refused");
    reach("accepted");
    // it is neither early nor lost
    q.drain();
    check(q.live() == 1, "nothing is yielded before its requested deadline");
    let most = q.it[0].most;
    // also when polled half way
    if choice(2) == 1 {
        let half = q.age() + (most * MS - q.age()) / 2;
        q.pass(half - q.age(), true);
        q.drain();
        check(q.live() == 1, "nothing is yielded before its requested deadline");
    }
    let t = most * MS - MS;
    q.pass(t - q.age(), true);
    q.drain();
    check(q.live() == 1, "nothing is yielded before its requested deadline");
    q.pass(2 * MS, true);
    q.drain();
    check(q.live() == 0, "every item is yielded once its deadline has passed");
    reach("end");
}

/// Any deadline far beyond the range, up to the largest there is.
/// params: 0 age of the queue in ms
#[no_mangle]
pub extern "C" fn h_beyond() {
    set_now(0);
    let t0 = range(0, 15);
    set_now(t0);
    let mut q = Q::new(0);
    let pos = if param(0) > 0 { grow_old(&mut q, param(0) as u64, 0) } else { 0 };
    set_now(now_u() + range(0, 800));
    let secs = range((pos + MAX_MS) / 1000 + 1, u64::MAX);
    let nanos = range(0, 999_999_999);
    let d = Duration::new(secs, nanos as u32);
    let how = choice(4);
    let v = Val { tag: 0, cell: Box::new(1) };
    let k = if how >= 2 { Some(q.q.insert(Val { tag: 0, cell: Box::new(1) }, dur_u(400))) } else { None };
    let at = if how % 2 == 0 {
        let at = q.start.checked_add(d);
        if at.is_none() {
            reach("no such instant");
            return;
        }
        at
    } else {
        None
    };
    reach("asked");
    expect_panic(true);
    match how {
        0 => {
            q.q.insert_at(v, at.unwrap());
        }
        1 => {
            q.q.insert(v, d);
        }
        2 => q.q.reset_at(&k.unwrap(), at.unwrap()),
        _ => q.q.reset(&k.unwrap(), d),
    }
    check(false, "a deadline beyond the range is refused");
}

// ---- keys ---------------------------------------------------------------------------------------

struct Named {
    key: Key,
    tag: usize,
}

/// every key in use names its own item, by every operation that takes one
fn names(q: &DelayQueue<Val>, v: &[Named]) {
    check(q.len() == v.len(), "the length is the number of items held");
    for (i, a) in v.iter().enumerate() {
        for b in &v[..i] {
            check(a.key != b.key, "keys in use are distinct");
        }
    }
}

/// Keys over insertions, removals, compactions and clearings.
/// params: 0 steps, 1 operations (1 insert, 4 remove, 8 try_remove, 16 reset, 32 compact, 64 shrink,
/// 128 clear), 2 insertions at the start, 3 largest number of items, 4 how the items end (0 removed
/// by key, 1 yielded), 5 capacity at the start
#[no_mangle]
pub extern "C" fn h_keys() {
    let ops = param(1);
    let most = param(3) as usize;
    set_now(range(0, 7));
    let mut q: DelayQueue<Val> = match param(5) {
        0 => DelayQueue::new(),
        c => DelayQueue::with_capacity(c as usize),
    };
    let mut v: Vec<Named> = Vec::with_capacity(64);
    // keys of items that are gone
    let mut old: Vec<Key> = Vec::with_capacity(64);
    let mut tag = 0;
    let far = 400 + range(0, 7);
    let mut insert = |q: &mut DelayQueue<Val>, v: &mut Vec<Named>, old: &mut Vec<Key>| {
        let key = q.insert(Val { tag, cell: Box::new(tag as u32 * 3 + 1) }, dur_u(far + 80 * tag as u64));
        // a key may be given out again
        old.retain(|k| *k != key);
        v.push(Named { key, tag });
        tag += 1;
    };
    for _ in 0..param(2) {
        insert(&mut q, &mut v, &mut old);
    }
    names(&q, &v);
    for _ in 0..param(0) {
        let mut list = [(0i64, 0usize); 40];
        let mut k = 0;
        for o in [COMPACT, SHRINK, CLEAR] {
            if ops & o != 0 {
                list[k] = (o, 0);
                k += 1;
            }
        }
        if ops & INSERT != 0 && v.len() < most {
            list[k] = (INSERT, 0);
            k += 1;
        }
        for i in 0..v.len() {
            for o in [REMOVE, TRYREMOVE, RESET] {
                if ops & o != 0 {
                    list[k] = (o, i);
                    k += 1;
                }
            }
        }
        if k == 0 {
            break;
        }
        let (o, i) = list[choice(k as u32) as usize];
        match o {
            INSERT => insert(&mut q, &mut v, &mut old),
            COMPACT => {
                q.compact();
                reach("compacted");
            }
            SHRINK => q.shrink_to_fit(),
            CLEAR => {
                q.clear();
                while let Some(n) = v.pop() {
                    old.push(n.key);
                }
                reach("cleared");
            }
            RESET => {
                let n = &v[i];
                q.reset(&n.key, dur_u(far + 80 * n.tag as u64 + 8));
            }
            _ => {
                let n = v.remove(i);
                let e = if o == REMOVE { Some(q.remove(&n.key)) } else { q.try_remove(&n.key) };
                match e {
                    None => check(false, "an item in the queue can be removed"),
                    Some(e) => {
                        check(e.key() == n.key, "a removed item comes with its key");
                        let val = e.into_inner();
                        check(val.tag == n.tag && *val.cell == n.tag as u32 * 3 + 1, "an item comes with its own value");
                    }
                }
                old.push(n.key);
                reach("removed");
            }
        }
        names(&q, &v);
    }
    for k in &old {
        check(q.try_remove(k).is_none(), "the key of an item that is gone names nothing");
    }
    if param(4) == 0 {
        for n in v.drain(..) {
            let e = q.remove(&n.key);
            check(e.key() == n.key, "a removed item comes with its key");
            check(e.into_inner().tag == n.tag, "an item comes with its own value");
            check(q.try_remove(&n.key).is_none(), "the key of an item that is gone names nothing");
        }
    } else {
        set_now(now_u() + far + 80 * 64);
        settle(3);
        let wk = waker(0);
        let mut cx = Context::from_waker(&wk);
        for _ in 0..40 {
            match q.poll_expired(&mut cx) {
                Poll::Ready(Some(e)) => {
                    let k = e.key();
                    let i = v.iter().position(|n| n.key == k);
                    check(i.is_some(), "a yielded key is one in use");
                    if let Some(i) = i {
                        let n = v.remove(i);
                        check(e.into_inner().tag == n.tag, "an item comes with its own value");
                    }
                }
                Poll::Ready(None) => break,
                Poll::Pending => {
                    settle(2);
                }
            }
        }
        check(v.is_empty(), "every item is yielded once its deadline has passed");
    }
    check(q.is_empty(), "an emptied queue is empty");
    // and it can be used again
    insert(&mut q, &mut v, &mut old);
    let n = v.pop().unwrap();
    let val = q.remove(&n.key).into_inner();
    check(val.tag == n.tag, "an item comes with its own value");
    reach("end");
}

/// Many items, in all levels of the queue.
/// params: 0 checks, 1 number of items, 2 width of the window in which one more is due, in units,
/// 3 what happens to them (1 some are removed, 2 some are reset, 4 the queue is compacted, 8 more are
/// inserted later, 16 cleared before), 4 the window begins here, in ms, 5 age of the queue in ms
#[no_mangle]
pub extern "C" fn h_many() {
    let mask = param(0);
    let n = param(1) as u64;
    let width = param(2) as u64;
    let what = param(3);
    set_now(0);
    set_now(range(0, 7));
    let before = if mask & LEAK != 0 {
        crate::sleeps::warm_up(1);
        Some(crate::sleeps::blocks_at_rest())
    } else {
        None
    };
    let mut q = Q::new(mask);
    let mut base = 0;
    if param(5) > 0 {
        base = grow_old(&mut q, param(5) as u64, 0) * MS;
    }
    // whole and broken milliseconds, some of them shared, from a millisecond to years ahead
    let at = |i: u64| base + ((i * 37 % 101) * MS << (5 * (i % 7).saturating_sub(2))) + (i * 3) % 8;
    if what & 16 != 0 {
        for i in 0..n / 2 {
            q.insert(at(i), 0);
        }
        q.q.clear();
        for i in q.it.iter_mut() {
            i.live = false;
        }
        q.lengths();
    }
    let first = choice(2) == 1;
    let x = base + param(4) as u64 * MS + range(0, width);
    if first {
        q.insert(x, 0);
    }
    for i in 0..n {
        q.insert(at(i), (i % 2) as u32);
    }
    q.poll(0);
    for i in 0..q.it.len() {
        if !q.it[i].live {
            continue;
        }
        if what & 1 != 0 && i % 3 == 1 {
            q.remove(i, i % 2 == 0);
        } else if what & 2 != 0 && i % 3 == 2 {
            q.reset(i, at(i as u64 * 7 + 3), (i % 2) as u32);
        }
    }
    if what & 4 != 0 {
        q.q.compact();
        q.lengths();
    }
    if what & 8 != 0 {
        for i in 0..n / 2 {
            q.insert(at(i * 11 + 5), (i % 2) as u32);
        }
        for i in 0..q.it.len() {
            if i % 5 == 4 && q.it[i].live {
                q.remove(i, i % 2 == 0);
            }
        }
    }
    if !first {
        q.insert(x, 1);
    }
    q.host();
    let t = base + param(4) as u64 * MS + range(0, width);
    if t > q.age() {
        q.pass(t - q.age(), true);
    }
    q.drain();
    // half of it, then all
    for ms in [3_000u64, 3_000_000, 3_000_000_000] {
        let t = base + ms * MS;
        if t > q.age() {
            q.pass(t - q.age(), true);
        }
        q.drain();
    }
    let mut far = q.age();
    for i in &q.it {
        if i.live && i.most * MS > far {
            far = i.most * MS;
        }
    }
    q.pass(far + MS - q.age(), true);
    q.drain();
    if mask & YIELD != 0 {
        check(q.live() == 0, "every item is yielded once its deadline has passed");
        q.drain();
        check(q.pending.is_none(), "an emptied queue ends");
    }
    if let Some(rest) = before {
        drop(q);
        settle(3);
        check(waker_refs(0) == 0 && waker_refs(1) == 0, "every waker is released");
        check(crate::sleeps::blocks_at_rest() == rest, "no memory is leaked");
        reach("compared memory at rest");
    }
    reach("end");
}
