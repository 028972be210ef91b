"""The planted bugs: source edits, what they break, and a demonstration of each."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo.strip() + '\n', **k))


T, H, L, C = 'src/timer/mod.rs', 'src/timer/heap.rs', 'src/timer/arc_list.rs', 'src/timer/clock.rs'
S, I, O, U = 'src/tokio/sleep.rs', 'src/tokio/interval.rs', 'src/tokio/timeout.rs', 'src/tokio/test_utils.rs'
Q, W, V, M, STD = 'src/tokio_util/delay_queue.rs', 'src/tokio_util/wheel/mod.rs', 'src/tokio_util/wheel/level.rs', 'src/tokio_util/mod.rs', 'src/std.rs'

bug('early-within-a-millisecond', 'C01',
    [(T, 'Some(head) if head.at <= now => {}', 'Some(head) if head.at.duration_since(now).as_millis() == 0 => {}')],
    'two sleeps whose deadlines are less than a millisecond apart, the first of which becomes due',
    'timers within the host resolution are batched, so the second completes before its deadline',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_, w) = waker();
    let mut a = sleep(us(5000));
    let mut b = sleep(us(5500));
    let _ = poll(&mut a, &w);
    let _ = poll(&mut b, &w);
    run();
    pass(5000);
    run();
    assert!(a.is_elapsed());
    assert!(!b.is_elapsed(), "the second sleep completed half a millisecond early");
    advance(1000);
    assert!(b.is_elapsed());
}
''')

bug('first-waker-sticks', 'C02',
    [(S, '        state.waker.register(cx.waker());\n',
      '''        // Keep the waker that is registered already instead of cloning a new one each time.
        match state.waker.take() {
            Some(waker) => state.waker.register(&waker),
            None => state.waker.register(cx.waker()),
        }
''')],
    'a sleep polled by one task and then by another before it completes',
    'the task that polled last is never woken, only the first one is',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_c1, w1) = waker();
    let (c2, w2) = waker();
    let mut a = sleep(ms(5));
    assert!(poll(&mut a, &w1).is_pending());
    assert!(poll(&mut a, &w2).is_pending());
    advance(10_000);
    assert!(a.is_elapsed());
    assert!(c2.get() > 0, "the task that polled last was not woken");
}
''')

bug('generation-wraps', 'C03',
    [(T, 'let gen = node.state.load(SeqCst) >> 2;', 'let gen = (node.state.load(SeqCst) >> 2) & 0xff;')],
    'one sleep re-armed more than 255 times',
    'the generation in the heap no longer matches the one of the sleep, which never completes again',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep;
fn main() {
    let (c, w) = waker();
    let mut a = sleep(ms(5));
    for i in 0..300 {
        assert!(poll(&mut a, &w).is_pending());
        let before = c.get();
        advance(10_000);
        assert!(a.is_elapsed(), "not completed after {i} resets");
        assert!(c.get() > before);
        Pin::new(&mut a).reset(Instant::now() + ms(5));
        run();
    }
}
''')

bug('drop-marks-too-late', 'C04',
    [(S, '''            *state.at.lock().unwrap() = None;
            if timeouts.list.push(state).is_ok() {
                timeouts.waker.wake();
            }
''', '''            if timeouts.list.push(state).is_ok() {
                timeouts.waker.wake();
            }
            *state.at.lock().unwrap() = None;
''')],
    'a sleep dropped while the clock is paused, so that the driver runs from inside the drop',
    'the driver sees the old deadline and arms the dropped sleep again, which then wakes its task',
    '''
use wasmtimer::tokio::{pause, advance as adv, sleep};
fn main() {
    let (c, w) = waker();
    pause();
    run();
    let mut a = sleep(ms(5));
    assert!(poll(&mut a, &w).is_pending());
    drop(a);
    run();
    let mut f = Box::pin(adv(ms(20)));
    let _ = poll(&mut f, &w);
    run();
    assert_eq!(c.get(), 0, "a dropped sleep woke its task");
    assert_eq!(Arc::strong_count(&c), 2, "a dropped sleep still holds its waker");
}
''', features=['tokio-test-util'])

bug('later-reset-not-announced', 'C05',
    [(S, '''        inner.deadline = deadline;
        if inner._reset(deadline).is_err() {''', '''        let sooner = deadline < inner.deadline || deadline <= Instant::now();
        inner.deadline = deadline;
        if inner._reset(deadline, sooner).is_err() {'''),
     (S, 'fn _reset(&mut self, at: Instant) -> Result<(), ()> {', 'fn _reset(&mut self, at: Instant, sooner: bool) -> Result<(), ()> {'),
     (S, '''            timeouts.list.push(state)?;
            timeouts.waker.wake();''', '''            timeouts.list.push(state)?;
            // The driver wakes up for the old deadline anyway and sees a later one then.
            if sooner {
                timeouts.waker.wake();
            }''')],
    'a completed sleep re-armed with a later deadline while the driver has nothing else to wait for',
    'no host timeout is requested for it, it completes up to five seconds late',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep;
fn main() {
    let (_c, w) = waker();
    let mut a = sleep(ms(5));
    let _ = poll(&mut a, &w);
    advance(100_000);
    assert!(a.is_elapsed());
    Pin::new(&mut a).reset(Instant::now() + ms(50));
    let _ = poll(&mut a, &w);
    advance(60_000);
    assert!(a.is_elapsed(), "the re-armed sleep is late, outstanding: {:?}", outstanding());
}
''')

bug('next-event-ahead', 'C06',
    [(T, 'self.timer_heap.peek().map(|t| t.at)', '''// Leave room for the latency of the host.
        self.timer_heap
            .peek()
            .map(|t| t.at.checked_sub(std::time::Duration::from_millis(2)).unwrap_or(t.at))''')],
    'any sleep: in the two milliseconds before its deadline',
    'the driver asks for callbacks without delay over and over until the deadline',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_c, w) = waker();
    pass(50_000);
    let mut a = sleep(us(20_000));
    let _ = poll(&mut a, &w);
    let mut worst = 0;
    for _ in 0..40 {
        // one turn of the event loop: what is due now, and not what that asks for
        let mut n = 0;
        let h = wasm_bindgen::__host::host();
        let limit = h.next_id;
        while let Some(i) = h.pending.iter().position(|p| p.due <= h.now && p.id < limit) {
            let p = h.pending.remove(i);
            p.cb.host_invoke();
            n += 1;
        }
        if n > 0 && !a.is_elapsed() {
            let left = 70_000u64.saturating_sub(now_us()) / 1000;
            let asked = h.pending.iter().map(|p| p.delay).min().unwrap_or(0) as u64;
            if asked < left {
                worst = worst.max(left - asked);
            }
        }
        pass(500);
    }
    assert_eq!(worst, 0, "the driver asked to be called {worst} ms too early");
}
''')

bug('cancelled-slot-sifts-down-only', 'C07',
    [(H, '''            if self.items[idx].0 < item {
                self.percolate_up(idx);
            } else {
                self.percolate_down(idx);
            }
''', '''            // The last item was below this one, so it can only move down.
            self.percolate_down(idx);
''')],
    'a heap of at least seven entries, one of which is cancelled while the last one belongs to another subtree and is smaller than its parent',
    'the heap order is violated, which is found by an assertion',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_c, w) = waker();
    // heap shape: [1, 10, 2, 11, 12, 3, 4]; cancelling 11 moves 4 below 10
    let mut v: Vec<_> = [1u64, 10, 2, 11, 12, 3, 4].iter().map(|d| Some(sleep(ms(*d * 10)))).collect();
    for s in v.iter_mut().flatten() {
        let _ = poll(s, &w);
    }
    run();
    // the update list hands out the last entry first, so try cancelling each in turn
    for k in 0..v.len() {
        let mut t: Vec<_> = [1u64, 10, 2, 11, 12, 3, 4].iter().map(|d| Some(sleep(ms(1000 + *d * 10)))).collect();
        for s in t.iter_mut().flatten() {
            let _ = poll(s, &w);
            run();
        }
        t[k] = None;
        run();
    }
    v.clear();
    run();
}
''')

bug('late-tick-reports-now', 'C08',
    [(I, '        Poll::Ready(timeout)\n', '        Poll::Ready(timeout.max(now))\n')],
    'a tick that is seen after its instant',
    'ticks report the time they were seen at, so that consecutive ones are not one period apart',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::interval;
fn main() {
    let (_c, w) = waker();
    let start = Instant::now();
    let mut i = interval(ms(10));
    for k in 0..5u32 {
        advance(2_000);
        let mut cx = Context::from_waker(&w);
        match i.poll_tick(&mut cx) {
            Poll::Ready(t) => assert_eq!(t - start, ms(10) * k, "tick {k}"),
            Poll::Pending => panic!("tick {k} is late"),
        }
        let _ = i.poll_tick(&mut cx);
        advance(8_000);
    }
}
''')

bug('skip-in-milliseconds', 'C09',
    [(I, '''                let since_last_tick = Duration::from_nanos(
                    ((now - timeout).as_nanos() % period.as_nanos())
                        .try_into()
                        // This operation is practically guaranteed not to
                        // fail, as in order for it to fail, `period` would
                        // have to be longer than `now - timeout`, and both
                        // would have to be longer than 584 years.
                        //
                        // If it did fail, there's not a good way to pass
                        // the error along to the user, so we just panic.
                        .expect(
                            "too much time has elapsed since the interval was supposed to tick",
                        ),
                );
''', '''                let since_last_tick =
                    Duration::from_micros(((now - timeout).as_micros() % period.as_micros().max(1)) as u64);
''')],
    'the skip policy with a period that is not a whole number of microseconds',
    'ticks after a missed one are no longer at multiples of the period',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval_at, MissedTickBehavior};
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let start = Instant::now();
    let p = ns(333);
    let mut i = interval_at(start, p);
    i.set_missed_tick_behavior(MissedTickBehavior::Skip);
    advance(10_000);
    assert!(i.poll_tick(&mut cx).is_ready());
    advance(2_000);
    match i.poll_tick(&mut cx) {
        Poll::Ready(t) => assert_eq!((t - start).as_nanos() % 333, 0, "the tick is not a multiple of the period after the start"),
        Poll::Pending => panic!("late"),
    }
}
''')

bug('elapsed-before-value', 'C10',
    [(O, '''        match self.as_mut().future().poll(cx) {''', '''        if self.delay.is_elapsed() {
            return Poll::Ready(Err(Elapsed::new()));
        }

        match self.as_mut().future().poll(cx) {''')],
    'a future that is ready when the timeout is first polled after its deadline',
    'the value is lost and the future is not polled',
    '''
use wasmtimer::tokio::timeout;
fn main() {
    let (_c, w) = waker();
    let mut t = timeout(ms(5), futures::future::ready(7));
    advance(10_000);
    match poll(&mut t, &w) {
        Poll::Ready(Ok(7)) => {}
        x => panic!("{:?}", x.map(|r| r.is_ok())),
    }
}
''')

bug('pause-forgets-advances', 'C11',
    [(C, '        (*base) += elapsed;\n', '        (*base) = if elapsed.is_zero() { *base } else { Instant::now_js() };\n')],
    'pause, advance, resume, then pause again after some host time',
    'time jumps back to the host clock',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::{advance as adv, pause, resume};
fn main() {
    let (_c, w) = waker();
    pause();
    let mut f = Box::pin(adv(ms(500)));
    assert!(poll(&mut f, &w).is_ready());
    resume();
    pass(10_000);
    let before = Instant::now();
    pause();
    let after = Instant::now();
    assert!(after >= before && after - before == ms(0), "time went from {before:?} to {after:?} by pausing");
}
''', features=['tokio-test-util'])

bug('checked-sub-by-seconds', 'C13',
    [(STD, '        self.0.checked_sub(duration).map(Instant)\n', '''        if self.0.as_secs() < duration.as_secs() {
            return None;
        }
        Some(Instant(self.0.saturating_sub(duration)))
''')],
    'subtracting a duration whose seconds do not exceed those of the instant but whose total does',
    'the result is clamped instead of being refused',
    '''
use wasmtimer::std::Instant;
fn main() {
    raw(1500.25);
    let t = Instant::now();
    assert!(t.checked_sub(us(1_500_250)).is_some());
    assert!(t.checked_sub(us(1_500_251)).is_none(), "an instant before the origin is representable?");
}
''')

bug('instant-rounds-to-nearest', 'C14',
    [(STD, 'let val = (performance_now() * 1000.0) as u64;', 'let val = (performance_now() * 1000.0).round() as u64;')],
    'a host clock with a resolution finer than a microsecond',
    'instants are up to half a microsecond ahead of the host clock',
    '''
use wasmtimer::std::Instant;
fn main() {
    raw(1.0);
    let a = Instant::now();
    raw(1.000_75);
    let b = Instant::now();
    assert_eq!(b - a, us(0), "the instant is ahead of the host clock");
}
''')

bug('instant-reads-clock-twice', 'C14',
    [(STD, '''        let val = (performance_now() * 1000.0) as u64;
        Instant(Duration::from_micros(val))''', '''        // Split the reading to keep the precision of large values.
        let val = performance_now().trunc() as u64;
        let frac = (performance_now().fract() * 1000.0) as u64;
        Instant(Duration::from_micros(val * 1000 + frac))''')],
    'the host clock passing a whole millisecond between the two readings',
    'the instant is almost a millisecond behind, later ones are followed by earlier ones',
    '''
use wasmtimer::std::Instant;
fn main() {
    // a host clock that moves with each reading
    for k in 0..64 {
        let t = 10.0 + k as f64 * 0.03125;
        wasm_bindgen::__host::host().reads = vec![t, t + 0.0625, t + 0.125, t + 0.1875];
        let zero = {
            let h = wasm_bindgen::__host::host();
            let keep = std::mem::take(&mut h.reads);
            h.raw = Some(0.0);
            let z = Instant::now();
            h.raw = None;
            h.reads = keep;
            z
        };
        let i = Instant::now() - zero;
        assert!(i >= us((t * 1000.0) as u64), "{i:?} is before the first reading {t}");
        assert!(i <= us(((t + 0.1875) * 1000.0) as u64), "{i:?} is after the last reading");
    }
}
''')

bug('system-time-sub-through-seconds', 'C15',
    [(STD, '''        let new_val = self.inner - other.as_millis() as f64;''', '''        let new_val = self.inner - other.as_secs_f64() * 1000.0;''')],
    'subtracting a duration whose seconds are not exact as a double',
    'the result is not a whole millisecond, so adding the duration again gives another time',
    '''
use wasmtimer::std::UNIX_EPOCH;
fn main() {
    for d in 0..3000u64 {
        let t = UNIX_EPOCH + ms(d);
        assert!(t - ms(d) == UNIX_EPOCH, "subtracting {d} ms");
    }
}
''')

bug('seq-overflow-unchecked', 'C16',
    [(STD, '''                        return Err(Error::invalid_length(1, &self));
                    }
                };
                check_overflow(secs, nanos)?;
''', '''                        return Err(Error::invalid_length(1, &self));
                    }
                };
''')],
    'a two-element sequence whose nanoseconds carry past the largest number of seconds',
    'deserializing panics instead of giving an error',
    '''
use wasmtimer::std::SystemTime;
fn main() {
    let r: Result<SystemTime, _> = serde_json::from_str("[18446744073709551615, 1000000000]");
    assert!(r.is_err());
    let r: Result<SystemTime, _> = serde_json::from_str("[5, 7000000]");
    assert!(r.is_ok());
}
''', features=['serde'])

bug('duplicate-nanos-accepted', 'C16',
    [(STD, '''                        Field::Nanos => {
                            if nanos.is_some() {''', '''                        Field::Nanos => {
                            if nanos.is_some() && secs.is_none() {''')],
    'a map with the seconds first and the nanoseconds twice',
    'the second value silently wins instead of being rejected',
    '''
use wasmtimer::std::SystemTime;
fn main() {
    let r: Result<SystemTime, _> =
        serde_json::from_str("{\\"secs_since_epoch\\":5,\\"nanos_since_epoch\\":1000000,\\"nanos_since_epoch\\":2000000}");
    assert!(r.is_err(), "a duplicate field was accepted");
}
''', features=['serde'])

bug('queue-rounds-to-nearest', 'C17',
    [(M, 'Round::Up => (duration.subsec_nanos() + NANOS_PER_MILLI - 1) / NANOS_PER_MILLI,',
      'Round::Up => (duration.subsec_nanos() + NANOS_PER_MILLI / 2) / NANOS_PER_MILLI,')],
    'a deadline less than half a millisecond after a whole one',
    'the item is yielded before its deadline',
    '''
use futures::Stream;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    q.insert(1u32, us(5_375));
    let _ = Pin::new(&mut q).poll_next(&mut cx);
    run();
    for _ in 0..43 {
        assert!(!matches!(Pin::new(&mut q).poll_next(&mut cx), Poll::Ready(Some(_))), "yielded at {} us", now_us());
        advance(125);
        if now_us() >= 5_375 {
            break;
        }
    }
    advance(1_000);
    assert!(matches!(Pin::new(&mut q).poll_next(&mut cx), Poll::Ready(Some(_))));
}
''')

bug('slots-in-32-bits', 'C18',
    [(V, '''    ((duration >> (level * 6)) % LEVEL_MULT as u64) as usize
''', '''    // a slot index fits 32 bits on every target
    (duration as u32 >> (level * 6)) as usize % LEVEL_MULT
''')],
    'two items more than 2^32 ms (49 days) away, in different slots of the top level',
    'they are processed in the wrong turn of the wheel',
    '''
use futures::Stream;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    let day = 86_400_000u64;
    q.insert(1u32, ms(50 * day));
    q.insert(2u32, ms(20 * day));
    assert!(Pin::new(&mut q).poll_next(&mut cx).is_pending());
    let mut out = vec![];
    for _ in 0..60 {
        pass(day * 1000);
        while turn() > 0 {}
        if let Poll::Ready(Some(e)) = Pin::new(&mut q).poll_next(&mut cx) {
            out.push(e.into_inner());
        }
    }
    assert_eq!(out, [2, 1], "out of order, or lost");
}
''')

bug('unlink-keeps-prev', 'C19',
    [(Q, '''        if let Some(next) = store[key].next {
            store[next].prev = store[key].prev;
        }

        if let Some(prev) = store[key].prev {
            store[prev].next = store[key].next;
        } else {
            self.head = store[key].next;
        }
''', '''        if let Some(prev) = store[key].prev {
            store[prev].next = store[key].next;
        } else {
            self.head = store[key].next;
            if let Some(next) = self.head {
                store[next].prev = None;
            }
        }
''')],
    'three items due in the same millisecond; the one in the middle is removed and then the oldest',
    'the third item is linked to the removed one, its removal panics or acts on another item',
    '''
use futures::Stream;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    let a = q.insert(1u32, ms(5));
    let b = q.insert(2u32, ms(5));
    let c = q.insert(3u32, ms(5));
    let _ = Pin::new(&mut q).poll_next(&mut cx);
    assert_eq!(q.remove(&b).into_inner(), 2);
    assert_eq!(q.remove(&a).into_inner(), 1);
    assert_eq!(q.remove(&c).into_inner(), 3);
    assert!(q.is_empty());
}
''')

bug('second-compaction-resets-keys', 'C20',
    [(Q, '''        if !self.compact_called {
            for (key, _) in self.inner.iter() {
                self.key_map.insert(Key::new(key), KeyInternal::new(key));
            }
        }
''', '''        // Keys that were not remapped yet name themselves.
        for (key, _) in self.inner.iter() {
            self.key_map.insert(Key::new(key), KeyInternal::new(key));
        }
''')],
    'two compactions, with removals before the first so that an item moves',
    'a key in use is redirected to another item',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let mut q = DelayQueue::new();
    let a = q.insert(1u32, ms(5));
    let b = q.insert(2u32, ms(6));
    let c = q.insert(3u32, ms(7));
    q.remove(&a);
    q.compact();
    q.compact();
    assert!(q.try_remove(&a).is_none(), "the key of a removed item names another one");
    assert_eq!(q.remove(&b).into_inner(), 2);
    assert_eq!(q.try_remove(&c).map(|e| e.into_inner()), Some(3));
    assert!(q.is_empty());
}
''')

bug('clear-keeps-the-key-map', 'C20',
    [(Q, '''        self.inner.clear();
        self.key_map.clear();
        self.compact_called = false;''', '''        self.inner.clear();
        self.compact_called = false;''')],
    'a queue that was compacted, cleared and filled again',
    'new items get keys that do not name them',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let mut q = DelayQueue::new();
    let a = q.insert(1u32, ms(5));
    let _b = q.insert(2u32, ms(6));
    q.remove(&a);
    q.compact();
    q.clear();
    let mut keys = vec![];
    for v in 0..4u32 {
        keys.push(q.insert(v, ms(10 + v as u64)));
    }
    for v in 0..4u32 {
        assert_eq!(q.remove(&keys[v as usize]).into_inner(), v);
    }
}
''')

bug('queue-keeps-first-waker', 'C21',
    [(Q, '''        if !self
            .waker
            .as_ref()
            .map(|w| w.will_wake(cx.waker()))
            .unwrap_or(false)
        {
            self.waker = Some(cx.waker().clone());
        }
''', '''        if self.waker.is_none() {
            self.waker = Some(cx.waker().clone());
        }
''')],
    'a queue polled by one task and then by another, then emptied by a removal',
    'the task that polled last is not told',
    '''
use futures::Stream;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c1, w1) = waker();
    let (c2, w2) = waker();
    let mut q = DelayQueue::new();
    let a = q.insert(1u32, ms(500));
    assert!(Pin::new(&mut q).poll_next(&mut Context::from_waker(&w1)).is_pending());
    assert!(Pin::new(&mut q).poll_next(&mut Context::from_waker(&w2)).is_pending());
    q.remove(&a);
    run();
    assert!(c2.get() > 0, "the queue is empty and its task was not woken");
}
''')

bug('range-off-by-one', 'C22',
    [(W, '} else if when - self.elapsed > MAX_DURATION {', '} else if when - self.elapsed >= MAX_DURATION {')],
    'a deadline exactly 2^36-1 ms after the position of the queue',
    'it is refused',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let mut q = DelayQueue::new();
    let k = q.insert(1u32, ms((1 << 36) - 1));
    assert_eq!(q.remove(&k).into_inner(), 1);
}
''')

bug('sealed-push-leaks', 'C23',
    [(L, '''                unsafe {
                    drop(Arc::from_raw(node));
                }
                return Err(());''', '''                return Err(());''')],
    'an entry pushed onto a list that was sealed',
    'the entry is never released',
    '''
#[allow(dead_code)]
#[path = "@REPO@/src/timer/arc_list.rs"]
mod arc_list;
use arc_list::{ArcList, Node};
fn main() {
    let n = Arc::new(Node::new(5));
    let l = ArcList::new();
    l.push(&n).unwrap();
    drop(l.take_and_seal());
    assert!(l.push(&n).is_err());
    assert_eq!(Arc::strong_count(&n), 1, "the list still counts as an owner");
}
''')

bug('unprocessed-sleeps-not-invalidated', 'C24',
    [(T, '''        while let Some(t) = list.pop() {
            self.invalidate(t);
        }
''', '''        while list.pop().is_some() {}
''')],
    'a timer destroyed before it has processed a new sleep',
    'the task waiting on that sleep hangs',
    '''
mod host;
use host::*;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/js.rs"]
mod js;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/std.rs"]
mod std;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/timer/mod.rs"]
mod timer;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/tokio/mod.rs"]
mod tokio;
fn main() {
    let (c, w) = waker();
    let t = timer::Timer::new();
    let mut a = tokio::Sleep::new_handle(std::Instant::now() + ms(5), t.handle());
    assert!(poll(&mut a, &w).is_pending());
    drop(t);
    assert!(c.get() > 0, "the task hangs");
}
''', unit=True)

bug('invalidated-after-the-wake', 'C24',
    [(T, '''        node.state.fetch_or(0b10, SeqCst);
        node.waker.wake();
''', '''        node.waker.wake();
        node.state.fetch_or(0b10, SeqCst);
''')],
    'a task that runs synchronously from its wakeup when the timer is destroyed',
    'it still sees a pending sleep and is not woken again',
    '''
mod host;
use host::*;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/js.rs"]
mod js;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/std.rs"]
mod std;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/timer/mod.rs"]
mod timer;
#[allow(dead_code, unused)]
#[path = "@REPO@/src/tokio/mod.rs"]
mod tokio;
use ::std::sync::Mutex;
static TASK: Mutex<Option<tokio::Sleep>> = Mutex::new(None);
static PENDING: Mutex<bool> = Mutex::new(false);
struct Inline;
impl Wake for Inline {
    fn wake(self: Arc<Self>) {
        let mut s = TASK.lock().unwrap().take().unwrap();
        let w = Waker::from(self);
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| poll(&mut s, &w).is_pending()));
        *PENDING.lock().unwrap() = matches!(r, Ok(true));
        ::std::mem::forget(s);
    }
}
fn main() {
    let t = timer::Timer::new();
    let mut a = tokio::Sleep::new_handle(std::Instant::now() + ms(5), t.handle());
    assert!(poll(&mut a, &Waker::from(Arc::new(Inline))).is_pending());
    *TASK.lock().unwrap() = Some(a);
    drop(t);
    assert!(TASK.lock().unwrap().is_none(), "not woken");
    assert!(!*PENDING.lock().unwrap(), "the task is told that the sleep is still pending");
}
''', unit=True)

bug('far-future-cap', 'C25',
    [(S, '''pub fn sleep(duration: Duration) -> Sleep {
    Sleep::new(duration)''', '''pub fn sleep(duration: Duration) -> Sleep {
    // Roughly 30 years from now, to keep away from overflows.
    Sleep::new(duration.min(Duration::from_secs(86400 * 365 * 30)))''')],
    'a sleep of more than 30 years',
    'its deadline is earlier than requested',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep;
fn main() {
    let d = Duration::from_secs(86400 * 365 * 31);
    let s = sleep(d);
    assert_eq!(s.deadline(), Instant::now() + d);
}
''')

bug('enqueued-twice-leaks', 'C26',
    [(L, '''        if data.enqueued.swap(true, SeqCst) {''', '''        let node = Arc::into_raw(data.clone()) as *mut Node<T>;
        if data.enqueued.swap(true, SeqCst) {'''),
     (L, '''        let mut head = self.list.load(SeqCst);
        let node = Arc::into_raw(data.clone()) as *mut Node<T>;
''', '''        let mut head = self.list.load(SeqCst);
''')],
    'a sleep re-armed or dropped before the driver has taken up its previous update',
    'the sleep and the waker it holds are never released',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (c, w) = waker();
    let mut a = sleep(ms(5));
    let _ = poll(&mut a, &w);
    drop(a);
    drop(w);
    advance(20_000);
    assert_eq!(Arc::strong_count(&c), 1, "a waker is leaked");
}
''')

bug('woken-before-fired', 'C27',
    [(T, '''            let bits = heap_timer.gen << 2;
            match heap_timer
                .node
                .state
                .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
            {
                Ok(_) => heap_timer.node.waker.wake(),
                Err(_b) => {}
            }
''', '''            let bits = heap_timer.gen << 2;
            if heap_timer.node.state.load(SeqCst) == bits {
                heap_timer.node.waker.wake();
                let _ = heap_timer
                    .node
                    .state
                    .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst);
            }
''')],
    'a task that is run synchronously from its wakeup',
    'it still sees a pending sleep, waits for another wakeup, and hangs',
    '''
use std::sync::Mutex;
use wasmtimer::tokio::{sleep, Sleep};
static TASK: Mutex<Option<Sleep>> = Mutex::new(None);
static DONE: Mutex<bool> = Mutex::new(false);
struct Inline;
impl Wake for Inline {
    fn wake(self: Arc<Self>) {
        let mut s = TASK.lock().unwrap().take().unwrap();
        if poll(&mut s, &Waker::from(self)).is_ready() {
            *DONE.lock().unwrap() = true;
        } else {
            *TASK.lock().unwrap() = Some(s);
        }
    }
}
fn main() {
    let mut a = sleep(ms(5));
    assert!(poll(&mut a, &Waker::from(Arc::new(Inline))).is_pending());
    *TASK.lock().unwrap() = Some(a);
    advance(50_000);
    assert!(*DONE.lock().unwrap(), "the task hangs");
}
''')

bug('lateness-below-a-second', 'C09',
    [(I, '''                let since_last_tick = Duration::from_nanos(
                    ((now - timeout).as_nanos() % period.as_nanos())
                        .try_into()
                        // This operation is practically guaranteed not to
                        // fail, as in order for it to fail, `period` would
                        // have to be longer than `now - timeout`, and both
                        // would have to be longer than 584 years.
                        //
                        // If it did fail, there's not a good way to pass
                        // the error along to the user, so we just panic.
                        .expect(
                            "too much time has elapsed since the interval was supposed to tick",
                        ),
                );
''', '''                let late = u128::from((now - timeout).subsec_nanos());
                let since_last_tick = Duration::from_nanos((late % period.as_nanos()) as u64);
''')],
    'a tick seen more than a second late with the skip policy and a period that does not divide a second',
    'the whole seconds of the lateness are left out, so that the next tick is off the grid',
    '''
use wasmtimer::tokio::{interval, MissedTickBehavior};
fn tick(i: &mut wasmtimer::tokio::Interval, w: &Waker) -> Poll<wasmtimer::std::Instant> {
    i.poll_tick(&mut Context::from_waker(w))
}
fn main() {
    let (_c, w) = waker();
    for late in [700, 1_400, 2_300] {
        let mut i = interval(ms(300));
        i.set_missed_tick_behavior(MissedTickBehavior::Skip);
        assert!(tick(&mut i, &w).is_pending());
        advance(1_000);
        let first = match tick(&mut i, &w) {
            Poll::Ready(t) => t,
            _ => panic!(),
        };
        advance(300_000 + late * 1_000);
        assert!(tick(&mut i, &w).is_ready());
        assert!(tick(&mut i, &w).is_pending());
        advance(400_000);
        match tick(&mut i, &w) {
            Poll::Ready(t) => assert_eq!((t - first).as_nanos() % 300_000_000, 0, "off the grid {late} ms late"),
            _ => panic!("no tick"),
        }
    }
}
''')

bug('heap-forgets-free-slots', 'C26',
    [(H, '        self.next_index = slot.idx;\n', '''        // Lower slots are reused first.
        if slot.idx < self.next_index {
            self.next_index = slot.idx;
        }
''')],
    'timers that are cancelled in an order in which a lower slot is free already, again and again',
    'freed slots of the heap are never used again, so that it grows for ever',
    '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use wasmtimer::tokio::sleep;
struct A;
static USED: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        USED.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn round() {
    let mut v: Vec<_> = (0..4).map(|i| sleep(ms(1000 + i))).collect();
    run();
    v.remove(0);
    run();
    v.remove(1);
    run();
    v.clear();
    run();
}
fn main() {
    for _ in 0..50 {
        round();
    }
    let before = USED.load(SeqCst);
    for _ in 0..1000 {
        round();
    }
    let after = USED.load(SeqCst);
    assert!(after - before < 4096, "memory in use went from {before} to {after}");
}
''')

bug('fires-the-new-generation', 'C03',
    [(T, '            let bits = heap_timer.gen << 2;\n', '            let bits = heap_timer.node.state.load(SeqCst) & !0b11;\n')],
    'a sleep re-armed by a task that is woken in the very turn in which the old deadline of that sleep is due',
    'the old deadline, still in the heap, fires the re-armed sleep early',
    '''
use std::sync::Mutex;
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep, Sleep};
static OTHER: Mutex<Option<Sleep>> = Mutex::new(None);
struct Rearm;
impl Wake for Rearm {
    fn wake(self: Arc<Self>) {
        if let Some(b) = OTHER.lock().unwrap().as_mut() {
            Pin::new(b).reset(Instant::now() + ms(500));
        }
    }
}
fn main() {
    let (_c, w) = waker();
    let mut a = sleep(ms(5));
    let mut b = sleep(ms(6));
    assert!(poll(&mut a, &Waker::from(Arc::new(Rearm))).is_pending());
    assert!(poll(&mut b, &w).is_pending());
    run();
    *OTHER.lock().unwrap() = Some(b);
    pass(10_000);
    run();
    let mut b = OTHER.lock().unwrap().take().unwrap();
    assert!(poll(&mut b, &w).is_pending(), "completed half a second early");
    advance(600_000);
    assert!(poll(&mut b, &w).is_ready());
}
''')

bug('batches-of-updates', 'C02',
    [(T, '        while let Some(node) = list.pop() {\n            let at = *node',
      '        // A bounded number of updates per turn, so as not to block the host.\n        for _ in 0..64 {\n            let node = match list.pop() {\n                Some(node) => node,\n                None => break,\n            };\n            let at = *node')],
    'more than 64 timers created between two turns of the event loop',
    'the updates beyond the 64th are dropped with the list, so that those sleeps never complete',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_c, w) = waker();
    let mut v: Vec<_> = (0..100).map(|i| sleep(ms(5 + i))).collect();
    for s in &mut v {
        assert!(poll(s, &w).is_pending());
    }
    advance(200_000);
    let late = v.iter().filter(|s| !s.is_elapsed()).count();
    assert_eq!(late, 0, "sleeps that did not complete");
}
''')

bug('before-the-epoch-all-equal', 'C15',
    [(STD, '        self.inner.partial_cmp(&other.inner).unwrap()\n', '        (self.inner.max(0.0) as u64).cmp(&(other.inner.max(0.0) as u64))\n')],
    'two times before 1970',
    'they compare as equal by cmp although they differ',
    '''
use wasmtimer::std::UNIX_EPOCH;
fn main() {
    let a = UNIX_EPOCH - ms(5);
    let b = UNIX_EPOCH - ms(3);
    assert!(a != b);
    assert!(a < b, "the earlier one is not less");
    assert!(a < UNIX_EPOCH);
}
''')

bug('add-assign-in-nanoseconds', 'C13',
    [(STD, '        *self = *self + other;\n    }\n}\n\nimpl Sub<Duration> for Instant {', '''        // In place, without the detour over Option.
        let nanos = self.0.as_nanos() + other.as_nanos();
        self.0 = Duration::from_nanos(nanos as u64);
    }
}

impl Sub<Duration> for Instant {''')],
    'adding more than 584 years in place',
    'the sum wraps in 64 bits of nanoseconds instead of being exact',
    '''
use wasmtimer::std::Instant;
fn main() {
    let a = Instant::now();
    for secs in [1u64, 1 << 33, 1 << 35, 1 << 40] {
        let d = Duration::from_secs(secs);
        let mut b = a;
        b += d;
        assert_eq!(b, a + d, "after {secs} s");
        assert_eq!(b - a, d);
    }
}
''')

bug('advance-in-microseconds', 'C12',
    [(C, '        (*base) += duration;\n', '        // The clock of the host does not resolve more than that either.\n        (*base) += Duration::from_micros(duration.as_micros() as u64);\n')],
    'advancing a paused clock by a part of a microsecond',
    'that part is lost, so that a sleep which became due by it does not fire',
    '''
use wasmtimer::tokio::{advance as adv, pause, sleep};
fn main() {
    let (_c, w) = waker();
    pause();
    let mut a = sleep(ns(1_000));
    assert!(poll(&mut a, &w).is_pending());
    for _ in 0..2 {
        assert!(!a.is_elapsed());
        let mut f = Box::pin(adv(ns(500)));
        assert!(poll(&mut f, &w).is_ready());
    }
    assert!(a.is_elapsed(), "the clock was advanced to the deadline");
}
''', features=['tokio-test-util'])

bug('reset-forgets-the-task', 'C21',
    [(S, '            *state.at.lock().unwrap() = Some(at);\n', '            // Whoever waited for the old deadline polls again.\n            state.waker.take();\n            *state.at.lock().unwrap() = Some(at);\n')],
    'a key removed from a delay queue while a task waits, so that the queue re-arms its sleep',
    'the waiting task is not woken for the remaining item',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (c, w) = waker();
    let mut q = DelayQueue::new();
    let a = q.insert(1, ms(10));
    q.insert(2, ms(30));
    let mut cx = Context::from_waker(&w);
    assert!(q.poll_expired(&mut cx).is_pending());
    run();
    q.remove(&a);
    advance(50_000);
    assert!(c.get() > 0, "the task was not woken for the second item");
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(Some(e)) if *e.get_ref() == 2));
}
''')

bug('announced-once', 'C29',
    [(T, 'pub struct Timer {\n    inner: Arc<Inner>,\n', 'pub struct Timer {\n    announced: Mutex<Option<Instant>>,\n    inner: Arc<Inner>,\n'),
     (T, '        Timer {\n            inner: Arc::new(Inner {', '        Timer {\n            announced: Mutex::new(None),\n            inner: Arc::new(Inner {'),
     (T, '        self.timer_heap.peek().map(|t| t.at)\n', '''        let next = self.timer_heap.peek().map(|t| t.at);
        // The host was asked for this one already.
        if next.is_some() && *self.announced.lock().unwrap() == next {
            return None;
        }
        *self.announced.lock().unwrap() = next;
        next
''')],
    'a host that calls back a little before the time it was asked for',
    'the deadline is not announced again after the early callback, so that the sleep completes seconds late',
    '''
use wasm_bindgen::__host::host;
use wasmtimer::tokio::sleep;
fn main() {
    let (_c, w) = waker();
    let mut a = sleep(ms(40));
    assert!(poll(&mut a, &w).is_pending());
    run();
    pass(39_000);
    // everything that is outstanding is delivered a millisecond early
    for p in std::mem::take(&mut host().pending) {
        p.cb.host_invoke();
    }
    assert!(!a.is_elapsed());
    advance(500_000);
    assert!(a.is_elapsed(), "still pending half a second late");
}
''')

bug('reset-of-the-expired', 'C19',
    [(Q, '        self.slab[*key].expired = false;\n\n        self.insert_idx(when, *key);', '        self.insert_idx(when, *key);')],
    'an item inserted with a deadline in the past, reset to a later one, and removed or reset again',
    'it is taken to be in the expired list still, from which it is unlinked instead of from the wheel',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    let old = Instant::now();
    q.insert(0, ms(5));
    assert!(q.poll_expired(&mut cx).is_pending());
    advance(20_000);
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(Some(_))));
    let a = q.insert_at(1, old);
    q.reset(&a, ms(10));
    q.insert(2, ms(10));
    assert_eq!(*q.remove(&a).get_ref(), 1);
    advance(30_000);
    match q.poll_expired(&mut cx) {
        Poll::Ready(Some(e)) => assert_eq!(*e.get_ref(), 2),
        _ => panic!("the other item was lost"),
    }
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(None)));
}
''')

bug('one-key-ahead', 'C20',
    [(Q, '        while self.key_map.contains_key(&Key::new(self.next_key_index)) {\n', '        if self.key_map.contains_key(&Key::new(self.next_key_index)) {\n')],
    'items inserted after a compaction whose slots carry several older keys in a row',
    'a key in use is chosen for the new item, and the insertion panics',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let mut q = DelayQueue::new();
    let k: Vec<_> = (0..5).map(|i| q.insert(i, ms(50))).collect();
    q.remove(&k[3]);
    q.compact();
    let a = q.insert(10, ms(50));
    let b = q.insert(11, ms(50));
    assert_eq!(*q.remove(&a).get_ref(), 10);
    assert_eq!(*q.remove(&b).get_ref(), 11);
    for i in [0, 1, 2, 4] {
        assert_eq!(*q.remove(&k[i]).get_ref(), i);
    }
}
''')

bug('range-from-the-creation', 'C22',
    [(W, '        } else if when - self.elapsed > MAX_DURATION {', '        } else if when > MAX_DURATION {')],
    'a queue in use for more than two years, or a deadline beyond two years after its creation',
    'a deadline within the range is refused with a panic',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    q.insert(0, ms((1 << 36) - 1_000));
    assert!(q.poll_expired(&mut cx).is_pending());
    run();
    pass(((1 << 36) - 500) * 1_000);
    run();
    advance(10_000);
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(Some(_))));
    q.insert(1, ms(5_000));
    assert!(q.poll_expired(&mut cx).is_pending());
    pass(6_000_000);
    run();
    advance(10_000);
    assert!(matches!(q.poll_expired(&mut cx), Poll::Ready(Some(_))));
}
''')

bug('reading-in-32-bits', 'C14',
    [(STD, '        let val = (performance_now() * 1000.0) as u64;\n', '        let val = u64::from((performance_now() * 1000.0) as u32);\n')],
    'a page open for more than 71 minutes',
    'the current instant stands still from then on',
    '''
use wasmtimer::std::Instant;
fn main() {
    let a = Instant::now();
    pass(5_000_000_000);
    let b = Instant::now();
    assert_eq!(b - a, us(5_000_000_000));
}
''')

bug('same-instant-in-one-wakeup', 'C28',
    [(T, '''                Ok(_) => heap_timer.node.waker.wake(),
                Err(_b) => {}
            }
''', '''                Ok(_) => heap_timer.node.waker.wake(),
                Err(_b) => {}
            }
            // What is due at the same instant belongs to the same wakeup.
            while self.timer_heap.peek().map_or(false, |next| next.at == heap_timer.at) {
                let twin = self.timer_heap.pop().unwrap();
                *twin.node.slot.lock().unwrap() = None;
                let bits = twin.gen << 2;
                let _ = twin.node.state.compare_exchange(bits, bits | 0b01, SeqCst, SeqCst);
            }
''')],
    'a sleep and a timeout (or two of the same kind) that are due at exactly the same instant',
    'the second of them completes without its task being woken',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::{sleep_until, timeout_at};
fn main() {
    let (a, wa) = waker();
    let (b, wb) = waker();
    let at = Instant::now() + ms(20);
    let mut s = sleep_until(at);
    let mut t = timeout_at(at, futures::future::pending::<()>());
    assert!(poll(&mut s, &wa).is_pending());
    assert!(poll(&mut t, &wb).is_pending());
    advance(30_000);
    assert_eq!((a.get(), b.get()), (1, 1), "one of the tasks was not woken");
}
''')

bug('slots-in-a-byte', 'C07',
    [(H, 'pub struct Slot {\n    idx: usize,\n}', 'pub struct Slot {\n    // a few hundred bytes per timer less\n    idx: u8,\n}'),
     (H, '        Slot { idx: slot_idx }', '        Slot { idx: slot_idx as u8 }'),
     (H, '            idx: self.items[0].1,\n        };\n        Some(self.remove(slot))', '''            idx: self.items[0].1 as u8,
        };
        if usize::from(slot.idx) != self.items[0].1 {
            let idx = self.items[0].1;
            return Some(self.take(idx));
        }
        Some(self.remove(slot))'''),
     (H, '    pub fn remove(&mut self, slot: Slot) -> T {\n        self.assert_consistent();', '''    pub fn remove(&mut self, slot: Slot) -> T {
        self.take(usize::from(slot.idx))
    }

    fn take(&mut self, slot: usize) -> T {
        self.assert_consistent();'''),
     (H, 'mem::replace(&mut self.index[slot.idx], empty)', 'mem::replace(&mut self.index[slot], empty)'),
     (H, '        self.next_index = slot.idx;', '        self.next_index = slot;'),
     (H, '        debug_assert_eq!(slot.idx, slot_idx);', '        debug_assert_eq!(slot, slot_idx);')],
    'more than 256 timers pending at once, one of the later of which is cancelled',
    'another timer is cancelled in its place',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (c, w) = waker();
    let mut v: Vec<_> = (0..300).map(|i| Box::pin(sleep(ms(100 + i)))).collect();
    for s in v.iter_mut() {
        assert!(poll(s, &w).is_pending());
    }
    run();
    // the first ones are no longer needed
    v.drain(..10);
    run();
    advance(1_000_000);
    for (i, s) in v.iter().enumerate() {
        assert!(s.is_elapsed(), "sleep {i} was cancelled");
    }
    assert_eq!(c.get(), 290);
}
''')

bug('late-by-whole-milliseconds', 'C09',
    [(I, '''        let now = Instant::now();

        let next = if now > timeout.saturating_add(Duration::from_millis(5)) {''', '''        let now = Instant::now();
        let late = now.duration_since(timeout);
        let next = if late.as_millis() > 5 {'''), (I, '                .next_timeout(timeout, now, self.interval)\n', '                .next_timeout(timeout, timeout + late, self.interval)\n')],
    'a tick seen more than five but less than six milliseconds late',
    'it is taken to be on time, so that the policy does not apply',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::{interval_at, MissedTickBehavior};
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let start = Instant::now();
    let mut i = interval_at(start, ms(20));
    i.set_missed_tick_behavior(MissedTickBehavior::Delay);
    run();
    pass(5_500);
    run();
    assert_eq!(i.poll_tick(&mut cx), Poll::Ready(start));
    advance(25_000);
    assert_eq!(i.poll_tick(&mut cx), Poll::Ready(start + us(25_500)), "the next tick is one period after the late one was seen");
}
''')

bug('dropped-before-its-first-turn', 'C04',
    [(S, '            *state.at.lock().unwrap() = None;\n            if timeouts.list.push(state).is_ok() {', '''            // Not in the heap: nothing to take out of it.
            if state.slot.lock().unwrap().is_none() {
                return;
            }
            *state.at.lock().unwrap() = None;
            if timeouts.list.push(state).is_ok() {''')],
    'a sleep that is polled and dropped before the driver has run',
    'the driver still takes it up, wakes its task at the deadline, and keeps its memory until then',
    '''
use wasmtimer::tokio::sleep;
fn main() {
    let (_c0, w0) = waker();
    let mut other = sleep(ms(500));
    assert!(poll(&mut other, &w0).is_pending());
    run();
    let (c, w) = waker();
    let mut s = Box::pin(sleep(ms(50)));
    assert!(poll(&mut s, &w).is_pending());
    drop(s);
    run();
    drop(w);
    assert_eq!(Arc::strong_count(&c), 1, "the waker of a dropped sleep is kept");
    advance(100_000);
    assert_eq!(c.get(), 0, "a dropped sleep woke its task");
}
''')

bug('reset-takes-the-waker', 'C03',
    [(S, '            *state.at.lock().unwrap() = Some(at);\n', '            *state.at.lock().unwrap() = Some(at);\n            // whoever waits has to poll again\n            state.waker.take();\n')],
    'a sleep re-armed by somebody else while a task waits on it',
    'the waiting task is never woken',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep;
fn main() {
    let (c, w) = waker();
    let mut s = sleep(ms(10));
    assert!(poll(&mut s, &w).is_pending());
    run();
    Pin::new(&mut s).reset(Instant::now() + ms(30));
    advance(60_000);
    assert!(s.is_elapsed());
    assert_eq!(c.get(), 1, "the task that was waiting is not woken");
}
''')

bug('names-by-their-beginning', 'C16',
    [(STD, '''                        match value {
                            "secs_since_epoch" => Ok(Field::Secs),
                            "nanos_since_epoch" => Ok(Field::Nanos),
''', '''                        match value {
                            _ if value.starts_with("secs_since_") => Ok(Field::Secs),
                            _ if value.starts_with("nanos_since_") => Ok(Field::Nanos),
''')],
    'a record with seconds since something else than the epoch',
    'it is taken for a time since the epoch',
    '''
use wasmtimer::std::SystemTime;
fn main() {
    let t = serde_json::from_str::<SystemTime>("{\\"secs_since_epoch\\":5,\\"nanos_since_epoch\\":0}");
    assert!(t.is_ok());
    let t = serde_json::from_str::<SystemTime>("{\\"secs_since_start\\":5,\\"nanos_since_start\\":0}");
    assert!(t.is_err(), "accepted");
}
''', features=['serde'])

bug('ordering-in-microseconds', 'C13',
    [(STD, '        self.0.partial_cmp(&other.0).unwrap()\n', '        self.0.as_micros().cmp(&other.0.as_micros())\n')],
    'two instants less than a microsecond apart',
    'they compare as equal though their difference is not zero',
    '''
use wasmtimer::std::Instant;
fn main() {
    let a = Instant::now() + ns(1_000);
    let b = a + ns(300);
    assert_eq!(b - a, ns(300));
    assert!(b > a, "not later");
    assert_eq!(b.max(a), b);
}
''')

bug('milliseconds-cut-off', 'C22',
    [(M, """    // Round up.
    let millis = match round {
        Round::Up => (duration.subsec_nanos() + NANOS_PER_MILLI - 1) / NANOS_PER_MILLI,
        Round::Down => duration.subsec_millis(),
    };

    duration
        .as_secs()
        .saturating_mul(MILLIS_PER_SEC)
        .saturating_add(u64::from(millis))
""", """    let nanos = match round {
        Round::Up => duration.as_nanos() + NANOS_PER_MILLI - 1,
        Round::Down => duration.as_nanos(),
    };

    (nanos / NANOS_PER_MILLI) as u64
"""),
     (M, """    const NANOS_PER_MILLI: u32 = 1_000_000;
    const MILLIS_PER_SEC: u64 = 1_000;
""", "    const NANOS_PER_MILLI: u128 = 1_000_000;\n")],
    'a timeout just above a multiple of 2^64 milliseconds',
    'it is taken for a short one instead of being refused, and the item comes out early',
    '''
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let mut q = DelayQueue::new();
    let far = Duration::from_secs(18_446_744_073_709_552);
    let r = catch_unwind(AssertUnwindSafe(|| q.insert(1, far)));
    assert!(r.is_err(), "a timeout of half a billion years is accepted");
}
''')

bug('ticks-counted-in-16-bits', 'C08',
    [(I, "    interval: Duration,\n", "    interval: Duration,\n    /// Where the ticks are counted from, so that no error adds up, and how many there were.\n    start: Instant,\n    count: u16,\n"),
     (I, "            interval: dur,\n", "            interval: dur,\n            start: at,\n            count: 0,\n"),
     (I, """        Pin::new(&mut self.sleep).reset(next);
        Poll::Ready(timeout)
""", """        self.count = self.count.wrapping_add(1);
        let expected = self.interval.checked_mul(u32::from(self.count)).and_then(|d| self.start.checked_add(d));
        match expected {
            Some(at) if next == timeout.saturating_add(self.interval) => Pin::new(&mut self.sleep).reset(at),
            _ => self.restart(next),
        }
        Poll::Ready(timeout)
"""),
     (I, "        Pin::new(&mut self.sleep).reset(Instant::now().saturating_add(self.interval));\n    }\n", """        self.restart(Instant::now().saturating_add(self.interval));
    }

    fn restart(&mut self, at: Instant) {
        self.start = at;
        self.count = 0;
        Pin::new(&mut self.sleep).reset(at);
    }
""")],
    'an interval that has ticked 65536 times in time',
    'its next tick is due where it started from, and thousands more follow at once',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::interval_at;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut at = Instant::now() + ms(10);
    let mut i = interval_at(at, ms(10));
    for n in 0..66_000 {
        advance(10_000);
        assert_eq!(i.poll_tick(&mut cx), Poll::Ready(at), "tick {n}");
        at += ms(10);
        assert!(i.poll_tick(&mut cx).is_pending(), "after tick {n}");
    }
}
''')

bug('gives-way-now-and-then', 'C10',
    [(O, "    delay: Sleep,\n    future: T,\n", "    delay: Sleep,\n    future: T,\n    polls: u8,\n"),
     (O, "            delay: Sleep::new(dur),\n            future: fut,\n", "            delay: Sleep::new(dur),\n            future: fut,\n            polls: 0,\n"),
     (O, "            delay: Sleep::new_at(at),\n            future: fut,\n", "            delay: Sleep::new_at(at),\n            future: fut,\n            polls: 0,\n"),
     (O, """        match self.as_mut().future().poll(cx) {
            Poll::Pending => {}
""", """        // A future that is polled over and over gives way to other tasks from time to time.
        let this = unsafe { self.as_mut().get_unchecked_mut() };
        this.polls = this.polls.wrapping_add(1);
        if this.polls == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }

        match self.as_mut().future().poll(cx) {
            Poll::Pending => {}
""")],
    'the 256th poll of a timeout',
    'the future is not polled, and neither its value nor the error is given',
    '''
use wasmtimer::tokio::timeout;
fn main() {
    let (_c, w) = waker();
    let polls = std::cell::Cell::new(0);
    let mut t = Box::pin(timeout(ms(100), std::future::poll_fn(|_| {
        polls.set(polls.get() + 1);
        if polls.get() < 300 { Poll::Pending } else { Poll::Ready(7) }
    })));
    run();
    for n in 1..300 {
        assert!(poll(&mut t, &w).is_pending());
        assert_eq!(polls.get(), n, "the future is not polled");
    }
    assert!(matches!(poll(&mut t, &w), Poll::Ready(Ok(7))));
}
''')

bug('gives-way-without-a-wake', 'C21',
    [(Q, "    pub fn poll_expired(&mut self, cx: &mut task::Context<'_>) -> Poll<Option<Expired<T>>> {\n", """    pub fn poll_expired(&mut self, cx: &mut task::Context<'_>) -> Poll<Option<Expired<T>>> {
        if self.in_a_row == 128 {
            // Other tasks want to run, too.
            self.in_a_row = 0;
            self.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
"""),
     (Q, "        let item = ready!(self.poll_idx(cx));\n        Poll::Ready(item.map(|key| {\n            let data", """        let item = self.poll_idx(cx);
        self.in_a_row += item.is_ready() as u32;
        let item = ready!(item);
        Poll::Ready(item.map(|key| {
            let data"""),
     (Q, "    waker: Option<Waker>,\n", "    waker: Option<Waker>,\n\n    /// Items yielded since other tasks had their turn.\n    in_a_row: u32,\n"),
     (Q, "            waker: None,\n", "            waker: None,\n            in_a_row: 0,\n")],
    'more than 128 items yielded by one queue',
    'the task is told to wait after 128 of them and not woken again',
    '''
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    for i in 0..200 {
        q.insert(i, ms(10));
    }
    assert!(q.poll_expired(&mut cx).is_pending());
    advance(20_000);
    let mut got = 0;
    let mut seen = 0;
    while c.get() > seen {
        seen = c.get();
        while let Poll::Ready(Some(_)) = q.poll_expired(&mut cx) {
            got += 1;
        }
        run();
    }
    assert_eq!(got, 200, "some are due and nobody is woken");
}
''')

bug('at-most-200-in-a-turn', 'C12',
    [(T, "        loop {\n            match self.timer_heap.peek() {\n                Some(head) if head.at <= now => {}", """        // The rest is for the next turn.
        for _ in 0..200 {
            match self.timer_heap.peek() {
                Some(head) if head.at <= now => {}""")],
    'more than 200 sleeps that become due by one advance of a paused clock',
    'the advance returns before all of them are elapsed',
    '''
use wasmtimer::tokio::{sleep, {advance as advance_clock, pause}};
fn main() {
    let (c, w) = waker();
    run();
    pause();
    let mut v: Vec<_> = (0..250).map(|_| Box::pin(sleep(ms(10)))).collect();
    for s in v.iter_mut() {
        assert!(poll(s, &w).is_pending());
    }
    let mut a = Box::pin(advance_clock(ms(20)));
    while poll(&mut a, &w).is_pending() {
        run();
    }
    assert!(v.iter().all(|s| s.is_elapsed()), "some are not elapsed");
    assert_eq!(c.get(), 250);
}
''', features=['tokio-test-util'])

bug('rounded-up-from-microseconds', 'C17',
    [(M, """    const NANOS_PER_MILLI: u32 = 1_000_000;
""", """    const MICROS_PER_MILLI: u32 = 1_000;
"""),
     (M, "Round::Up => (duration.subsec_nanos() + NANOS_PER_MILLI - 1) / NANOS_PER_MILLI,", "Round::Up => (duration.subsec_micros() + MICROS_PER_MILLI - 1) / MICROS_PER_MILLI,")],
    'a deadline less than a microsecond after a whole millisecond',
    'the item is yielded some nanoseconds before its deadline',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio_util::DelayQueue;
fn main() {
    let (_c, w) = waker();
    let mut cx = Context::from_waker(&w);
    let mut q = DelayQueue::new();
    let at = Instant::now() + ms(5) + ns(300);
    q.insert_at(1, at);
    assert!(q.poll_expired(&mut cx).is_pending());
    advance(5_000);
    let r = q.poll_expired(&mut cx);
    assert!(Instant::now() >= at || r.is_pending(), "yielded early");
}
''')

bug('due-within-a-microsecond', 'C01',
    [(T, "                Some(head) if head.at <= now => {}", "                // The clock does not count anything smaller.\n                Some(head) if head.at.saturating_duration_since(now).as_micros() == 0 => {}")],
    'a deadline less than a microsecond after the time at which the driver runs',
    'the sleep is elapsed some nanoseconds before its deadline',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep_until;
fn main() {
    let (_c, w) = waker();
    let at = Instant::now() + ms(5) + ns(300);
    let mut s = sleep_until(at);
    assert!(poll(&mut s, &w).is_pending());
    advance(5_000);
    assert!(Instant::now() >= at || !s.is_elapsed(), "elapsed early");
}
''')

bug('timeout-in-microseconds', 'C10',
    [(O, "            delay: Sleep::new(dur),\n", "            delay: Sleep::new(Duration::from_micros(dur.as_micros().try_into().unwrap_or(u64::MAX))),\n")],
    'a timeout that is not a whole number of microseconds',
    'the error comes some nanoseconds before the deadline',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::timeout;
fn main() {
    let (_c, w) = waker();
    let at = Instant::now() + ms(5) + ns(300);
    let mut t = Box::pin(timeout(ms(5) + ns(300), std::future::pending::<()>()));
    assert!(poll(&mut t, &w).is_pending());
    advance(5_000);
    let r = poll(&mut t, &w);
    assert!(Instant::now() >= at || r.is_pending(), "an error before the deadline");
}
''')

bug('same-microsecond-same-time', 'C07',
    [(T, "        self.at.cmp(&other.at)", """        // The clock does not tell these apart.
        let apart = self.at.saturating_duration_since(other.at) + other.at.saturating_duration_since(self.at);
        if apart.as_micros() == 0 {
            return Ordering::Equal;
        }
        self.at.cmp(&other.at)""")],
    'timers less than a microsecond apart, added in the wrong order',
    'they fire in the wrong order',
    '''
use wasmtimer::std::Instant;
use wasmtimer::tokio::sleep_until;
use std::sync::Mutex;
static LOG: Mutex<Vec<usize>> = Mutex::new(Vec::new());
struct Note(usize);
impl std::task::Wake for Note {
    fn wake(self: Arc<Self>) {
        LOG.lock().unwrap().push(self.0);
    }
}
fn main() {
    let at = Instant::now() + ms(5);
    for order in [[0, 1], [1, 0]] {
        LOG.lock().unwrap().clear();
        let at = at.max(Instant::now()) + ms(5);
        let mut a = sleep_until(at + ns(200 * order[0]));
        let mut b = sleep_until(at + ns(200 * order[1]));
        assert!(poll(&mut a, &Waker::from(Arc::new(Note(order[0] as usize)))).is_pending());
        assert!(poll(&mut b, &Waker::from(Arc::new(Note(order[1] as usize)))).is_pending());
        advance(20_000);
        assert_eq!(*LOG.lock().unwrap(), [0, 1]);
    }
}
''')

bug('timeout-waits-for-its-first-task', 'C10',
    [(O, "    delay: Sleep,\n    future: T,\n", "    delay: Sleep,\n    future: T,\n    /// The delay knows whom to wake.\n    waiting: bool,\n"),
     (O, "            delay: Sleep::new(dur),\n            future: fut,\n", "            delay: Sleep::new(dur),\n            future: fut,\n            waiting: false,\n"),
     (O, "            delay: Sleep::new_at(at),\n            future: fut,\n", "            delay: Sleep::new_at(at),\n            future: fut,\n            waiting: false,\n"),
     (O, """        if self.delay().poll(cx).is_ready() {
            Poll::Ready(Err(Elapsed::new()))
""", """        if self.waiting && !self.delay.is_elapsed() {
            return Poll::Pending;
        }

        unsafe { self.as_mut().get_unchecked_mut() }.waiting = true;
        if self.delay().poll(cx).is_ready() {
            Poll::Ready(Err(Elapsed::new()))
""")],
    'a timeout polled by one task and then by another',
    'the deadline wakes the task that polled first, and the other one waits for ever',
    '''
use wasmtimer::tokio::timeout;
fn main() {
    let (_a, wa) = waker();
    let (b, wb) = waker();
    let mut t = Box::pin(timeout(ms(10), std::future::pending::<()>()));
    assert!(poll(&mut t, &wa).is_pending());
    run();
    assert!(poll(&mut t, &wb).is_pending());
    advance(20_000);
    assert!(b.get() > 0, "the task that waits is not woken");
    assert!(matches!(poll(&mut t, &wb), Poll::Ready(Err(_))));
}
''')
