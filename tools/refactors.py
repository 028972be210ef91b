"""Changes to /repo that keep its behaviour: every check has to stay quiet on them (python3 refactor.py)."""
R = []


def r(name, *edits):
    R.append((name, edits))


r('advance-while-let', ('src/timer/mod.rs', """        loop {
            match self.timer_heap.peek() {
                Some(head) if head.at <= now => {}
                Some(_) => break,
                None => break,
            };

            // Flag""", """        while let Some(head) = self.timer_heap.peek() {
            if head.at > now {
                break;
            }

            // Flag"""))
r('unslot-helper', ('src/timer/mod.rs', """        let mut slot = node.slot.lock().unwrap();
        if let Some(heap_slot) = slot.take() {
            self.timer_heap.remove(heap_slot);
        }
        *slot = Some(self.timer_heap.push(HeapTimer {
            at,
            gen,
            node: node.clone(),
        }));
    }
""", """        self.unslot(&node);
        let pushed = self.timer_heap.push(HeapTimer {
            at,
            gen,
            node: node.clone(),
        });
        *node.slot.lock().unwrap() = Some(pushed);
    }

    fn unslot(&mut self, node: &Arc<Node<ScheduledTimer>>) {
        let old = node.slot.lock().unwrap().take();
        if let Some(heap_slot) = old {
            drop(self.timer_heap.remove(heap_slot));
        }
    }
"""), ('src/timer/mod.rs', """        let mut slot = node.slot.lock().unwrap();
        let heap_slot = match slot.take() {
            Some(slot) => slot,
            None => return,
        };
        self.timer_heap.remove(heap_slot);
""", """        self.unslot(&node);
"""))
r('drop-heap-first', ('src/timer/mod.rs', """        while let Some(t) = list.pop() {
            self.invalidate(t);
        }
        while let Some(t) = self.timer_heap.pop() {
            self.invalidate(t.node);
        }
""", """        while let Some(HeapTimer { node, .. }) = self.timer_heap.pop() {
            self.invalidate(node);
        }
        loop {
            match list.pop() {
                Some(t) => self.invalidate(t),
                None => break,
            }
        }
"""))
r('poll-collects-first', ('src/timer/mod.rs', """        while let Some(node) = list.pop() {
            let at = *node.at.lock().unwrap();
            match at {
                Some(at) => self.update_or_add(at, node),
                None => self.remove(node),
            }
        }
""", """        let mut nodes = Vec::new();
        while let Some(node) = list.pop() {
            nodes.push(node);
        }
        for node in nodes {
            let at = node.at.lock().unwrap().clone();
            if let Some(at) = at {
                self.update_or_add(at, node);
            } else {
                self.remove(node);
            }
        }
"""))
r('heap-without-checks', ('src/timer/heap.rs', """    fn assert_consistent(&self) {
        assert_eq!(""", """    fn assert_consistent(&self) {
        if !cfg!(debug_assertions) {
            return;
        }
        assert_eq!("""))
r('heap-sift-both', ('src/timer/heap.rs', """            if self.items[idx].0 < item {
                self.percolate_up(idx);
            } else {
                self.percolate_down(idx);
            }
""", """            let at = self.percolate_up(idx);
            if at == idx {
                self.percolate_down(idx);
            }
"""))
r('heap-down-rewritten', ('src/timer/heap.rs', """            let mut swap_left = true;
            match (self.items.get(left), self.items.get(right)) {
                (Some(left), None) => {
                    if left.0 >= self.items[idx].0 {
                        break;
                    }
                }
                (Some(left), Some(right)) => {
                    if left.0 < self.items[idx].0 {
                        if right.0 < left.0 {
                            swap_left = false;
                        }
                    } else if right.0 < self.items[idx].0 {
                        swap_left = false;
                    } else {
                        break;
                    }
                }

                (None, None) => break,
                (None, Some(_right)) => panic!("not possible"),
            }

            let (a, b) = if swap_left {
                self.items.split_at_mut(left)
            } else {
                self.items.split_at_mut(right)
            };
            mem::swap(&mut a[idx], &mut b[0]);
            set_index(&mut self.index, a[idx].1, idx);
            set_index(&mut self.index, b[0].1, a.len());
            idx = a.len();
""", """            let mut least = idx;
            for child in [left, right] {
                if child < self.items.len() && self.items[child].0 < self.items[least].0 {
                    least = child;
                }
            }
            if least == idx {
                break;
            }
            self.items.swap(idx, least);
            set_index(&mut self.index, self.items[idx].1, idx);
            set_index(&mut self.index, self.items[least].1, least);
            idx = least;
"""))
r('list-weak-exchange', ('src/timer/arc_list.rs', """            match self.list.compare_exchange(head, node, SeqCst, SeqCst) {
                Ok(_) => break Ok(()),
                Err(new_head) => head = new_head,
            }
""", """            if let Err(new_head) = self.list.compare_exchange_weak(head, node, SeqCst, SeqCst) {
                head = new_head;
                continue;
            }
            return Ok(());
"""))
r('list-take-swaps', ('src/timer/arc_list.rs', """        let mut list = self.list.load(SeqCst);
        loop {
            if list == Node::sealed() {
                break;
            }
            match self
                .list
                .compare_exchange(list, Node::EMPTY, SeqCst, SeqCst)
            {
                Ok(_) => break,
                Err(l) => list = l,
            }
        }
""", """        let list = match self.list.fetch_update(SeqCst, SeqCst, |l| {
            if l == Node::sealed() {
                None
            } else {
                Some(Node::EMPTY)
            }
        }) {
            Ok(l) => l,
            Err(l) => l,
        };
"""))
r('sleep-poll-one-check', ('src/tokio/sleep.rs', """        if state.state.load(Ordering::SeqCst) & 1 != 0 {
            return Poll::Ready(());
        }

        state.waker.register(cx.waker());
""", """        state.waker.register(cx.waker());
"""), ('src/tokio/sleep.rs', """            n if n & 0b01 != 0 => Poll::Ready(()),
            n if n & 0b10 != 0 => panic!("Timer has gone away"),
            _ => Poll::Pending,
""", """            n => {
                if n & 0b01 == 0b01 {
                    Poll::Ready(())
                } else if n & 0b10 == 0b10 {
                    panic!("Timer has gone away")
                } else {
                    Poll::Pending
                }
            }
"""))
r('sleep-drop-early', ('src/tokio/sleep.rs', """        if let Some(timeouts) = state.inner.upgrade() {
            *state.at.lock().unwrap() = None;
            if timeouts.list.push(state).is_ok() {
                timeouts.waker.wake();
            }
        }
""", """        *state.at.lock().unwrap() = None;
        let timeouts = match state.inner.upgrade() {
            Some(timeouts) => timeouts,
            None => return,
        };
        if let Ok(()) = timeouts.list.push(state) {
            timeouts.waker.wake();
        }
"""))
r('sleep-reset-update', ('src/tokio/sleep.rs', """            let mut bits = state.state.load(Ordering::SeqCst);
            loop {
                // If we've been invalidated, cancel this reset
                if bits & 0b10 != 0 {
                    return Err(());
                }
                let new = bits.wrapping_add(0b100) & !0b11;
                match state
                    .state
                    .compare_exchange(bits, new, Ordering::SeqCst, Ordering::SeqCst)
                {
                    Ok(_) => break,
                    Err(s) => bits = s,
                }
            }
            *state.at.lock().unwrap() = Some(at);
""", """            state
                .state
                .fetch_update(Ordering::SeqCst, Ordering::SeqCst, next_generation)
                .map_err(|_| ())?;
            let mut slot = state.at.lock().unwrap();
            *slot = Some(at);
            drop(slot);
"""), ('src/tokio/sleep.rs', """impl Drop for Sleep {""", """/// The state for the next generation, unless the timer has gone away.
fn next_generation(bits: usize) -> Option<usize> {
    if bits & 0b10 == 0 {
        Some(((bits >> 2).wrapping_add(1)) << 2)
    } else {
        None
    }
}

impl Drop for Sleep {"""))
r('sleep-ctor-helper', ('src/tokio/sleep.rs', """        let inner = match handle.inner.upgrade() {
            Some(i) => i,
            None => {
                return Sleep {
                    state: None,
                    deadline: at,
                }
            }
        };
        let state = Arc::new(Node::new(ScheduledTimer {
            at: Mutex::new(Some(at)),
            state: AtomicUsize::new(0),
            waker: AtomicWaker::new(),
            inner: handle.inner,
            slot: Mutex::new(None),
        }));
""", """        let inner = match handle.inner.upgrade() {
            Some(i) => i,
            None => return Sleep::inert(at),
        };
        let state = Sleep::node(at, handle);
"""), ('src/tokio/sleep.rs', """            return Sleep {
                state: None,
                deadline: at,
            };
        }

        inner.waker.wake();
        Sleep {
            state: Some(state),
            deadline: at,
        }
    }
""", """            return Sleep::inert(at);
        }

        let sleep = Sleep {
            state: Some(state),
            deadline: at,
        };
        inner.waker.wake();
        sleep
    }

    fn inert(deadline: Instant) -> Sleep {
        Sleep {
            state: None,
            deadline,
        }
    }

    fn node(at: Instant, handle: TimerHandle) -> Arc<Node<ScheduledTimer>> {
        let TimerHandle { inner } = handle;
        Arc::new(Node::new(ScheduledTimer {
            slot: Mutex::new(None),
            at: Mutex::new(Some(at)),
            state: AtomicUsize::new(0),
            waker: AtomicWaker::new(),
            inner,
        }))
    }
"""))
r('driver-delay-helper', ('src/timer/global.rs', """    timer_lock
        .next_event()
        .map(|next_event| {
            if next_event > now {
                next_event - now
            } else {
                Duration::new(0, 0)
            }
        })
        .unwrap_or(Duration::from_secs(5))
}
""", """    match timer_lock.next_event() {
        Some(next_event) => until(next_event, now),
        None => Duration::from_millis(5_000),
    }
}

fn until(event: Instant, now: Instant) -> Duration {
    event.checked_duration_since(now).unwrap_or(Duration::ZERO)
}
"""))
r('driver-millis-min', ('src/timer/global.rs', """    let millis = i32::try_from(when.as_millis()).unwrap_or(i32::MAX);
""", """    let millis = when.as_millis().min(i32::MAX as u128) as i32;
"""))
r('driver-one-waker', ('src/timer/global.rs', """    let now = loop {
        // We start by polling the timer. If any new `Delay` is created, the waker will be used
        // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
        // `schedule_callback` with a delay of `0`.
        let waker = waker(driver);
        let _ =""", """    let waker = waker(driver);
    let now = loop {
        let _ ="""))
r('interval-late-helper', ('src/tokio/interval.rs', """        let timeout = self.sleep.deadline();
        let now = Instant::now();

        let next = if now > timeout.saturating_add(Duration::from_millis(5)) {
            self.missed_tick_behavior
                .next_timeout(timeout, now, self.interval)
        } else {
            timeout.saturating_add(self.interval)
        };
""", """        let now = Instant::now();
        let timeout = self.sleep.deadline();
        let next = self.following(timeout, now);
"""), ('src/tokio/interval.rs', """    pub async fn tick(""", """    fn following(&self, timeout: Instant, now: Instant) -> Instant {
        const TOLERANCE: Duration = Duration::from_millis(5);
        if now <= timeout.saturating_add(TOLERANCE) {
            return timeout.saturating_add(self.interval);
        }
        self.missed_tick_behavior
            .next_timeout(timeout, now, self.interval)
    }

    pub async fn tick("""))
r('timeout-if-let', ('src/tokio/timeout.rs', """        match self.as_mut().future().poll(cx) {
            Poll::Pending => {}
            Poll::Ready(other) => return Poll::Ready(Ok(other)),
        }

        if self.delay().poll(cx).is_ready() {
            Poll::Ready(Err(Elapsed::new()))
        } else {
            Poll::Pending
        }
""", """        if let Poll::Ready(value) = self.as_mut().future().poll(cx) {
            return Poll::Ready(Ok(value));
        }

        self.delay().poll(cx).map(|()| Err(Elapsed::new()))
"""))
r('clock-one-lock', ('src/timer/clock.rs', """        if self.inner.unfrozen.lock().unwrap().is_some() {
            panic!("time is not frozen");
        }

        let mut unforzen = self.inner.unfrozen.lock().unwrap();
        (*unforzen) = Some(Instant::now_js());
""", """        let mut unfrozen = self.inner.unfrozen.lock().unwrap();
        match *unfrozen {
            Some(_) => {
                drop(unfrozen);
                panic!("time is not frozen");
            }
            None => *unfrozen = Some(Instant::now_js()),
        }
"""), ('src/timer/clock.rs', """        let mut ret = *self.inner.base.lock().unwrap();

        let unfrozen = self.inner.unfrozen.lock().unwrap();

        if let Some(unfrozen) = *unfrozen {
            ret += Instant::now_js() - unfrozen;
        }

        ret
""", """        let base = *self.inner.base.lock().unwrap();
        let unfrozen = *self.inner.unfrozen.lock().unwrap();
        match unfrozen {
            None => base,
            Some(since) => base + (Instant::now_js() - since),
        }
"""))
r('clock-pause-through-now', ('src/timer/clock.rs', """        let elapsed = Instant::now_js() - unfrozen;
        let mut base = self.inner.base.lock().unwrap();
        (*base) += elapsed;
        let mut unfrozen = self.inner.unfrozen.lock().unwrap();
        (*unfrozen) = None;
""", """        let _ = unfrozen;
        let now = self.now();
        *self.inner.base.lock().unwrap() = now;
        *self.inner.unfrozen.lock().unwrap() = None;
"""))
r('instant-ord-derived', ('src/std.rs', """        self.0.partial_cmp(&other.0).unwrap()
    }
}

impl Instant {""", """        self.0.cmp(&other.0)
    }
}

impl Instant {"""), ('src/std.rs', """        self.0.checked_add(duration).map(Instant)
    }

    pub fn checked_sub""", """        match self.0.checked_add(duration) {
            Some(d) => Some(Instant(d)),
            None => None,
        }
    }

    pub fn checked_sub""") if False else ('src/std.rs', """        *self = *self + other;
    }
}

impl Sub<Duration> for Instant {""", """        let sum = *self + other;
        *self = sum;
    }
}

impl Sub<Duration> for Instant {"""))
r('system-time-branches', ('src/std.rs', """        let dur_ms = self.inner - earlier.inner;
        if dur_ms < 0.0 {
            return Err(SystemTimeError(Duration::from_millis(dur_ms.abs() as u64)));
        }
        Ok(Duration::from_millis(dur_ms as u64))
""", """        if self.inner >= earlier.inner {
            Ok(Duration::from_millis((self.inner - earlier.inner) as u64))
        } else {
            let behind = earlier.inner - self.inner;
            Err(SystemTimeError(Duration::from_millis(behind as u64)))
        }
"""))
r('now-js-split', ('src/std.rs', """        let val = (performance_now() * 1000.0) as u64;
        Instant(Duration::from_micros(val))
""", """        let micros = performance_now() * 1e3;
        let micros = micros as u64;
        Instant(Duration::new(micros / 1_000_000, (micros % 1_000_000) as u32 * 1_000))
"""))
r('queue-wake-helper', ('src/tokio_util/delay_queue.rs', """        if inserted_expired {
            if let Some(waker) = self.waker.take() {
                waker.wake();
            }
        }
    }
""", """        if inserted_expired {
            self.notify();
        }
    }

    fn notify(&mut self) {
        match self.waker.take() {
            Some(waker) => waker.wake(),
            None => {}
        }
    }

    fn arm(&mut self) {
        let next = self.next_deadline();
        match next {
            None => self.delay = None,
            Some(deadline) => match self.delay {
                Some(ref mut delay) => delay.as_mut().reset(deadline),
                None => self.delay = Some(Box::pin(sleep_until(deadline))),
            },
        }
    }
"""), ('src/tokio_util/delay_queue.rs', """        let next_deadline = self.next_deadline();
        match (next_deadline, &mut self.delay) {
            (None, _) => self.delay = None,
            // This should awaken us if necessary (ie, if already expired)
            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
            (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
        }

        if inserted_expired {""", """        self.arm();

        if inserted_expired {"""))
r('queue-keeps-its-sleep', ('src/tokio_util/delay_queue.rs', """            self.delay = self.next_deadline().map(|when| Box::pin(sleep_until(when)));

            if let""", """            match (self.next_deadline(), &mut self.delay) {
                (None, delay) => *delay = None,
                (Some(when), Some(delay)) => {
                    if delay.deadline() != when {
                        delay.as_mut().reset(when)
                    }
                }
                (Some(when), delay) => *delay = Some(Box::pin(sleep_until(when))),
            }

            if let"""))
r('queue-waker-clone-always', ('src/tokio_util/delay_queue.rs', """        if !self
            .waker
            .as_ref()
            .map(|w| w.will_wake(cx.waker()))
            .unwrap_or(false)
        {
            self.waker = Some(cx.waker().clone());
        }
""", """        self.waker = Some(cx.waker().clone());
"""))
r('queue-remove-reordered', ('src/tokio_util/delay_queue.rs', """        let prev_deadline = self.next_deadline();

        self.remove_key(key);
        let data = self.slab.remove(key);

        let next_deadline = self.next_deadline();
        if prev_deadline != next_deadline {
            match (next_deadline, &mut self.delay) {
                (None, _) => self.delay = None,
                (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
                (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
            }
        }
""", """        let before = self.wheel.poll_at();
        self.remove_key(key);
        let after = self.wheel.poll_at();
        let data = self.slab.remove(key);

        if before != after {
            if let Some(when) = after {
                let deadline = self.start + Duration::from_millis(when);
                match &mut self.delay {
                    Some(delay) => delay.as_mut().reset(deadline),
                    None => self.delay = Some(Box::pin(sleep_until(deadline))),
                }
            } else {
                self.delay = None;
            }
        }
"""))
r('wheel-find-map', ('src/tokio_util/wheel/mod.rs', """        for level in 0..NUM_LEVELS {
            if let Some(expiration) = self.levels[level].next_expiration(self.elapsed) {
                // There cannot be any expirations at a higher level that happen
                // before this one.
                debug_assert!(self.no_expirations_before(level + 1, expiration.deadline));

                return Some(expiration);
            }
        }

        None
""", """        let elapsed = self.elapsed;
        let found = self
            .levels
            .iter()
            .find_map(|level| level.next_expiration(elapsed));
        if let Some(e) = &found {
            debug_assert!(self.no_expirations_before(e.level + 1, e.deadline));
        }
        found
"""))
r('wheel-poll-rewritten', ('src/tokio_util/wheel/mod.rs', """        loop {
            let expiration = self.next_expiration().and_then(|expiration| {
                if expiration.deadline > now {
                    None
                } else {
                    Some(expiration)
                }
            });

            match expiration {
                Some(ref expiration) => {
                    if let Some(item) = self.poll_expiration(expiration, store) {
                        return Some(item);
                    }

                    self.set_elapsed(expiration.deadline);
                }
                None => {""", """        loop {
            match self.next_expiration() {
                Some(ref expiration) if expiration.deadline <= now => {
                    let item = self.poll_expiration(expiration, store);
                    if item.is_some() {
                        return item;
                    }

                    self.set_elapsed(expiration.deadline);
                }
                _ => {"""))
r('level-shifts', ('src/tokio_util/wheel/level.rs', """    LEVEL_MULT.pow(level as u32) as u64
""", """    1u64 << (6 * level)
"""), ('src/tokio_util/wheel/level.rs', """    ((duration >> (level * 6)) % LEVEL_MULT as u64) as usize
""", """    (duration / slot_range(level)) as usize & (LEVEL_MULT - 1)
"""), ('src/tokio_util/wheel/level.rs', """        let occupied = self.occupied.rotate_right(now_slot as u32);
        let zeros = occupied.trailing_zeros() as usize;
        let slot = (zeros + now_slot) % 64;

        Some(slot)
""", """        (0..LEVEL_MULT)
            .map(|i| (now_slot + i) % LEVEL_MULT)
            .find(|slot| self.occupied & occupied_bit(*slot) != 0)
"""))
r('level-mask-and-not', ('src/tokio_util/wheel/level.rs', """        let ret = self.slot[slot].pop(store);

        if ret.is_some() && self.slot[slot].is_empty() {
            // The bit is currently set
            debug_assert!(self.occupied & occupied_bit(slot) != 0);

            self.occupied ^= occupied_bit(slot);
        }

        ret
""", """        let ret = self.slot[slot].pop(store);
        if self.slot[slot].is_empty() {
            self.occupied &= !occupied_bit(slot);
        }
        ret
"""))
r('ms-rounding', ('src/tokio_util/mod.rs', """    let millis = match round {
        Round::Up => (duration.subsec_nanos() + NANOS_PER_MILLI - 1) / NANOS_PER_MILLI,
        Round::Down => duration.subsec_millis(),
    };
""", """    let whole = duration.subsec_nanos() / NANOS_PER_MILLI;
    let rest = duration.subsec_nanos() % NANOS_PER_MILLI;
    let millis = match round {
        Round::Up if rest > 0 => whole + 1,
        _ => whole,
    };
"""))
r('stack-remove-rewritten', ('src/tokio_util/delay_queue.rs', """        if let Some(next) = store[key].next {
            store[next].prev = store[key].prev;
        }

        if let Some(prev) = store[key].prev {
            store[prev].next = store[key].next;
        } else {
            self.head = store[key].next;
        }

        store[key].next = None;
        store[key].prev = None;
""", """        let next = store[key].next.take();
        let prev = store[key].prev.take();

        match prev {
            Some(prev) => store[prev].next = next,
            None => self.head = next,
        }
        if let Some(next) = next {
            store[next].prev = prev;
        }
"""))
r('serde-helper', ('src/std.rs', """            static NANOS_PER_SEC: u32 = 1_000_000_000;
            match secs.checked_add((nanos / NANOS_PER_SEC) as u64) {
                Some(_) => Ok(()),
                None => Err(E::custom("overflow deserializing SystemTime epoch offset")),
            }
""", """            let carry = u64::from(nanos / 1_000_000_000);
            if u64::MAX - secs < carry {
                return Err(E::custom("overflow deserializing SystemTime epoch offset"));
            }
            Ok(())
"""))
r('test-utils-helper', ('src/tokio/test_utils.rs', """    clock.pause();
    let handle = TimerHandle::default();
    if let Some(inner) = handle.inner.upgrade() {
        inner.waker.wake();
    }
""", """    clock.pause();
    wake_timer();
"""), ('src/tokio/test_utils.rs', """    clock.resume();
    let handle = TimerHandle::default();
    if let Some(inner) = handle.inner.upgrade() {
        inner.waker.wake();
    }
""", """    clock.resume();
    wake_timer();
"""), ('src/tokio/test_utils.rs', """    clock.advance(duration);
    let handle = TimerHandle::default();
    if let Some(inner) = handle.inner.upgrade() {
        inner.waker.wake();
    }
}
""", """    clock.advance(duration);
    wake_timer();
}

fn wake_timer() {
    if let Some(inner) = TimerHandle::default().inner.upgrade() {
        inner.waker.wake();
    }
}
"""))
r('poll-idx-match', ('src/tokio_util/delay_queue.rs', """            if let Some(idx) = wheel_idx {
                return Poll::Ready(Some(idx));
            }

            if self.delay.is_none() {
                return Poll::Ready(None);
            }
""", """            match (wheel_idx, self.delay.is_some()) {
                (Some(idx), _) => return Poll::Ready(Some(idx)),
                (None, false) => return Poll::Ready(None),
                (None, true) => continue,
            }
"""))
