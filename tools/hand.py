"""More wrong changes, without demonstrations, for finding blind spots (python3 handrun.py): (name, property, edits)."""
H = []


def h(name, prop, *edits):
    H.append((name, prop, edits))


M = 'src/timer/mod.rs'
S = 'src/tokio/sleep.rs'
G = 'src/timer/global.rs'
I = 'src/tokio/interval.rs'
T = 'src/tokio/timeout.rs'
Q = 'src/tokio_util/delay_queue.rs'
W = 'src/tokio_util/wheel/mod.rs'
L = 'src/tokio_util/wheel/level.rs'
C = 'src/timer/clock.rs'
D = 'src/std.rs'
A = 'src/timer/arc_list.rs'
HP = 'src/timer/heap.rs'
U = 'src/tokio/test_utils.rs'

h('gen-read-late', 'C03', (M, "let bits = heap_timer.gen << 2;", "let bits = (heap_timer.node.state.load(SeqCst) >> 2) << 2;"))
h('reset-same-deadline-noop', 'C03', (S, """        inner.deadline = deadline;
        if""", """        if inner.deadline == deadline {
            return;
        }
        inner.deadline = deadline;
        if"""))
h('reset-later-not-pushed', 'C03', (S, "            timeouts.list.push(state)?;\n            timeouts.waker.wake();", "            timeouts.list.push(state)?;\n            if at <= Instant::now() {\n                timeouts.waker.wake();\n            }"))
h('drop-fired-not-pushed', 'C26', (S, "        if let Some(timeouts) = state.inner.upgrade() {\n            *state.at.lock().unwrap() = None;", "        if state.state.load(Ordering::SeqCst) >> 2 == 0 && state.state.load(Ordering::SeqCst) & 1 != 0 {\n            return;\n        }\n        if let Some(timeouts) = state.inner.upgrade() {\n            *state.at.lock().unwrap() = None;"))
h('elapsed-by-deadline', 'C01', (S, "            Some(ref state) => state.state.load(Ordering::SeqCst) & 1 != 0,", "            Some(ref state) => state.state.load(Ordering::SeqCst) & 1 != 0 || self.deadline < Instant::now() + Duration::from_micros(500),"))
h('poll-no-recheck-after-reset', 'C02', (S, """        state.waker.register(cx.waker());

        // Now""", """        if state.state.load(Ordering::SeqCst) >> 2 == 0 {
            state.waker.register(cx.waker());
        }

        // Now"""))
h('ctor-past-not-woken', 'C02', (S, "        inner.waker.wake();\n        Sleep {", "        if at > Instant::now() {\n            inner.waker.wake();\n        }\n        Sleep {"))
h('wake-before-bit', 'C27', (M, """            match heap_timer
                .node
                .state
                .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
            {
                Ok(_) => heap_timer.node.waker.wake(),
                Err(_b) => {}
            }""", """            let waker = heap_timer.node.waker.take();
            match heap_timer
                .node
                .state
                .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
            {
                Ok(_) => {
                    if let Some(waker) = waker {
                        waker.wake()
                    }
                }
                Err(_b) => {}
            }"""))
h('one-per-turn', 'C02', (M, "                Ok(_) => heap_timer.node.waker.wake(),", "                Ok(_) => {\n                    heap_timer.node.waker.wake();\n                    if self.timer_heap.peek().map_or(false, |t| t.at == heap_timer.at) {\n                        break;\n                    }\n                }"))
h('timer-drop-ignores-list', 'C24', (M, "        while let Some(t) = list.pop() {\n            self.invalidate(t);\n        }", "        drop(list.pop());"))
h('invalidate-xor', 'C24', (M, "node.state.fetch_or(0b10, SeqCst);", "node.state.fetch_xor(0b10, SeqCst);"))
h('invalidate-overwrites', 'C24', (M, "node.state.fetch_or(0b10, SeqCst);", "node.state.store(0b10, SeqCst);"))
h('inert-reset-keeps-state', 'C24', (S, "            inner.state = None\n", "            let _ = &inner.state;\n"))
h('peek-second', 'C05', (M, "self.timer_heap.peek().map(|t| t.at)", "self.timer_heap.peek().map(|t| t.at + std::time::Duration::from_millis(2))"))
h('interval-burst-from-now', 'C09', (I, "            self.missed_tick_behavior\n                .next_timeout(timeout, now, self.interval)", "            self.missed_tick_behavior\n                .next_timeout(timeout + Duration::from_nanos(0), now.max(timeout + self.interval), self.interval)"))
h('interval-skip-exact', 'C09', (I, "((now - timeout).as_nanos() % period.as_nanos())", "((now - timeout).as_nanos().saturating_sub(1) % period.as_nanos())"))
h('interval-skip-u64', 'C09', (I, "((now - timeout).as_nanos() % period.as_nanos())", "((now - timeout).as_nanos() as u32 as u128 % period.as_nanos())"))
h('interval-reports-deadline-after', 'C08', (I, "        Pin::new(&mut self.sleep).reset(next);\n        Poll::Ready(timeout)", "        Pin::new(&mut self.sleep).reset(next);\n        Poll::Ready(if now > timeout { now.min(next) } else { timeout })"))
h('timeout-inner-once', 'C10', (T, "        match self.as_mut().future().poll(cx) {", "        if self.delay.is_elapsed() {\n            return Poll::Ready(Err(Elapsed::new()));\n        }\n        match self.as_mut().future().poll(cx) {"))
h('timeout-delay-first-poll', 'C10', (T, "        if self.delay().poll(cx).is_ready() {", "        if self.delay.deadline() < Instant::now() || self.delay().poll(cx).is_ready() {"))
h('clock-pause-drops-base', 'C11', (C, "        (*base) += elapsed;", "        (*base) = unfrozen + elapsed;"))
h('clock-resume-stale', 'C11', (C, "        (*unforzen) = Some(Instant::now_js());", "        (*unforzen) = Some(*self.inner.base.lock().unwrap());"))
h('clock-advance-ms', 'C11', (C, "        (*base) += duration;", "        (*base) += Duration::from_micros(duration.as_micros() as u64);"))
h('advance-no-wake-zero', 'C12', (U, "    clock.advance(duration);\n    let handle", "    clock.advance(duration);\n    if duration < Duration::from_millis(1) {\n        return;\n    }\n    let handle"))
h('checked-add-wraps', 'C13', (D, "        self.0.checked_add(duration).map(Instant)", "        self.0.checked_add(duration).filter(|d| *d != Duration::MAX).map(Instant)"))
h('cmp-secs-first', 'C13', (D, "        self.0.partial_cmp(&other.0).unwrap()\n    }\n}\n\nimpl Instant", "        self.0.as_millis().cmp(&other.0.as_millis()).then(self.0.subsec_micros().cmp(&other.0.subsec_micros()))\n    }\n}\n\nimpl Instant"))
h('duration-since-abs', 'C13', (D, "        self.checked_duration_since(earlier).unwrap_or_default()\n    }\n\n    pub fn checked_add" if False else "    pub fn duration_since(&self, earlier: Instant) -> Duration {\n        self.checked_duration_since(earlier).unwrap_or_default()", "    pub fn duration_since(&self, earlier: Instant) -> Duration {\n        Duration::from_nanos((self.0.as_nanos().saturating_sub(earlier.0.as_nanos())) as u64)") )
h('system-time-eq-eps', 'C15', (D, "        self.inner == other.inner", "        (self.inner - other.inner).abs() <= f64::EPSILON * self.inner.abs()"))
h('system-time-f32', 'C15', (D, "        let new_val = self.inner + other.as_millis() as f64;", "        let new_val = self.inner + other.as_secs_f64() * 1000.0;"))
h('system-err-swapped', 'C15', (D, "            return Err(SystemTimeError(Duration::from_millis(dur_ms.abs() as u64)));", "            return Err(SystemTimeError(Duration::from_millis(dur_ms.abs() as u32 as u64)));"))
h('serde-nanos-millis', 'C16', (D, "&duration_since_epoch.subsec_nanos()", "&duration_since_epoch.subsec_micros().wrapping_mul(1000).min(999_000_000)"))
h('serde-seq-default', 'C16', (D, "                        return Err(Error::invalid_length(1, &self));", "                        0"))
h('serde-bytes-field', 'C16', (D, 'b"nanos_since_epoch" => Ok(Field::Nanos),', 'b"nanos_since_epoch" => Ok(Field::Secs),'))
h('queue-insert-no-wake', 'C21', (Q, """        if should_set_delay {
            if let Some(waker) = self.waker.take() {
                waker.wake();
            }
""", """        if should_set_delay {
            if self.delay.is_none() {
                if let Some(waker) = self.waker.take() {
                    waker.wake();
                }
            }
"""))
h('queue-remove-keeps-delay', 'C21', (Q, "                (None, _) => self.delay = None,\n                (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),", "                (None, _) => {}\n                (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),"))
h('queue-reset-only-earlier', 'C21', (Q, "            // This should awaken us if necessary (ie, if already expired)\n            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),", "            (Some(deadline), Some(delay)) => {\n                if deadline > delay.deadline() {\n                    delay.as_mut().reset(deadline)\n                }\n            }"))
h('queue-deadline-from-key', 'C17', (Q, "        let when = self.normalize_deadline(when);\n\n        self.slab[*key].when = when;" if False else "        self.slab[*key].when = when;\n        self.slab[*key].expired = false;", "        self.slab[*key].when = when;"))
h('wheel-elapsed-strict', 'C17', (W, "        if when <= self.elapsed {", "        if when < self.elapsed + 2 {"))
h('wheel-poll-early', 'C17', (W, "                if expiration.deadline > now {", "                if expiration.deadline > now + 1 {"))
h('level-slot-next', 'C18', (W, "                let next_level = expiration.level - 1;", "                let next_level = expiration.level.saturating_sub(2);"))
h('level-remove-no-clear', 'C19', (L, "        if self.slot[slot].is_empty() {\n            // The bit is currently set" if False else "        self.slot[slot].remove(item, store);\n\n        if self.slot[slot].is_empty() {", "        self.slot[slot].remove(item, store);\n\n        if self.slot[slot].is_empty() && self.level < 2 {"))
h('compact-key-map-stale', 'C20', (Q, "            if let Some(new_internal_key) = remapping.get(&internal_key.index) {\n                *internal_key = KeyInternal::new(*new_internal_key);\n            }", "            if let Some(new_internal_key) = remapping.get(&internal_key.index) {\n                if *new_internal_key < internal_key.index.saturating_sub(1) || true {\n                    *internal_key = KeyInternal::new(*new_internal_key);\n                }\n            } else {\n                *internal_key = KeyInternal::new(0);\n            }"))
h('create-key-once', 'C20', (Q, "        while self.key_map.contains_key(&Key::new(self.next_key_index)) {\n            self.next_key_index = self.next_key_index.wrapping_add(1);\n        }", "        if self.key_map.contains_key(&Key::new(self.next_key_index)) {\n            self.next_key_index = self.next_key_index.wrapping_add(1);\n        }"))
h('queue-get-key', 'C19', (Q, "            key: Key::new(key.index),\n            data: data.inner,", "            key: Key::new(key.index & 1),\n            data: data.inner,"))
h('max-duration-less', 'C22', (W, "const MAX_DURATION: u64 = (1 << (6 * NUM_LEVELS)) - 1;", "const MAX_DURATION: u64 = (1 << (6 * NUM_LEVELS)) - 64;"))
h('level-range-32', 'C22', (L, "        let level_start = now - (now % level_range);", "        let level_start = now & !(level_range as u32 - 1) as u64;"))
h('list-fifo-next', 'C23', (A, "            data.next.store(head, SeqCst);", "            if data.next.load(SeqCst) != head || head == Node::EMPTY {\n                data.next.store(head, SeqCst);\n            }"))
h('list-sealed-enqueued-stays', 'C23', (A, "                unsafe {\n                    drop(Arc::from_raw(node));\n                }\n                return Err(());", "                unsafe {\n                    drop(Arc::from_raw(node));\n                }\n                data.enqueued.store(false, SeqCst);\n                return Err(());"))
h('list-take-and-seal-twice', 'C23', (A, "list: AtomicPtr::new(self.list.swap(Node::sealed(), SeqCst)),", "list: AtomicPtr::new(self.list.swap(Node::sealed(), SeqCst).map_addr(|a| a & !0)),"))
h('heap-next-index', 'C07', (HP, "        self.next_index = slot.idx;\n", "        if slot.idx < self.next_index || self.items.len() < 3 {\n            self.next_index = slot.idx;\n        }\n"))
h('instant-now-twice', 'C14', (D, "        let val = (performance_now() * 1000.0) as u64;", "        let val = (performance_now() * 1000.0 + 1e-3) as u64;"))
h('elapsed-of-later', 'C14', (D, "        Instant::now() - *self", "        *self - Instant::now()"))
