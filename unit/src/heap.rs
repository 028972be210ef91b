//! The timer heap on its own.

use crate::sym::*;
use crate::timer_heap::{Heap, Slot};
use ::std::cmp::Ordering;

struct Item {
    key: u64,
    id: usize,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.key.cmp(&o.key)
    }
}

const N: usize = 16;

struct World {
    heap: Heap<Item>,
    slots: [Option<Slot>; N],
    keys: [u64; N],
    /// 0 not yet pushed, 1 in the heap, 2 gone
    state: [u8; N],
    n: usize,
}

impl World {
    fn new() -> World {
        World { heap: Heap::new(), slots: [const { None }; N], keys: [0; N], state: [0; N], n: 0 }
    }
    fn push(&mut self, key: u64) {
        let id = self.n;
        self.n += 1;
        self.keys[id] = key;
        self.state[id] = 1;
        self.slots[id] = Some(self.heap.push(Item { key, id }));
    }
    fn held(&self) -> usize {
        (0..self.n).filter(|&i| self.state[i] == 1).count()
    }
    /// the item that came out is a live one, and none that stays is earlier
    fn out(&mut self, it: Option<Item>) -> bool {
        match it {
            None => {
                check(self.held() == 0, "only an empty heap has no first entry");
                false
            }
            Some(it) => {
                check(it.id < self.n && self.state[it.id] == 1, "an entry is released once, and only while it is pending");
                check(it.key == self.keys[it.id], "an entry keeps its deadline");
                self.state[it.id] = 2;
                self.slots[it.id] = None;
                for j in 0..self.n {
                    if self.state[j] == 1 {
                        check(self.keys[j] >= it.key, "entries are released in the order of their deadlines");
                    }
                }
                true
            }
        }
    }
    fn pop(&mut self) -> bool {
        let p = self.heap.peek().map(|i| (i.key, i.id));
        let it = self.heap.pop();
        check(p == it.as_ref().map(|i| (i.key, i.id)), "the first entry is the one released next");
        self.out(it)
    }
    fn remove(&mut self, i: usize) {
        let s = self.slots[i].take().unwrap();
        let it = self.heap.remove(s);
        check(it.id == i && it.key == self.keys[i], "cancelling removes that entry and no other");
        self.state[i] = 2;
    }
}

/// A heap of a given size with any keys in any layout, then cancellations, then emptied.
/// params: 0 size, 1 cancellations, 2 entries added afterwards
#[no_mangle]
pub extern "C" fn h_heap() {
    let n = param(0) as usize;
    let mut w = World::new();
    let mut k = [0u64; N];
    for i in 0..n {
        k[i] = range(0, u64::MAX);
        if i > 0 {
            // pushed in the order of the layout: every heap of this size arises this way
            assume(k[i] >= k[(i - 1) / 2]);
        }
        w.push(k[i]);
    }
    for _ in 0..param(1) {
        let i = choice(n as u32) as usize;
        if w.state[i] != 1 {
            return;
        }
        w.remove(i);
        reach("cancelled");
    }
    for _ in 0..param(2) {
        w.push(range(0, u64::MAX));
    }
    while w.pop() {}
    check(w.held() == 0, "every entry is released");
    reach("end");
}

/// Any sequence of additions, releases and cancellations.
/// params: 0 entries at first, 1 steps
#[no_mangle]
pub extern "C" fn h_heap_ops() {
    let mut w = World::new();
    for _ in 0..param(0) {
        w.push(range(0, u64::MAX));
    }
    for _ in 0..param(1) {
        match choice(3) {
            0 => w.push(range(0, u64::MAX)),
            1 => {
                w.pop();
            }
            _ => {
                if w.n == 0 {
                    return;
                }
                let i = choice(w.n as u32) as usize;
                if w.state[i] != 1 {
                    return;
                }
                w.remove(i);
                reach("cancelled");
            }
        }
    }
    while w.pop() {}
    check(w.held() == 0, "every entry is released");
    reach("end");
}
