//! The update list on its own.

use crate::sym::*;
use crate::arc_list::{ArcList, Node};
use ::std::sync::Arc;

const N: usize = 3;

/// params: 0 steps, 1 entries
#[no_mangle]
pub extern "C" fn h_list() {
    let n = param(1) as u64;
    let vals: [u64; N] = [range(0, u64::MAX), range(0, u64::MAX), range(0, u64::MAX)];
    let mut warm = ::std::vec![1u32];
    warm.push(2);
    drop(warm);
    let base = live();
    {
        let mut nodes: [Option<Arc<Node<u64>>>; N] = [None, None, None];
        for i in 0..n as usize {
            nodes[i] = Some(Arc::new(Node::new(vals[i])));
        }
        let mut list = Some(ArcList::new());
        // the model: what is on the list and on the drained part, last pushed at the end
        let mut on = [0usize; N];
        let mut on_n = 0;
        let mut got: Option<ArcList<u64>> = None;
        let mut out = [0usize; N];
        let mut out_n = 0;
        let mut sealed = false;
        // refused once: the list does not say so again
        let mut refused = [false; N];
        for _ in 0..param(0) {
            let op = range(0, 4);
            if op == 0 {
                let i = range(0, n - 1) as usize;
                if let Some(l) = &list {
                    let there = on[..on_n].contains(&i) || out[..out_n].contains(&i);
                    let r = l.push(nodes[i].as_ref().unwrap());
                    if there {
                        check(r.is_ok(), "pushing an entry again before it is delivered does nothing");
                        reach("pushed again");
                    } else if sealed {
                        check(refused[i] || r.is_err(), "a sealed list refuses entries");
                        refused[i] = true;
                        reach("refused");
                    } else {
                        check(r.is_ok(), "an entry is accepted");
                        on[on_n] = i;
                        on_n += 1;
                        reach("pushed");
                    }
                }
            } else if op == 1 || op == 2 {
                if let Some(l) = &list {
                    // what an earlier drain left is delivered or given back first
                    if out_n == 0 || choice(2) == 0 {
                        got = None;
                        out_n = 0;
                        let was = sealed;
                        got = Some(if op == 1 { l.take() } else { l.take_and_seal() });
                        sealed = was || op == 2;
                        out = on;
                        out_n = on_n;
                        on_n = 0;
                        reach("drained");
                    }
                }
            } else if op == 3 {
                if let Some(g) = &mut got {
                    match g.pop() {
                        None => check(out_n == 0, "every entry is delivered"),
                        Some(x) => {
                            check(out_n > 0, "nothing is delivered twice");
                            if out_n > 0 {
                                out_n -= 1;
                                let i = out[out_n];
                                check(Arc::ptr_eq(&x, nodes[i].as_ref().unwrap()), "the last one pushed is delivered first");
                                check(**x == vals[i], "the entry is intact");
                                reach("delivered");
                            }
                        }
                    }
                }
            } else if choice(2) == 0 {
                got = None;
                out_n = 0;
            } else {
                list = None;
                on_n = 0;
            }
            for i in 0..n as usize {
                let held = 1 + (on[..on_n].contains(&i) || out[..out_n].contains(&i)) as usize;
                check(Arc::strong_count(nodes[i].as_ref().unwrap()) == held, "the list holds a reference exactly while the entry is on it");
            }
        }
        if choice(2) == 0 {
            // deliver the rest
            if let Some(mut g) = got.take() {
                while let Some(x) = g.pop() {
                    check(out_n > 0 && **x == vals[out[out_n - 1]], "the last one pushed is delivered first");
                    out_n -= 1;
                }
                check(out_n == 0, "every entry is delivered");
            }
            if let Some(l) = &list {
                let mut g = l.take();
                while let Some(x) = g.pop() {
                    check(on_n > 0 && **x == vals[on[on_n - 1]], "the last one pushed is delivered first");
                    on_n -= 1;
                }
                check(on_n == 0, "every entry is delivered");
            }
        } else {
            drop(list);
            drop(got);
        }
        for i in 0..n as usize {
            check(Arc::strong_count(nodes[i].as_ref().unwrap()) == 1, "reference counts return to their initial values");
        }
    }
    check(live() == base, "nothing is leaked");
    reach("end");
}
