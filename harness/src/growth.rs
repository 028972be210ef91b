//! Memory does not grow with use.

use crate::sym::*;
use crate::world::*;
use std::pin::Pin;
use std::task::{Context, Poll};
use wasmtimer::tokio::{interval, sleep, Sleep};
use wasmtimer::tokio_util::delay_queue::Key;
use wasmtimer::tokio_util::DelayQueue;

fn poll_queue(q: &mut DelayQueue<u32>) -> bool {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    matches!(q.poll_expired(&mut cx), Poll::Ready(Some(_)))
}

/// params: 0 what is done over and over, 1 how often, 2 span of the delays in units
#[no_mangle]
pub extern "C" fn h_growth() {
    let what = param(0);
    let n = param(1);
    set_now(0);
    let t0 = range(0, 7);
    set_now(t0);
    crate::sleeps::warm_up(1);
    // the first use of anything and a sleep that stays
    let mut stays = Box::pin(sleep(dur_u(1 << 31)));
    let _ = poll_with(stays.as_mut(), 2);
    let off = range(0, param(2) as u64);
    let mut kept: Vec<Pin<Box<Sleep>>> = Vec::with_capacity(8);
    let mut q: DelayQueue<u32> = DelayQueue::new();
    let mut keys: Vec<Key> = Vec::with_capacity(8);
    let mut iv = interval(dur_u(80 + off));
    if what >= 5 && what <= 9 {
        q.insert(0, dur_u(1 << 30));
        keys.push(q.insert(1, dur_u(80_000_000 + off)));
        if what >= 8 {
            q.remove(&keys.remove(0));
            q.compact();
            keys.push(q.insert(1, dur_u(80_000_000 + off)));
        }
        poll_queue(&mut q);
    }
    let (order, turns) = if what == 11 { (choice(24), choice(2) == 1) } else { (0, false) };
    let mut early = 0;
    for i in 0..n {
        let k = i as u64 % 5;
        match what {
            // created and dropped
            0 => {
                let mut s = Box::pin(sleep(dur_u(8_000 * k + off)));
                let _ = poll_with(s.as_mut(), 1);
                settle(2);
                drop(s);
            }
            // created, fired and dropped
            1 => {
                let mut s = Box::pin(sleep(dur_u(800 * k + off)));
                let _ = poll_with(s.as_mut(), 1);
                set_now(now_u() + 800 * k + off + MS);
                settle(3);
                set_now(now_u() + 80_000);
                settle(3);
                check(s.is_elapsed(), "a due sleep completes");
            }
            // re-armed
            2 => {
                if kept.is_empty() {
                    kept.push(Box::pin(sleep(dur_u(off))));
                }
                let now = wasmtimer::std::Instant::now();
                kept[0].as_mut().reset(now + dur_u(16_000 * k + off));
                let _ = poll_with(kept[0].as_mut(), 1);
            }
            // three at a time, each dropped while two later ones are pending
            3 | 4 => {
                let far = 100_000_000;
                let d = if what == 3 { far + 8 * i as u64 + off } else { far - 8 * i as u64 + off };
                kept.push(Box::pin(sleep(dur_u(d))));
                settle(2);
                if kept.len() > 3 {
                    drop(kept.remove(0));
                }
            }
            // inserted and removed
            5 | 8 => {
                let key = q.insert(7, dur_u(800_000_000 + 8_000 * k + off));
                settle(2);
                q.remove(&key);
            }
            // inserted and yielded
            6 | 9 => {
                q.insert(7, dur_u(8 * k + off));
                let mut got = poll_queue(&mut q);
                set_now(now_u() + 8 * k + off + 2 * MS);
                settle(3);
                for _ in 0..4 {
                    got |= poll_queue(&mut q);
                    settle(2);
                }
                check(got, "a due item is yielded");
            }
            // four at a time, dropped in one order or another
            11 => {
                for j in 0..4 {
                    kept.push(Box::pin(sleep(dur_u(8_000_000 + 8 * j + off))));
                }
                settle(2);
                let mut o = order;
                for j in 0..4u32 {
                    let x = o % (4 - j);
                    o /= 4 - j;
                    drop(kept.remove(x as usize));
                    if turns {
                        settle(2);
                    }
                }
            }
            // reset
            7 => {
                let key = keys[0];
                q.reset(&key, dur_u(800_000_000 + 8_000 * k + off));
                poll_queue(&mut q);
            }
            _ => {
                let wk = waker(1);
                let mut cx = Context::from_waker(&wk);
                let _ = iv.poll_tick(&mut cx);
            }
        }
        set_now(now_u() + 80_000);
        settle(4);
        if i == n / 4 {
            early = live_bytes();
        }
        if i == n - 1 {
            check(live_bytes() <= early, "no more memory is in use than after a quarter of it");
        }
    }
    observe(live_bytes() as u64);
    reach("end");
}
