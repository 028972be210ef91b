//! Instants and system times.

use crate::sym::*;
use crate::world::*;
use std::time::Duration;
use wasm_bindgen::__host::host;
use wasmtimer::std::{Instant, SystemTime, UNIX_EPOCH};

/// seconds and nanoseconds
type T = (u64, u32);

fn add(a: T, b: T) -> Option<T> {
    let (mut s, o) = a.0.overflowing_add(b.0);
    if o {
        return None;
    }
    let mut n = a.1 + b.1;
    if n >= 1_000_000_000 {
        n -= 1_000_000_000;
        let (t, o) = s.overflowing_add(1);
        if o {
            return None;
        }
        s = t;
    }
    Some((s, n))
}
fn sub(a: T, b: T) -> Option<T> {
    let (mut s, o) = a.0.overflowing_sub(b.0);
    if o {
        return None;
    }
    let n = if a.1 >= b.1 {
        a.1 - b.1
    } else {
        let (t, o) = s.overflowing_sub(1);
        if o {
            return None;
        }
        s = t;
        a.1 + 1_000_000_000 - b.1
    };
    Some((s, n))
}
fn d(t: T) -> Duration {
    Duration::new(t.0, t.1)
}
fn any() -> T {
    let s = range(0, u64::MAX);
    let n = range(0, 999_999_999);
    (s, n as u32)
}

/// params: 0 what (0 add, 1 subtract, 2 compare, 3 elapsed)
#[no_mangle]
pub extern "C" fn h_instant() {
    let what = param(0);
    set_now(0);
    let zero = origin();
    // an instant read from the host clock, then moved by any duration
    let t0 = range(0, 1 << 40);
    set_now(t0);
    let base = Instant::now();
    let bt: T = (t0 / 8000, (t0 % 8000) as u32 * 125_000);
    check(base.duration_since(zero) == d(bt), "a reading of the clock is exact");
    let x = any();
    let (a, at) = if choice(2) == 0 {
        (base.checked_add(d(x)), add(bt, x))
    } else {
        (base.checked_sub(d(x)), sub(bt, x))
    };
    check(a.is_some() == at.is_some(), "an instant is refused exactly when it cannot be represented");
    let (a, at) = match (a, at) {
        (Some(a), Some(t)) => (a, t),
        _ => {
            reach("refused");
            return;
        }
    };
    check(a.duration_since(zero) == d(at), "moving an instant is exact");
    let y = any();
    match what {
        0 => {
            let r = a.checked_add(d(y));
            let rt = add(at, y);
            check(r.is_some() == rt.is_some(), "an instant is refused exactly when it cannot be represented");
            if let (Some(r), Some(rt)) = (r, rt) {
                reach("sum");
                check(r.duration_since(zero) == d(rt), "the sum is exact");
                check(r - a == d(y), "the difference undoes the addition");
                check(r.checked_sub(d(y)) == Some(a), "subtracting what was added gives the instant back");
                check(r - d(y) == a, "subtracting what was added gives the instant back");
                check(a + d(y) == r, "the operators agree");
                let mut m = a;
                m += d(y);
                check(m == r, "the operators agree");
                m -= d(y);
                check(m == a, "the operators agree");
            } else {
                reach("overflow");
                expect_panic(true);
                if choice(2) == 0 {
                    let _ = a + d(y);
                } else {
                    let mut m = a;
                    m += d(y);
                }
            }
        }
        1 => {
            let r = a.checked_sub(d(y));
            let rt = sub(at, y);
            check(r.is_some() == rt.is_some(), "an instant is refused exactly when it cannot be represented");
            if let (Some(r), Some(rt)) = (r, rt) {
                reach("difference");
                check(r.duration_since(zero) == d(rt), "the difference is exact");
                check(a - r == d(y), "the difference of the instants is what was subtracted");
                check(r.checked_add(d(y)) == Some(a), "adding what was subtracted gives the instant back");
                check(r + d(y) == a, "adding what was subtracted gives the instant back");
                check(a - d(y) == r, "the operators agree");
                let mut m = a;
                m -= d(y);
                check(m == r, "the operators agree");
            } else {
                reach("underflow");
                expect_panic(true);
                if choice(2) == 0 {
                    let _ = a - d(y);
                } else {
                    let mut m = a;
                    m -= d(y);
                }
            }
        }
        2 => {
            let b = match zero.checked_add(d(y)) {
                Some(b) => b,
                None => {
                    check(false, "every duration since the clock's zero is an instant");
                    return;
                }
            };
            let diff = sub(at, y);
            let rev = sub(y, at);
            let same = at == y;
            reach("compared");
            check(a.checked_duration_since(b) == diff.map(d), "the checked difference is exact, or nothing when reversed");
            check(b.checked_duration_since(a) == rev.map(d), "the checked difference is exact, or nothing when reversed");
            let z = Duration::new(0, 0);
            check(a.duration_since(b) == diff.map(d).unwrap_or(z), "the difference is exact, or zero when reversed");
            check(a.saturating_duration_since(b) == diff.map(d).unwrap_or(z), "the difference is exact, or zero when reversed");
            check(a - b == diff.map(d).unwrap_or(z), "the difference is exact, or zero when reversed");
            check((a == b) == same && (a != b) != same, "equality agrees with differences");
            check((a < b) == (diff.is_none()), "order agrees with differences");
            check((a >= b) == (diff.is_some()), "order agrees with differences");
            check((a > b) == (rev.is_none()), "order agrees with differences");
            check((a <= b) == (rev.is_some()), "order agrees with differences");
            let o = a.cmp(&b);
            let e = if same {
                std::cmp::Ordering::Equal
            } else if diff.is_some() {
                std::cmp::Ordering::Greater
            } else {
                std::cmp::Ordering::Less
            };
            check(o == e && a.partial_cmp(&b) == Some(e), "order agrees with differences");
            check(a.max(b) == if diff.is_some() { a } else { b }, "order agrees with differences");
        }
        _ => {
            let dt = range(0, 1 << 40);
            set_now(t0 + dt);
            let now: T = ((t0 + dt) / 8000, ((t0 + dt) % 8000) as u32 * 125_000);
            let e = sub(now, at).unwrap_or((0, 0));
            check(a.elapsed() == d(e), "elapsed time is the difference to the current instant");
            reach("elapsed");
        }
    }
    reach("end");
}

fn reading(n: u64, k: i64) {
    let mut f = n as f64;
    for _ in 0..k {
        f *= 0.5;
    }
    for _ in k..0 {
        f *= 2.0;
    }
    host().raw = Some(f);
}

/// Readings n * 2^-k ms of the host clock.
/// params: 0 k, 1 least and 2 greatest number of bits of n
#[no_mangle]
pub extern "C" fn h_reading() {
    let k = param(0);
    let hi = ((1u128 << param(2)) - 1) as u64;
    let lo = if param(1) > 0 { 1u64 << (param(1) - 1) } else { 0 };
    // are products with 1000 exact?
    let exact = param(2) <= 43;
    host().raw = Some(0.0);
    let zero = Instant::now();
    let n = range(lo, hi);
    reading(n, k);
    let a = Instant::now();
    let us = |n: u64| -> u64 {
        let p = n as u128 * 1000;
        (if k >= 0 { p >> k } else { p << -k }) as u64
    };
    let t = |us: u64| Duration::new(us / 1_000_000, (us % 1_000_000) as u32 * 1000);
    let ad = a.duration_since(zero);
    let ok = |got: Duration, n: u64| {
        let u = us(n);
        if exact {
            got == t(u)
        } else {
            // double arithmetic may round the product up to the next microsecond
            got == t(u) || got == t(u + 1)
        }
    };
    check(ok(ad, n), "the reading is rounded down to whole microseconds");
    observe(ad.as_secs());
    observe(ad.subsec_nanos() as u64);
    check(ad.subsec_nanos() % 1000 == 0, "whole microseconds");
    let m = range(lo, hi);
    assume(m >= n);
    reading(m, k);
    let b = Instant::now();
    check(b >= a, "the current instant never decreases");
    let bd = b.duration_since(zero);
    check(ok(bd, m), "the reading is rounded down to whole microseconds");
    check(a.elapsed() == bd - ad, "elapsed time is the difference of two readings");
    check(zero.elapsed() == bd, "elapsed time is the difference of two readings");
    check(b.elapsed() == Duration::ZERO, "no time has elapsed without a change of the clock");
    reach("end");
}

/// The host clock moves on between any two readings, also within one call.
/// params: 0 k, 1 bits of n: readings are n * 2^-k ms
#[no_mangle]
pub extern "C" fn h_reads() {
    let k = param(0);
    let hi = (1u64 << param(1)) - 1;
    host().raw = Some(0.0);
    let zero = Instant::now();
    let mut n = [0u64; 5];
    let mut last = 0;
    let mut reads = Vec::with_capacity(8);
    for x in n.iter_mut() {
        *x = range(0, hi);
        assume(*x >= last);
        last = *x;
        reading(last, k);
        reads.push(host().raw.unwrap());
    }
    host().reads = reads;
    let us = |n: u64| -> u64 { (n * 1000) >> k };
    let t = |us: u64| Duration::new(us / 1_000_000, (us % 1_000_000) as u32 * 1000);
    let mut at = 0;
    let mut before = zero;
    for _ in 0..2 {
        let i = Instant::now();
        let left = host().reads.len();
        let used = 5 - left - at;
        if left == 0 {
            break;
        }
        let d = i.duration_since(zero);
        if used > 0 {
            check(d >= t(us(n[at])), "the current instant is not before the first reading");
            check(d <= t(us(n[at + used - 1])), "the current instant is not after the last reading");
            reach("read");
        }
        at += used;
        check(i >= before, "the current instant never decreases");
        before = i;
    }
    host().reads = Vec::new();
    reach("end");
}

/// a whole-millisecond time relative to the epoch: (negative, magnitude)
fn ms(x: u64) -> Duration {
    Duration::from_millis(x)
}

/// params: 0 what (0 arithmetic, 1 differences and order, 2 now), 1 bits
#[no_mangle]
pub extern "C" fn h_system() {
    let what = param(0);
    let lim = 1u64 << param(1);
    let x = range(0, lim);
    let before = choice(2) == 1;
    let a = if before { UNIX_EPOCH - ms(x) } else { UNIX_EPOCH + ms(x) };
    let av = if before { -(x as i64) } else { x as i64 };
    match what {
        0 => {
            let y = range(0, lim);
            let sum = av + y as i64;
            let dif = av - y as i64;
            if choice(2) == 0 {
                assume(sum <= lim as i64);
                let b = a + ms(y);
                check(a.checked_add(ms(y)) == Some(b), "checked addition agrees");
                let mut c = a;
                c += ms(y);
                check(c == b, "the operators agree");
                check(b - ms(y) == a, "subtracting what was added gives the time back");
                c -= ms(y);
                check(c == a, "subtracting what was added gives the time back");
                check(b.checked_sub(ms(y)) == Some(a), "subtracting what was added gives the time back");
                check(matches!(b.duration_since(a), Ok(q) if q == ms(y)), "the difference is what was added");
                match b.duration_since(UNIX_EPOCH) {
                    Ok(q) => check(sum >= 0 && q == ms(sum as u64), "the sum is exact"),
                    Err(e) => check(sum < 0 && e.duration() == ms(-sum as u64), "the sum is exact"),
                }
                reach("sum");
            } else {
                assume(dif >= -(lim as i64));
                let b = a - ms(y);
                check(a.checked_sub(ms(y)) == Some(b), "checked subtraction agrees");
                let mut c = a;
                c -= ms(y);
                check(c == b, "the operators agree");
                check(b + ms(y) == a, "adding what was subtracted gives the time back");
                check(matches!(a.duration_since(b), Ok(q) if q == ms(y)), "the difference is what was subtracted");
                match b.duration_since(SystemTime::UNIX_EPOCH) {
                    Ok(q) => check(dif >= 0 && q == ms(dif as u64), "the difference is exact"),
                    Err(e) => check(dif < 0 && e.duration() == ms(-dif as u64), "the difference is exact"),
                }
                reach("difference");
            }
        }
        1 => {
            let y = range(0, lim);
            let neg = choice(2) == 1;
            let b = if neg { UNIX_EPOCH - ms(y) } else { UNIX_EPOCH + ms(y) };
            let bv = if neg { -(y as i64) } else { y as i64 };
            // the difference itself must be exact too
            let dv = av - bv;
            assume(dv <= lim as i64 && dv >= -(lim as i64));
            match a.duration_since(b) {
                Ok(q) => {
                    reach("later");
                    check(dv >= 0, "an earlier time is reported as an error");
                    check(q == ms(dv as u64), "the difference is exact");
                }
                Err(e) => {
                    reach("earlier");
                    check(dv < 0, "a difference that is not negative is returned");
                    check(e.duration() == ms(-dv as u64), "the error carries the magnitude");
                }
            }
            check((a == b) == (dv == 0) && (a != b) == (dv != 0), "equality agrees with the difference");
            check((a < b) == (dv < 0) && (a <= b) == (dv <= 0), "order agrees with the difference");
            check((a > b) == (dv > 0) && (a >= b) == (dv >= 0), "order agrees with the difference");
            let e = dv.cmp(&0);
            check(a.cmp(&b) == e && a.partial_cmp(&b) == Some(e), "order agrees with the difference");
        }
        _ => {
            let y = range(0, lim);
            host().date = y as f64;
            let n = SystemTime::now();
            check(n == UNIX_EPOCH + ms(y), "the current time is the host's date");
            let dv = y as i64 - av;
            assume(dv <= lim as i64 && dv >= -(lim as i64));
            match a.elapsed() {
                Ok(q) => check(dv >= 0 && q == ms(dv as u64), "elapsed time is the difference to now"),
                Err(e) => check(dv < 0 && e.duration() == ms(-dv as u64), "elapsed time is the difference to now"),
            }
            reach("now");
        }
    }
    reach("end");
}
