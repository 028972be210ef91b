//! Not a property: float operations the crate does not use today, so that the executor's treatment
//! of them can be compared with a real engine (wsym's samples are run in node).

use crate::sym::*;

/// params: 0 which operation, 1 bits of the numerator, 2 exponent of the scale
#[no_mangle]
pub extern "C" fn h_floats() {
    let n = range(0, (1u64 << param(1)) - 1);
    let neg = choice(2) == 1;
    let mut x = n as f64;
    for _ in 0..param(2) {
        x /= 2.0;
    }
    let x = if neg { -x } else { x };
    let y = match param(0) {
        0 => x.round(),
        1 => x / 1000.0,
        2 => x / 1e9,
        3 => x * 1e-3,
        4 => f64::from_bits(x.to_bits() ^ (1 << 51)),
        5 => x.trunc() + (x.fract() * 1000.0).round(),
        6 => x.rem_euclid(1000.0),
        7 => x / 0.7,
        8 => x.round_ties_even() / 3.0,
        _ => x.mul_add(3.0, 1.0),
    };
    observe(y as i64 as u64);
    let b = y.to_bits();
    if b == 0 || b >> 63 == 1 {
        observe(1);
    } else {
        observe(b & 0xffff_ffff);
        observe(b >> 52);
    }
    reach("end");
}
