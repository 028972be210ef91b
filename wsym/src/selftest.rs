//! Random testing of the expression simplifier and the two SMT encodings against plain
//! arithmetic: every rewritten expression must evaluate to what the operation it was built from
//! yields, intervals must contain the value, and the solver must agree with the evaluator.

use crate::expr::*;
use crate::smt::Solver;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

fn mask(w: u8) -> u128 {
    if w == 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn run(seed: u64, rounds: u64, solve: u64) -> bool {
    let mut g = Rng(seed * 2 + 88172645463325252);
    let mut nodes = 0u64;
    let mut asked = 0;
    for round in 0..rounds {
        let mut cx = Ctx::new();
        let mut sv = Solver::new(400);
        let mut pool: Vec<(E, u128)> = vec![];
        let mut model: Vec<u128> = vec![];
        let mut facts: Vec<E> = vec![];
        for _ in 0..2 + g.below(3) {
            let w = [32u8, 64][g.below(2) as usize];
            let (lo, hi) = match g.below(4) {
                0 => (0, mask(w)),
                1 => (0, 800),
                2 => (1000, 5000),
                _ => (0, 15),
            };
            let e = cx.fresh_var(w, lo, hi);
            let v = lo + (g.next() as u128) % (hi - lo + 1);
            let v = if g.below(3) == 0 { [lo, hi][g.below(2) as usize] } else { v };
            model.push(v);
            pool.push((e, v));
        }
        for _ in 0..40 {
            let (a, va) = pool[g.below(pool.len() as u64) as usize];
            let w = cx.w(a);
            let same: Vec<(E, u128)> = pool.iter().copied().filter(|x| cx.w(x.0) == w).collect();
            let (b, vb) = if g.below(2) == 0 || w == 1 {
                same[g.below(same.len() as u64) as usize]
            } else {
                let c = [0u128, 1, 2, 3, 8, 63, 64, 125, 1000, 1_000_000, 0xffff_ffff, mask(w), mask(w).wrapping_sub(124), 1 << 20]
                    [g.below(14) as usize]
                    & mask(w);
                (cx.konst(w, c), c)
            };
            let m = mask(w);
            let (r, v) = match g.below(23) {
                0 | 1 => (cx.add(a, b), va.wrapping_add(vb) & m),
                2 => (cx.sub(a, b), va.wrapping_sub(vb) & m),
                3 | 4 if va >= vb && w > 1 => {
                    let f = cx.ult(a, b);
                    facts.push(cx.not(f));
                    (cx.sub_nw(a, b), va - vb)
                }
                5 => (cx.mul(a, b), va.wrapping_mul(vb) & m),
                6 if vb != 0 && cx.cv(b).is_some() => (cx.udiv(a, b), va / vb),
                7 if vb != 0 && cx.cv(b).is_some() => (cx.urem(a, b), va % vb),
                8 => (cx.and(a, b), va & vb),
                9 => (cx.or(a, b), va | vb),
                10 => (cx.xor(a, b), va ^ vb),
                11 if w > 1 => {
                    let k = g.below(w as u64) as u32;
                    (cx.shl_c(a, k), (va << k) & m)
                }
                12 if w > 1 => {
                    let k = g.below(w as u64) as u32;
                    (cx.lshr_c(a, k), va >> k)
                }
                13 if w > 1 => {
                    let k = g.below(w as u64) as u32;
                    (cx.ashr_c(a, k), (sx(va, w) >> k) as u128 & m)
                }
                14 if w == 32 => (cx.zext(a, 64), va),
                14 if w == 64 => (cx.zext(a, 128), va),
                15 if w == 32 => (cx.sext(a, 64), sx(va, 32) as u128 & mask(64)),
                15 if w == 64 => (cx.sext(a, 128), sx(va, 64) as u128),
                16 if w == 64 => (cx.trunc(a, 32), va & mask(32)),
                16 if w == 128 => (cx.trunc(a, 64), va & mask(64)),
                17 => (cx.eq(a, b), (va == vb) as u128),
                18 => (cx.ult(a, b), (va < vb) as u128),
                19 => (cx.slt(a, b), (sx(va, w) < sx(vb, w)) as u128),
                20 => {
                    let bs: Vec<(E, u128)> = pool.iter().copied().filter(|x| cx.w(x.0) == 1).collect();
                    if bs.is_empty() {
                        continue;
                    }
                    let (c, vc) = bs[g.below(bs.len() as u64) as usize];
                    (cx.ite(c, a, b), if vc == 1 { va } else { vb })
                }
                22 if w > 1 => {
                    let x = cx.xor(a, b);
                    let vx = va ^ vb;
                    let (i, k) = (g.below(w as u64), g.below(w as u64));
                    let c = if g.below(2) == 0 || i == k {
                        1u128 << i
                    } else {
                        (1u128 << i.max(k)) - (1u128 << i.min(k))
                    };
                    if g.below(2) == 0 {
                        let e = cx.konst(w, c);
                        (cx.ult(x, e), (vx < c) as u128)
                    } else {
                        let e = cx.konst(w, c - 1);
                        (cx.ult(e, x), (c - 1 < vx) as u128)
                    }
                }
                21 => {
                    if w == 1 {
                        (cx.not(a), 1 - va)
                    } else {
                        continue;
                    }
                }
                _ => continue,
            };
            nodes += 1;
            cx.forget_model();
            let got = cx.eval(r, &model);
            let i = *cx.i(r);
            let s = sx(v, cx.w(r));
            if got != v || v < i.lo || v > i.hi || (cx.w(r) > 1 && (s < i.slo || s > i.shi)) || (i.tz > 0 && v != 0 && v.trailing_zeros() < i.tz as u32) {
                println!("selftest: round {round}: value {v} evaluated {got} interval {}..{} signed {}..{} tz {} node {:?}", i.lo, i.hi, i.slo, i.shi, i.tz, cx.n(r).k);
                return false;
            }
            if cx.cv(r).is_none() {
                pool.push((r, v));
            }
        }
        // the solver must find the model's value possible, and must not find it unavoidable wrongly
        if round < solve {
            let (e, v) = pool[pool.len() - 1];
            let k = cx.konst(cx.w(e), v);
            let c = cx.eq(e, k);
            let base: Model = std::rc::Rc::new(model.clone());
            asked += 1;
            match sv.check(&mut cx, &facts, c, &base) {
                Ok(None) => {
                    println!("selftest: round {round}: solver refutes a true fact about {:?}", cx.n(e).k);
                    return false;
                }
                Err(x) if x.contains("rejected") => {
                    println!("selftest: round {round}: {x}");
                    return false;
                }
                _ => {}
            }
            let nc = cx.not(c);
            if let Err(x) = sv.check(&mut cx, &facts, nc, &base) {
                if x.contains("rejected") {
                    println!("selftest: round {round}: {x}");
                    return false;
                }
            }
        }
    }
    println!("selftest: {nodes} expressions, {asked} solver comparisons agree");
    true
}
