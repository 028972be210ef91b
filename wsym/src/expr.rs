//! Hash-consed expression DAG over fixed-width bit vectors (1..=128 bits), with eager rewriting,
//! unsigned and signed interval analysis, evaluation under a model, and SMT-LIB emission in two
//! theories (linear integer arithmetic with explicit wrap-around, and bit vectors).
//!
//! Width 1 is the boolean sort.  Shifts by constants are canonicalised to multiplication and
//! division so that both theories see arithmetic only.

use std::collections::HashMap;
use std::fmt::Write;

pub type E = u32; // 0 = "no expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    None,
    Const,
    Var,
    Add,
    Sub,
    SubNw,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Zext,
    Sext,
    Trunc,
    AShr,
    Clz,
    Ctz,
    Popcnt,
    Not,
    /// exact dyadic float: signed 64-bit integer `a` times 2^-v (v as i32)
    FDy,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub v: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
    pub tz: u8,
    pub vars: u128,
    pub bitty: bool, // needs bit-vector reasoning
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct VarInfo {
    pub w: u8,
    pub lo: u128,
    pub hi: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    zextmemo: HashMap<(E, u8), E>,
    truncmemo: HashMap<(E, u8), E>,
    divmemo: HashMap<(E, u128), Option<E>>,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    pub epoch: u32,
    cur: Option<Model>,
}

pub type Model = std::rc::Rc<Vec<u128>>;

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: HashMap::new(),
            vars: vec![],
            zextmemo: HashMap::new(),
            truncmemo: HashMap::new(),
            divmemo: HashMap::new(),
            memo: vec![],
            epoch: 1,
            cur: None,
        };
        c.nodes.push(Node { k: K::None, w: 0, a: 0, b: 0, c: 0, v: 0 });
        c.info.push(Info { lo: 0, hi: 0, slo: 0, shi: 0, tz: 0, vars: 0, bitty: false });
        c
    }

    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn i(&self, e: E) -> &Info {
        &self.info[e as usize]
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    fn lo(&self, e: E) -> u128 {
        self.info[e as usize].lo
    }
    fn hi(&self, e: E) -> u128 {
        self.info[e as usize].hi
    }

    fn mk(&mut self, k: K, w: u8, a: E, b: E, c: E, v: u128) -> E {
        let n = Node { k, w, a, b, c, v };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let inf = self.mkinfo(&n);
        // a one-point range is a constant
        if k != K::Const && k != K::Var && k != K::FDy && inf.lo == inf.hi {
            let r = self.konst(w, inf.lo);
            self.map.insert(n, r);
            return r;
        }
        self.nodes.push(n);
        self.info.push(inf);
        self.map.insert(n, e);
        e
    }

    pub fn konst(&mut self, w: u8, v: u128) -> E {
        self.mk(K::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.konst(1, 0)
    }

    pub fn fresh_var(&mut self, w: u8, lo: u128, hi: u128) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { w, lo, hi });
        let e = self.mk(K::Var, w, 0, 0, 0, id as u128);
        e
    }

    fn mkinfo(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let w = n.w;
        let full = Info {
            lo: 0,
            hi: m,
            slo: if w >= 128 { i128::MIN } else if w == 0 { 0 } else { -(1i128 << (w - 1)) },
            shi: if w >= 128 { i128::MAX } else if w == 0 { 0 } else { (1i128 << (w - 1)) - 1 },
            tz: 0,
            vars: 0,
            bitty: false,
        };
        let ia = self.info[n.a as usize];
        let ib = self.info[n.b as usize];
        let ic = self.info[n.c as usize];
        let mut r = full;
        r.vars = ia.vars | ib.vars | ic.vars;
        r.bitty = ia.bitty | ib.bitty | ic.bitty;
        let half: u128 = if w == 0 { 0 } else { 1u128 << (w - 1) };
        match n.k {
            K::None => {}
            K::Const => {
                r.lo = n.v;
                r.hi = n.v;
                r.tz = if n.v == 0 { w } else { n.v.trailing_zeros() as u8 };
            }
            K::Var => {
                let vi = &self.vars[n.v as usize];
                r.lo = vi.lo;
                r.hi = vi.hi;
                r.vars = 1u128 << (n.v.min(127) as u32);
            }
            K::Add => {
                let (s1, o1) = ia.hi.overflowing_add(ib.hi);
                if !o1 && s1 <= m {
                    r.lo = ia.lo + ib.lo;
                    r.hi = s1;
                }
                r.tz = ia.tz.min(ib.tz);
                if w <= 64 {
                    let l = ia.slo + ib.slo;
                    let h = ia.shi + ib.shi;
                    if l >= full.slo && h <= full.shi {
                        r.slo = l;
                        r.shi = h;
                    }
                }
            }
            K::SubNw => {
                r.lo = ia.lo.saturating_sub(ib.hi);
                r.hi = ia.hi - ib.lo.min(ia.hi);
                r.tz = ia.tz.min(ib.tz);
            }
            K::Sub => {
                if ia.lo >= ib.hi {
                    r.lo = ia.lo - ib.hi;
                    r.hi = ia.hi - ib.lo;
                }
                r.tz = ia.tz.min(ib.tz);
                if w <= 64 {
                    let l = ia.slo - ib.shi;
                    let h = ia.shi - ib.slo;
                    if l >= full.slo && h <= full.shi {
                        r.slo = l;
                        r.shi = h;
                    }
                }
            }
            K::Mul => {
                if let Some(h) = ia.hi.checked_mul(ib.hi) {
                    if h <= m {
                        r.lo = ia.lo * ib.lo;
                        r.hi = h;
                    }
                }
                r.tz = (ia.tz as u32 + ib.tz as u32).min(w as u32) as u8;
                if w <= 64 {
                    let c = [
                        ia.slo.checked_mul(ib.slo),
                        ia.slo.checked_mul(ib.shi),
                        ia.shi.checked_mul(ib.slo),
                        ia.shi.checked_mul(ib.shi),
                    ];
                    if c.iter().all(|x| x.is_some()) {
                        let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                        let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                        if l >= full.slo && h <= full.shi {
                            r.slo = l;
                            r.shi = h;
                        }
                    }
                }
            }
            K::UDiv => {
                if ib.lo > 0 {
                    r.lo = ia.lo / ib.hi;
                    r.hi = ia.hi / ib.lo;
                }
            }
            K::URem => {
                if ib.lo > 0 {
                    r.hi = ia.hi.min(ib.hi - 1);
                    if ia.hi < ib.lo {
                        r.lo = ia.lo;
                    }
                    if ib.lo == ib.hi && ib.lo.is_power_of_two() {
                        r.tz = ia.tz.min(w);
                    }
                }
            }
            K::SDiv | K::SRem => {}
            K::And => {
                r.hi = ia.hi.min(ib.hi);
                r.tz = ia.tz.max(ib.tz);
                if w > 1 {
                    r.bitty = true;
                }
            }
            K::Or => {
                r.lo = ia.lo.max(ib.lo);
                let h = ia.hi | ib.hi;
                let bits = 128 - h.leading_zeros();
                r.hi = if bits == 0 { 0 } else { mask(bits as u8) };
                r.tz = ia.tz.min(ib.tz);
                if w > 1 {
                    r.bitty = true;
                }
            }
            K::Xor => {
                let h = ia.hi | ib.hi;
                let bits = 128 - h.leading_zeros();
                r.hi = if bits == 0 { 0 } else { mask(bits as u8) };
                r.tz = ia.tz.min(ib.tz);
                if w > 1 {
                    r.bitty = true;
                }
            }
            K::Eq | K::Ult | K::Slt | K::Not => {}
            K::Ite => {
                r.lo = ib.lo.min(ic.lo);
                r.hi = ib.hi.max(ic.hi);
                r.slo = ib.slo.min(ic.slo);
                r.shi = ib.shi.max(ic.shi);
                r.tz = ib.tz.min(ic.tz);
            }
            K::Zext => {
                r.lo = ia.lo;
                r.hi = ia.hi;
                r.tz = ia.tz;
            }
            K::Sext => {
                let wa = self.nodes[n.a as usize].w;
                r.slo = ia.slo;
                r.shi = ia.shi;
                if ia.hi < (1u128 << (wa - 1)) {
                    r.lo = ia.lo;
                    r.hi = ia.hi;
                }
                r.tz = ia.tz;
            }
            K::Trunc => {
                if ia.hi <= m {
                    r.lo = ia.lo;
                    r.hi = ia.hi;
                }
                if ia.slo >= full.slo && ia.shi <= full.shi {
                    r.slo = ia.slo;
                    r.shi = ia.shi;
                }
                r.tz = ia.tz.min(w);
            }
            K::AShr => {
                if w <= 64 {
                    r.slo = ia.slo >> (n.v as u32);
                    r.shi = ia.shi >> (n.v as u32);
                }
            }
            K::Clz | K::Ctz | K::Popcnt => {
                r.hi = w as u128;
                if n.k == K::Clz {
                    r.lo = (ia.hi.leading_zeros() - (128 - w as u32)) as u128;
                    r.hi = if ia.lo == 0 { w as u128 } else { (ia.lo.leading_zeros() - (128 - w as u32)) as u128 };
                } else {
                    r.bitty = true;
                }
            }
            K::FDy => {}
        }
        // combine signed and unsigned knowledge
        if w > 0 && w < 128 {
            if r.hi < half {
                r.slo = r.slo.max(r.lo as i128);
                r.shi = r.shi.min(r.hi as i128);
            } else if r.lo >= half {
                r.slo = r.slo.max(sx(r.lo, w));
                r.shi = r.shi.min(sx(r.hi, w));
            }
            if r.slo >= 0 {
                r.lo = r.lo.max(r.slo as u128);
                r.hi = r.hi.min(r.shi as u128);
            }
        } else if w == 128 && r.hi < half {
            r.slo = r.lo as i128;
            r.shi = r.hi as i128;
        }
        r
    }

    // ---- constructors -------------------------------------------------------------------

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.k {
            K::Const => self.konst(1, n.v ^ 1),
            K::Not => n.a,
            _ => self.mk(K::Not, 1, a, 0, 0, 0),
        }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.k == K::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nn = self.not(c);
                    return self.and(nn, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nn = self.not(c);
                    return self.or(nn, a);
                }
                _ => {}
            }
        }
        if let (Some(1), Some(0)) = (self.cv(a), self.cv(b)) {
            return self.zext(c, w);
        }
        if let (Some(0), Some(1)) = (self.cv(a), self.cv(b)) {
            let nn = self.not(c);
            return self.zext(nn, w);
        }
        // nested with same condition
        let na = self.n(a);
        let a = if na.k == K::Ite && na.a == c { na.b } else { a };
        let nb = self.n(b);
        let b = if nb.k == K::Ite && nb.a == c { nb.c } else { b };
        if a == b {
            return a;
        }
        self.mk(K::Ite, w, c, a, b, 0)
    }

    /// `Ite(c, k1, k2)` with constant arms (also sees a zero-extended boolean as such)
    fn ite_consts(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n(e);
        match n.k {
            K::Ite => Some((n.a, self.cv(n.b)?, self.cv(n.c)?)),
            K::Zext if self.w(n.a) == 1 => Some((n.a, 1, 0)),
            _ => None,
        }
    }

    fn fold2(k: K, w: u8, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        Some(match k {
            K::Add => x.wrapping_add(y) & m,
            K::Sub | K::SubNw => x.wrapping_sub(y) & m,
            K::Mul => x.wrapping_mul(y) & m,
            K::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            K::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            K::SDiv => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_div(sx(y, w)) as u128) & m
            }
            K::SRem => {
                if y == 0 {
                    return None;
                }
                (sx(x, w).wrapping_rem(sx(y, w)) as u128) & m
            }
            K::And => x & y,
            K::Or => x | y,
            K::Xor => x ^ y,
            K::Eq => (x == y) as u128,
            K::Ult => (x < y) as u128,
            K::Slt => (sx(x, w) < sx(y, w)) as u128,
            _ => return None,
        })
    }

    /// push a binary operation with one constant operand into an ite of constants
    fn push_ite(&mut self, k: K, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let rw = if matches!(k, K::Eq | K::Ult | K::Slt) { 1 } else { w };
        if let (Some((c, x, y)), Some(z)) = (self.ite_consts(a), self.cv(b)) {
            let p = Self::fold2(k, w, x, z)?;
            let q = Self::fold2(k, w, y, z)?;
            let (p, q) = (self.konst(rw, p), self.konst(rw, q));
            return Some(self.ite(c, p, q));
        }
        if let (Some(z), Some((c, x, y))) = (self.cv(a), self.ite_consts(b)) {
            let p = Self::fold2(k, w, z, x)?;
            let q = Self::fold2(k, w, z, y)?;
            let (p, q) = (self.konst(rw, p), self.konst(rw, q));
            return Some(self.ite(c, p, q));
        }
        None
    }

    fn both_const(&mut self, k: K, a: E, b: E) -> Option<E> {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let w = self.w(a);
            let rw = if matches!(k, K::Eq | K::Ult | K::Slt) { 1 } else { w };
            let v = Self::fold2(k, w, x, y)?;
            return Some(self.konst(rw, v));
        }
        None
    }

    pub fn add_nowrap(&self, a: E, b: E) -> bool {
        match self.hi(a).checked_add(self.hi(b)) {
            Some(s) => s <= mask(self.w(a)),
            None => false,
        }
    }
    fn mul_nowrap(&self, a: E, b: E) -> bool {
        match self.hi(a).checked_mul(self.hi(b)) {
            Some(s) => s <= mask(self.w(a)),
            None => false,
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::Add, a, b) {
            return r;
        }
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let na = self.n(a);
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return a;
            }
            // reassociate constants
            if na.k == K::Add {
                if let Some(c2) = self.cv(na.b) {
                    let s = self.konst(w, c.wrapping_add(c2));
                    return self.add(na.a, s);
                }
            }
            if na.k == K::Sub {
                if let Some(c2) = self.cv(na.a) {
                    let s = self.konst(w, c.wrapping_add(c2));
                    return self.sub(s, na.b);
                }
                if let Some(c2) = self.cv(na.b) {
                    let s = self.konst(w, c.wrapping_sub(c2));
                    return self.add(na.a, s);
                }
            }
            // adding a "negative" constant is a subtraction
            if w > 1 && c > (mask(w) >> 1) {
                let neg = self.konst(w, c.wrapping_neg());
                if let Some(r) = self.push_ite(K::Sub, a, neg) {
                    return r;
                }
                return self.mk(K::Sub, w, a, neg, 0, 0);
            }
            if let Some(r) = self.push_ite(K::Add, a, b) {
                return r;
            }
        }
        if (na.k == K::Sub || na.k == K::SubNw) && na.b == b {
            return na.a;
        }
        let nb = self.n(b);
        if (nb.k == K::Sub || nb.k == K::SubNw) && nb.b == a {
            return nb.a;
        }
        // (x/c)*c + x%c = x
        for (p, q) in [(na, nb), (nb, na)] {
            if p.k == K::Mul && q.k == K::URem {
                if let Some(c) = self.cv(p.b) {
                    let d = self.n(p.a);
                    if d.k == K::UDiv && d.a == q.a && self.cv(d.b) == Some(c) && self.cv(q.b) == Some(c) {
                        return q.a;
                    }
                }
            }
        }
        // a + (0 - y)
        if nb.k == K::Sub && self.cv(nb.a) == Some(0) {
            return self.sub(a, nb.b);
        }
        // constants outwards: (x + c) + y = (x + y) + c
        if na.k == K::Add && self.cv(na.b).is_some() && self.cv(b).is_none() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.k == K::Add && self.cv(nb.b).is_some() && self.cv(b).is_none() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x*c + x
        if a == b {
            let two = self.konst(w, 2);
            return self.mul(a, two);
        }
        if na.k == K::Mul && nb.k == K::Mul && na.a == nb.a {
            if let (Some(c), Some(d)) = (self.cv(na.b), self.cv(nb.b)) {
                let s = self.konst(w, c.wrapping_add(d));
                return self.mul(na.a, s);
            }
        }
        // x*c + y*d = (x*(c/g) + y*(d/g))*g when nothing can wrap
        if na.k == K::Mul && nb.k == K::Mul && self.add_nowrap(a, b) {
            if let (Some(c), Some(d)) = (self.cv(na.b), self.cv(nb.b)) {
                let g = gcd(c, d);
                if g > 1 && self.mul_nowrap(na.a, na.b) && self.mul_nowrap(nb.a, nb.b) {
                    let (kc, kd, kg) = (self.konst(w, c / g), self.konst(w, d / g), self.konst(w, g));
                    let x = self.mul(na.a, kc);
                    let y = self.mul(nb.a, kd);
                    let s = self.add(x, y);
                    return self.mul(s, kg);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Add, w, a, b, 0, 0)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::Sub, a, b) {
            return r;
        }
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return a;
            }
            let na = self.n(a);
            if (na.k == K::Add && self.cv(na.b).is_some())
                || (na.k == K::Sub && (self.cv(na.a).is_some() || self.cv(na.b).is_some()))
                || c > (mask(w) >> 1)
            {
                let neg = self.konst(w, c.wrapping_neg());
                return self.add(a, neg);
            }
            if let Some(r) = self.push_ite(K::Sub, a, b) {
                return r;
            }
            return self.mk(K::Sub, w, a, b, 0, 0);
        }
        if let Some(r) = self.push_ite(K::Sub, a, b) {
            return r;
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.k == K::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if na.k == K::Sub && na.a == b {
            let z = self.konst(w, 0);
            return self.sub(z, na.b);
        }
        if nb.k == K::Sub && nb.a == a {
            return nb.b;
        }
        if nb.k == K::Add {
            if nb.a == a {
                let z = self.konst(w, 0);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.konst(w, 0);
                return self.sub(z, nb.a);
            }
        }
        if let Some(r) = self.remainder(a, b) {
            return r;
        }
        // x - x%c = (x/c)*c
        if nb.k == K::URem && nb.a == a && self.cv(nb.b).is_some() {
            let d = self.udiv(a, nb.b);
            return self.mul(d, nb.b);
        }
        // constants outwards
        if na.k == K::Add && self.cv(na.b).is_some() {
            // (x + c) - (y + d)
            if nb.k == K::Add && self.cv(nb.b).is_some() {
                let d = self.sub(na.b, nb.b);
                let s = self.sub(na.a, nb.a);
                return self.add(s, d);
            }
            if nb.k != K::Const {
                let s = self.sub(na.a, b);
                // only when it does not destroy range information
                if self.lo(a) < self.hi(b) || self.lo(na.a) >= self.hi(b) {
                    return self.add(s, na.b);
                }
            }
        }
        // common addend
        if na.k == K::Add && nb.k == K::Add {
            for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                for (p, q) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    if x == p {
                        return self.sub(y, q);
                    }
                }
            }
        }
        // common factor
        if na.k == K::Mul && nb.k == K::Mul && na.b == nb.b && self.cv(na.b).is_some() {
            if self.mul_nowrap(na.a, na.b) && self.mul_nowrap(nb.a, nb.b) && self.lo(na.a) >= self.hi(nb.a) {
                let s = self.sub(na.a, nb.a);
                return self.mul(s, na.b);
            }
        }
        if na.k == K::Mul && na.a == b {
            if let Some(c) = self.cv(na.b) {
                let d = self.konst(w, c.wrapping_sub(1));
                return self.mul(b, d);
            }
        }
        self.mk(K::Sub, w, a, b, 0, 0)
    }

    /// a - b seen as a remainder: x - (x/c)*c = x % c, and the same with a common factor and a small
    /// constant, d*x + r - (x/c)*(c*d) = (x % c)*d + r
    pub fn remainder(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let nb = self.n(b);
        if nb.k != K::Mul {
            return None;
        }
        let c = self.cv(nb.b)?;
        // the quotient may have been computed in another width
        let mut q = nb.a;
        while matches!(self.n(q).k, K::Zext) || (self.n(q).k == K::Trunc && self.hi(self.n(q).a) <= mask(self.w(q))) {
            q = self.n(q).a;
        }
        let d = self.n(q);
        if d.k != K::UDiv || !self.mul_nowrap(nb.a, nb.b) {
            return None;
        }
        let k = self.cv(d.b)?;
        if k == 0 || c % k != 0 {
            return None;
        }
        let f = c / k;
        let z = if d.w < w {
            self.zext(d.a, w)
        } else if d.w > w {
            if self.hi(d.a) > mask(w) {
                return None;
            }
            self.trunc(d.a, w)
        } else {
            d.a
        };
        let kf = self.konst(w, f);
        if f > mask(w) || k > mask(w) || !self.mul_nowrap(z, kf) {
            return None;
        }
        let fz = self.mul(z, kf);
        let rest = if fz == a {
            0
        } else {
            let split = |s: &Self, e: E| match s.n(e) {
                n if n.k == K::Add && s.cv(n.b).is_some() && s.add_nowrap(n.a, n.b) => (n.a, s.cv(n.b).unwrap()),
                _ => (e, 0),
            };
            let (x, r1) = split(self, a);
            let (y, r2) = split(self, fz);
            if x != y || r1 < r2 {
                return None;
            }
            r1 - r2
        };
        let kk = self.konst(w, k);
        let r = self.urem(z, kk);
        let r = self.mul(r, kf);
        let rest = self.konst(w, rest);
        Some(self.add(r, rest))
    }

    /// a - b where the path condition says a >= b (only to be used on such paths)
    pub fn sub_nw(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if self.lo(a) >= self.hi(b) || (self.cv(a).is_some() && self.cv(b).is_some()) {
            return self.sub(a, b);
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        let na = self.n(a);
        let nb = self.n(b);
        if let Some(r) = self.remainder(a, b) {
            return r;
        }
        // (x - y) - b
        if na.k == K::SubNw && self.add_nowrap(na.b, b) {
            let s = self.add(na.b, b);
            return self.sub_nw(na.a, s);
        }
        // a - (x - y)
        if nb.k == K::SubNw && self.add_nowrap(a, nb.b) {
            let s = self.add(a, nb.b);
            return self.sub_nw(s, nb.a);
        }
        let anw = na.k == K::Add && self.add_nowrap(na.a, na.b);
        let bnw = nb.k == K::Add && self.add_nowrap(nb.a, nb.b);
        if anw {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if anw && bnw {
            for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                for (p, q) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    if x == p {
                        return self.sub_nw(y, q);
                    }
                }
            }
            if let (Some(c), Some(d)) = (self.cv(na.b), self.cv(nb.b)) {
                if c >= d {
                    let k = self.konst(w, c - d);
                    let l = self.add(na.a, k);
                    return self.sub_nw(l, nb.a);
                } else {
                    let k = self.konst(w, d - c);
                    let l = self.add(nb.a, k);
                    return self.sub_nw(na.a, l);
                }
            }
        }
        // common factor
        for (p, q) in [(na, b), (nb, a)] {
            if p.k == K::Mul && self.cv(p.b).is_some() && self.mul_nowrap(p.a, p.b) {
                let c = self.cv(p.b).unwrap();
                if let Some(o) = self.exact_div(q, c) {
                    let d = if q == b { self.sub_nw(p.a, o) } else { self.sub_nw(o, p.a) };
                    let k = self.konst(w, c);
                    return self.mul(d, k);
                }
            }
        }
        self.mk(K::SubNw, w, a, b, 0, 0)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::Mul, a, b) {
            return r;
        }
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            if c == mask(w) {
                let z = self.konst(w, 0);
                return self.sub(z, a);
            }
            // a negative factor is a subtraction from zero
            if c > (mask(w) >> 1) && c.wrapping_neg() & mask(w) < (1 << 40) && !c.is_power_of_two() {
                let p = self.konst(w, c.wrapping_neg());
                let q = self.mul(a, p);
                let z = self.konst(w, 0);
                return self.sub(z, q);
            }
            if let Some(r) = self.push_ite(K::Mul, a, b) {
                return r;
            }
            let na = self.n(a);
            if na.k == K::Mul {
                if let Some(c2) = self.cv(na.b) {
                    let p = self.konst(w, c.wrapping_mul(c2));
                    return self.mul(na.a, p);
                }
            }
            if na.k == K::Add {
                if let Some(c2) = self.cv(na.b) {
                    let x = self.mul(na.a, b);
                    let y = self.konst(w, c.wrapping_mul(c2));
                    return self.add(x, y);
                }
            }
            // summands that are shifted out altogether
            if matches!(na.k, K::Add | K::Sub) {
                let k = c.trailing_zeros();
                if self.i(na.b).tz as u32 + k >= w as u32 {
                    return self.mul(na.a, b);
                }
                if self.i(na.a).tz as u32 + k >= w as u32 {
                    let x = self.mul(na.b, b);
                    if na.k == K::Add {
                        return x;
                    }
                    let z = self.konst(w, 0);
                    return self.sub(z, x);
                }
            }
            // the part of x that survives a large power of two
            if c.is_power_of_two() {
                let k = c.trailing_zeros() as u8;
                if self.i(a).tz as u32 + k as u32 >= w as u32 {
                    return self.konst(w, 0);
                }
                if na.k == K::URem {
                    if let Some(d) = self.cv(na.b) {
                        if d.is_power_of_two() && d.trailing_zeros() as u8 + k >= w {
                            return self.mul(na.a, b);
                        }
                    }
                }
            }
        } else {
            if a > b {
                return self.mk(K::Mul, w, b, a, 0, 0);
            }
        }
        self.mk(K::Mul, w, a, b, 0, 0)
    }

    /// is `e` syntactically a multiple of the constant c (without wrap)?  Returns e / c.
    fn exact_div(&mut self, e: E, c: u128) -> Option<E> {
        if let Some(r) = self.divmemo.get(&(e, c)) {
            return *r;
        }
        let r = self.exact_div_(e, c);
        self.divmemo.insert((e, c), r);
        r
    }
    fn exact_div_(&mut self, e: E, c: u128) -> Option<E> {
        let n = self.n(e);
        let w = n.w;
        match n.k {
            K::Const => {
                if n.v % c == 0 {
                    Some(self.konst(w, n.v / c))
                } else {
                    None
                }
            }
            K::Mul => {
                let d = self.cv(n.b)?;
                if d % c == 0 && self.mul_nowrap(n.a, n.b) {
                    let k = self.konst(w, d / c);
                    Some(self.mul(n.a, k))
                } else {
                    None
                }
            }
            K::Add => {
                if !self.add_nowrap(n.a, n.b) {
                    return None;
                }
                let x = self.exact_div(n.a, c)?;
                let y = self.exact_div(n.b, c)?;
                Some(self.add(x, y))
            }
            K::Sub => {
                if self.lo(n.a) < self.hi(n.b) {
                    return None;
                }
                let x = self.exact_div(n.a, c)?;
                let y = self.exact_div(n.b, c)?;
                Some(self.sub(x, y))
            }
            K::SubNw => {
                let x = self.exact_div(n.a, c)?;
                let y = self.exact_div(n.b, c)?;
                Some(self.sub_nw(x, y))
            }
            K::Zext => {
                let wa = self.w(n.a);
                if c > mask(wa) {
                    return None;
                }
                let x = self.exact_div(n.a, c)?;
                Some(self.zext(x, w))
            }
            K::Trunc => {
                if self.hi(n.a) > mask(w) {
                    return None;
                }
                let x = self.exact_div(n.a, c)?;
                Some(self.trunc(x, w))
            }
            _ => None,
        }
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::UDiv, a, b) {
            return r;
        }
        let w = self.w(a);
        if let Some(c) = self.cv(b) {
            if c == 1 {
                return a;
            }
            if c == 0 {
                return self.mk(K::UDiv, w, a, b, 0, 0);
            }
            if self.hi(a) < c {
                return self.konst(w, 0);
            }
            if let Some(r) = self.push_ite(K::UDiv, a, b) {
                return r;
            }
            if let Some(r) = self.exact_div(a, c) {
                return r;
            }
            let na = self.n(a);
            match na.k {
                K::UDiv => {
                    if let Some(d) = self.cv(na.b) {
                        if let Some(p) = d.checked_mul(c) {
                            if p <= mask(w) {
                                let p = self.konst(w, p);
                                return self.udiv(na.a, p);
                            }
                        }
                        return self.konst(w, 0);
                    }
                }
                K::Mul => {
                    if let Some(d) = self.cv(na.b) {
                        if self.mul_nowrap(na.a, na.b) && c % d == 0 {
                            let q = self.konst(w, c / d);
                            return self.udiv(na.a, q);
                        }
                        // common factor
                        let g = gcd(c, d);
                        if g > 1 && self.mul_nowrap(na.a, na.b) {
                            let p = self.konst(w, d / g);
                            let q = self.konst(w, c / g);
                            let x = self.mul(na.a, p);
                            return self.udiv(x, q);
                        }
                    }
                }
                K::Add => {
                    if self.add_nowrap(na.a, na.b) {
                        for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                            if let Some(q) = self.exact_div(x, c) {
                                let r = self.udiv(y, b);
                                return self.add(q, r);
                            }
                        }
                        // c1*x + k  with x's factor sharing: (d*x + k)/c, d | c, k < d  ->  x / (c/d)
                        if let (Some(k), n1) = (self.cv(na.b), self.n(na.a)) {
                            if n1.k == K::Mul {
                                if let Some(d) = self.cv(n1.b) {
                                    if c % d == 0 && self.mul_nowrap(n1.a, n1.b) {
                                        // floor((d*x + k)/c) = floor((x + floor(k/d)) / (c/d))
                                        let kk = self.konst(w, k / d);
                                        let s = self.add(n1.a, kk);
                                        let q = self.konst(w, c / d);
                                        return self.udiv(s, q);
                                    }
                                }
                            }
                            // (x + k)/c with k >= c: pull out whole multiples
                            if k >= c {
                                let kr = self.konst(w, k % c);
                                let s = self.add(na.a, kr);
                                let q = self.udiv(s, b);
                                let kq = self.konst(w, k / c);
                                return self.add(q, kq);
                            }
                        }
                    }
                }
                K::Zext => {
                    let wa = self.w(na.a);
                    if c <= mask(wa) {
                        let k = self.konst(wa, c);
                        let q = self.udiv(na.a, k);
                        return self.zext(q, w);
                    }
                    return self.konst(w, 0);
                }
                K::Trunc => {
                    if self.hi(na.a) <= mask(w) {
                        let wa = self.w(na.a);
                        let k = self.konst(wa, c);
                        let q = self.udiv(na.a, k);
                        return self.trunc(q, w);
                    }
                }
                K::Or | K::And | K::Xor if c.is_power_of_two() => {
                    let x = self.udiv(na.a, b);
                    let y = self.udiv(na.b, b);
                    return self.bit(na.k, x, y);
                }
                _ => {}
            }
        }
        self.mk(K::UDiv, w, a, b, 0, 0)
    }

    pub fn urem(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::URem, a, b) {
            return r;
        }
        let w = self.w(a);
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return self.mk(K::URem, w, a, b, 0, 0);
            }
            if c == 1 {
                return self.konst(w, 0);
            }
            if self.hi(a) < c {
                return a;
            }
            if let Some(r) = self.push_ite(K::URem, a, b) {
                return r;
            }
            if self.exact_div(a, c).is_some() {
                return self.konst(w, 0);
            }
            if c.is_power_of_two() && self.i(a).tz as u32 >= c.trailing_zeros() {
                return self.konst(w, 0);
            }
            let na = self.n(a);
            match na.k {
                K::URem => {
                    if let Some(d) = self.cv(na.b) {
                        if d % c == 0 {
                            return self.urem(na.a, b);
                        }
                    }
                }
                K::Mul => {
                    // (x*d) % c with d | c, no wrap: d * (x % (c/d))
                    if let Some(d) = self.cv(na.b) {
                        let g = gcd(c, d);
                        if g > 1 && self.mul_nowrap(na.a, na.b) {
                            let p = self.konst(w, d / g);
                            let x = self.mul(na.a, p);
                            let q = self.konst(w, c / g);
                            let r = self.urem(x, q);
                            let g = self.konst(w, g);
                            return self.mul(r, g);
                        }
                    }
                }
                K::Add => {
                    if c.is_power_of_two() {
                        for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                            if self.i(x).tz as u32 >= c.trailing_zeros() {
                                return self.urem(y, b);
                            }
                        }
                    }
                    if self.add_nowrap(na.a, na.b) {
                        for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                            if self.exact_div(x, c).is_some() {
                                return self.urem(y, b);
                            }
                        }
                        if let Some(k) = self.cv(na.b) {
                            if k >= c {
                                let kr = self.konst(w, k % c);
                                let s = self.add(na.a, kr);
                                return self.urem(s, b);
                            }
                            // d*x + k with d | c and k < d
                            let n1 = self.n(na.a);
                            if n1.k == K::Mul {
                                if let Some(d) = self.cv(n1.b) {
                                    if d > 1 && c % d == 0 && self.mul_nowrap(n1.a, n1.b) {
                                        let kq = self.konst(w, k / d);
                                        let s = self.add(n1.a, kq);
                                        let q = self.konst(w, c / d);
                                        let r = self.urem(s, q);
                                        let dd = self.konst(w, d);
                                        let r = self.mul(r, dd);
                                        let kr = self.konst(w, k % d);
                                        return self.add(r, kr);
                                    }
                                }
                            }
                        }
                    }
                }
                K::Zext => {
                    let wa = self.w(na.a);
                    if c <= mask(wa) {
                        let k = self.konst(wa, c);
                        let q = self.urem(na.a, k);
                        return self.zext(q, w);
                    }
                    return a;
                }
                K::Trunc => {
                    if self.hi(na.a) <= mask(w) || c.is_power_of_two() {
                        let wa = self.w(na.a);
                        let k = self.konst(wa, c);
                        let q = self.urem(na.a, k);
                        return self.trunc(q, w);
                    }
                }
                K::Or | K::And | K::Xor if c.is_power_of_two() => {
                    let x = self.urem(na.a, b);
                    let y = self.urem(na.b, b);
                    return self.bit(na.k, x, y);
                }
                _ => {}
            }
        }
        self.mk(K::URem, w, a, b, 0, 0)
    }

    pub fn sdiv(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::SDiv, a, b) {
            return r;
        }
        let w = self.w(a);
        if self.i(a).slo >= 0 && self.i(b).slo > 0 {
            return self.udiv(a, b);
        }
        self.mk(K::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::SRem, a, b) {
            return r;
        }
        let w = self.w(a);
        if self.i(a).slo >= 0 && self.i(b).slo > 0 {
            return self.urem(a, b);
        }
        self.mk(K::SRem, w, a, b, 0, 0)
    }

    fn bit(&mut self, k: K, a: E, b: E) -> E {
        match k {
            K::And => self.and(a, b),
            K::Or => self.or(a, b),
            K::Xor => self.xor(a, b),
            _ => unreachable!(),
        }
    }

    fn as_bool(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.k == K::Zext && self.w(n.a) == 1 {
            Some(n.a)
        } else {
            None
        }
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::And, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(c) = self.cv(b) {
                return if c == 1 { a } else { b };
            }
            if self.not(a) == b {
                return self.fls();
            }
            let (a, b) = if a > b { (b, a) } else { (a, b) };
            // absorb
            let nb = self.n(b);
            if nb.k == K::And && (nb.a == a || nb.b == a) {
                return b;
            }
            let na = self.n(a);
            if na.k == K::And && (na.a == b || na.b == b) {
                return a;
            }
            return self.mk(K::And, 1, a, b, 0, 0);
        }
        if let (Some(p), Some(q)) = (self.as_bool(a), self.as_bool(b)) {
            let r = self.and(p, q);
            return self.zext(r, w);
        }
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return b;
            }
            if c == mask(w) {
                return a;
            }
            // drop mask bits that cannot matter
            let hb = 128 - self.hi(a).leading_zeros();
            let reach = if hb == 0 { 0 } else { mask(hb as u8) };
            if c & reach == reach {
                return a;
            }
            if let Some(r) = self.push_ite(K::And, a, b) {
                return r;
            }
            let c2 = c & reach;
            if c2 == 0 {
                return self.konst(w, 0);
            }
            // low mask
            if (c2 + 1).is_power_of_two() {
                let m = self.konst(w, c2 + 1);
                return self.urem(a, m);
            }
            // contiguous run reaching the top of a
            let tz = c2.trailing_zeros();
            if (c2 | ((1u128 << tz) - 1)) == reach {
                let p = self.konst(w, 1u128 << tz);
                let q = self.udiv(a, p);
                return self.mul(q, p);
            }
            // contiguous run
            let run = c2 >> tz;
            if (run + 1).is_power_of_two() {
                let p = self.konst(w, 1u128 << tz);
                let q = self.udiv(a, p);
                let r = self.konst(w, run + 1);
                let q = self.urem(q, r);
                return self.mul(q, p);
            }
            let na = self.n(a);
            if na.k == K::And {
                if let Some(d) = self.cv(na.b) {
                    let k = self.konst(w, c & d);
                    return self.and(na.a, k);
                }
            }
            if matches!(na.k, K::Or | K::Xor) {
                let x = self.and(na.a, b);
                let y = self.and(na.b, b);
                return self.bit(na.k, x, y);
            }
            if c2 != c {
                let k = self.konst(w, c2);
                return self.mk(K::And, w, a, k, 0, 0);
            }
            return self.mk(K::And, w, a, b, 0, 0);
        }
        // mask selection: (0 - zext p) & x
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.k == K::Sub && self.cv(n.a) == Some(0) {
                if let Some(p) = self.as_bool(n.b) {
                    let z = self.konst(w, 0);
                    return self.ite(p, y, z);
                }
            }
            if let Some(p) = self.as_bool(x) {
                let one = self.konst(w, 1);
                let lowbit = self.and(y, one);
                let z = self.konst(w, 0);
                return self.ite(p, lowbit, z);
            }
            if n.k == K::Ite {
                if let (Some(u), Some(v)) = (self.cv(n.b), self.cv(n.c)) {
                    if (u == mask(w) && v == 0) || (u == 0 && v == mask(w)) {
                        let z = self.konst(w, 0);
                        return if v == 0 { self.ite(n.a, y, z) } else { self.ite(n.a, z, y) };
                    }
                }
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.k == K::Zext && nb.k == K::Zext && self.w(na.a) == self.w(nb.a) {
            let r = self.and(na.a, nb.a);
            return self.zext(r, w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(K::And, w, a, b, 0, 0)
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::Or, a, b) {
            return r;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(c) = self.cv(b) {
                return if c == 1 { b } else { a };
            }
            // keep everything in and/not form
            let p = self.not(a);
            let q = self.not(b);
            let r = self.and(p, q);
            return self.not(r);
        }
        if let (Some(p), Some(q)) = (self.as_bool(a), self.as_bool(b)) {
            let r = self.or(p, q);
            return self.zext(r, w);
        }
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
            if let Some(r) = self.push_ite(K::Or, a, b) {
                return r;
            }
            // x | (2^k - 1)  =  (x / 2^k) * 2^k + (2^k - 1)
            if (c + 1).is_power_of_two() {
                let p = self.konst(w, c + 1);
                let q = self.udiv(a, p);
                let q = self.mul(q, p);
                return self.add(q, b);
            }
        }
        // disjoint bits: addition
        for (x, y) in [(a, b), (b, a)] {
            let t = self.i(x).tz;
            if t >= w || (t > 0 && self.hi(y) >> t == 0) {
                return self.add(x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.k == K::Zext && nb.k == K::Zext && self.w(na.a) == self.w(nb.a) {
            let r = self.or(na.a, nb.a);
            return self.zext(r, w);
        }
        // x | (ite p all-ones 0)
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.k == K::Sub && self.cv(n.a) == Some(0) {
                if let Some(p) = self.as_bool(n.b) {
                    let o = self.konst(w, u128::MAX);
                    return self.ite(p, o, y);
                }
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Or, w, a, b, 0, 0)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.both_const(K::Xor, a, b) {
            return r;
        }
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(c) = self.cv(b) {
                return if c == 1 { self.not(a) } else { a };
            }
            let e = self.eq(a, b);
            return self.not(e);
        }
        if let Some(c) = self.cv(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return self.sub(b, a);
            }
            if let Some(r) = self.push_ite(K::Xor, a, b) {
                return r;
            }
            if c == 1 {
                if let Some(p) = self.as_bool(a) {
                    let n = self.not(p);
                    return self.zext(n, w);
                }
            }
            let na = self.n(a);
            if na.k == K::Xor {
                if let Some(d) = self.cv(na.b) {
                    let k = self.konst(w, c ^ d);
                    return self.xor(na.a, k);
                }
            }
        }
        if let (Some(p), Some(q)) = (self.as_bool(a), self.as_bool(b)) {
            let r = self.xor(p, q);
            return self.zext(r, w);
        }
        // disjoint bits
        for (x, y) in [(a, b), (b, a)] {
            let t = self.i(x).tz;
            if t >= w || (t > 0 && self.hi(y) >> t == 0) {
                return self.add(x, y);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Xor, w, a, b, 0, 0)
    }

    pub fn shl_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k >= w as u32 {
            return self.konst(w, 0);
        }
        let c = self.konst(w, 1u128 << k);
        self.mul(a, c)
    }
    pub fn lshr_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k >= w as u32 {
            return self.konst(w, 0);
        }
        let c = self.konst(w, 1u128 << k);
        self.udiv(a, c)
    }
    pub fn ashr_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.konst(w, (sx(v, w) >> k) as u128);
        }
        if k == 0 {
            return a;
        }
        if self.i(a).slo >= 0 {
            return self.lshr_c(a, k);
        }
        // (x << k) >> k  is a sign extension of the low bits
        let na = self.n(a);
        if na.k == K::Mul && self.cv(na.b) == Some(1u128 << k) {
            let t = self.trunc(na.a, w - k as u8);
            return self.sext(t, w);
        }
        self.mk(K::AShr, w, a, 0, 0, k as u128)
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        if let Some(r) = self.zextmemo.get(&(a, w)) {
            return *r;
        }
        let r = self.zext_(a, w);
        self.zextmemo.insert((a, w), r);
        r
    }
    fn zext_(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.k {
            K::Const => return self.konst(w, n.v),
            K::Zext => return self.zext(n.a, w),
            // widen before scaling and adding, so that common factors stay visible
            K::Mul if self.cv(n.b).is_some() && self.mul_nowrap(n.a, n.b) => {
                let x = self.zext(n.a, w);
                let y = self.zext(n.b, w);
                return self.mul(x, y);
            }
            K::Add if self.add_nowrap(n.a, n.b) => {
                let x = self.zext(n.a, w);
                let y = self.zext(n.b, w);
                return self.add(x, y);
            }
            K::SubNw => {
                let x = self.zext(n.a, w);
                let y = self.zext(n.b, w);
                return self.sub_nw(x, y);
            }
            K::Sub if self.lo(n.a) >= self.hi(n.b) => {
                let x = self.zext(n.a, w);
                let y = self.zext(n.b, w);
                return self.sub(x, y);
            }
            K::Trunc => {
                if self.hi(n.a) <= mask(n.w) {
                    let wa = self.w(n.a);
                    if wa == w {
                        return n.a;
                    } else if wa > w {
                        return self.trunc(n.a, w);
                    } else {
                        return self.zext(n.a, w);
                    }
                }
                let wa = self.w(n.a);
                if wa == w {
                    let m = self.konst(w, 1u128 << n.w);
                    return self.urem(n.a, m);
                }
            }
            K::Ite => {
                if self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(K::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let K::Const = n.k {
            return self.konst(w, sx(n.v, n.w) as u128);
        }
        if self.i(a).slo >= 0 {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let x = self.konst(w, u128::MAX);
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        if n.k == K::Trunc {
            let wa = self.w(n.a);
            let i = *self.i(n.a);
            if wa == w && i.slo >= -(1i128 << (n.w - 1)) && i.shi < (1i128 << (n.w - 1)) {
                return n.a;
            }
        }
        self.mk(K::Sext, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u8) -> E {
        if let Some(r) = self.truncmemo.get(&(a, w)) {
            return *r;
        }
        let r = self.trunc_(a, w);
        self.truncmemo.insert((a, w), r);
        r
    }
    fn trunc_(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w > w);
        match n.k {
            K::Const => return self.konst(w, n.v),
            K::Trunc => return self.trunc(n.a, w),
            K::Zext | K::Sext => {
                let wa = self.w(n.a);
                return if wa == w {
                    n.a
                } else if wa > w {
                    self.trunc(n.a, w)
                } else if n.k == K::Zext {
                    self.zext(n.a, w)
                } else {
                    self.sext(n.a, w)
                };
            }
            K::URem => {
                if let Some(c) = self.cv(n.b) {
                    if c.is_power_of_two() && c.trailing_zeros() >= w as u32 {
                        return self.trunc(n.a, w);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            let one = self.konst(n.w, 1);
            let two = self.konst(n.w, 2);
            let r = self.urem(a, two);
            if let Some(p) = self.as_bool(r) {
                return p;
            }
            return self.eq(r, one);
        }
        if self.i(a).tz >= w {
            return self.konst(w, 0);
        }
        // narrow the operands when everything fits
        if matches!(n.k, K::Mul | K::Add | K::SubNw) && self.hi(a) <= mask(w) {
            if n.b != 0 && self.hi(n.a) <= mask(w) && self.hi(n.b) <= mask(w) {
                let fits = match n.k {
                    K::Mul => self.mul_nowrap(n.a, n.b),
                    K::Add => self.add_nowrap(n.a, n.b),
                    _ => true,
                };
                if fits {
                    let x = self.trunc(n.a, w);
                    let y = self.trunc(n.b, w);
                    return match n.k {
                        K::Mul => self.mul(x, y),
                        K::Add => self.add(x, y),
                        _ => self.sub_nw(x, y),
                    };
                }
            }
        }
        if self.hi(a) > mask(w) {
            match n.k {
                K::Add | K::Sub | K::Mul | K::And | K::Or | K::Xor => {
                    let x = self.trunc(n.a, w);
                    let y = self.trunc(n.b, w);
                    return match n.k {
                        K::Add => self.add(x, y),
                        K::Sub => self.sub(x, y),
                        K::Mul => self.mul(x, y),
                        k => self.bit(k, x, y),
                    };
                }
                _ => {}
            }
        }
        if n.k == K::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some() || self.hi(a) > mask(w)) {
            let x = self.trunc(n.b, w);
            let y = self.trunc(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(K::Trunc, w, a, 0, 0, 0)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        if let Some(r) = self.both_const(K::Eq, a, b) {
            return r;
        }
        let w = self.w(a);
        let (ia, ib) = (*self.i(a), *self.i(b));
        if ia.hi < ib.lo || ib.hi < ia.lo || ia.shi < ib.slo || ib.shi < ia.slo {
            return self.fls();
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(c) = self.cv(b) {
                return if c == 1 { a } else { self.not(a) };
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Not && nb.k == K::Not {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Not {
                let r = self.eq(na.a, b);
                return self.not(r);
            }
            if nb.k == K::Not {
                let r = self.eq(a, nb.a);
                return self.not(r);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.k == K::SubNw && self.add_nowrap(b, na.b) {
            let s = self.add(b, na.b);
            return self.eq(na.a, s);
        }
        if nb.k == K::SubNw && self.add_nowrap(a, nb.b) {
            let s = self.add(a, nb.b);
            return self.eq(nb.a, s);
        }
        if let Some(c) = self.cv(b) {
            if let Some(r) = self.push_ite(K::Eq, a, b) {
                return r;
            }
            match na.k {
                K::Zext => {
                    let wa = self.w(na.a);
                    if c > mask(wa) {
                        return self.fls();
                    }
                    let k = self.konst(wa, c);
                    return self.eq(na.a, k);
                }
                K::Trunc => {
                    if self.hi(na.a) <= mask(w) {
                        let wa = self.w(na.a);
                        let k = self.konst(wa, c);
                        return self.eq(na.a, k);
                    }
                }
                K::Add => {
                    if let Some(d) = self.cv(na.b) {
                        let k = self.konst(w, c.wrapping_sub(d));
                        return self.eq(na.a, k);
                    }
                }
                K::Sub => {
                    if c == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(d) = self.cv(na.b) {
                        let k = self.konst(w, c.wrapping_add(d));
                        return self.eq(na.a, k);
                    }
                    if let Some(d) = self.cv(na.a) {
                        let k = self.konst(w, d.wrapping_sub(c));
                        return self.eq(na.b, k);
                    }
                }
                K::Xor => {
                    if c == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(d) = self.cv(na.b) {
                        let k = self.konst(w, c ^ d);
                        return self.eq(na.a, k);
                    }
                }
                K::Mul => {
                    if let Some(d) = self.cv(na.b) {
                        if d != 0 && self.mul_nowrap(na.a, na.b) {
                            if c % d != 0 {
                                return self.fls();
                            }
                            let k = self.konst(w, c / d);
                            return self.eq(na.a, k);
                        }
                    }
                }
                K::UDiv => {
                    // x/d == c   <=>  c*d <= x < (c+1)*d
                    if let Some(d) = self.cv(na.b) {
                        if d > 0 {
                            if let Some(l) = c.checked_mul(d) {
                                let h = l.checked_add(d);
                                let lo = self.konst(w, l);
                                let p = self.ule(lo, na.a);
                                let q = match h {
                                    Some(h) if h <= mask(w) => {
                                        let hh = self.konst(w, h);
                                        self.ult(na.a, hh)
                                    }
                                    _ => self.tru(),
                                };
                                return self.and(p, q);
                            }
                        }
                    }
                }
                K::Ite => {
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    if self.cv(x).is_some() || self.cv(y).is_some() {
                        return self.ite(na.a, x, y);
                    }
                }
                K::Or => {
                    if c == 0 {
                        let z = self.konst(w, 0);
                        let p = self.eq(na.a, z);
                        let q = self.eq(na.b, z);
                        return self.and(p, q);
                    }
                }
                _ => {}
            }
        } else {
            if na.k == K::Zext && nb.k == K::Zext && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Trunc && nb.k == K::Trunc {
                if self.w(na.a) == self.w(nb.a) && self.hi(na.a) <= mask(w) && self.hi(nb.a) <= mask(w) {
                    return self.eq(na.a, nb.a);
                }
            }
            if na.k == K::Add && nb.k == K::Add {
                for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                    for (p, q) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if x == p {
                            return self.eq(y, q);
                        }
                    }
                }
                if let (Some(c), Some(d)) = (self.cv(na.b), self.cv(nb.b)) {
                    // keep the constant on one side
                    if c >= d {
                        let k = self.konst(w, c - d);
                        let l = self.add(na.a, k);
                        return self.eq_final(l, nb.a);
                    } else {
                        let k = self.konst(w, d - c);
                        let l = self.add(nb.a, k);
                        return self.eq_final(na.a, l);
                    }
                }
            }
            if na.k == K::Mul && nb.k == K::Mul && na.b == nb.b && self.cv(na.b).is_some() {
                if self.mul_nowrap(na.a, na.b) && self.mul_nowrap(nb.a, nb.b) {
                    return self.eq(na.a, nb.a);
                }
            }
            if na.k == K::Add {
                if na.a == b {
                    let z = self.konst(w, 0);
                    return self.eq(na.b, z);
                }
                if na.b == b {
                    let z = self.konst(w, 0);
                    return self.eq(na.a, z);
                }
            }
            if nb.k == K::Add && (nb.a == a || nb.b == a) {
                return self.eq(b, a);
            }
        }
        self.eq_final(a, b)
    }
    fn eq_final(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq, 1, a, b, 0, 0)
    }

    pub fn ule(&mut self, a: E, b: E) -> E {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let r = self.slt(b, a);
        self.not(r)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        if let Some(r) = self.both_const(K::Ult, a, b) {
            return r;
        }
        let w = self.w(a);
        let (ia, ib) = (*self.i(a), *self.i(b));
        if ia.hi < ib.lo {
            return self.tru();
        }
        if ia.lo >= ib.hi {
            return self.fls();
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(r) = self.push_ite(K::Ult, a, b) {
            return r;
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.k == K::SubNw && self.cv(b) == Some(1) {
            return self.eq(na.a, na.b);
        }
        if nb.k == K::SubNw && self.cv(a) == Some(0) {
            return self.ult(nb.b, nb.a);
        }
        // x < lo+1 is x == lo ; hi-1 < x is x == hi
        if let Some(c) = self.cv(b) {
            if c == ia.lo + 1 {
                let k = self.konst(w, ia.lo);
                return self.eq(a, k);
            }
            if c == ia.hi {
                let k = self.konst(w, ia.hi);
                let r = self.eq(a, k);
                return self.not(r);
            }
        }
        if let Some(c) = self.cv(a) {
            if c + 1 == ib.hi {
                let k = self.konst(w, ib.hi);
                return self.eq(b, k);
            }
            if c == ib.lo {
                let k = self.konst(w, ib.lo);
                let r = self.eq(b, k);
                return self.not(r);
            }
        }
        // zero extensions
        match (na.k, nb.k) {
            (K::Zext, K::Zext) if self.w(na.a) == self.w(nb.a) => return self.ult(na.a, nb.a),
            (K::Zext, K::Const) => {
                let wa = self.w(na.a);
                let k = self.konst(wa, nb.v);
                return self.ult(na.a, k);
            }
            (K::Const, K::Zext) => {
                let wb = self.w(nb.a);
                let k = self.konst(wb, na.v);
                return self.ult(k, nb.a);
            }
            _ => {}
        }
        let ta = na.k == K::Trunc && self.hi(na.a) <= mask(w);
        let tb = nb.k == K::Trunc && self.hi(nb.a) <= mask(w);
        if ta && tb && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if ta {
            if let Some(c) = self.cv(b) {
                let k = self.konst(self.w(na.a), c);
                return self.ult(na.a, k);
            }
        }
        if tb {
            if let Some(c) = self.cv(a) {
                let k = self.konst(self.w(nb.a), c);
                return self.ult(k, nb.a);
            }
        }
        // differences of known sign
        if na.k == K::SubNw && self.add_nowrap(b, na.b) {
            let s = self.add(b, na.b);
            return self.ult(na.a, s);
        }
        if nb.k == K::SubNw && self.add_nowrap(a, nb.b) {
            let s = self.add(a, nb.b);
            return self.ult(s, nb.a);
        }
        // constants across nowrap additions
        let anw = na.k == K::Add && self.add_nowrap(na.a, na.b);
        let bnw = nb.k == K::Add && self.add_nowrap(nb.a, nb.b);
        if anw {
            if let (Some(k), Some(c)) = (self.cv(na.b), self.cv(b)) {
                // x + k < c  (k <= c as ranges overlap)
                if k >= c {
                    return self.fls();
                }
                let kk = self.konst(w, c - k);
                return self.ult(na.a, kk);
            }
        }
        if bnw {
            if let (Some(c), Some(k)) = (self.cv(a), self.cv(nb.b)) {
                // c < x + k
                if c < k {
                    return self.tru();
                }
                let kk = self.konst(w, c - k);
                return self.ult(kk, nb.a);
            }
        }
        if anw && bnw {
            for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                for (p, q) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    if x == p {
                        return self.ult(y, q);
                    }
                }
            }
            if let (Some(c), Some(d)) = (self.cv(na.b), self.cv(nb.b)) {
                if c >= d {
                    let k = self.konst(w, c - d);
                    let l = self.add(na.a, k);
                    return self.ult(l, nb.a);
                } else {
                    let k = self.konst(w, d - c);
                    let l = self.add(nb.a, k);
                    return self.ult(na.a, l);
                }
            }
        }
        if anw && (na.a == b || na.b == b) {
            return self.fls();
        }
        if bnw && (nb.a == a || nb.b == a) {
            let o = if nb.a == a { nb.b } else { nb.a };
            let z = self.konst(w, 0);
            let r = self.eq(o, z);
            return self.not(r);
        }
        // wrap test: x + y < x   <=>  overflow
        // common factors
        if let (K::Mul, K::Mul) = (na.k, nb.k) {
            if na.b == nb.b && self.cv(na.b).is_some() && self.mul_nowrap(na.a, na.b) && self.mul_nowrap(nb.a, nb.b) {
                return self.ult(na.a, nb.a);
            }
        }
        if na.k == K::Mul && self.mul_nowrap(na.a, na.b) {
            if let (Some(d), Some(c)) = (self.cv(na.b), self.cv(b)) {
                // d*x < c  <=>  x < ceil(c/d)
                let k = self.konst(w, (c + d - 1) / d);
                return self.ult(na.a, k);
            }
            if let Some(d) = self.cv(na.b) {
                if let Some(q) = self.exact_div(b, d) {
                    return self.ult(na.a, q);
                }
            }
        }
        if nb.k == K::Mul && self.mul_nowrap(nb.a, nb.b) {
            if let (Some(d), Some(c)) = (self.cv(nb.b), self.cv(a)) {
                // c < d*x  <=>  c/d < x
                let k = self.konst(w, c / d);
                return self.ult(k, nb.a);
            }
            if let Some(d) = self.cv(nb.b) {
                if let Some(q) = self.exact_div(a, d) {
                    return self.ult(q, nb.a);
                }
            }
        }
        // x/d < c  <=>  x < c*d
        if na.k == K::UDiv {
            if let (Some(d), Some(c)) = (self.cv(na.b), self.cv(b)) {
                if d > 0 {
                    if let Some(p) = c.checked_mul(d) {
                        if p <= mask(w) {
                            let k = self.konst(w, p);
                            return self.ult(na.a, k);
                        } else {
                            return self.tru();
                        }
                    }
                }
            }
        }
        // c < x/d  <=>  (c+1)*d - 1 < x
        if nb.k == K::UDiv {
            if let (Some(d), Some(c)) = (self.cv(nb.b), self.cv(a)) {
                if d > 0 {
                    if let Some(p) = (c + 1).checked_mul(d) {
                        if p - 1 <= mask(w) {
                            let k = self.konst(w, p - 1);
                            return self.ult(k, nb.a);
                        } else {
                            return self.fls();
                        }
                    }
                }
            }
        }
        // x ^ y against 2^m or 2^m - 2^k
        if na.k == K::Xor {
            if let Some(c) = self.cv(b) {
                if let Some(r) = self.xor_below(na.a, na.b, c) {
                    return r;
                }
            }
        }
        if nb.k == K::Xor {
            if let Some(c) = self.cv(a) {
                if let Some(r) = self.xor_below(nb.a, nb.b, c + 1) {
                    return self.not(r);
                }
            }
        }
        // ite with one deciding arm
        if na.k == K::Ite && self.cv(b).is_some() {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            if self.cv(x).is_some() || self.cv(y).is_some() {
                return self.ite(na.a, x, y);
            }
        }
        if nb.k == K::Ite && self.cv(a).is_some() {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            if self.cv(x).is_some() || self.cv(y).is_some() {
                return self.ite(nb.a, x, y);
            }
        }
        self.mk(K::Ult, 1, a, b, 0, 0)
    }

    /// a ^ b < c, where c is a power of two or the difference of two
    fn xor_below(&mut self, a: E, b: E, c: u128) -> Option<E> {
        let w = self.w(a);
        if c == 0 || c > mask(w) {
            return None;
        }
        let low = 1u128 << c.trailing_zeros();
        let top = c + low;
        if !top.is_power_of_two() && c != low {
            return None;
        }
        if c == low {
            // the bits from there on agree
            let k = self.konst(w, c);
            let (p, q) = (self.udiv(a, k), self.udiv(b, k));
            return Some(self.eq(p, q));
        }
        if top > mask(w) {
            return None;
        }
        // the bits from `top` on agree, and not all those between `low` and `top` differ: numbers
        // whose bits all differ add up to all ones
        let t = self.konst(w, top);
        let l = self.konst(w, low);
        let (p, q) = (self.udiv(a, t), self.udiv(b, t));
        let same = self.eq(p, q);
        let (p, q) = (self.urem(a, t), self.urem(b, t));
        let (p, q) = (self.udiv(p, l), self.udiv(q, l));
        let sum = self.add(p, q);
        let ones = self.konst(w, top / low - 1);
        let e = self.eq(sum, ones);
        let n = self.not(e);
        Some(self.and(same, n))
    }

    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        if let Some(r) = self.both_const(K::Slt, a, b) {
            return r;
        }
        let (ia, ib) = (*self.i(a), *self.i(b));
        if ia.shi < ib.slo {
            return self.tru();
        }
        if ia.slo >= ib.shi {
            return self.fls();
        }
        if ia.slo >= 0 && ib.slo >= 0 {
            return self.ult(a, b);
        }
        if ia.shi < 0 && ib.shi < 0 {
            return self.ult(a, b);
        }
        if let Some(r) = self.push_ite(K::Slt, a, b) {
            return r;
        }
        // a - b < 0 with known small operands
        let na = self.n(a);
        let w = self.w(a);
        if na.k == K::Sub && self.cv(b) == Some(0) && w <= 64 {
            let (p, q) = (*self.i(na.a), *self.i(na.b));
            if p.slo - q.shi >= -(1i128 << (w - 1)) && p.shi - q.slo < (1i128 << (w - 1)) {
                return self.slt(na.a, na.b);
            }
        }
        // sign test of a sign extension
        let nb = self.n(b);
        if na.k == K::Sext {
            let wa = self.w(na.a);
            if let Some(c) = self.cv(b) {
                let s = sx(c, w);
                if s >= -(1i128 << (wa - 1)) && s < (1i128 << (wa - 1)) {
                    let k = self.konst(wa, s as u128);
                    return self.slt(na.a, k);
                }
            }
            if nb.k == K::Sext && self.w(nb.a) == wa {
                return self.slt(na.a, nb.a);
            }
        }
        self.mk(K::Slt, 1, a, b, 0, 0)
    }

    pub fn clz(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            let r = v.leading_zeros() - (128 - w as u32);
            return self.konst(w, r as u128);
        }
        self.mk(K::Clz, w, a, 0, 0, 0)
    }
    pub fn ctz(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            let r = v.trailing_zeros().min(w as u32);
            return self.konst(w, r as u128);
        }
        self.mk(K::Ctz, w, a, 0, 0, 0)
    }
    pub fn popcnt(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cv(a) {
            return self.konst(w, v.count_ones() as u128);
        }
        self.mk(K::Popcnt, w, a, 0, 0, 0)
    }

    // ---- dyadic floats ------------------------------------------------------------------

    pub fn fdy(&mut self, a: E, k: i32) -> E {
        debug_assert_eq!(self.w(a), 64);
        self.mk(K::FDy, 0, a, 0, 0, k as i64 as u64 as u128)
    }
    pub fn is_fdy(&self, e: E) -> Option<(E, i32)> {
        let n = self.n(e);
        if n.k == K::FDy {
            Some((n.a, n.v as u64 as i64 as i32))
        } else {
            None
        }
    }

    // ---- evaluation ---------------------------------------------------------------------

    pub fn forget_model(&mut self) {
        self.epoch += 1;
        self.cur = None;
    }
    /// evaluate under a shared model, keeping the memo table while the model stays the same
    pub fn eval_m(&mut self, e: E, m: &Model) -> u128 {
        let same = match &self.cur {
            Some(c) => std::rc::Rc::ptr_eq(c, m),
            None => false,
        };
        if !same {
            self.epoch += 1;
            self.cur = Some(m.clone());
        }
        self.eval(e, m)
    }

    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let n = self.nodes[e as usize];
        let w = n.w;
        let m = mask(w);
        let r = match n.k {
            K::Const => n.v,
            K::Var => {
                let vi = &self.vars[n.v as usize];
                let x = model.get(n.v as usize).copied().unwrap_or(vi.lo);
                x
            }
            K::Not => self.eval(n.a, model) ^ 1,
            K::Ite => {
                if self.eval(n.a, model) == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            K::Zext => self.eval(n.a, model),
            K::Trunc => self.eval(n.a, model) & m,
            K::Sext => {
                let x = self.eval(n.a, model);
                (sx(x, self.w(n.a)) as u128) & m
            }
            K::AShr => {
                let x = self.eval(n.a, model);
                ((sx(x, w) >> (n.v as u32)) as u128) & m
            }
            K::Clz => {
                let x = self.eval(n.a, model);
                (x.leading_zeros() - (128 - w as u32)) as u128
            }
            K::Ctz => {
                let x = self.eval(n.a, model);
                x.trailing_zeros().min(w as u32) as u128
            }
            K::Popcnt => self.eval(n.a, model).count_ones() as u128,
            K::FDy => {
                let x = self.eval(n.a, model);
                let k = n.v as u64 as i64 as i32;
                let f = (sx(x, 64) as f64) * 2f64.powi(-k);
                f.to_bits() as u128
            }
            K::None => panic!("eval of no expression"),
            k => {
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                let ow = self.w(n.a);
                Self::fold2(k, ow, x, y).unwrap_or(0)
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    // ---- SMT-LIB emission ---------------------------------------------------------------

    pub fn topo(&self, roots: &[E]) -> Vec<E> {
        self.topo_skip(roots, &std::collections::HashSet::new())
    }

    /// nodes below `roots` in dependency order, leaving out those in `skip`
    pub fn topo_skip(&self, roots: &[E], skip: &std::collections::HashSet<E>) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st: Vec<(E, bool)> = roots.iter().map(|&e| (e, false)).collect();
        while let Some((e, done)) = st.pop() {
            if done {
                out.push(e);
                continue;
            }
            if e == 0 || skip.contains(&e) || !seen.insert(e) {
                continue;
            }
            st.push((e, true));
            let n = &self.nodes[e as usize];
            for c in [n.a, n.b, n.c] {
                if c != 0 && !seen.contains(&c) {
                    st.push((c, false));
                }
            }
        }
        out
    }

    pub fn emit_bv(&self, roots: &[E], vars: &mut Vec<usize>) -> String {
        let mut s = String::new();
        for e in self.topo(roots) {
            let n = self.nodes[e as usize];
            let w = n.w;
            if n.k == K::Const {
                continue;
            }
            if n.k == K::Var {
                vars.push(n.v as usize);
                let vi = &self.vars[n.v as usize];
                if w == 1 {
                    let _ = writeln!(s, "(declare-const e{e} Bool)");
                } else {
                    let _ = writeln!(s, "(declare-const e{e} (_ BitVec {w}))");
                    if vi.lo > 0 {
                        let _ = writeln!(s, "(assert (bvuge e{e} (_ bv{} {w})))", vi.lo);
                    }
                    if vi.hi < mask(w) {
                        let _ = writeln!(s, "(assert (bvule e{e} (_ bv{} {w})))", vi.hi);
                    }
                }
                continue;
            }
            let r = |x: E| -> String {
                let nx = &self.nodes[x as usize];
                if nx.k == K::Const {
                    if nx.w == 1 {
                        (if nx.v == 1 { "true" } else { "false" }).to_string()
                    } else {
                        format!("(_ bv{} {})", nx.v, nx.w)
                    }
                } else {
                    format!("e{x}")
                }
            };
            let a = || r(n.a);
            let b = || r(n.b);
            let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
            let body = match n.k {
                K::Add => format!("(bvadd {} {})", a(), b()),
                K::Sub | K::SubNw => format!("(bvsub {} {})", a(), b()),
                K::Mul => match self.cv(n.b) {
                    Some(c) if c.is_power_of_two() => format!("(bvshl {} (_ bv{} {w}))", a(), c.trailing_zeros()),
                    _ => format!("(bvmul {} {})", a(), b()),
                },
                K::UDiv => match self.cv(n.b) {
                    Some(c) if c.is_power_of_two() => format!("(bvlshr {} (_ bv{} {w}))", a(), c.trailing_zeros()),
                    _ => format!("(bvudiv {} {})", a(), b()),
                },
                K::URem => match self.cv(n.b) {
                    Some(c) if c.is_power_of_two() => format!("(bvand {} (_ bv{} {w}))", a(), c - 1),
                    _ => format!("(bvurem {} {})", a(), b()),
                },
                K::SDiv => format!("(bvsdiv {} {})", a(), b()),
                K::SRem => format!("(bvsrem {} {})", a(), b()),
                K::And => {
                    if w == 1 {
                        format!("(and {} {})", a(), b())
                    } else {
                        format!("(bvand {} {})", a(), b())
                    }
                }
                K::Or => {
                    if w == 1 {
                        format!("(or {} {})", a(), b())
                    } else {
                        format!("(bvor {} {})", a(), b())
                    }
                }
                K::Xor => format!("(bvxor {} {})", a(), b()),
                K::Eq => format!("(= {} {})", a(), b()),
                K::Ult => format!("(bvult {} {})", a(), b()),
                K::Slt => format!("(bvslt {} {})", a(), b()),
                K::Not => format!("(not {})", a()),
                K::Ite => format!("(ite {} {} {})", a(), b(), r(n.c)),
                K::Zext => {
                    let wa = self.w(n.a);
                    if wa == 1 {
                        format!("(ite {} (_ bv1 {w}) (_ bv0 {w}))", a())
                    } else {
                        format!("((_ zero_extend {}) {})", w - wa, a())
                    }
                }
                K::Sext => format!("((_ sign_extend {}) {})", w - self.w(n.a), a()),
                K::Trunc => {
                    if w == 1 {
                        format!("(= ((_ extract 0 0) {}) #b1)", a())
                    } else {
                        format!("((_ extract {} 0) {})", w - 1, a())
                    }
                }
                K::AShr => format!("(bvashr {} (_ bv{} {w}))", a(), n.v),
                K::Clz => {
                    let mut t = format!("(_ bv{} {w})", w);
                    for i in 0..w {
                        t = format!("(ite (= ((_ extract {i} {i}) {}) #b1) (_ bv{} {w}) {t})", a(), w - 1 - i);
                    }
                    t
                }
                K::Ctz => {
                    let mut t = format!("(_ bv{} {w})", w);
                    for i in (0..w).rev() {
                        t = format!("(ite (= ((_ extract {i} {i}) {}) #b1) (_ bv{i} {w}) {t})", a());
                    }
                    t
                }
                K::Popcnt => {
                    let mut t = String::from("(bvadd");
                    for i in 0..w {
                        t += &format!(" ((_ zero_extend {}) ((_ extract {i} {i}) {}))", w - 1, a());
                    }
                    t + ")"
                }
                k => panic!("emit_bv {k:?}"),
            };
            let _ = writeln!(s, "(define-fun e{e} () {sort} {body})");
        }
        for &e in roots {
            match self.cv(e) {
                Some(1) => {}
                Some(_) => s.push_str("(assert false)\n"),
                None => {
                    let _ = writeln!(s, "(assert e{e})");
                }
            }
        }
        s
    }

    /// Linear-integer emission.  Every node denotes its unsigned value; wrap-around is explicit.
    /// Returns None when an operation needs real bit-level reasoning.
    pub fn emit_int(&self, roots: &[E], vars: &mut Vec<usize>) -> Option<String> {
        let order = self.topo(roots);
        self.emit_int_nodes(&order, roots, vars)
    }

    /// definitions of the nodes in `order`, then an assertion per root
    pub fn emit_int_nodes(&self, order: &[E], roots: &[E], vars: &mut Vec<usize>) -> Option<String> {
        let mut s = String::new();
        for &e in order {
            let n = self.nodes[e as usize];
            let w = n.w;
            if n.k == K::Const {
                continue;
            }
            if n.k == K::Var {
                vars.push(n.v as usize);
                let vi = &self.vars[n.v as usize];
                if w == 1 {
                    let _ = writeln!(s, "(declare-const e{e} Bool)");
                } else {
                    let _ = writeln!(s, "(declare-const e{e} Int)");
                    let _ = writeln!(s, "(assert (<= {} e{e} {}))", vi.lo, vi.hi);
                }
                continue;
            }
            let r = |x: E| -> String {
                let nx = &self.nodes[x as usize];
                if nx.k == K::Const {
                    if nx.w == 1 {
                        (if nx.v == 1 { "true" } else { "false" }).to_string()
                    } else {
                        format!("{}", nx.v)
                    }
                } else {
                    format!("e{x}")
                }
            };
            let pow = |w: u8| -> String {
                if w == 128 {
                    "340282366920938463463374607431768211456".to_string()
                } else {
                    format!("{}", 1u128 << w)
                }
            };
            let a = || r(n.a);
            let b = || r(n.b);
            let signed = |x: E| -> String {
                let wx = self.w(x);
                let ix = self.i(x);
                if ix.slo >= 0 {
                    r(x)
                } else if ix.shi < 0 {
                    format!("(- {} {})", r(x), pow(wx))
                } else {
                    format!("(ite (>= {0} {1}) (- {0} {2}) {0})", r(x), 1u128 << (wx - 1), pow(wx))
                }
            };
            let sort = if w == 1 { "Bool" } else { "Int" };
            let body = match n.k {
                K::Add => {
                    let t = format!("(+ {} {})", a(), b());
                    if self.add_nowrap(n.a, n.b) {
                        t
                    } else {
                        format!("(let ((s {t})) (ite (>= s {0}) (- s {0}) s))", pow(w))
                    }
                }
                K::SubNw => format!("(- {} {})", a(), b()),
                K::Sub => {
                    if self.lo(n.a) >= self.hi(n.b) {
                        format!("(- {} {})", a(), b())
                    } else {
                        format!("(let ((s (- {} {}))) (ite (< s 0) (+ s {}) s))", a(), b(), pow(w))
                    }
                }
                K::Mul => {
                    let t = format!("(* {} {})", a(), b());
                    if self.mul_nowrap(n.a, n.b) {
                        t
                    } else {
                        format!("(mod {t} {})", pow(w))
                    }
                }
                K::UDiv => {
                    if self.lo(n.b) == 0 {
                        format!("(ite (= {1} 0) 0 (div {0} {1}))", a(), b())
                    } else {
                        format!("(div {} {})", a(), b())
                    }
                }
                K::URem => {
                    if self.lo(n.b) == 0 {
                        format!("(ite (= {1} 0) 0 (mod {0} {1}))", a(), b())
                    } else {
                        format!("(mod {} {})", a(), b())
                    }
                }
                K::SDiv | K::SRem => return None,
                K::And => {
                    if w == 1 {
                        format!("(and {} {})", a(), b())
                    } else {
                        let c = self.cv(n.b)?;
                        self.int_mask(&a(), c)
                    }
                }
                K::Or => {
                    if w == 1 {
                        format!("(or {} {})", a(), b())
                    } else {
                        let c = self.cv(n.b)?;
                        format!("(- (+ {} {c}) {})", a(), self.int_mask(&a(), c))
                    }
                }
                K::Xor => {
                    let c = self.cv(n.b)?;
                    format!("(- (+ {} {c}) (* 2 {}))", a(), self.int_mask(&a(), c))
                }
                K::Eq => format!("(= {} {})", a(), b()),
                K::Ult => format!("(< {} {})", a(), b()),
                K::Slt => format!("(< {} {})", signed(n.a), signed(n.b)),
                K::Not => format!("(not {})", a()),
                K::Ite => format!("(ite {} {} {})", a(), b(), r(n.c)),
                K::Zext => {
                    if self.w(n.a) == 1 {
                        format!("(ite {} 1 0)", a())
                    } else {
                        a()
                    }
                }
                K::Sext => {
                    let wa = self.w(n.a);
                    format!(
                        "(ite (>= {0} {1}) (+ {0} (- {2} {3})) {0})",
                        a(),
                        1u128 << (wa - 1),
                        pow(w),
                        pow(wa)
                    )
                }
                K::Trunc => {
                    if w == 1 {
                        format!("(= (mod {} 2) 1)", a())
                    } else if self.hi(n.a) <= mask(w) {
                        a()
                    } else {
                        format!("(mod {} {})", a(), pow(w))
                    }
                }
                K::AShr => format!("(mod (div {} {}) {})", signed(n.a), 1u128 << n.v, pow(w)),
                K::Clz => {
                    // value decides: 2^(w-1-i) <= x < 2^(w-i)  ->  i
                    let (lo, hi) = (self.i(e).lo, self.i(e).hi);
                    let mut t = format!("{hi}");
                    let mut i = hi;
                    while i > lo {
                        i -= 1;
                        // clz <= i iff x >= 2^(w-1-i)
                        t = format!("(ite (>= {} {}) {i} {t})", a(), 1u128 << (w as u128 - 1 - i));
                    }
                    // chain built outermost = smallest clz
                    t
                }
                K::Ctz | K::Popcnt => return None,
                k => panic!("emit_int {k:?}"),
            };
            let _ = writeln!(s, "(define-fun e{e} () {sort} {body})");
        }
        for &e in roots {
            match self.cv(e) {
                Some(1) => {}
                Some(_) => s.push_str("(assert false)\n"),
                None => {
                    let _ = writeln!(s, "(assert e{e})");
                }
            }
        }
        Some(s)
    }

    fn int_mask(&self, x: &str, c: u128) -> String {
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 128 {
            if c >> i & 1 == 1 {
                let mut j = i;
                while j < 128 && c >> j & 1 == 1 {
                    j += 1;
                }
                let len = j - i;
                parts.push(format!("(* {} (mod (div {x} {}) {}))", 1u128 << i, 1u128 << i, 1u128 << len.min(127)));
                i = j;
            } else {
                i += 1;
            }
        }
        match parts.len() {
            0 => "0".into(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        }
    }
}

pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
