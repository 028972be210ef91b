//! Path-forking symbolic execution of a WebAssembly module.
//!
//! Every value is a machine word plus an optional expression.  Operations on concrete words run
//! concretely; as soon as one operand is symbolic the result is an expression.  A conditional
//! branch on a symbolic condition asks the solver whether each side is feasible under the path
//! condition and forks the state when both are.  Memory is byte-addressed with a symbolic shadow;
//! the harness' allocator is served by the engine so that every heap access is checked against
//! the set of live blocks.

use crate::expr::*;
use crate::smt::Solver;
use crate::wasm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub b: u64,
    pub e: E,
}
impl V {
    pub fn c(b: u64) -> V {
        V { b, e: 0 }
    }
    pub fn i(b: u32) -> V {
        V { b: b as u64, e: 0 }
    }
    pub fn s(e: E) -> V {
        V { b: 0, e }
    }
}

pub const PAGE: usize = 1024;

#[derive(Clone)]
pub struct Page {
    data: [u8; PAGE],
    sym: Option<Box<[(E, u8); PAGE]>>,
}

#[derive(Clone, Copy)]
pub struct Block {
    start: u32,
    size: u32,
    live: bool,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    locals: u32, // index of local 0 in vals
    base: u32,   // operand stack base
}

#[derive(Clone)]
pub struct State {
    vals: Vec<V>,
    frames: Vec<Frame>,
    globals: Vec<V>,
    mem: Vec<Rc<Page>>,
    blocks: Rc<Vec<Block>>,
    heap_top: u32,
    pub pc: Vec<E>,
    conc: Rc<HashMap<E, u128>>,
    pub model: Model,
    pub inputs: Vec<V>, // value (symbolic) of every input consumed so far
    pub obs: Vec<(V, bool)>,
    expect_panic: bool,
    pub steps: u64,
    pub forks: u32,
    pub path_reach: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // check | panic | trap | memory | nonterm
    pub msg: String,
    pub inputs: Vec<u64>,
    pub backtrace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub end: String,
}

pub enum Stop {
    Done(&'static str),
    Pruned,
    Viol(String, String),
    Unsupported(String),
}

enum Fl {
    Next,
    Stop(Stop),
}

type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Totals {
    pub completed: u64,
    pub expected_panics: u64,
    pub pruned: u64,
    pub branches: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub instrs: u64,
    pub max_steps: u64,
}

pub struct Engine<'a> {
    pub m: &'a Module,
    pub cx: Ctx,
    pub sv: Solver,
    pub work: Vec<State>,
    pub tot: Totals,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub reach: HashMap<String, u64>,
    pub reach_names: Vec<String>,
    pub samples: Vec<Sample>,
    pub sample_cap: usize,
    pub cover: Vec<Vec<u64>>, // per function bitmap of executed ops
    pub params: Vec<i64>,
    pub step_limit: u64,
    pub input_vars: HashMap<(usize, u128, u128), E>,
    fbits: HashMap<E, E>,
    zero: Rc<Page>,
    heap_base: u32,
    intr: Vec<Intr>,
    /// concrete replay: input values to consume instead of creating variables
    pub fixed: Option<Vec<u64>>,
    pub stop_on_violation: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Intr {
    No,
    Host(Host),
    PanicFmt,
    MulTi3,
    UDivTi3,
    UModTi3,
    FloatUnTiDf,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Host {
    Range,
    Choice,
    Assume,
    Check,
    Reach,
    Observe,
    ExpectPanic,
    Param,
    Alloc,
    Dealloc,
    Live,
    LiveBytes,
    Stop,
    Unknown,
}

fn last_segment(n: &str) -> &str {
    // legacy mangling demangled by the linker: a::b::c::h0123456789abcdef
    let parts: Vec<&str> = n.split("::").collect();
    let mut i = parts.len();
    if i > 1 && parts[i - 1].starts_with('h') && parts[i - 1].len() == 17 {
        i -= 1;
    }
    parts[i - 1]
}

impl<'a> Engine<'a> {
    pub fn new(m: &'a Module, timeout_ms: u64) -> Engine<'a> {
        let mut intr = vec![];
        for f in &m.funcs {
            let n = f.name.as_str();
            intr.push(if let Some((_, name)) = &f.import {
                Intr::Host(match name.as_str() {
                    "sym_range" => Host::Range,
                    "sym_choice" => Host::Choice,
                    "sym_assume" => Host::Assume,
                    "sym_check" => Host::Check,
                    "sym_reach" => Host::Reach,
                    "sym_observe" => Host::Observe,
                    "sym_expect_panic" => Host::ExpectPanic,
                    "sym_param" => Host::Param,
                    "sym_alloc" => Host::Alloc,
                    "sym_dealloc" => Host::Dealloc,
                    "sym_live" => Host::Live,
                    "sym_live_bytes" => Host::LiveBytes,
                    "sym_stop" => Host::Stop,
                    _ => Host::Unknown,
                })
            } else if n == "__multi3" {
                Intr::MulTi3
            } else if n == "__udivti3" {
                Intr::UDivTi3
            } else if n == "__umodti3" {
                Intr::UModTi3
            } else if n == "__floatuntidf" {
                Intr::FloatUnTiDf
            } else if last_segment(n) == "panic_fmt" || (n.starts_with("_R") && n.ends_with("9panic_fmt")) {
                Intr::PanicFmt
            } else {
                Intr::No
            });
        }
        Engine {
            m,
            cx: Ctx::new(),
            sv: Solver::new(timeout_ms),
            work: vec![],
            tot: Totals::default(),
            viols: vec![],
            errors: vec![],
            reach: HashMap::new(),
            reach_names: vec![],
            samples: vec![],
            sample_cap: 12,
            cover: m.funcs.iter().map(|f| vec![0u64; f.code.len() / 64 + 1]).collect(),
            params: vec![],
            step_limit: 5_000_000,
            input_vars: HashMap::new(),
            fbits: HashMap::new(),
            zero: Rc::new(Page { data: [0; PAGE], sym: None }),
            heap_base: m.mem_pages * 65536,
            intr,
            fixed: None,
            stop_on_violation: true,
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let (k, fi) = *self.m.exports.get(entry).ok_or(format!("no export {entry}"))?;
        if k != 0 {
            return Err("not a function".into());
        }
        let mut st = State {
            vals: vec![],
            frames: vec![],
            globals: self.m.globals.iter().map(|g| V::c(g.init)).collect(),
            mem: vec![self.zero.clone(); (self.m.mem_pages as usize) * 65536 / PAGE],
            blocks: Rc::new(vec![]),
            heap_top: self.heap_base,
            pc: vec![],
            conc: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            expect_panic: false,
            steps: 0,
            forks: 0,
            path_reach: vec![],
        };
        for (off, d) in &self.m.data {
            for (i, &b) in d.iter().enumerate() {
                let a = *off as usize + i;
                Rc::make_mut(&mut st.mem[a / PAGE]).data[a % PAGE] = b;
            }
        }
        self.enter(&mut st, fi);
        Ok(st)
    }

    fn enter(&mut self, st: &mut State, fi: u32) {
        let f = &self.m.funcs[fi as usize];
        let locals = st.vals.len() as u32 - f.nparams;
        for _ in f.nparams..f.nlocals {
            st.vals.push(V::c(0));
        }
        let base = st.vals.len() as u32;
        st.frames.push(Frame { func: fi, pc: 0, locals, base });
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| self.m.funcs[f.func as usize].name.clone()).collect()
    }

    fn values(&mut self, st: &State, vs: &[V]) -> Vec<u64> {
        vs.iter()
            .map(|v| if v.e == 0 { v.b } else { self.cx.eval_m(v.e, &st.model) as u64 })
            .collect()
    }

    /// run one state to the end of its path, pushing the alternatives it leaves behind
    pub fn run_path(&mut self, mut st: State) {
        let r = self.run(&mut st);
        self.tot.max_steps = self.tot.max_steps.max(st.steps);
        let end = match r {
            Stop::Done(w) => {
                if st.expect_panic && w != "panic" && w != "stop" {
                    // handled by an explicit check in the harness; reaching the end is fine
                }
                self.tot.completed += 1;
                if w == "panic" {
                    self.tot.expected_panics += 1;
                }
                for i in st.path_reach.clone() {
                    let n = self.reach_names[i as usize].clone();
                    *self.reach.entry(n).or_insert(0) += 1;
                }
                w
            }
            Stop::Pruned => {
                self.tot.pruned += 1;
                return;
            }
            Stop::Viol(kind, msg) => {
                let inputs = st.inputs.clone();
                let inputs = self.values(&st, &inputs);
                let bt = self.backtrace(&st);
                if !self.viols.iter().any(|v| v.kind == kind && v.msg == msg) {
                    self.viols.push(Violation { kind, msg, inputs, backtrace: bt });
                }
                return;
            }
            Stop::Unsupported(s) => {
                let bt = self.backtrace(&st);
                let s = format!("{s} in {}", bt.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                if !self.errors.contains(&s) {
                    self.errors.push(s);
                }
                return;
            }
        };
        // keep an evenly spread sample of completed paths for validation against the real run
        let n = self.tot.completed;
        let keep = self.samples.len() < self.sample_cap || n % (1 + n / self.sample_cap as u64) == 0;
        if keep {
            let inputs = st.inputs.clone();
            let inputs = self.values(&st, &inputs);
            let ov: Vec<V> = st.obs.iter().map(|x| x.0).collect();
            let obs = self.values(&st, &ov);
            let s = Sample { inputs, obs, end: end.to_string() };
            if self.samples.len() < self.sample_cap {
                self.samples.push(s);
            } else {
                let i = (n as usize).wrapping_mul(2654435761) % self.sample_cap;
                self.samples[i] = s;
            }
        }
    }

    // ---- path conditions ----------------------------------------------------------------

    fn conc_of(&self, st: &State, e: E) -> Option<u128> {
        if let Some(v) = self.cx.cv(e) {
            return Some(v);
        }
        st.conc.get(&e).copied()
    }

    fn mkv(&self, st: &State, e: E) -> V {
        match self.conc_of(st, e) {
            Some(v) => V::c(v as u64),
            None => V::s(e),
        }
    }

    fn learn(&mut self, st: &mut State, c: E, val: bool) {
        let conc = Rc::make_mut(&mut st.conc);
        conc.insert(c, val as u128);
        let n = self.cx.n(c);
        match n.k {
            K::Not => {
                self.learn(st, n.a, !val);
            }
            K::And if val => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            K::Eq if val => {
                if let Some(k) = self.cx.cv(n.b) {
                    conc.insert(n.a, k);
                    // a widened or narrowed view of the same value
                    let mut x = n.a;
                    loop {
                        let nx = self.cx.n(x);
                        match nx.k {
                            K::Zext => x = nx.a,
                            K::Trunc if self.cx.i(nx.a).hi <= mask(nx.w) => x = nx.a,
                            _ => break,
                        }
                        Rc::make_mut(&mut st.conc).insert(x, k);
                    }
                }
            }
            _ => {}
        }
    }

    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.cx.cv(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        self.learn(st, c, true);
    }

    fn feasible(&mut self, st: &State, c: E) -> R<Option<Model>> {
        self.sv
            .check(&mut self.cx, &st.pc, c, &st.model)
            .map_err(Stop::Unsupported)
    }

    /// decide a boolean expression at a branch; may push the alternative state built by `alt`
    fn branch(&mut self, st: &mut State, c: E, slot: usize) -> R<bool> {
        if let Some(v) = self.conc_of(st, c) {
            return Ok(v == 1);
        }
        self.tot.branches += 1;
        let cur = self.cx.eval_m(c, &st.model) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            Some(m) => {
                let mut alt = st.clone();
                alt.model = m;
                alt.vals[slot] = V::c(!cur as u64);
                alt.forks += 1;
                self.add_pc(&mut alt, other);
                self.work.push(alt);
                self.tot.forks += 1;
                st.forks += 1;
                self.add_pc(st, mine);
            }
            None => {
                // implied by the path condition
                self.learn(st, mine, true);
            }
        }
        Ok(cur)
    }

    /// fork on a condition the current instruction depends on; it is executed again on both sides
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.conc_of(st, c) {
            return Ok(v == 1);
        }
        self.tot.branches += 1;
        let cur = self.cx.eval_m(c, &st.model) == 1;
        let nc = self.cx.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.feasible(st, other)? {
            Some(m) => {
                let mut alt = st.clone();
                alt.model = m;
                alt.forks += 1;
                self.add_pc(&mut alt, other);
                self.work.push(alt);
                self.tot.forks += 1;
                st.forks += 1;
                self.add_pc(st, mine);
            }
            None => self.learn(st, mine, true),
        }
        Ok(cur)
    }

    /// x - y.  Whether it wraps is settled first: results with a known sign keep later reasoning
    /// linear.
    fn subtract(&mut self, st: &mut State, x: E, y: E) -> R<E> {
        let cx = &self.cx;
        let plain = cx.cv(y).is_some()
            || cx.i(x).bitty
            || cx.i(y).bitty
            || cx.i(x).lo >= cx.i(y).hi
            || cx.w(x) < 32;
        if plain {
            return Ok(self.cx.sub(x, y));
        }
        if let Some(r) = self.cx.remainder(x, y) {
            return Ok(r);
        }
        let c = self.cx.ult(x, y);
        if self.decide(st, c)? {
            let w = self.cx.w(x);
            let d = self.cx.sub_nw(y, x);
            let z = self.cx.konst(w, 0);
            Ok(self.cx.sub(z, d))
        } else {
            Ok(self.cx.sub_nw(x, y))
        }
    }

    /// make the value in `slot` concrete, forking over its feasible values
    fn concretise(&mut self, st: &mut State, slot: usize) -> R<u64> {
        let v = st.vals[slot];
        if v.e == 0 {
            return Ok(v.b);
        }
        if self.cx.is_fdy(v.e).is_some() {
            let b = self.as_bits(st, v)?;
            st.vals[slot] = b;
            return self.concretise(st, slot);
        }
        if let Some(k) = self.conc_of(st, v.e) {
            st.vals[slot] = V::c(k as u64);
            return Ok(k as u64);
        }
        let w = self.cx.w(v.e);
        let k = self.cx.eval_m(v.e, &st.model);
        let ke = self.cx.konst(w, k);
        let eq = self.cx.eq(v.e, ke);
        let ne = self.cx.not(eq);
        self.tot.branches += 1;
        match self.feasible(st, ne)? {
            Some(m) => {
                let mut alt = st.clone();
                alt.model = m;
                alt.forks += 1;
                self.add_pc(&mut alt, ne);
                self.work.push(alt);
                self.tot.forks += 1;
                st.forks += 1;
                self.add_pc(st, eq);
            }
            None => {
                self.learn(st, eq, true);
            }
        }
        Rc::make_mut(&mut st.conc).insert(v.e, k);
        st.vals[slot] = V::c(k as u64);
        Ok(k as u64)
    }

    /// quotient and remainder by a divisor that is not a constant: fork over the quotient
    fn quotient(&mut self, st: &mut State, x: E, y: E) -> R<(E, E)> {
        let w = self.cx.w(x);
        let (xx, yy) = (self.cx.zext(x, 128), self.cx.zext(y, 128));
        loop {
            let vy = self.cx.eval_m(y, &st.model);
            if vy == 0 {
                return Err(Stop::Unsupported("division by an undecided zero".into()));
            }
            let q = self.cx.eval_m(x, &st.model) / vy;
            let qe = self.cx.konst(128, q);
            let p = self.cx.mul(yy, qe);
            let c = self.cx.ult(xx, p);
            if self.decide(st, c)? {
                continue;
            }
            let qn = self.cx.konst(128, q + 1);
            let n = self.cx.mul(yy, qn);
            let c = self.cx.ult(xx, n);
            if !self.decide(st, c)? {
                continue;
            }
            let r = self.cx.sub_nw(xx, p);
            let r = self.cx.trunc(r, w);
            return Ok((self.cx.konst(w, q), r));
        }
    }

    /// number of bits below and including the highest one set, as a count of leading zeros
    fn leading_bits(&mut self, st: &mut State, x: E) -> R<u64> {
        let w = self.cx.w(x) as u32;
        loop {
            let v = self.cx.eval_m(x, &st.model);
            let n = 128 - v.leading_zeros();
            if n < w {
                let k = self.cx.konst(w as u8, 1u128 << n);
                let c = self.cx.ult(x, k);
                if !self.decide(st, c)? {
                    continue;
                }
            }
            if n > 0 {
                let k = self.cx.konst(w as u8, 1u128 << (n - 1));
                let c = self.cx.ult(x, k);
                if self.decide(st, c)? {
                    continue;
                }
            }
            return Ok((w - n) as u64);
        }
    }

    fn truth(&mut self, st: &State, v: V) -> E {
        if v.e == 0 {
            return self.cx.konst(1, (v.b as u32 != 0) as u128);
        }
        let w = self.cx.w(v.e);
        let z = self.cx.konst(w, 0);
        let e = self.cx.eq(v.e, z);
        let c = self.cx.not(e);
        match self.conc_of(st, c) {
            Some(k) => self.cx.konst(1, k),
            None => c,
        }
    }

    // ---- memory -------------------------------------------------------------------------

    fn chk(&self, st: &State, a: u64, n: u64, what: &str) -> R<()> {
        if a + n > (st.mem.len() * PAGE) as u64 {
            return Err(Stop::Viol("memory".into(), format!("{what} out of bounds of linear memory")));
        }
        if a < 1024 && n > 0 {
            return Err(Stop::Viol("memory".into(), format!("{what} through a null pointer")));
        }
        if a >= self.heap_base as u64 && n > 0 {
            let bs = &st.blocks;
            let i = bs.partition_point(|b| b.start as u64 <= a);
            if i == 0 {
                return Err(Stop::Viol("memory".into(), format!("{what} outside any heap block")));
            }
            let b = bs[i - 1];
            if a + n > b.start as u64 + b.size as u64 {
                return Err(Stop::Viol("memory".into(), format!("{what} past the end of a heap block")));
            }
            if !b.live {
                return Err(Stop::Viol("memory".into(), format!("{what} of freed memory")));
            }
        }
        Ok(())
    }

    fn load(&mut self, st: &State, a: u64, n: usize) -> R<V> {
        self.chk(st, a, n as u64, "read")?;
        let a = a as usize;
        let p = &st.mem[a / PAGE];
        let o = a % PAGE;
        if o + n <= PAGE && p.sym.is_none() {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.data[o..o + n]);
            return Ok(V::c(u64::from_le_bytes(b)));
        }
        // gather bytes
        let mut data = [0u8; 8];
        let mut sym = [(0u32, 0u8); 8];
        let mut any = false;
        for i in 0..n {
            let p = &st.mem[(a + i) / PAGE];
            let o = (a + i) % PAGE;
            data[i] = p.data[o];
            if let Some(s) = &p.sym {
                sym[i] = s[o];
                any |= s[o].0 != 0;
            }
        }
        if !any {
            return Ok(V::c(u64::from_le_bytes(data)));
        }
        let w = (8 * n) as u8;
        // one expression, all bytes in order
        let (e0, i0) = sym[0];
        if e0 != 0 && (0..n).all(|i| sym[i] == (e0, i0 + i as u8)) {
            let we = self.cx.w(e0);
            if we == 0 {
                if i0 == 0 && n == 8 {
                    return Ok(V::s(e0));
                }
            }
            let (e0, we) = self.float_bits(e0);
            let sh = self.cx.lshr_c(e0, 8 * i0 as u32);
            let e = if we == w { sh } else { self.cx.trunc(sh, w) };
            return Ok(self.mkv(st, e));
        }
        let mut acc = self.cx.konst(w, 0);
        let mut i = 0;
        while i < n {
            let (e, k) = sym[i];
            let mut j = i + 1;
            let piece;
            if e == 0 {
                let mut v = data[i] as u128;
                while j < n && sym[j].0 == 0 {
                    v |= (data[j] as u128) << (8 * (j - i));
                    j += 1;
                }
                piece = self.cx.konst(w, v);
            } else {
                while j < n && sym[j] == (e, k + (j - i) as u8) {
                    j += 1;
                }
                let (e, we) = self.float_bits(e);
                let len = (8 * (j - i)) as u8;
                let sh = self.cx.lshr_c(e, 8 * k as u32);
                let t = if we > len { self.cx.trunc(sh, len) } else { sh };
                piece = if len < w { self.cx.zext(t, w) } else { t };
            }
            let sh = self.cx.shl_c(piece, 8 * i as u32);
            acc = self.cx.or(acc, sh);
            i = j;
        }
        Ok(self.mkv(st, acc))
    }

    /// Bits of a symbolic float read piecemeal (stale or padding bytes copied along): an arbitrary
    /// value, the same one each time.  This over-approximates, which replay would show.
    fn float_bits(&mut self, e: E) -> (E, u8) {
        let we = self.cx.w(e);
        if we != 0 {
            return (e, we);
        }
        if let Some(&x) = self.fbits.get(&e) {
            return (x, 64);
        }
        let x = self.cx.fresh_var(64, 0, u64::MAX as u128);
        self.fbits.insert(e, x);
        (x, 64)
    }

    fn store(&mut self, st: &mut State, a: u64, n: usize, v: V) -> R<()> {
        self.chk(st, a, n as u64, "write")?;
        let a = a as usize;
        let mut e = v.e;
        if e != 0 {
            if let Some(k) = self.conc_of(st, e) {
                return self.store(st, a as u64, n, V::c(k as u64));
            }
            let we = self.cx.w(e);
            if we == 0 {
                if n != 8 {
                    return Err(Stop::Unsupported("partial write of a symbolic float".into()));
                }
            } else if we as usize > 8 * n {
                e = self.cx.trunc(e, (8 * n) as u8);
                if let Some(k) = self.conc_of(st, e) {
                    return self.store(st, a as u64, n, V::c(k as u64));
                }
            }
        }
        let bytes = v.b.to_le_bytes();
        let mut i = 0;
        while i < n {
            let p = Rc::make_mut(&mut st.mem[(a + i) / PAGE]);
            let o = (a + i) % PAGE;
            let m = (n - i).min(PAGE - o);
            if e == 0 {
                p.data[o..o + m].copy_from_slice(&bytes[i..i + m]);
                if let Some(s) = &mut p.sym {
                    for x in &mut s[o..o + m] {
                        *x = (0, 0);
                    }
                }
            } else {
                let s = p.sym.get_or_insert_with(|| Box::new([(0, 0); PAGE]));
                for k in 0..m {
                    s[o + k] = (e, (i + k) as u8);
                }
            }
            i += m;
        }
        Ok(())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(st, s, n, "read")?;
        self.chk(st, d, n, "write")?;
        let mut buf = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let a = s as usize + i;
            let p = &st.mem[a / PAGE];
            let o = a % PAGE;
            buf.push((p.data[o], p.sym.as_ref().map(|x| x[o]).unwrap_or((0, 0))));
        }
        for (i, (b, sy)) in buf.into_iter().enumerate() {
            let a = d as usize + i;
            let p = Rc::make_mut(&mut st.mem[a / PAGE]);
            let o = a % PAGE;
            p.data[o] = b;
            if sy.0 != 0 {
                p.sym.get_or_insert_with(|| Box::new([(0, 0); PAGE]))[o] = sy;
            } else if let Some(x) = &mut p.sym {
                x[o] = (0, 0);
            }
        }
        Ok(())
    }

    fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n as usize {
            let a = p as usize + i;
            if a / PAGE >= st.mem.len() {
                break;
            }
            v.push(st.mem[a / PAGE].data[a % PAGE]);
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn raw32(&self, st: &State, a: u64) -> u64 {
        let mut r = 0u64;
        for i in 0..4 {
            let a = a as usize + i;
            if a / PAGE < st.mem.len() {
                r |= (st.mem[a / PAGE].data[a % PAGE] as u64) << (8 * i);
            }
        }
        r
    }

    // ---- main loop ----------------------------------------------------------------------

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(Fl::Next) => {}
                Ok(Fl::Stop(s)) => return s,
                Err(s) => return s,
            }
        }
    }

    fn top(st: &State) -> usize {
        st.vals.len() - 1
    }

    fn take_branch(st: &mut State, br: Br) {
        let f = st.frames.last_mut().unwrap();
        f.pc = br.pc;
        let h = (f.base + br.height) as usize;
        let n = st.vals.len();
        let ar = br.arity as usize;
        if h + ar != n {
            for i in 0..ar {
                st.vals[h + i] = st.vals[n - ar + i];
            }
            st.vals.truncate(h + ar);
        }
    }

    fn step(&mut self, st: &mut State) -> R<Fl> {
        // run straight-line concrete code in an inner loop
        let (fi, mut pc, lb) = {
            let f = st.frames.last().unwrap();
            (f.func as usize, f.pc as usize, f.locals as usize)
        };
        let m = self.m;
        let func = &m.funcs[fi];
        loop {
            st.steps += 1;
            self.tot.instrs += 1;
            if st.steps > self.step_limit {
                return Err(Stop::Viol("nonterm".into(), format!("no end after {} instructions", self.step_limit)));
            }
            self.cover[fi][pc / 64] |= 1 << (pc % 64);
            // the state must be resumable at this instruction
            st.frames.last_mut().unwrap().pc = pc as u32;
            let op = func.code[pc];
            match op {
                Op::Nop => {}
                Op::Unreachable => {
                    if st.expect_panic {
                        return Ok(Fl::Stop(Stop::Done("panic")));
                    }
                    return Err(Stop::Viol("trap".into(), "unreachable instruction executed (abort)".into()));
                }
                Op::Jump(t) => {
                    pc = t as usize;
                    continue;
                }
                Op::Br(b) => {
                    Self::take_branch(st, b);
                    pc = b.pc as usize;
                    continue;
                }
                Op::BrIf(_) | Op::BrUnless(_) => {
                    let slot = Self::top(st);
                    let v = st.vals[slot];
                    let c = if v.e == 0 {
                        v.b as u32 != 0
                    } else {
                        let c = self.truth(st, v);
                        self.branch(st, c, slot)?
                    };
                    st.vals.pop();
                    match op {
                        Op::BrIf(b) => {
                            if c {
                                Self::take_branch(st, b);
                                pc = b.pc as usize;
                                continue;
                            }
                        }
                        Op::BrUnless(t) => {
                            if !c {
                                pc = t as usize;
                                continue;
                            }
                        }
                        _ => {}
                    }
                }
                Op::BrTable(t) => {
                    let slot = Self::top(st);
                    let k = self.concretise_table(st, slot, func.tables[t as usize].len() - 1)?;
                    st.vals.pop();
                    let tb = &func.tables[t as usize];
                    let b = tb[(k as usize).min(tb.len() - 1)];
                    Self::take_branch(st, b);
                    pc = b.pc as usize;
                    continue;
                }
                Op::Return => {
                    let nres = func.nresults as usize;
                    let n = st.vals.len();
                    for i in 0..nres {
                        st.vals[lb + i] = st.vals[n - nres + i];
                    }
                    st.vals.truncate(lb + nres);
                    st.frames.pop();
                    if st.frames.is_empty() {
                        return Ok(Fl::Stop(Stop::Done("return")));
                    }
                    return Ok(Fl::Next);
                }
                Op::Call(g) => {
                    return self.call(st, g, pc);
                }
                Op::CallIndirect(t, _) => {
                    let slot = Self::top(st);
                    let k = self.concretise(st, slot)?;
                    st.vals.pop();
                    let k = k as u32 as usize;
                    match m.table.get(k).copied().flatten() {
                        None => return Err(Stop::Viol("trap".into(), "indirect call to nothing".into())),
                        Some(g) => {
                            let (a, b) = (&m.types[t as usize], &m.types[m.funcs[g as usize].ty as usize]);
                            if a.params != b.params || a.results != b.results {
                                return Err(Stop::Viol("trap".into(), "indirect call type mismatch".into()));
                            }
                            return self.call(st, g, pc);
                        }
                    }
                }
                Op::Drop => {
                    st.vals.pop();
                }
                Op::Select(t) => {
                    let n = st.vals.len();
                    let c = st.vals[n - 1];
                    if c.e == 0 {
                        let b = st.vals[n - 2];
                        st.vals.truncate(n - 2);
                        if c.b as u32 == 0 {
                            st.vals[n - 3] = b;
                        }
                    } else {
                        let ce = self.truth(st, c);
                        let (a, b) = (st.vals[n - 3], st.vals[n - 2]);
                        let fl = |x: V, s: &Self| x.e != 0 && s.cx.w(x.e) == 0;
                        if self.conc_of(st, ce).is_none() && (a.e != 0 || b.e != 0) {
                            // settled by the path condition?
                            let cur = self.cx.eval_m(ce, &st.model) == 1;
                            let nc = self.cx.not(ce);
                            let (mine, other) = if cur { (ce, nc) } else { (nc, ce) };
                            if self.feasible(st, other)?.is_none() {
                                self.learn(st, mine, true);
                            }
                        }
                        if self.conc_of(st, ce).is_some() || t == Ty::F64 || t == Ty::F32 || fl(a, self) || fl(b, self) {
                            let k = self.branch(st, ce, n - 1)?;
                            st.vals.truncate(n - 2);
                            if !k {
                                st.vals[n - 3] = b;
                            }
                        } else {
                            let w = if t == Ty::I64 { 64 } else { 32 };
                            let x = self.ex(a, w);
                            let y = self.ex(b, w);
                            let r = self.cx.ite(ce, x, y);
                            st.vals.truncate(n - 2);
                            st.vals[n - 3] = self.mkv(st, r);
                        }
                    }
                }
                Op::LocalGet(i) => {
                    let v = st.vals[lb + i as usize];
                    st.vals.push(v);
                }
                Op::LocalSet(i) => {
                    let v = st.vals.pop().unwrap();
                    st.vals[lb + i as usize] = v;
                }
                Op::LocalTee(i) => {
                    let v = *st.vals.last().unwrap();
                    st.vals[lb + i as usize] = v;
                }
                Op::GlobalGet(i) => {
                    let v = st.globals[i as usize];
                    st.vals.push(v);
                }
                Op::GlobalSet(i) => {
                    let v = st.vals.pop().unwrap();
                    st.globals[i as usize] = v;
                }
                Op::I32Const(v) => st.vals.push(V::i(v as u32)),
                Op::I64Const(v) => st.vals.push(V::c(v as u64)),
                Op::F32Const(v) => st.vals.push(V::i(v)),
                Op::F64Const(v) => st.vals.push(V::c(v)),
                Op::Load(o, off) => {
                    let slot = Self::top(st);
                    let a = if st.vals[slot].e == 0 { st.vals[slot].b } else { self.concretise(st, slot)? };
                    let a = (a & 0xffff_ffff) + off as u64;
                    let (n, sg, w) = match o {
                        0x28 => (4, false, 32),
                        0x29 => (8, false, 64),
                        0x2a => (4, false, 32),
                        0x2b => (8, false, 64),
                        0x2c => (1, true, 32),
                        0x2d => (1, false, 32),
                        0x2e => (2, true, 32),
                        0x2f => (2, false, 32),
                        0x30 => (1, true, 64),
                        0x31 => (1, false, 64),
                        0x32 => (2, true, 64),
                        0x33 => (2, false, 64),
                        0x34 => (4, true, 64),
                        _ => (4, false, 64),
                    };
                    let v = self.load(st, a, n)?;
                    let r = if v.e == 0 {
                        if sg {
                            let s = 64 - 8 * n as u32;
                            let x = ((v.b << s) as i64 >> s) as u64;
                            V::c(if w == 32 { x as u32 as u64 } else { x })
                        } else {
                            v
                        }
                    } else if 8 * n == w as usize {
                        v
                    } else {
                        let e = if sg { self.cx.sext(v.e, w) } else { self.cx.zext(v.e, w) };
                        self.mkv(st, e)
                    };
                    st.vals[slot] = r;
                }
                Op::Store(o, off) => {
                    let slot = st.vals.len() - 2;
                    let a = if st.vals[slot].e == 0 { st.vals[slot].b } else { self.concretise(st, slot)? };
                    let a = (a & 0xffff_ffff) + off as u64;
                    let n = match o {
                        0x36 | 0x38 | 0x3e => 4,
                        0x37 | 0x39 => 8,
                        0x3a | 0x3c => 1,
                        _ => 2,
                    };
                    let v = st.vals[slot + 1];
                    self.store(st, a, n, v)?;
                    st.vals.truncate(slot);
                }
                Op::MemorySize => st.vals.push(V::i((st.mem.len() * PAGE / 65536) as u32)),
                Op::MemoryGrow => {
                    let slot = Self::top(st);
                    let k = self.concretise(st, slot)? as u32 as usize;
                    let old = st.mem.len() * PAGE / 65536;
                    if old + k > 4096 {
                        st.vals[slot] = V::i(u32::MAX);
                    } else {
                        let z = self.zero.clone();
                        st.mem.resize(st.mem.len() + k * 65536 / PAGE, z);
                        st.vals[slot] = V::i(old as u32);
                    }
                }
                Op::MemoryCopy => {
                    let n = st.vals.len();
                    for i in 1..=3 {
                        self.concretise(st, n - i)?;
                    }
                    let (d, s, k) = (st.vals[n - 3].b as u32, st.vals[n - 2].b as u32, st.vals[n - 1].b as u32);
                    self.copy(st, d as u64, s as u64, k as u64)?;
                    st.vals.truncate(n - 3);
                }
                Op::MemoryFill => {
                    let n = st.vals.len();
                    for i in 1..=3 {
                        self.concretise(st, n - i)?;
                    }
                    let (d, v, k) = (st.vals[n - 3].b as u32, st.vals[n - 2].b, st.vals[n - 1].b as u32);
                    self.chk(st, d as u64, k as u64, "write")?;
                    for i in 0..k as u64 {
                        let a = (d as u64 + i) as usize;
                        let p = Rc::make_mut(&mut st.mem[a / PAGE]);
                        p.data[a % PAGE] = v as u8;
                        if let Some(s) = &mut p.sym {
                            s[a % PAGE] = (0, 0);
                        }
                    }
                    st.vals.truncate(n - 3);
                }
                Op::Num(o) => {
                    let (n, _) = num_sig(o);
                    if n == 2 {
                        let t = st.vals.len();
                        let (a, b) = (st.vals[t - 2], st.vals[t - 1]);
                        let r = if a.e | b.e == 0 { V::c(self.num2(o, a.b, b.b)?) } else { self.sym2(st, o)? };
                        let t = st.vals.len();
                        st.vals.truncate(t - 1);
                        st.vals[t - 2] = r;
                    } else {
                        let t = Self::top(st);
                        let a = st.vals[t];
                        let r = if a.e == 0 { V::c(self.num1(o, a.b)?) } else { self.sym1(st, o)? };
                        st.vals[t] = r;
                    }
                }
                Op::TruncSat(k) => {
                    let t = Self::top(st);
                    let a = st.vals[t];
                    let r = if a.e == 0 {
                        let f = f64::from_bits(a.b);
                        let g = f32::from_bits(a.b as u32);
                        V::c(match k {
                            0 => g as i32 as u32 as u64,
                            1 => g as u32 as u64,
                            2 => f as i32 as u32 as u64,
                            3 => f as u32 as u64,
                            4 => g as i64 as u64,
                            5 => g as u64,
                            6 => f as i64 as u64,
                            _ => f as u64,
                        })
                    } else {
                        self.sym_trunc(st, a.e, k)?
                    };
                    st.vals[t] = r;
                }
                Op::Unsupported(x) => return Err(Stop::Unsupported(format!("opcode {x:#x}"))),
            }
            pc += 1;
        }
    }

    /// br_table index: values past the end all mean the default entry
    fn concretise_table(&mut self, st: &mut State, slot: usize, dflt: usize) -> R<u64> {
        let v = st.vals[slot];
        if v.e != 0 {
            let d = self.cx.konst(32, dflt as u128);
            let lt = self.cx.ult(v.e, d);
            let x = self.cx.ite(lt, v.e, d);
            st.vals[slot] = self.mkv(st, x);
        }
        self.concretise(st, slot)
    }

    fn ex(&mut self, v: V, w: u8) -> E {
        if v.e == 0 {
            self.cx.konst(w, v.b as u128)
        } else {
            v.e
        }
    }

    fn pair(&mut self, lo: V, hi: V) -> E {
        let l = self.ex(lo, 64);
        let h = self.ex(hi, 64);
        let l = self.cx.zext(l, 128);
        let h = self.cx.zext(h, 128);
        let h = self.cx.shl_c(h, 64);
        self.cx.or(h, l)
    }

    fn split(&mut self, st: &State, e: E) -> (V, V) {
        let lo = self.cx.trunc(e, 64);
        let h = self.cx.lshr_c(e, 64);
        let hi = self.cx.trunc(h, 64);
        (self.mkv(st, lo), self.mkv(st, hi))
    }

    fn call(&mut self, st: &mut State, g: u32, pc: usize) -> R<Fl> {
        let m = self.m;
        let f = &m.funcs[g as usize];
        match self.intr[g as usize] {
            Intr::No => {
                st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                if st.frames.len() > 2000 {
                    return Err(Stop::Viol("nonterm".into(), "call stack exhausted (unbounded recursion)".into()));
                }
                self.enter(st, g);
                Ok(Fl::Next)
            }
            Intr::PanicFmt => {
                if st.expect_panic {
                    return Ok(Fl::Stop(Stop::Done("panic")));
                }
                let loc = st.vals.last().unwrap().b;
                let (p, n, line) = (self.raw32(st, loc), self.raw32(st, loc + 4), self.raw32(st, loc + 8));
                let mut file = if n < 400 { self.cstr(st, p, n) } else { String::from("?") };
                file = file.trim_end_matches('\0').to_string();
                let line = if file == "?" { 0 } else { line };
                Err(Stop::Viol("panic".into(), format!("panic at {file}:{line}")))
            }
            Intr::MulTi3 | Intr::UDivTi3 | Intr::UModTi3 => {
                let n = st.vals.len();
                let a = self.pair(st.vals[n - 4], st.vals[n - 3]);
                let b = self.pair(st.vals[n - 2], st.vals[n - 1]);
                if self.cx.cv(b) == Some(0) && self.intr[g as usize] != Intr::MulTi3 {
                    return Err(Stop::Viol("trap".into(), "128-bit division by zero".into()));
                }
                let r = match self.intr[g as usize] {
                    Intr::MulTi3 => self.cx.mul(a, b),
                    Intr::UDivTi3 => self.cx.udiv(a, b),
                    _ => self.cx.urem(a, b),
                };
                let ptr = self.concretise(st, n - 5)? & 0xffff_ffff;
                let (lo, hi) = self.split(st, r);
                self.store(st, ptr, 8, lo)?;
                self.store(st, ptr + 8, 8, hi)?;
                st.vals.truncate(n - 5);
                st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                Ok(Fl::Next)
            }
            Intr::FloatUnTiDf => {
                let n = st.vals.len();
                let (lo, hi) = (st.vals[n - 2], st.vals[n - 1]);
                let r = if lo.e | hi.e == 0 {
                    V::c(((((hi.b as u128) << 64) | lo.b as u128) as f64).to_bits())
                } else {
                    let a = self.pair(lo, hi);
                    self.round_mag(st, a, false, 0)?
                };
                st.vals.truncate(n - 2);
                st.vals.push(r);
                st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                Ok(Fl::Next)
            }
            Intr::Host(h) => {
                let r = self.host(st, h, f)?;
                if let Some(s) = r {
                    return Ok(Fl::Stop(s));
                }
                st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                Ok(Fl::Next)
            }
        }
    }

    fn host(&mut self, st: &mut State, h: Host, f: &Func) -> R<Option<Stop>> {
        let n = st.vals.len();
        match h {
            Host::Range => {
                let lo = self.concretise(st, n - 2)?;
                let hi = self.concretise(st, n - 1)?;
                if lo > hi {
                    return Err(Stop::Unsupported(format!("empty input range {lo}..{hi}")));
                }
                st.vals.truncate(n - 2);
                let v = if let Some(fx) = &self.fixed {
                    V::c(fx.get(st.inputs.len()).copied().unwrap_or(lo))
                } else if lo == hi {
                    V::c(lo)
                } else {
                    let key = (st.inputs.len(), lo as u128, hi as u128);
                    let e = match self.input_vars.get(&key) {
                        Some(&e) => e,
                        None => {
                            let e = self.cx.fresh_var(64, lo as u128, hi as u128);
                            self.input_vars.insert(key, e);
                            e
                        }
                    };
                    V::s(e)
                };
                st.inputs.push(v);
                st.vals.push(v);
            }
            Host::Choice => {
                let k = self.concretise(st, n - 1)? as u32;
                if k == 0 {
                    return Ok(Some(Stop::Pruned));
                }
                let mine = if let Some(fx) = &self.fixed {
                    fx.get(st.inputs.len()).copied().unwrap_or(0)
                } else {
                    // every value is feasible: fork without asking
                    for v in (1..k as u64).rev() {
                        let mut alt = st.clone();
                        alt.vals.truncate(n - 1);
                        alt.inputs.push(V::c(v));
                        alt.vals.push(V::c(v));
                        alt.frames.last_mut().unwrap().pc += 1;
                        alt.forks += 1;
                        self.tot.forks += 1;
                        self.work.push(alt);
                    }
                    0
                };
                st.forks += 1;
                st.vals.truncate(n - 1);
                st.inputs.push(V::c(mine));
                st.vals.push(V::c(mine));
            }
            Host::Assume => {
                let v = st.vals.pop().unwrap();
                let c = self.truth(st, v);
                match self.conc_of(st, c) {
                    Some(1) => {}
                    Some(_) => return Ok(Some(Stop::Pruned)),
                    None => {
                        if self.cx.eval_m(c, &st.model) != 1 {
                            match self.feasible(st, c)? {
                                Some(m) => st.model = m,
                                None => return Ok(Some(Stop::Pruned)),
                            }
                        }
                        self.add_pc(st, c);
                    }
                }
            }
            Host::Check => {
                let (p, l) = (st.vals[n - 2].b & 0xffff_ffff, st.vals[n - 1].b & 0xffff_ffff);
                let v = st.vals[n - 3];
                let c = self.truth(st, v);
                self.tot.checks += 1;
                match self.conc_of(st, c) {
                    Some(1) => {}
                    Some(_) => {
                        let s = self.cstr(st, p, l);
                        return Err(Stop::Viol("check".into(), s));
                    }
                    None => {
                        self.tot.checks_solver += 1;
                        let nc = self.cx.not(c);
                        if let Some(m) = self.feasible(st, nc)? {
                            st.model = m;
                            let s = self.cstr(st, p, l);
                            return Err(Stop::Viol("check".into(), s));
                        }
                        self.learn(st, c, true);
                    }
                }
                st.vals.truncate(n - 3);
            }
            Host::Reach => {
                let s = self.cstr(st, st.vals[n - 2].b, st.vals[n - 1].b);
                st.vals.truncate(n - 2);
                let i = match self.reach_names.iter().position(|x| *x == s) {
                    Some(i) => i,
                    None => {
                        self.reach_names.push(s);
                        self.reach_names.len() - 1
                    }
                } as u32;
                if !st.path_reach.contains(&i) {
                    st.path_reach.push(i);
                }
            }
            Host::Observe => {
                let v = st.vals.pop().unwrap();
                st.obs.push((v, false));
            }
            Host::ExpectPanic => {
                let v = self.concretise(st, n - 1)?;
                st.vals.truncate(n - 1);
                st.expect_panic = v != 0;
            }
            Host::Param => {
                let v = st.vals.pop().unwrap();
                let x = self.params.get(v.b as usize).copied().unwrap_or(0);
                st.vals.push(V::c(x as u64));
            }
            Host::Alloc => {
                let size = self.concretise(st, n - 2)? as u32;
                let al = (self.concretise(st, n - 1)? as u32).max(8);
                st.vals.truncate(n - 2);
                if size > 1 << 24 {
                    st.vals.push(V::c(0));
                    return Ok(None);
                }
                let start = (st.heap_top + 16 + al - 1) & !(al - 1);
                let end = start + size;
                st.heap_top = end + 16;
                while st.mem.len() * PAGE < st.heap_top as usize {
                    let z = self.zero.clone();
                    st.mem.resize(st.mem.len() + 64, z);
                }
                // fresh memory has arbitrary content
                for a in start..end {
                    let p = Rc::make_mut(&mut st.mem[a as usize / PAGE]);
                    p.data[a as usize % PAGE] = 0xA5;
                }
                Rc::make_mut(&mut st.blocks).push(Block { start, size, live: true });
                st.vals.push(V::c(start as u64));
            }
            Host::Dealloc => {
                let p = self.concretise(st, n - 3)? as u32;
                let size = self.concretise(st, n - 2)? as u32;
                st.vals.truncate(n - 3);
                let bs = Rc::make_mut(&mut st.blocks);
                let i = bs.partition_point(|b| b.start <= p);
                if i == 0 || bs[i - 1].start != p {
                    return Err(Stop::Viol("memory".into(), "free of something that is no heap block".into()));
                }
                let b = &mut bs[i - 1];
                if !b.live {
                    return Err(Stop::Viol("memory".into(), "double free".into()));
                }
                if b.size != size {
                    return Err(Stop::Viol("memory".into(), "free with the wrong size".into()));
                }
                b.live = false;
            }
            Host::Live => {
                let k = st.blocks.iter().filter(|b| b.live).count();
                st.vals.push(V::c(k as u64));
            }
            Host::LiveBytes => {
                let k = st.blocks.iter().filter(|b| b.live).map(|b| b.size as usize).sum::<usize>();
                st.vals.push(V::c(k as u64));
            }
            Host::Stop => return Ok(Some(Stop::Done("stop"))),
            Host::Unknown => {
                return Err(Stop::Unsupported(format!("unknown import {}", f.name)));
            }
        }
        Ok(None)
    }

    // ---- numeric operations -------------------------------------------------------------

    fn num2(&self, o: u8, a: u64, b: u64) -> R<u64> {
        let (x, y) = (a as u32, b as u32);
        let (sx, sy) = (x as i32, y as i32);
        let (la, lb) = (a as i64, b as i64);
        let (fa, fb) = (f64::from_bits(a), f64::from_bits(b));
        let (ga, gb) = (f32::from_bits(x), f32::from_bits(y));
        let div0 = || Stop::Viol("trap".into(), "integer division by zero".into());
        let ovf = || Stop::Viol("trap".into(), "integer division overflow".into());
        let i32r = |v: u32| v as u64;
        Ok(match o {
            0x46 => (x == y) as u64,
            0x47 => (x != y) as u64,
            0x48 => (sx < sy) as u64,
            0x49 => (x < y) as u64,
            0x4a => (sx > sy) as u64,
            0x4b => (x > y) as u64,
            0x4c => (sx <= sy) as u64,
            0x4d => (x <= y) as u64,
            0x4e => (sx >= sy) as u64,
            0x4f => (x >= y) as u64,
            0x51 => (a == b) as u64,
            0x52 => (a != b) as u64,
            0x53 => (la < lb) as u64,
            0x54 => (a < b) as u64,
            0x55 => (la > lb) as u64,
            0x56 => (a > b) as u64,
            0x57 => (la <= lb) as u64,
            0x58 => (a <= b) as u64,
            0x59 => (la >= lb) as u64,
            0x5a => (a >= b) as u64,
            0x5b => (ga == gb) as u64,
            0x5c => (ga != gb) as u64,
            0x5d => (ga < gb) as u64,
            0x5e => (ga > gb) as u64,
            0x5f => (ga <= gb) as u64,
            0x60 => (ga >= gb) as u64,
            0x61 => (fa == fb) as u64,
            0x62 => (fa != fb) as u64,
            0x63 => (fa < fb) as u64,
            0x64 => (fa > fb) as u64,
            0x65 => (fa <= fb) as u64,
            0x66 => (fa >= fb) as u64,
            0x6a => i32r(x.wrapping_add(y)),
            0x6b => i32r(x.wrapping_sub(y)),
            0x6c => i32r(x.wrapping_mul(y)),
            0x6d => {
                if y == 0 {
                    return Err(div0());
                }
                i32r(sx.checked_div(sy).ok_or_else(ovf)? as u32)
            }
            0x6e => i32r(x.checked_div(y).ok_or_else(div0)?),
            0x6f => {
                if y == 0 {
                    return Err(div0());
                }
                i32r(sx.wrapping_rem(sy) as u32)
            }
            0x70 => i32r(x.checked_rem(y).ok_or_else(div0)?),
            0x71 => i32r(x & y),
            0x72 => i32r(x | y),
            0x73 => i32r(x ^ y),
            0x74 => i32r(x.wrapping_shl(y)),
            0x75 => i32r(sx.wrapping_shr(y) as u32),
            0x76 => i32r(x.wrapping_shr(y)),
            0x77 => i32r(x.rotate_left(y & 31)),
            0x78 => i32r(x.rotate_right(y & 31)),
            0x7c => a.wrapping_add(b),
            0x7d => a.wrapping_sub(b),
            0x7e => a.wrapping_mul(b),
            0x7f => {
                if b == 0 {
                    return Err(div0());
                }
                la.checked_div(lb).ok_or_else(ovf)? as u64
            }
            0x80 => a.checked_div(b).ok_or_else(div0)?,
            0x81 => {
                if b == 0 {
                    return Err(div0());
                }
                la.wrapping_rem(lb) as u64
            }
            0x82 => a.checked_rem(b).ok_or_else(div0)?,
            0x83 => a & b,
            0x84 => a | b,
            0x85 => a ^ b,
            0x86 => a.wrapping_shl(b as u32),
            0x87 => la.wrapping_shr(b as u32) as u64,
            0x88 => a.wrapping_shr(b as u32),
            0x89 => a.rotate_left((b & 63) as u32),
            0x8a => a.rotate_right((b & 63) as u32),
            0xa0 => (fa + fb).to_bits(),
            0xa1 => (fa - fb).to_bits(),
            0xa2 => (fa * fb).to_bits(),
            0xa3 => (fa / fb).to_bits(),
            0xa4 => {
                if fa.is_nan() || fb.is_nan() {
                    f64::NAN.to_bits()
                } else {
                    fa.min(fb).to_bits()
                }
            }
            0xa5 => {
                if fa.is_nan() || fb.is_nan() {
                    f64::NAN.to_bits()
                } else {
                    fa.max(fb).to_bits()
                }
            }
            0xa6 => fa.copysign(fb).to_bits(),
            0x92 => (ga + gb).to_bits() as u64,
            0x93 => (ga - gb).to_bits() as u64,
            0x94 => (ga * gb).to_bits() as u64,
            0x95 => (ga / gb).to_bits() as u64,
            _ => return Err(Stop::Unsupported(format!("numeric op {o:#x}"))),
        })
    }

    fn num1(&self, o: u8, a: u64) -> R<u64> {
        let x = a as u32;
        let f = f64::from_bits(a);
        let g = f32::from_bits(x);
        let bad = || Stop::Viol("trap".into(), "float to integer conversion out of range".into());
        Ok(match o {
            0x45 => (x == 0) as u64,
            0x50 => (a == 0) as u64,
            0x67 => x.leading_zeros() as u64,
            0x68 => x.trailing_zeros() as u64,
            0x69 => x.count_ones() as u64,
            0x79 => a.leading_zeros() as u64,
            0x7a => a.trailing_zeros() as u64,
            0x7b => a.count_ones() as u64,
            0x99 => f.abs().to_bits(),
            0x9a => (-f).to_bits(),
            0x9b => f.ceil().to_bits(),
            0x9c => f.floor().to_bits(),
            0x9d => f.trunc().to_bits(),
            0x9e => f.round_ties_even().to_bits(),
            0x9f => f.sqrt().to_bits(),
            0x8b => g.abs().to_bits() as u64,
            0x8c => (-g).to_bits() as u64,
            0xa7 => x as u64,
            0xaa | 0xab | 0xb0 | 0xb1 => {
                if f.is_nan() || f.abs() > 1.9e19 {
                    return Err(bad());
                }
                match o {
                    0xaa => f as i32 as u32 as u64,
                    0xab => f as u32 as u64,
                    0xb0 => f as i64 as u64,
                    _ => f as u64,
                }
            }
            0xac => x as i32 as i64 as u64,
            0xad => x as u64,
            0xb2 => (x as i32 as f32).to_bits() as u64,
            0xb3 => (x as f32).to_bits() as u64,
            0xb4 => (a as i64 as f32).to_bits() as u64,
            0xb5 => (a as f32).to_bits() as u64,
            0xb6 => (f as f32).to_bits() as u64,
            0xb7 => (x as i32 as f64).to_bits(),
            0xb8 => (x as f64).to_bits(),
            0xb9 => (a as i64 as f64).to_bits(),
            0xba => (a as f64).to_bits(),
            0xbb => (g as f64).to_bits(),
            0xbc => x as u64,
            0xbd | 0xbf => a,
            0xbe => x as u64,
            0xc0 => x as i8 as i32 as u32 as u64,
            0xc1 => x as i16 as i32 as u32 as u64,
            0xc2 => a as i8 as i64 as u64,
            0xc3 => a as i16 as i64 as u64,
            0xc4 => a as i32 as i64 as u64,
            _ => return Err(Stop::Unsupported(format!("numeric op {o:#x}"))),
        })
    }

    fn norm(&mut self, st: &State, v: V) -> V {
        if v.e != 0 {
            if let Some(k) = self.conc_of(st, v.e) {
                return V::c(k as u64);
            }
        }
        v
    }

    fn sym2(&mut self, st: &mut State, o: u8) -> R<V> {
        let t = st.vals.len();
        let a = self.norm(st, st.vals[t - 2]);
        let b = self.norm(st, st.vals[t - 1]);
        st.vals[t - 2] = a;
        st.vals[t - 1] = b;
        if a.e | b.e == 0 {
            return Ok(V::c(self.num2(o, a.b, b.b)?));
        }
        if (0x61..=0x66).contains(&o) || (0xa0..=0xa6).contains(&o) {
            return self.symf2(st, o, a, b);
        }
        if (0x5b..=0x60).contains(&o) || (0x92..=0x98).contains(&o) {
            return Err(Stop::Unsupported("symbolic f32".into()));
        }
        let w: u8 = match o {
            0x46..=0x4f | 0x6a..=0x78 => 32,
            _ => 64,
        };
        let (mut a, mut b) = (a, b);
        for (i, v) in [&mut a, &mut b].into_iter().enumerate() {
            if w == 64 {
                *v = self.as_bits(st, *v)?;
                st.vals[t - 2 + i] = *v;
            }
            if v.e != 0 && self.cx.w(v.e) != w {
                return Err(Stop::Unsupported(format!("width {} operand in op {o:#x}", self.cx.w(v.e))));
            }
        }
        // variable shifts and rotations: fork over the amount
        let o32 = if w == 32 { o } else { o - 18 }; // 0x7c.. -> 0x6a..
        if matches!(o, 0x74..=0x78 | 0x86..=0x8a) {
            let k = if b.e != 0 { self.concretise(st, t - 1)? } else { b.b };
            if st.vals[t - 2].e == 0 {
                return Ok(V::c(self.num2(o, a.b, k)?));
            }
            let k = (k as u32) & (w as u32 - 1);
            let x = a.e;
            let r = match o32 {
                0x74 => self.cx.shl_c(x, k),
                0x75 => self.cx.ashr_c(x, k),
                0x76 => self.cx.lshr_c(x, k),
                _ => {
                    if k == 0 {
                        x
                    } else {
                        let l = if o32 == 0x77 { k } else { w as u32 - k };
                        let p = self.cx.shl_c(x, l);
                        let q = self.cx.lshr_c(x, w as u32 - l);
                        self.cx.or(p, q)
                    }
                }
            };
            return Ok(self.mkv(st, r));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let cmp = matches!(o, 0x46..=0x4f | 0x51..=0x5a);
        if cmp {
            let k = if w == 32 { o - 0x46 } else { o - 0x51 };
            let c = match k {
                0 => self.cx.eq(x, y),
                1 => {
                    let e = self.cx.eq(x, y);
                    self.cx.not(e)
                }
                2 => self.cx.slt(x, y),
                3 => self.cx.ult(x, y),
                4 => self.cx.slt(y, x),
                5 => self.cx.ult(y, x),
                6 => self.cx.sle(x, y),
                7 => self.cx.ule(x, y),
                8 => self.cx.sle(y, x),
                _ => self.cx.ule(y, x),
            };
            let c = match self.conc_of(st, c) {
                Some(v) => return Ok(V::c(v as u64)),
                None => c,
            };
            let z = self.cx.zext(c, 32);
            return Ok(self.mkv(st, z));
        }
        // division: the divisor must not be zero
        if matches!(o32, 0x6d..=0x70) {
            let z = self.cx.konst(w, 0);
            let isz = self.cx.eq(y, z);
            if self.conc_of(st, isz) != Some(0) {
                if let Some(m) = self.feasible(st, isz)? {
                    st.model = m;
                    return Err(Stop::Viol("trap".into(), "integer division by zero".into()));
                }
                self.learn(st, isz, false);
            }
        }
        let r = match o32 {
            0x6a => self.cx.add(x, y),
            0x6b => self.subtract(st, x, y)?,
            0x6c => self.cx.mul(x, y),
            0x6d => self.cx.sdiv(x, y),
            0x6e if self.cx.cv(y).is_none() => self.quotient(st, x, y)?.0,
            0x6e => self.cx.udiv(x, y),
            0x6f => self.cx.srem(x, y),
            0x70 if self.cx.cv(y).is_none() => self.quotient(st, x, y)?.1,
            0x70 => self.cx.urem(x, y),
            0x71 => self.cx.and(x, y),
            0x72 => self.cx.or(x, y),
            0x73 => self.cx.xor(x, y),
            _ => return Err(Stop::Unsupported(format!("symbolic op {o:#x}"))),
        };
        Ok(self.mkv(st, r))
    }

    fn sym1(&mut self, st: &mut State, o: u8) -> R<V> {
        let t = Self::top(st);
        let a = self.norm(st, st.vals[t]);
        st.vals[t] = a;
        if a.e == 0 {
            return Ok(V::c(self.num1(o, a.b)?));
        }
        let x = a.e;
        let w = self.cx.w(x);
        let mut x = x;
        let mut w = w;
        let float_op = matches!(o, 0x99..=0x9e | 0xaa | 0xab | 0xb0 | 0xb1);
        if !matches!(o, 0xbd | 0xbf) && float_op != (w == 0) && (w == 0 || w == 64) {
            let v = if float_op { self.as_float(st, a)? } else { self.as_bits(st, a)? };
            st.vals[t] = v;
            if v.e == 0 {
                return Ok(V::c(self.num1(o, v.b)?));
            }
            x = v.e;
            w = self.cx.w(x);
        }
        let r = match o {
            0x45 | 0x50 => {
                let z = self.cx.konst(w, 0);
                let e = self.cx.eq(x, z);
                let e = match self.conc_of(st, e) {
                    Some(v) => return Ok(V::c(v as u64)),
                    None => e,
                };
                self.cx.zext(e, 32)
            }
            0x67 | 0x79 => {
                // the position of the leading bit decides by itself: fork over it
                let k = self.leading_bits(st, x)?;
                return Ok(V::c(k));
            }
            0x68 | 0x7a => {
                let k = self.concretise(st, t)?;
                return Ok(V::c(self.num1(o, k)?));
            }
            0x69 | 0x7b => self.cx.popcnt(x),
            0xa7 => self.cx.trunc(x, 32),
            0xac => self.cx.sext(x, 64),
            0xad => self.cx.zext(x, 64),
            0xc0 | 0xc1 | 0xc2 | 0xc3 | 0xc4 => {
                let n = match o {
                    0xc0 | 0xc2 => 8,
                    0xc1 | 0xc3 => 16,
                    _ => 32,
                };
                let l = self.cx.trunc(x, n);
                self.cx.sext(l, w)
            }
            0xb7 | 0xb8 | 0xb9 | 0xba => {
                let i = if o == 0xb7 {
                    self.cx.sext(x, 64)
                } else if o == 0xb8 {
                    self.cx.zext(x, 64)
                } else {
                    x
                };
                if o == 0xba {
                    return self.round_mag(st, i, false, 0);
                }
                return self.mkf(st, i, 0);
            }
            0xbd | 0xbf => return Ok(a),
            0x99..=0x9e => return self.symf1(st, o, x),
            0xaa => return self.sym_trunc(st, x, 2),
            0xab => return self.sym_trunc(st, x, 3),
            0xb0 => return self.sym_trunc(st, x, 6),
            0xb1 => return self.sym_trunc(st, x, 7),
            _ => return Err(Stop::Unsupported(format!("symbolic op {o:#x}"))),
        };
        Ok(self.mkv(st, r))
    }

    // ---- dyadic floats ------------------------------------------------------------------

    /// the representation of a symbolic double as an integer: fork over its sign and magnitude
    fn as_bits(&mut self, st: &mut State, v: V) -> R<V> {
        if v.e == 0 {
            return Ok(v);
        }
        let (m, k) = match self.cx.is_fdy(v.e) {
            Some(x) => x,
            None => return Ok(v),
        };
        let z = self.cx.konst(64, 0);
        let c = self.cx.eq(m, z);
        if self.decide(st, c)? {
            return Ok(V::c(0));
        }
        let c = self.cx.slt(m, z);
        let neg = self.decide(st, c)?;
        let mag = if neg { self.cx.sub(z, m) } else { m };
        let n = 64 - self.leading_bits(st, mag)? as i32;
        let exp = n - 1 - k + 1023;
        if n > 54 || !(1..=2046).contains(&exp) {
            return Err(Stop::Unsupported("float exponent out of range".into()));
        }
        let frac = if n <= 53 { self.cx.shl_c(mag, (53 - n) as u32) } else { self.cx.lshr_c(mag, (n - 53) as u32) };
        let top = self.cx.konst(64, 1 << 52);
        let frac = self.cx.sub_nw(frac, top);
        let hi = self.cx.konst(64, (neg as u128) << 63 | (exp as u128) << 52);
        let r = self.cx.add(hi, frac);
        Ok(self.mkv(st, r))
    }

    /// a symbolic integer as the double it represents: fork over sign and exponent
    fn as_float(&mut self, st: &mut State, v: V) -> R<V> {
        if v.e == 0 || self.cx.w(v.e) == 0 {
            return Ok(v);
        }
        if self.cx.w(v.e) != 64 {
            return Err(Stop::Unsupported("integer expression used as float".into()));
        }
        let top = self.cx.lshr_c(v.e, 52);
        let field = match self.conc_of(st, top) {
            Some(k) => k,
            None => loop {
                let k = self.cx.eval_m(top, &st.model);
                let ke = self.cx.konst(64, k);
                let c = self.cx.eq(top, ke);
                if self.decide(st, c)? {
                    break k;
                }
            },
        };
        let (neg, exp) = (field >> 11 != 0, (field & 0x7ff) as i32);
        let base = self.cx.konst(64, field << 52);
        let frac = self.cx.sub_nw(v.e, base);
        if exp == 0 {
            let z = self.cx.konst(64, 0);
            let c = self.cx.eq(frac, z);
            if self.decide(st, c)? {
                return Ok(V::c((neg as u64) << 63));
            }
        }
        if exp == 0 || exp == 0x7ff {
            return Err(Stop::Unsupported("float exponent out of range".into()));
        }
        let one = self.cx.konst(64, 1 << 52);
        let m = self.cx.add(frac, one);
        let m = if neg {
            let z = self.cx.konst(64, 0);
            self.cx.sub(z, m)
        } else {
            m
        };
        self.mkf(st, m, 52 - (exp - 1023))
    }

    /// m * 2^-k / (+-c * 2^-l), rounded to nearest: fork over the magnitude, then one exact division
    fn divide(&mut self, st: &mut State, m: E, k: i32, c: i64, l: i32) -> R<V> {
        let z = self.cx.konst(64, 0);
        let e = self.cx.eq(m, z);
        if self.decide(st, e)? {
            return Ok(V::c(0));
        }
        let e = self.cx.slt(m, z);
        let neg = self.decide(st, e)?;
        let mag = if neg { self.cx.sub(z, m) } else { m };
        let n = 64 - self.leading_bits(st, mag)? as i32;
        let cm = c.unsigned_abs();
        let cb = 64 - cm.leading_zeros() as i32;
        let s = (57 + cb - n).max(0);
        let wide = self.cx.zext(mag, 128);
        let x = self.cx.shl_c(wide, s as u32);
        let ce = self.cx.konst(128, cm as u128);
        let q = self.cx.udiv(x, ce);
        let r = self.cx.urem(x, ce);
        // one more bit says whether the quotient is exact
        let z = self.cx.konst(128, 0);
        let exact = self.cx.eq(r, z);
        let q2 = self.cx.shl_c(q, 1);
        let one = self.cx.konst(128, 1);
        let odd = self.cx.add(q2, one);
        let q = self.cx.ite(exact, q2, odd);
        self.round_mag(st, q, neg != (c < 0), s + 1 + k - l)
    }

    /// (integer expression, exponent k): value = int * 2^-k
    fn dy(&mut self, v: V) -> R<(E, i32)> {
        if v.e != 0 {
            return self.cx.is_fdy(v.e).ok_or(Stop::Unsupported("integer expression used as float".into()));
        }
        let f = f64::from_bits(v.b);
        let (m, k) = dyadic(f).ok_or(Stop::Unsupported("float constant not a small dyadic".into()))?;
        let e = self.cx.konst(64, m as i64 as u64 as u128);
        Ok((e, k))
    }

    /// the float nearest to e * 2^-k, e signed
    fn mkf(&mut self, st: &mut State, e: E, k: i32) -> R<V> {
        let i = self.cx.i(e);
        let lim = 1i128 << 53;
        let w = self.cx.w(e);
        if let Some(v) = self.cx.cv(e) {
            let v = if w == 128 { v as i128 } else { sx(v, w) as i128 };
            // both factors are exact in range, so this rounds once
            return Ok(V::c((v as f64 * 2f64.powi(-k)).to_bits()));
        }
        if i.slo >= -lim && i.shi <= lim {
            let e = if w == 64 { e } else { self.cx.trunc(e, 64) };
            return Ok(V::s(self.cx.fdy(e, k)));
        }
        let z = self.cx.konst(w, 0);
        let c = self.cx.slt(e, z);
        if self.decide(st, c)? {
            let m = self.cx.sub(z, e);
            self.round_mag(st, m, true, k)
        } else {
            self.round_mag(st, e, false, k)
        }
    }

    /// the float nearest to +-m * 2^-k, m unsigned: fork over the magnitude, ties to even
    fn round_mag(&mut self, st: &mut State, m: E, neg: bool, k: i32) -> R<V> {
        let w = self.cx.w(m);
        let finish = |s: &mut Self, m: E, k: i32| {
            let m = if w == 64 { m } else { s.cx.trunc(m, 64) };
            let z = s.cx.konst(64, 0);
            let m = if neg { s.cx.sub(z, m) } else { m };
            if let Some(v) = s.cx.cv(m) {
                let f = sx(v, 64) as f64 * 2f64.powi(-k);
                return Ok(V::c(f.to_bits()));
            }
            Ok(V::s(s.cx.fdy(m, k)))
        };
        if self.cx.i(m).hi <= 1 << 53 {
            return finish(self, m, k);
        }
        // at most 53 bits: one case
        let c53 = self.cx.konst(w, 1 << 53);
        let small = self.cx.ule(m, c53);
        if self.decide(st, small)? {
            return finish(self, m, k);
        }
        let n = w as u64 - self.leading_bits(st, m)?;
        let sh = (n as u32).saturating_sub(53);
        if sh == 0 {
            return finish(self, m, k);
        }
        if n as i32 - k > 1000 || n as i32 - k < -1000 {
            return Err(Stop::Unsupported("float exponent out of range".into()));
        }
        let half = self.cx.konst(w, 1u128 << (sh - 1));
        let mask = self.cx.konst(w, (1u128 << sh) - 1);
        let q = self.cx.lshr_c(m, sh);
        let r = self.cx.and(m, mask);
        // round up if r > half, or r == half and q is odd
        let one = self.cx.konst(w, 1);
        let zero = self.cx.konst(w, 0);
        let gt = self.cx.ult(half, r);
        let tie = self.cx.eq(r, half);
        let qb = self.cx.and(q, one);
        let even = self.cx.eq(qb, zero);
        let up = self.cx.add(q, one);
        let t = self.cx.ite(even, q, up);
        let x = self.cx.ite(tie, t, q);
        let x = self.cx.ite(gt, up, x);
        // x lies in 2^52..=2^53
        let x = self.cx.trunc(x, 64);
        let z = self.cx.konst(64, 0);
        let x = if neg { self.cx.sub(z, x) } else { x };
        Ok(V::s(self.cx.fdy(x, k - sh as i32)))
    }

    fn align(&mut self, a: (E, i32), b: (E, i32)) -> R<(E, E, i32)> {
        let k = a.1.max(b.1);
        let mut r = [0; 2];
        let mut wide = false;
        for (e, ek) in [a, b] {
            let sh = k - ek;
            let inf = *self.cx.i(e);
            let lim = 1i128 << 62;
            if sh > 70 {
                return Err(Stop::Unsupported("float alignment overflow".into()));
            }
            if sh > 60 || inf.slo < -(lim >> sh) || inf.shi > (lim >> sh) {
                wide = true;
            }
        }
        for (i, (e, ek)) in [a, b].into_iter().enumerate() {
            let sh = k - ek;
            let e = if wide { self.cx.sext(e, 128) } else { e };
            r[i] = self.cx.shl_c(e, sh as u32);
        }
        Ok((r[0], r[1], k))
    }

    fn symf2(&mut self, st: &mut State, o: u8, a: V, b: V) -> R<V> {
        let a = self.as_float(st, a)?;
        let b = self.as_float(st, b)?;
        if a.e | b.e == 0 {
            return Ok(V::c(self.num2(o, a.b, b.b)?));
        }
        // comparison with an infinite or NaN constant
        for (v, other_first) in [(a, false), (b, true)] {
            if v.e == 0 {
                let f = f64::from_bits(v.b);
                if !f.is_finite() && (0x61..=0x66).contains(&o) {
                    let (x, y) = if other_first { (0.0, f) } else { (f, 0.0) };
                    let r = match o {
                        0x61 => x == y,
                        0x62 => x != y,
                        0x63 => x < y,
                        0x64 => x > y,
                        0x65 => x <= y,
                        _ => x >= y,
                    };
                    return Ok(V::c(r as u64));
                }
            }
        }
        // comparison with a constant too large or fine for the dyadic domain
        if (0x61..=0x66).contains(&o) {
            let (x, y) = (self.dy(a), self.dy(b));
            let al = match (x, y) {
                (Ok(x), Ok(y)) => self.align(x, y).ok(),
                _ => None,
            };
            let (p, q) = match al {
                Some((p, q, _)) => (p, q),
                None => {
                    // decide by magnitude
                    let rng = |s: &Self, v: V| -> Option<(f64, f64)> {
                        if v.e == 0 {
                            let f = f64::from_bits(v.b);
                            Some((f, f))
                        } else {
                            let (e, k) = s.cx.is_fdy(v.e)?;
                            let i = s.cx.i(e);
                            Some((i.slo as f64 * 2f64.powi(-k), i.shi as f64 * 2f64.powi(-k)))
                        }
                    };
                    if let (Some(x), Some(y)) = (rng(self, a), rng(self, b)) {
                        if x.1 < y.0 {
                            return Ok(V::c(matches!(o, 0x62 | 0x63 | 0x65) as u64));
                        }
                        if y.1 < x.0 {
                            return Ok(V::c(matches!(o, 0x62 | 0x64 | 0x66) as u64));
                        }
                    }
                    return Err(Stop::Unsupported("float comparison outside the dyadic domain".into()));
                }
            };
            let c = match o {
                0x61 => self.cx.eq(p, q),
                0x62 => {
                    let e = self.cx.eq(p, q);
                    self.cx.not(e)
                }
                0x63 => self.cx.slt(p, q),
                0x64 => self.cx.slt(q, p),
                0x65 => self.cx.sle(p, q),
                _ => self.cx.sle(q, p),
            };
            let c = match self.conc_of(st, c) {
                Some(v) => return Ok(V::c(v as u64)),
                None => c,
            };
            let z = self.cx.zext(c, 32);
            return Ok(self.mkv(st, z));
        }
        match o {
            0xa0 | 0xa1 => {
                let x = self.dy(a)?;
                let y = self.dy(b)?;
                let (p, q, k) = self.align(x, y)?;
                let r = if o == 0xa0 { self.cx.add(p, q) } else { self.cx.sub(p, q) };
                self.mkf(st, r, k)
            }
            0xa2 => {
                let (p, k) = self.dy(a)?;
                let (q, l) = self.dy(b)?;
                let (ip, iq) = (*self.cx.i(p), *self.cx.i(q));
                let mx = ip.slo.unsigned_abs().max(ip.shi.unsigned_abs());
                let my = iq.slo.unsigned_abs().max(iq.shi.unsigned_abs());
                let (p, q) = if mx.checked_mul(my).map(|v| v > 1 << 62).unwrap_or(true) {
                    (self.cx.sext(p, 128), self.cx.sext(q, 128))
                } else {
                    (p, q)
                };
                let r = self.cx.mul(p, q);
                self.mkf(st, r, k + l)
            }
            0xa3 => {
                // division by a power of two only
                if b.e == 0 {
                    let f = f64::from_bits(b.b);
                    if let Some((m, k)) = dyadic(f) {
                        if m.abs() == 1 {
                            let (p, l) = self.dy(a)?;
                            let r = if m < 0 {
                                let z = self.cx.konst(64, 0);
                                self.cx.sub(z, p)
                            } else {
                                p
                            };
                            return self.mkf(st, r, l - k);
                        }
                        if m != 0 {
                            let (p, l) = self.dy(a)?;
                            return self.divide(st, p, l, m, k);
                        }
                    }
                }
                Err(Stop::Unsupported("symbolic float division".into()))
            }
            0xa4 | 0xa5 => {
                let x = self.dy(a)?;
                let y = self.dy(b)?;
                let (p, q, k) = self.align(x, y)?;
                let c = self.cx.slt(p, q);
                let r = if o == 0xa4 { self.cx.ite(c, p, q) } else { self.cx.ite(c, q, p) };
                self.mkf(st, r, k)
            }
            0xa6 => {
                // copysign; a zero that is not a constant counts as positive
                let (p, k) = self.dy(a)?;
                let z = self.cx.konst(64, 0);
                let neg = if b.e == 0 {
                    self.cx.konst(1, (b.b >> 63) as u128)
                } else {
                    let (q, _) = self.dy(b)?;
                    self.cx.slt(q, z)
                };
                let pn = self.cx.slt(p, z);
                let m = self.cx.sub(z, p);
                let differ = self.cx.xor(pn, neg);
                let r = self.cx.ite(differ, m, p);
                self.mkf(st, r, k)
            }
            _ => Err(Stop::Unsupported(format!("symbolic float op {o:#x}"))),
        }
    }

    fn fdiv(&mut self, e: E, k: i32) -> R<E> {
        // floor(int / 2^k), 64 bits wide where that is enough, else 128
        if k <= 0 {
            let inf = *self.cx.i(e);
            let lim = 1i128 << 62;
            let sh = -k;
            if sh > 70 {
                return Err(Stop::Unsupported("float to integer conversion out of range".into()));
            }
            if sh > 60 || inf.slo < -(lim >> sh) || inf.shi > (lim >> sh) {
                let e = self.cx.sext(e, 128);
                return Ok(self.cx.shl_c(e, sh as u32));
            }
            return Ok(self.cx.shl_c(e, sh as u32));
        }
        Ok(self.cx.ashr_c(e, (k as u32).min(63)))
    }

    fn symf1(&mut self, st: &mut State, o: u8, x: E) -> R<V> {
        let (e, k) = self.cx.is_fdy(x).ok_or(Stop::Unsupported("float".into()))?;
        let z = self.cx.konst(64, 0);
        match o {
            0x99 => {
                let n = self.cx.slt(e, z);
                let m = self.cx.sub(z, e);
                let r = self.cx.ite(n, m, e);
                self.mkf(st, r, k)
            }
            0x9a => {
                let m = self.cx.sub(z, e);
                self.mkf(st, m, k)
            }
            0x9b => {
                // ceil(x) = -floor(-x)
                let m = self.cx.sub(z, e);
                let f = self.fdiv(m, k)?;
                let r = self.cx.sub(z, f);
                self.mkf(st, r, 0)
            }
            0x9c => {
                let f = self.fdiv(e, k)?;
                self.mkf(st, f, 0)
            }
            0x9d => {
                let r = self.trunc0(e, k)?;
                self.mkf(st, r, 0)
            }
            _ => {
                if k <= 0 {
                    return Ok(V::s(x));
                }
                // to nearest, ties to even (values below 2^53, so k < 54 matters)
                if k > 60 {
                    return Err(Stop::Unsupported("symbolic rounding to nearest".into()));
                }
                let q = self.cx.ashr_c(e, k as u32);
                let mask = self.cx.konst(64, (1u128 << k) - 1);
                let half = self.cx.konst(64, 1u128 << (k - 1));
                let one = self.cx.konst(64, 1);
                let r = self.cx.and(e, mask);
                let gt = self.cx.ult(half, r);
                let tie = self.cx.eq(half, r);
                let qb = self.cx.and(q, one);
                let even = self.cx.eq(qb, z);
                let up = self.cx.add(q, one);
                let t = self.cx.ite(even, q, up);
                let v = self.cx.ite(tie, t, q);
                let v = self.cx.ite(gt, up, v);
                self.mkf(st, v, 0)
            }
        }
    }

    /// truncation toward zero to a signed 64-bit integer
    fn trunc0(&mut self, e: E, k: i32) -> R<E> {
        if self.cx.i(e).slo >= 0 {
            return self.fdiv(e, k);
        }
        let z = self.cx.konst(64, 0);
        let neg = self.cx.slt(e, z);
        let m = self.cx.sub(z, e);
        let mut p = self.fdiv(e, k)?;
        let mut q = self.fdiv(m, k)?;
        if self.cx.w(p) != self.cx.w(q) {
            p = if self.cx.w(p) == 64 { self.cx.sext(p, 128) } else { p };
            q = if self.cx.w(q) == 64 { self.cx.sext(q, 128) } else { q };
        }
        let z = self.cx.konst(self.cx.w(q), 0);
        let q = self.cx.sub(z, q);
        Ok(self.cx.ite(neg, q, p))
    }

    fn sym_trunc(&mut self, st: &mut State, x: E, kind: u8) -> R<V> {
        if kind == 0 || kind == 1 || kind == 4 || kind == 5 {
            return Err(Stop::Unsupported("symbolic f32".into()));
        }
        let v = self.as_float(st, V::s(x))?;
        if v.e == 0 {
            let f = f64::from_bits(v.b);
            return Ok(V::c(match kind {
                2 => f as i32 as u32 as u64,
                3 => f as u32 as u64,
                6 => f as i64 as u64,
                _ => f as u64,
            }));
        }
        let (e, k) = self.cx.is_fdy(v.e).ok_or(Stop::Unsupported("integer used as float".into()))?;
        let i = self.trunc0(e, k)?;
        let (lo, hi, w): (i128, i128, u8) = match kind {
            2 => (i32::MIN as i128, i32::MAX as i128, 32),
            3 => (0, u32::MAX as i128, 32),
            6 => (i64::MIN as i128, i64::MAX as i128, 64),
            _ => (0, u64::MAX as i128, 64),
        };
        let mut r = i;
        let iw = self.cx.w(i);
        let inf = *self.cx.i(i);
        if inf.slo < lo {
            let l = self.cx.konst(iw, lo as u128);
            let c = self.cx.slt(i, l);
            r = self.cx.ite(c, l, r);
        }
        // a 64-bit signed value never exceeds the unsigned limit
        if inf.shi > hi {
            let h = self.cx.konst(iw, hi as u128);
            let c = self.cx.slt(h, i);
            r = self.cx.ite(c, h, r);
        }
        if iw != w {
            r = self.cx.trunc(r, w);
        }
        Ok(self.mkv(st, r))
    }

    pub fn cover_pc(&self) -> Vec<(usize, usize)> {
        self.cover
            .iter()
            .enumerate()
            .map(|(i, b)| (b.iter().map(|x| x.count_ones() as usize).sum(), self.m.funcs[i].code.len()))
            .collect()
    }
}

/// f = m * 2^-k with |m| <= 2^53, m odd or zero
pub fn dyadic(f: f64) -> Option<(i64, i32)> {
    if !f.is_finite() {
        return None;
    }
    if f == 0.0 {
        return Some((0, 0));
    }
    let bits = f.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    if exp == 0 {
        return None;
    }
    let mut m = ((bits & ((1 << 52) - 1)) | (1 << 52)) as i64;
    let mut k = 1075 - exp;
    while m & 1 == 0 {
        m >>= 1;
        k -= 1;
    }
    if bits >> 63 == 1 {
        m = -m;
    }
    // large integers: fold the exponent into the mantissa when it fits
    if k < 0 && -k < 10 && (m.unsigned_abs() << (-k)) <= 1 << 53 {
        m <<= -k;
        k = 0;
    } else if k < 0 {
        // keep as is: m * 2^|k|
    }
    Some((m, k))
}
