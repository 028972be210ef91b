//! Solver front end: a z3 process driven over a pipe, constraint slicing, result caching, and
//! re-validation of every model by the engine's own evaluator.

use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Sat {
    Sat(Vec<(usize, u128)>),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub int_q: u64,
    pub bv_q: u64,
    pub fallback: u64,
    pub cache: u64,
    pub model_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    /// incremental process for integer queries, and one for bit-vector queries (reset each time)
    z3: Option<Proc>,
    z3bv: Option<Proc>,
    used: u64,
    /// path condition currently asserted in the incremental process, one scope each
    inc: Vec<(E, Vec<E>)>,
    inc_defined: std::collections::HashSet<E>,
    /// per refuted condition, sets of path-condition members that refute it
    cores: HashMap<E, Vec<Vec<E>>>,
    last_core: Vec<E>,
    /// recent models
    recent: Vec<Model>,
    pub stats: Stats,
    cache: HashMap<Vec<E>, Option<Vec<(usize, u128)>>>,
    pub timeout_ms: u64,
    pub dump: Option<String>,
    /// fraction (1/n) of unsat answers re-checked with a second solver; 0 = never
    pub cross: u64,
    pub cross_done: u64,
    pub cross_disagree: u64,
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        Solver {
            z3: None,
            z3bv: None,
            used: 0,
            inc: vec![],
            inc_defined: Default::default(),
            cores: HashMap::new(),
            last_core: vec![],
            recent: vec![],
            stats: Stats::default(),
            cache: HashMap::new(),
            timeout_ms,
            dump: None,
            cross: 0,
            cross_done: 0,
            cross_disagree: 0,
        }
    }

    /// after fork(): forget the solver process of the parent without killing it
    pub fn abandon_process(&mut self) {
        self.inc.clear();
        self.inc_defined.clear();
        if let Some(p) = self.z3.take() {
            std::mem::forget(p);
        }
        if let Some(p) = self.z3bv.take() {
            std::mem::forget(p);
        }
    }
    pub fn kill(&mut self) {
        self.z3 = None;
        self.z3bv = None;
        self.inc_reset();
    }
    fn inc_reset(&mut self) {
        self.z3 = None;
        self.inc.clear();
        self.inc_defined.clear();
    }

    fn spawn() -> Proc {
        let bin = std::env::var("WSYM_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {bin}: {e}"));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, inp, out }
    }

    /// Decide `pc /\ extra` in the incremental process, keeping the common part of the path
    /// condition asserted between queries.  None: not expressible in integer arithmetic.
    fn incremental(&mut self, ctx: &Ctx, pc: &[E], picked: &[bool], extra: E, roots: &[E]) -> Option<Sat> {
        self.used += 1;
        if self.used % 20_000 == 0 {
            self.inc_reset();
        }
        let mut script = String::new();
        if self.z3.is_none() {
            self.inc_reset();
            self.z3 = Some(Self::spawn());
            script.push_str(&format!(
                "(set-option :produce-unsat-cores true)\n(set-option :timeout {})\n",
                self.timeout_ms / 4
            ));
        }
        let want: Vec<(E, bool)> = pc
            .iter()
            .zip(picked)
            .filter(|(e, _)| !ctx.i(**e).bitty)
            .map(|(e, p)| (*e, *p))
            .collect();
        let mut k = 0;
        while k < self.inc.len() && k < want.len() && self.inc[k].0 == want[k].0 {
            k += 1;
        }
        if k < self.inc.len() {
            script.push_str(&format!("(pop {})\n", self.inc.len() - k));
            for (_, d) in self.inc.drain(k..) {
                for e in d {
                    self.inc_defined.remove(&e);
                }
            }
        }
        let mut failed = false;
        // give the assertion at the end a name
        let named = |b: String| -> String {
            let t = b.trim_end();
            let i = t.rfind("(assert e").unwrap_or(usize::MAX);
            if i == usize::MAX || t[i..].contains('\n') {
                return b;
            }
            let id = t[i + 8..].trim_end_matches(')').to_string();
            format!("{}(assert (! {id} :named n{}))\n", &t[..i], &id[1..])
        };
        for &(e, p) in &want[k..] {
            let order = ctx.topo_skip(&[e], &self.inc_defined);
            match ctx.emit_int_nodes(&order, &[e], &mut vec![]).map(named) {
                Some(b) => {
                    script.push_str("(push 1)\n");
                    script.push_str(&b);
                    for &o in &order {
                        self.inc_defined.insert(o);
                    }
                    self.inc.push((e, order));
                }
                // a constraint over other variables may be left out: the path condition is satisfiable
                None if !p => {
                    script.push_str("(push 1)\n");
                    self.inc.push((e, vec![]))
                }
                None => failed = true,
            }
            if failed {
                break;
            }
        }
        let order = ctx.topo_skip(&[extra], &self.inc_defined);
        let body = if failed { None } else { ctx.emit_int_nodes(&order, &[extra], &mut vec![]).map(named) };
        let body = match body {
            Some(b) => b,
            None => {
                // keep the process in step with the bookkeeping
                let p = self.z3.as_mut().unwrap();
                if p.inp.write_all(script.as_bytes()).is_err() {
                    self.inc_reset();
                }
                return None;
            }
        };
        script.push_str("(push 1)\n");
        script.push_str(&body);
        let mut decl = vec![];
        for e in ctx.topo(roots) {
            if ctx.n(e).k == K::Var {
                decl.push((e, ctx.n(e).v as usize, ctx.w(e)));
            }
        }
        self.stats.int_q += 1;
        let r = Self::ask(&mut self.z3, &script, &decl, true, &mut self.last_core);
        if self.z3.is_none() {
            self.inc_reset();
        }
        Some(r)
    }

    /// run one self-contained script; `vars` are the declared node ids to read back
    fn run(&mut self, body: &str, vars: &[(E, usize, u8)], timeout: u64) -> Sat {
        let script = format!("(reset)\n(set-option :timeout {timeout})\n{body}");
        Self::ask(&mut self.z3bv, &script, vars, false, &mut vec![])
    }

    fn ask(slot: &mut Option<Proc>, body: &str, vars: &[(E, usize, u8)], int: bool, core: &mut Vec<E>) -> Sat {
        if slot.is_none() {
            *slot = Some(Self::spawn());
        }
        let mut script = String::from(body);
        script.push_str("(check-sat)\n");
        let p = slot.as_mut().unwrap();
        if p.inp.write_all(script.as_bytes()).is_err() || p.inp.flush().is_err() {
            *slot = None;
            return Sat::Unknown("solver pipe closed".into());
        }
        let mut line = String::new();
        loop {
            line.clear();
            match p.out.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    *slot = None;
                    return Sat::Unknown("solver died".into());
                }
                _ => {}
            }
            let t = line.trim();
            if t.is_empty() {
                continue;
            }
            break;
        }
        let pop = |slot: &mut Option<Proc>| {
            if int {
                if let Some(p) = slot.as_mut() {
                    if p.inp.write_all(b"(pop 1)\n").is_err() {
                        *slot = None;
                    }
                }
            }
        };
        match line.trim() {
            "unsat" => {
                core.clear();
                if int {
                    let p = slot.as_mut().unwrap();
                    line.clear();
                    if p.inp.write_all(b"(get-unsat-core)\n").is_err() || p.inp.flush().is_err() || p.out.read_line(&mut line).is_err() {
                        *slot = None;
                        return Sat::Unsat;
                    }
                    for w in line.trim().trim_start_matches('(').trim_end_matches(')').split_whitespace() {
                        if let Some(x) = w.strip_prefix('n').and_then(|x| x.parse::<E>().ok()) {
                            core.push(x);
                        }
                    }
                    core.sort();
                }
                pop(slot);
                Sat::Unsat
            }
            "sat" => {
                if vars.is_empty() {
                    pop(slot);
                    return Sat::Sat(vec![]);
                }
                let mut q = String::from("(get-value (");
                for (e, _, _) in vars {
                    q += &format!("e{e} ");
                }
                q += "))\n";
                if p.inp.write_all(q.as_bytes()).is_err() || p.inp.flush().is_err() {
                    *slot = None;
                    return Sat::Unknown("solver pipe closed".into());
                }
                let mut text = String::new();
                let mut depth = 0i64;
                loop {
                    line.clear();
                    match p.out.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            *slot = None;
                            return Sat::Unknown("solver died".into());
                        }
                        _ => {}
                    }
                    for c in line.chars() {
                        if c == '(' {
                            depth += 1;
                        }
                        if c == ')' {
                            depth -= 1;
                        }
                    }
                    text.push_str(&line);
                    if depth <= 0 {
                        break;
                    }
                }
                pop(slot);
                let toks: Vec<String> = text
                    .replace('(', " ( ")
                    .replace(')', " ) ")
                    .split_whitespace()
                    .map(|x| x.to_string())
                    .collect();
                let mut vals: HashMap<E, u128> = HashMap::new();
                let mut i = 0;
                while i < toks.len() {
                    if toks[i].starts_with('e') {
                        if let Ok(e) = toks[i][1..].parse::<E>() {
                            let v = &toks[i + 1];
                            let val = if v == "true" {
                                1
                            } else if v == "false" {
                                0
                            } else if let Some(h) = v.strip_prefix("#x") {
                                u128::from_str_radix(h, 16).unwrap_or(0)
                            } else if let Some(h) = v.strip_prefix("#b") {
                                u128::from_str_radix(h, 2).unwrap_or(0)
                            } else if let Ok(x) = v.parse::<u128>() {
                                x
                            } else {
                                return Sat::Unknown(format!("cannot read model value {v}"));
                            };
                            vals.insert(e, val);
                            i += 1;
                        }
                    }
                    i += 1;
                }
                Sat::Sat(vars.iter().map(|(e, v, _)| (*v, *vals.get(e).unwrap_or(&0))).collect())
            }
            other => {
                let o = other.to_string();
                *slot = None; // start afresh
                Sat::Unknown(o)
            }
        }
    }

    fn solve(&mut self, ctx: &Ctx, pc: &[E], picked: &[bool], extra: E, roots: &[E]) -> Sat {
        if self.cross == 0 && self.dump.is_none() && !roots.iter().any(|&e| ctx.i(e).bitty) {
            match self.incremental(ctx, pc, picked, extra, roots) {
                Some(Sat::Unknown(_)) | None => self.stats.fallback += 1,
                Some(r) => return r,
            }
        }
        self.solve_raw(ctx, roots)
    }

    fn solve_raw(&mut self, ctx: &Ctx, roots: &[E]) -> Sat {
        let bitty = roots.iter().any(|&e| ctx.i(e).bitty);
        let order: [(bool, u64); 3] = if bitty {
            [(false, self.timeout_ms / 4), (true, self.timeout_ms / 4), (false, self.timeout_ms)]
        } else {
            [(true, self.timeout_ms / 4), (false, self.timeout_ms / 4), (true, self.timeout_ms)]
        };
        let mut last = String::from("no encoding");
        for (k, (int, to)) in order.iter().enumerate() {
            let mut vs = vec![];
            let body = if *int {
                match ctx.emit_int(roots, &mut vs) {
                    Some(b) => b,
                    None => continue,
                }
            } else {
                ctx.emit_bv(roots, &mut vs)
            };
            if k > 0 {
                self.stats.fallback += 1;
            }
            if *int {
                self.stats.int_q += 1;
            } else {
                self.stats.bv_q += 1;
            }
            // variable node ids
            let mut decl = vec![];
            for l in body.lines() {
                if let Some(rest) = l.strip_prefix("(declare-const e") {
                    let id: E = rest.split(' ').next().unwrap().parse().unwrap();
                    decl.push((id, ctx.n(id).v as usize, ctx.w(id)));
                }
            }
            if let Some(d) = &self.dump {
                let _ = std::fs::write(format!("{d}/q{}_{k}.smt2", self.stats.queries), format!("{body}(check-sat)\n"));
            }
            match self.run(&body, &decl, *to) {
                Sat::Unknown(s) => last = s,
                Sat::Unsat => {
                    if self.cross > 0 && self.stats.unsat % self.cross == 0 {
                        self.cross_check(&body, *int);
                    }
                    return Sat::Unsat;
                }
                s => return s,
            }
        }
        Sat::Unknown(last)
    }

    /// second opinion from cvc5 on an unsat answer
    fn cross_check(&mut self, body: &str, int: bool) {
        let script = format!(
            "(set-logic {})\n{body}(check-sat)\n",
            if int { "ALL" } else { "QF_BV" }
        );
        let out = Command::new("cvc5")
            .args(["--lang=smt2", "--tlimit=20000", "-"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .and_then(|mut c| {
                c.stdin.take().unwrap().write_all(script.as_bytes())?;
                c.wait_with_output()
            });
        if let Ok(o) = out {
            let t = String::from_utf8_lossy(&o.stdout);
            if t.contains("unsat") {
                self.cross_done += 1;
            } else if t.contains("sat") {
                self.cross_disagree += 1;
            }
        }
    }

    /// Is `pc /\ extra` satisfiable?  `base` satisfies `pc`; only the constraints that share
    /// variables (transitively) with `extra` are sent to the solver, and the model found for them
    /// is laid over `base`.
    pub fn check(&mut self, ctx: &mut Ctx, pc: &[E], extra: E, base: &Model) -> Result<Option<Model>, String> {
        match ctx.cv(extra) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(base.clone())),
            None => {}
        }
        let mut vars = ctx.i(extra).vars;
        let mut picked = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if !picked[i] {
                    let v = ctx.i(c).vars;
                    if v & vars != 0 {
                        picked[i] = true;
                        vars |= v;
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut roots: Vec<E> = pc.iter().enumerate().filter(|(i, _)| picked[*i]).map(|(_, &c)| c).collect();
        roots.push(extra);
        roots.sort();
        roots.dedup();
        // refuted before by a subset of this path condition?
        if let Some(cs) = self.cores.get(&extra) {
            if cs.iter().any(|c| c.iter().all(|e| roots.binary_search(e).is_ok())) {
                self.stats.cache += 1;
                return Ok(None);
            }
        }
        // satisfied by a model seen recently?
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if roots.iter().rev().all(|&e| (ctx.i(e).vars & !have(&m)) == 0 && ctx.eval_m(e, &m) == 1) {
                // lay its values for the variables of this slice over the base model
                let mut r: Vec<u128> = (**base).clone();
                // (variables from number 127 on share the last bit)
                let upto = if vars >> 127 == 1 { ctx.vars.len() } else { m.len().min(127) };
                for v in 0..upto {
                    if vars >> v.min(127) & 1 == 1 {
                        while r.len() <= v {
                            let lo = ctx.vars[r.len()].lo;
                            r.push(lo);
                        }
                        r[v] = m.get(v).copied().unwrap_or(ctx.vars[v].lo);
                    }
                }
                self.stats.model_hits += 1;
                return Ok(Some(std::rc::Rc::new(r)));
            }
        }
        let delta = if let Some(r) = self.cache.get(&roots) {
            self.stats.cache += 1;
            r.clone()
        } else {
            let t = Instant::now();
            self.stats.queries += 1;
            self.last_core.clear();
            let r = self.solve(ctx, pc, &picked, extra, &roots);
            let us = t.elapsed().as_micros() as u64;
            self.stats.time_us += us;
            self.stats.max_us = self.stats.max_us.max(us);
            let r = match r {
                Sat::Unsat => {
                    self.stats.unsat += 1;
                    let c = std::mem::take(&mut self.last_core);
                    if !c.is_empty() && c.contains(&extra) {
                        let l = self.cores.entry(extra).or_default();
                        if l.len() < 24 {
                            l.push(c);
                        }
                    }
                    None
                }
                Sat::Sat(m) => {
                    self.stats.sat += 1;
                    Some(m)
                }
                Sat::Unknown(s) => {
                    self.stats.unknown += 1;
                    return Err(format!("solver gave no answer ({s})"));
                }
            };
            self.cache.insert(roots.clone(), r.clone());
            r
        };
        match delta {
            None => Ok(None),
            Some(d) => {
                let mut m: Vec<u128> = (**base).clone();
                for (v, x) in d {
                    while m.len() <= v {
                        let lo = ctx.vars[m.len()].lo;
                        m.push(lo);
                    }
                    m[v] = x;
                }
                // the evaluator must agree with the solver
                ctx.forget_model();
                for &e in &roots {
                    if ctx.eval(e, &m) != 1 {
                        return Err(format!("model rejected by evaluator (node {e})"));
                    }
                }
                let m = std::rc::Rc::new(m);
                if self.recent.len() >= 24 {
                    self.recent.remove(0);
                }
                self.recent.push(m.clone());
                Ok(Some(m))
            }
        }
    }
}

/// variables a model has values for
fn have(m: &Model) -> u128 {
    if m.len() >= 128 {
        u128::MAX
    } else {
        (1u128 << m.len()) - 1
    }
}
