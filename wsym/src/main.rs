//! wsym: symbolic execution of a WebAssembly harness, deciding every branch with an SMT solver.
//!
//!   wsym run    FILE ENTRY [--param N]... [--jobs N] [--time S] [--steps N] [--timeout MS]
//!                          [--cross N] [--out FILE] [--keep-going] [--dump DIR]
//!   wsym replay FILE ENTRY [--param N]... --inputs a,b,c
//!
//! Exit status of `run`: 0 every path explored and every check proved; 1 a check failed;
//! 2 exploration not finished (time limit); 3 something the engine cannot encode or the solver
//! could not decide.

mod exec;
mod expr;
mod selftest;
mod smt;
mod wasm;

use exec::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

struct Opts {
    params: Vec<i64>,
    jobs: usize,
    time: u64,
    steps: u64,
    timeout: u64,
    cross: u64,
    out: Option<String>,
    keep: bool,
    dump: Option<String>,
    inputs: Vec<u64>,
    samples: usize,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// what one worker found, exchanged between processes as lines of tab-separated fields
#[derive(Default)]
struct Rep {
    nums: BTreeMap<String, u64>,
    reach: BTreeMap<String, u64>,
    errors: Vec<String>,
    viols: Vec<Violation>,
    samples: Vec<Sample>,
    cover: Vec<Vec<u64>>,
}

fn nums(e: &Engine) -> Vec<(&'static str, u64)> {
    vec![
        ("paths", e.tot.completed),
        ("expected_panics", e.tot.expected_panics),
        ("pruned", e.tot.pruned),
        ("branches", e.tot.branches),
        ("forks", e.tot.forks),
        ("checks", e.tot.checks),
        ("checks_by_solver", e.tot.checks_solver),
        ("instructions", e.tot.instrs),
        ("max_path_instructions", e.tot.max_steps),
        ("queries", e.sv.stats.queries),
        ("sat", e.sv.stats.sat),
        ("unsat", e.sv.stats.unsat),
        ("unknown", e.sv.stats.unknown),
        ("int_queries", e.sv.stats.int_q),
        ("bv_queries", e.sv.stats.bv_q),
        ("fallbacks", e.sv.stats.fallback),
        ("cached", e.sv.stats.cache),
        ("model_reuse", e.sv.stats.model_hits),
        ("solver_us", e.sv.stats.time_us),
        ("max_query_us", e.sv.stats.max_us),
        ("cross_checked", e.sv.cross_done),
        ("cross_disagree", e.sv.cross_disagree),
        ("left", e.work.len() as u64),
    ]
}

fn serialize(e: &Engine) -> String {
    let mut s = String::new();
    for (k, v) in nums(e) {
        let _ = writeln!(s, "N\t{k}\t{v}");
    }
    for (k, v) in &e.reach {
        let _ = writeln!(s, "R\t{}\t{v}", esc(k));
    }
    for x in &e.errors {
        let _ = writeln!(s, "E\t{}", esc(x));
    }
    for v in &e.viols {
        let i: Vec<String> = v.inputs.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "V\t{}\t{}\t{}\t{}", v.kind, esc(&v.msg), i.join(","), esc(&v.backtrace.join(" < ")));
    }
    for p in &e.samples {
        let i: Vec<String> = p.inputs.iter().map(|x| x.to_string()).collect();
        let o: Vec<String> = p.obs.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "S\t{}\t{}\t{}", i.join(","), o.join(","), p.end);
    }
    for (i, c) in e.cover.iter().enumerate() {
        if c.iter().any(|x| *x != 0) {
            let h: Vec<String> = c.iter().map(|x| format!("{x:x}")).collect();
            let _ = writeln!(s, "C\t{i}\t{}", h.join(","));
        }
    }
    s.push_str("END\n");
    s
}

fn plist(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

impl Rep {
    fn absorb(&mut self, text: &str, nf: usize) -> bool {
        if self.cover.is_empty() {
            self.cover = vec![vec![]; nf];
        }
        let mut done = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "N" => {
                    let v: u64 = f[2].parse().unwrap();
                    let e = self.nums.entry(f[1].to_string()).or_insert(0);
                    if f[1].starts_with("max_") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                "R" => *self.reach.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "E" => {
                    if !self.errors.contains(&f[1].to_string()) {
                        self.errors.push(f[1].to_string())
                    }
                }
                "V" => {
                    if !self.viols.iter().any(|v| v.kind == f[1] && v.msg == f[2]) {
                        self.viols.push(Violation {
                            kind: f[1].into(),
                            msg: f[2].into(),
                            inputs: plist(f[3]),
                            backtrace: f[4].split(" < ").map(|x| x.to_string()).collect(),
                        })
                    }
                }
                "S" => self.samples.push(Sample { inputs: plist(f[1]), obs: plist(f[2]), end: f[3].into() }),
                "C" => {
                    let i: usize = f[1].parse().unwrap();
                    let v: Vec<u64> = f[2].split(',').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                    if self.cover[i].is_empty() {
                        self.cover[i] = v;
                    } else {
                        for (a, b) in self.cover[i].iter_mut().zip(v) {
                            *a |= b;
                        }
                    }
                }
                "END" => done = true,
                _ => {}
            }
        }
        done
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|x| x == "selftest").unwrap_or(false) {
        let n = |i: usize, d: u64| args.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
        let ok = selftest::run(n(1, 1), n(2, 20_000), n(3, 300));
        std::process::exit(!ok as i32);
    }
    if args.len() < 3 {
        eprintln!("usage: wsym run|replay FILE ENTRY [options]");
        std::process::exit(64);
    }
    let mut o = Opts {
        params: vec![],
        jobs: 1,
        time: 600,
        steps: 3_000_000,
        timeout: 20_000,
        cross: 0,
        out: None,
        keep: false,
        dump: None,
        inputs: vec![],
        samples: 12,
    };
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--param" => o.params.push(v.parse().unwrap()),
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--steps" => o.steps = v.parse().unwrap(),
            "--timeout" => o.timeout = v.parse().unwrap(),
            "--cross" => o.cross = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--out" => o.out = Some(v),
            "--dump" => o.dump = Some(v),
            "--inputs" => o.inputs = plist(&v),
            "--keep-going" => {
                o.keep = true;
                i -= 1;
            }
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(64);
            }
        }
        i += 2;
    }
    let bytes = std::fs::read(&args[1]).expect("cannot read wasm file");
    let m = wasm::parse(&bytes);
    match args[0].as_str() {
        "run" => run(&m, &args[2], o),
        "replay" => replay(&m, &args[2], o),
        "list" => {}
        _ => std::process::exit(64),
    }
}

fn replay(m: &wasm::Module, entry: &str, o: Opts) {
    let mut e = Engine::new(m, 1000);
    e.params = o.params.clone();
    e.fixed = Some(o.inputs.clone());
    e.step_limit = o.steps;
    let st = e.initial(entry).unwrap_or_else(|x| {
        eprintln!("{x}");
        std::process::exit(3)
    });
    e.run_path(st);
    for v in &e.viols {
        println!("violation kind={} {}", v.kind, v.msg);
        for b in &v.backtrace {
            println!("    at {b}");
        }
    }
    for s in &e.samples {
        println!("end={} obs={:?}", s.end, s.obs);
    }
    for x in &e.errors {
        println!("error {x}");
    }
    std::process::exit(if !e.viols.is_empty() {
        1
    } else if !e.errors.is_empty() {
        3
    } else {
        0
    });
}

fn run(m: &wasm::Module, entry: &str, o: Opts) {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(o.time);
    let mut e = Engine::new(m, o.timeout);
    e.params = o.params.clone();
    e.step_limit = o.steps;
    e.sv.cross = o.cross;
    e.sv.dump = o.dump.clone();
    e.sample_cap = o.samples;
    e.stop_on_violation = !o.keep;
    let st = e.initial(entry).unwrap_or_else(|x| {
        eprintln!("{x}");
        std::process::exit(3)
    });
    e.work.push(st);
    let stop = |e: &Engine| (!e.viols.is_empty() && !o.keep) || !e.errors.is_empty() && !o.keep;
    // Workers are processes: whoever has several states left while a slot is free hands half of
    // them to a copy of itself.
    let shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const [AtomicU32; 4])
    };
    let (active, halt, parts) = (&shared[0], &shared[1], &shared[2]);
    active.store(1, Ordering::SeqCst);
    let root = std::process::id();
    let part = |k: u32| format!("{}/wsym-{root}-{k}.part", std::env::temp_dir().display());
    let mut me = parts.fetch_add(1, Ordering::SeqCst);
    let mut kids: Vec<i32> = vec![];
    let mut last = Instant::now();
    while let Some(st) = e.work.pop() {
        if halt.load(Ordering::Relaxed) != 0 || Instant::now() >= deadline {
            e.work.push(st);
            break;
        }
        e.run_path(st);
        if stop(&e) {
            halt.store(1, Ordering::SeqCst);
        }
        if e.work.len() < 2
            || active.load(Ordering::Relaxed) as usize >= o.jobs
            || last.elapsed() < Duration::from_millis(20)
        {
            continue;
        }
        if active.fetch_add(1, Ordering::SeqCst) as usize >= o.jobs {
            active.fetch_sub(1, Ordering::SeqCst);
            continue;
        }
        let all = std::mem::take(&mut e.work);
        let (mut mine, mut theirs) = (vec![], vec![]);
        for (i, s) in all.into_iter().enumerate() {
            if i % 2 == 0 {
                theirs.push(s)
            } else {
                mine.push(s)
            }
        }
        let id = parts.fetch_add(1, Ordering::SeqCst);
        let c = unsafe { fork() };
        if c == 0 {
            // a worker must not share the parent's solver process, nor report its findings again
            e.sv.abandon_process();
            e.tot = Totals::default();
            e.reach.clear();
            e.samples.clear();
            e.viols.clear();
            e.errors.clear();
            e.sv.stats = Default::default();
            e.sv.cross_done = 0;
            e.sv.cross_disagree = 0;
            kids.clear();
            me = id;
            e.work = theirs;
        } else {
            e.work = mine;
            if c > 0 {
                kids.push(c);
            } else {
                e.work.extend(theirs);
                active.fetch_sub(1, Ordering::SeqCst);
            }
        }
        last = Instant::now();
    }
    active.fetch_sub(1, Ordering::SeqCst);
    for c in kids {
        let mut st = 0;
        unsafe { waitpid(c, &mut st, 0) };
        if st != 0 {
            e.errors.push(format!("a worker died (status {st})"));
        }
    }
    let mut rep = Rep::default();
    let nf = m.funcs.len();
    if me != 0 {
        let ok = std::fs::write(part(me), serialize(&e)).is_ok();
        e.sv.kill();
        unsafe { _exit(if ok { 0 } else { 1 }) }
    }
    rep.absorb(&serialize(&e), nf);
    for k in 1..parts.load(Ordering::SeqCst) {
        let t = std::fs::read_to_string(part(k)).unwrap_or_default();
        let _ = std::fs::remove_file(part(k));
        if !rep.absorb(&t, nf) && rep.errors.is_empty() {
            rep.errors.push("a worker left no report".into());
        }
    }
    e.sv.kill();
    let left = *rep.nums.get("left").unwrap_or(&0);
    if *rep.nums.get("cross_disagree").unwrap_or(&0) > 0 {
        rep.errors.push("solvers disagree".into());
    }
    let code = if !rep.viols.is_empty() {
        1
    } else if !rep.errors.is_empty() {
        3
    } else if left > 0 {
        2
    } else {
        0
    };
    // report
    let mut j = String::from("{");
    let _ = write!(j, "\"entry\":\"{}\",\"params\":{:?},\"status\":{code},\"seconds\":{:.3}", esc(entry), o.params, t0.elapsed().as_secs_f64());
    for (k, v) in &rep.nums {
        let _ = write!(j, ",\"{k}\":{v}");
    }
    j.push_str(",\"reach\":{");
    for (n, (k, v)) in rep.reach.iter().enumerate() {
        let _ = write!(j, "{}\"{k}\":{v}", if n > 0 { "," } else { "" });
    }
    j.push_str("},\"errors\":[");
    for (n, x) in rep.errors.iter().enumerate() {
        let _ = write!(j, "{}\"{}\"", if n > 0 { "," } else { "" }, x.replace('"', "'"));
    }
    j.push_str("],\"violations\":[");
    for (n, v) in rep.viols.iter().enumerate() {
        let _ = write!(
            j,
            "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":{:?},\"backtrace\":[{}]}}",
            if n > 0 { "," } else { "" },
            v.kind,
            v.msg,
            v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            v.backtrace.iter().map(|b| format!("\"{b}\"")).collect::<Vec<_>>().join(",")
        );
    }
    j.push_str("],\"samples\":[");
    for (n, s) in rep.samples.iter().enumerate() {
        let _ = write!(
            j,
            "{}{{\"inputs\":{:?},\"obs\":{:?},\"end\":\"{}\"}}",
            if n > 0 { "," } else { "" },
            s.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            s.end
        );
    }
    j.push_str("],\"functions\":[");
    let mut first = true;
    let mut seen = HashSet::new();
    for (i, c) in rep.cover.iter().enumerate() {
        let k: usize = c.iter().map(|x| x.count_ones() as usize).sum();
        if k > 0 && seen.insert(i) {
            let _ = write!(
                j,
                "{}[\"{}\",{k},{}]",
                if first { "" } else { "," },
                esc(&m.funcs[i].name),
                m.funcs[i].code.len()
            );
            first = false;
        }
    }
    j.push_str("]}");
    match &o.out {
        Some(f) => std::fs::write(f, &j).expect("cannot write report"),
        None => println!("{j}"),
    }
    let g = |k: &str| *rep.nums.get(k).unwrap_or(&0);
    eprintln!(
        "{entry}: status {code}, {} paths, {} pruned, {} branches, {} queries ({} cached, {} reused, {} bv), solver {:.1}s, wall {:.1}s, {} instrs, left {}",
        g("paths"), g("pruned"), g("branches"), g("queries"), g("cached"), g("model_reuse"), g("bv_queries"),
        g("solver_us") as f64 / 1e6, t0.elapsed().as_secs_f64(), g("instructions"), left
    );
    for v in &rep.viols {
        eprintln!("  VIOL {} {} inputs {:?}", v.kind, v.msg, v.inputs);
        for b in v.backtrace.iter().take(6) {
            eprintln!("      at {b}");
        }
    }
    for x in &rep.errors {
        eprintln!("  ERR {x}");
    }
    std::process::exit(code);
}
