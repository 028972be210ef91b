//! WebAssembly binary decoder. Function bodies are flattened into `Op`s with resolved branch
//! targets and static operand-stack heights.

use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Ref,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FuncTy {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}

#[derive(Clone, Copy, Debug)]
pub struct Br {
    pub pc: u32,
    pub height: u32,
    pub arity: u16,
}

/// Opcodes keep their binary encoding for plain numeric instructions (`Num`).
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    Br(Br),
    BrIf(Br),
    /// jump when the condition is zero (from `if`)
    BrUnless(u32),
    Jump(u32),
    BrTable(u32),
    Return,
    Call(u32),
    CallIndirect(u32, u32),
    Drop,
    /// is the selected value 64-bit integer / float / other: type of the operands
    Select(Ty),
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    /// opcode, offset
    Load(u8, u32),
    Store(u8, u32),
    MemorySize,
    MemoryGrow,
    I32Const(i32),
    I64Const(i64),
    F32Const(u32),
    F64Const(u64),
    Num(u8),
    /// 0xFC 0..7 saturating truncations
    TruncSat(u8),
    MemoryCopy,
    MemoryFill,
    Nop,
    Unsupported(u16),
}

pub struct Func {
    pub ty: u32,
    pub name: String,
    pub nparams: u32,
    pub nlocals: u32,
    pub local_tys: Vec<Ty>,
    pub nresults: u32,
    pub code: Vec<Op>,
    pub tables: Vec<Vec<Br>>,
    pub import: Option<(String, String)>,
}

pub struct Global {
    pub ty: Ty,
    pub init: u64,
}

pub struct Module {
    pub types: Vec<FuncTy>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub table: Vec<Option<u32>>,
    pub mem_pages: u32,
    pub mem_max: u32,
    pub data: Vec<(u32, Vec<u8>)>,
    pub exports: HashMap<String, (u8, u32)>,
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn leb_u(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return r;
            }
        }
    }
    fn u32(&mut self) -> u32 {
        self.leb_u() as u32
    }
    fn leb_s(&mut self, bits: u32) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && (b & 0x40) != 0 {
                    r |= -1i64 << s;
                }
                break;
            }
        }
        if bits == 32 {
            r as i32 as i64
        } else {
            r
        }
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        let s = String::from_utf8_lossy(&self.b[self.p..self.p + n]).into_owned();
        self.p += n;
        s
    }
    fn ty(&mut self) -> Ty {
        ty_of(self.u8())
    }
}

fn ty_of(b: u8) -> Ty {
    match b {
        0x7f => Ty::I32,
        0x7e => Ty::I64,
        0x7d => Ty::F32,
        0x7c => Ty::F64,
        0x70 | 0x6f => Ty::Ref,
        _ => panic!("unsupported value type {b:#x}"),
    }
}

fn const_expr(r: &mut Rd) -> u64 {
    let mut v = 0u64;
    loop {
        match r.u8() {
            0x41 => v = r.leb_s(32) as u32 as u64,
            0x42 => v = r.leb_s(64) as u64,
            0x43 => {
                v = u32::from_le_bytes(r.b[r.p..r.p + 4].try_into().unwrap()) as u64;
                r.p += 4;
            }
            0x44 => {
                v = u64::from_le_bytes(r.b[r.p..r.p + 8].try_into().unwrap());
                r.p += 8;
            }
            0xd2 => v = r.u32() as u64,
            0xd0 => {
                r.u8();
                v = u64::MAX;
            }
            0x0b => return v,
            o => panic!("const expr op {o:#x}"),
        }
    }
}

pub fn parse(bytes: &[u8]) -> Module {
    assert!(&bytes[0..8] == b"\0asm\x01\0\0\0", "not a wasm module");
    let mut r = Rd { b: bytes, p: 8 };
    let mut m = Module {
        types: vec![],
        funcs: vec![],
        globals: vec![],
        table: vec![],
        mem_pages: 0,
        mem_max: 65536,
        data: vec![],
        exports: HashMap::new(),
    };
    let mut names: HashMap<u32, String> = HashMap::new();
    let mut func_types: Vec<u32> = vec![];
    let mut bodies: Vec<(usize, usize)> = vec![];
    while r.p < bytes.len() {
        let id = r.u8();
        let size = r.u32() as usize;
        let end = r.p + size;
        match id {
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u32() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let cnt = r.u32();
                            for _ in 0..cnt {
                                let i = r.u32();
                                let nm = r.name();
                                names.insert(i, nm);
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                for _ in 0..r.u32() {
                    assert_eq!(r.u8(), 0x60);
                    let params = (0..r.u32()).map(|_| r.ty()).collect();
                    let results = (0..r.u32()).map(|_| r.ty()).collect();
                    m.types.push(FuncTy { params, results });
                }
            }
            2 => {
                for _ in 0..r.u32() {
                    let a = r.name();
                    let b = r.name();
                    match r.u8() {
                        0 => {
                            let t = r.u32();
                            m.funcs.push(Func {
                                ty: t,
                                name: b.clone(),
                                nparams: m.types[t as usize].params.len() as u32,
                                nlocals: 0,
                                local_tys: vec![],
                                nresults: m.types[t as usize].results.len() as u32,
                                code: vec![],
                                tables: vec![],
                                import: Some((a, b)),
                            });
                        }
                        k => panic!("unsupported import kind {k} {a}.{b}"),
                    }
                }
            }
            3 => {
                for _ in 0..r.u32() {
                    func_types.push(r.u32());
                }
            }
            4 => {
                for _ in 0..r.u32() {
                    r.u8();
                    let fl = r.u8();
                    let min = r.u32();
                    if fl & 1 != 0 {
                        r.u32();
                    }
                    m.table = vec![None; min as usize];
                }
            }
            5 => {
                for _ in 0..r.u32() {
                    let fl = r.u8();
                    m.mem_pages = r.u32();
                    if fl & 1 != 0 {
                        m.mem_max = r.u32();
                    }
                }
            }
            6 => {
                for _ in 0..r.u32() {
                    let ty = r.ty();
                    r.u8();
                    let init = const_expr(&mut r);
                    m.globals.push(Global { ty, init });
                }
            }
            7 => {
                for _ in 0..r.u32() {
                    let n = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    m.exports.insert(n, (k, i));
                }
            }
            9 => {
                for _ in 0..r.u32() {
                    let fl = r.u32();
                    match fl {
                        0 => {
                            let off = const_expr(&mut r) as usize;
                            let n = r.u32() as usize;
                            for i in 0..n {
                                let f = r.u32();
                                if m.table.len() <= off + i {
                                    m.table.resize(off + i + 1, None);
                                }
                                m.table[off + i] = Some(f);
                            }
                        }
                        _ => panic!("unsupported element segment flags {fl}"),
                    }
                }
            }
            10 => {
                for _ in 0..r.u32() {
                    let sz = r.u32() as usize;
                    bodies.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                for _ in 0..r.u32() {
                    let fl = r.u32();
                    match fl {
                        0 => {
                            let off = const_expr(&mut r) as u32;
                            let n = r.u32() as usize;
                            m.data.push((off, bytes[r.p..r.p + n].to_vec()));
                            r.p += n;
                        }
                        _ => panic!("unsupported data segment flags {fl}"),
                    }
                }
            }
            _ => {}
        }
        r.p = end;
    }
    let nimp = m.funcs.len() as u32;
    for (i, t) in func_types.iter().enumerate() {
        let idx = nimp + i as u32;
        m.funcs.push(Func {
            ty: *t,
            name: names.get(&idx).cloned().unwrap_or_else(|| format!("f{idx}")),
            nparams: m.types[*t as usize].params.len() as u32,
            nlocals: 0,
            local_tys: vec![],
            nresults: m.types[*t as usize].results.len() as u32,
            code: vec![],
            tables: vec![],
            import: None,
        });
    }
    for (i, (s, e)) in bodies.iter().enumerate() {
        decode_body(&mut m, nimp as usize + i, &bytes[*s..*e]);
    }
    m
}

struct Ctl {
    is_loop: bool,
    start_pc: u32,
    height: usize,
    params: Vec<Ty>,
    results: Vec<Ty>,
    fixups: Vec<Fix>,
    else_fix: Option<usize>,
    dead_on_entry: bool,
}

enum Fix {
    Code(usize),
    Table(usize, usize),
}

struct Dec {
    ts: Vec<Ty>,
    dead: bool,
    ctl: Vec<Ctl>,
}

impl Dec {
    fn pop(&mut self) -> Ty {
        let h = self.ctl.last().unwrap().height;
        if self.dead && self.ts.len() <= h {
            return Ty::I32;
        }
        self.ts.pop().expect("operand stack underflow")
    }
    fn push(&mut self, t: Ty) {
        self.ts.push(t)
    }
    fn br(&mut self, d: u32, fix: Fix) -> Br {
        let n = self.ctl.len() - 1 - d as usize;
        let c = &mut self.ctl[n];
        let br = Br {
            pc: c.start_pc,
            height: c.height as u32,
            arity: if c.is_loop { c.params.len() } else { c.results.len() } as u16,
        };
        if !c.is_loop {
            c.fixups.push(fix);
        }
        br
    }
    fn kill(&mut self) {
        let h = self.ctl.last().unwrap().height;
        self.ts.truncate(h);
        self.dead = true;
    }
}

fn decode_body(m: &mut Module, fi: usize, b: &[u8]) {
    let mut r = Rd { b, p: 0 };
    let fty = m.types[m.funcs[fi].ty as usize].clone();
    let mut local_tys = fty.params.clone();
    for _ in 0..r.u32() {
        let n = r.u32();
        let t = r.ty();
        for _ in 0..n {
            local_tys.push(t);
        }
    }
    let mut code: Vec<Op> = vec![];
    let mut tables: Vec<Vec<Br>> = vec![];
    let mut d = Dec {
        ts: vec![],
        dead: false,
        ctl: vec![Ctl {
            is_loop: false,
            start_pc: 0,
            height: 0,
            params: vec![],
            results: fty.results.clone(),
            fixups: vec![],
            else_fix: None,
            dead_on_entry: false,
        }],
    };
    loop {
        let op = r.u8();
        match op {
            0x00 => {
                code.push(Op::Unreachable);
                d.kill();
            }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let save = r.p;
                let bt = r.u8();
                let (p, q) = if bt == 0x40 {
                    (vec![], vec![])
                } else if matches!(bt, 0x7f | 0x7e | 0x7d | 0x7c | 0x70 | 0x6f) {
                    (vec![], vec![ty_of(bt)])
                } else {
                    r.p = save;
                    let i = r.leb_s(33) as usize;
                    (m.types[i].params.clone(), m.types[i].results.clone())
                };
                let mut else_fix = None;
                if op == 0x04 {
                    d.pop();
                    else_fix = Some(code.len());
                    code.push(Op::BrUnless(0));
                }
                for _ in 0..p.len() {
                    d.pop();
                }
                let height = d.ts.len();
                d.ts.extend(p.iter().copied());
                d.ctl.push(Ctl {
                    is_loop: op == 0x03,
                    start_pc: code.len() as u32,
                    height,
                    params: p,
                    results: q,
                    fixups: vec![],
                    else_fix,
                    dead_on_entry: d.dead,
                });
            }
            0x05 => {
                let at = code.len();
                code.push(Op::Jump(0));
                let c = d.ctl.last_mut().unwrap();
                c.fixups.push(Fix::Code(at));
                let ef = c.else_fix.take().unwrap();
                code[ef] = Op::BrUnless(at as u32 + 1);
                d.ts.truncate(c.height);
                d.ts.extend(c.params.iter().copied());
                d.dead = c.dead_on_entry;
            }
            0x0b => {
                let c = d.ctl.pop().unwrap();
                let pc = code.len() as u32;
                if let Some(ef) = c.else_fix {
                    code[ef] = Op::BrUnless(pc);
                }
                for f in c.fixups {
                    match f {
                        Fix::Code(i) => match &mut code[i] {
                            Op::Br(b) | Op::BrIf(b) => b.pc = pc,
                            Op::Jump(t) => *t = pc,
                            _ => unreachable!(),
                        },
                        Fix::Table(t, i) => tables[t][i].pc = pc,
                    }
                }
                d.ts.truncate(c.height);
                d.ts.extend(c.results.iter().copied());
                d.dead = c.dead_on_entry;
                if d.ctl.is_empty() {
                    code.push(Op::Return);
                    break;
                }
            }
            0x0c => {
                let l = r.u32();
                let at = code.len();
                let br = d.br(l, Fix::Code(at));
                code.push(Op::Br(br));
                d.kill();
            }
            0x0d => {
                let l = r.u32();
                let at = code.len();
                d.pop();
                let br = d.br(l, Fix::Code(at));
                code.push(Op::BrIf(br));
            }
            0x0e => {
                d.pop();
                let n = r.u32();
                let ti = tables.len();
                tables.push(vec![]);
                for i in 0..=n {
                    let l = r.u32();
                    let br = d.br(l, Fix::Table(ti, i as usize));
                    tables[ti].push(br);
                }
                code.push(Op::BrTable(ti as u32));
                d.kill();
            }
            0x0f => {
                code.push(Op::Return);
                d.kill();
            }
            0x10 => {
                let f = r.u32();
                let t = &m.types[m.funcs[f as usize].ty as usize];
                for _ in 0..t.params.len() {
                    d.pop();
                }
                d.ts.extend(t.results.iter().copied());
                code.push(Op::Call(f));
            }
            0x11 => {
                let t = r.u32();
                let tb = r.u32();
                d.pop();
                let ty = &m.types[t as usize];
                for _ in 0..ty.params.len() {
                    d.pop();
                }
                d.ts.extend(ty.results.iter().copied());
                code.push(Op::CallIndirect(t, tb));
            }
            0x1a => {
                d.pop();
                code.push(Op::Drop);
            }
            0x1b | 0x1c => {
                let mut tt = None;
                if op == 0x1c {
                    for _ in 0..r.u32() {
                        tt = Some(r.ty());
                    }
                }
                d.pop();
                d.pop();
                let t = d.pop();
                let t = tt.unwrap_or(t);
                d.push(t);
                code.push(Op::Select(t));
            }
            0x20 => {
                let i = r.u32();
                d.push(local_tys[i as usize]);
                code.push(Op::LocalGet(i));
            }
            0x21 => {
                let i = r.u32();
                d.pop();
                code.push(Op::LocalSet(i));
            }
            0x22 => {
                let i = r.u32();
                d.pop();
                d.push(local_tys[i as usize]);
                code.push(Op::LocalTee(i));
            }
            0x23 => {
                let i = r.u32();
                d.push(m.globals[i as usize].ty);
                code.push(Op::GlobalGet(i));
            }
            0x24 => {
                let i = r.u32();
                d.pop();
                code.push(Op::GlobalSet(i));
            }
            0x28..=0x35 => {
                r.u32();
                let off = r.u32();
                d.pop();
                d.push(match op {
                    0x28 | 0x2c..=0x2f => Ty::I32,
                    0x2a => Ty::F32,
                    0x2b => Ty::F64,
                    _ => Ty::I64,
                });
                code.push(Op::Load(op, off));
            }
            0x36..=0x3e => {
                r.u32();
                let off = r.u32();
                d.pop();
                d.pop();
                code.push(Op::Store(op, off));
            }
            0x3f => {
                r.u8();
                d.push(Ty::I32);
                code.push(Op::MemorySize);
            }
            0x40 => {
                r.u8();
                code.push(Op::MemoryGrow);
            }
            0x41 => {
                d.push(Ty::I32);
                code.push(Op::I32Const(r.leb_s(32) as i32));
            }
            0x42 => {
                d.push(Ty::I64);
                code.push(Op::I64Const(r.leb_s(64)));
            }
            0x43 => {
                d.push(Ty::F32);
                let v = u32::from_le_bytes(b[r.p..r.p + 4].try_into().unwrap());
                r.p += 4;
                code.push(Op::F32Const(v));
            }
            0x44 => {
                d.push(Ty::F64);
                let v = u64::from_le_bytes(b[r.p..r.p + 8].try_into().unwrap());
                r.p += 8;
                code.push(Op::F64Const(v));
            }
            0x45..=0xc4 => {
                let (n, t) = num_sig(op);
                for _ in 0..n {
                    d.pop();
                }
                d.push(t);
                code.push(Op::Num(op));
            }
            0xfc => {
                let s = r.u32();
                match s {
                    0..=7 => {
                        d.pop();
                        d.push(if s < 4 { Ty::I32 } else { Ty::I64 });
                        code.push(Op::TruncSat(s as u8))
                    }
                    10 => {
                        r.u8();
                        r.u8();
                        for _ in 0..3 {
                            d.pop();
                        }
                        code.push(Op::MemoryCopy);
                    }
                    11 => {
                        r.u8();
                        for _ in 0..3 {
                            d.pop();
                        }
                        code.push(Op::MemoryFill);
                    }
                    _ => panic!("unsupported 0xfc {s} in {}", m.funcs[fi].name),
                }
            }
            _ => panic!("unsupported opcode {op:#x} in {}", m.funcs[fi].name),
        }
    }
    let f = &mut m.funcs[fi];
    f.nlocals = local_tys.len() as u32;
    f.local_tys = local_tys;
    f.code = code;
    f.tables = tables;
}

/// operand count and result type of a plain numeric instruction
pub fn num_sig(op: u8) -> (usize, Ty) {
    match op {
        0x45 | 0x50 => (1, Ty::I32),
        0x46..=0x4f | 0x51..=0x66 => (2, Ty::I32),
        0x67..=0x69 => (1, Ty::I32),
        0x6a..=0x78 => (2, Ty::I32),
        0x79..=0x7b => (1, Ty::I64),
        0x7c..=0x8a => (2, Ty::I64),
        0x8b..=0x91 => (1, Ty::F32),
        0x92..=0x98 => (2, Ty::F32),
        0x99..=0x9f => (1, Ty::F64),
        0xa0..=0xa6 => (2, Ty::F64),
        0xa7..=0xab => (1, Ty::I32),
        0xac..=0xb1 => (1, Ty::I64),
        0xb2..=0xb6 => (1, Ty::F32),
        0xb7..=0xbb => (1, Ty::F64),
        0xbc => (1, Ty::I32),
        0xbd => (1, Ty::I64),
        0xbe => (1, Ty::F32),
        0xbf => (1, Ty::F64),
        0xc0 | 0xc1 => (1, Ty::I32),
        _ => (1, Ty::I64),
    }
}
