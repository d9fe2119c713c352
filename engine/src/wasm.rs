//! WebAssembly binary decoder: modules are pre-decoded to a flat instruction list with resolved branches.
use crate::expr::Op;

#[derive(Clone, Debug, PartialEq)]
pub struct FType { pub params: Vec<u8>, pub results: Vec<u8> }

#[derive(Clone, Copy, Debug)]
pub struct Tgt { pub pc: u32, pub arity: u16, pub height: u32 }

#[derive(Clone, Debug)]
pub enum I {
    Unreachable,
    Br(Tgt), BrIf(Tgt), BrIfNot(u32), BrTable(Box<[Tgt]>),
    Goto(u32),
    Return,
    Call(u32), CallInd(u32),
    Drop, Select,
    LGet(u32), LSet(u32), LTee(u32), GGet(u32), GSet(u32),
    /// bytes, sign-extend, result width, offset
    Load(u8, bool, u8, u32),
    Store(u8, u32),
    MemSize, MemGrow, MemCopy, MemFill,
    Const(u64),
    Bin(Op, u8), Cmp(Op, u8, bool), Eqz(u8), Un(Op, u8),
    Wrap, Ext(u8, u8, bool),
    Unsup(u8),
}

pub struct Func { pub ty: u32, pub nlocals: u32, pub code: Vec<I>, pub name: String }
pub struct Import { pub ty: u32, pub module: String, pub name: String }
pub struct Module {
    pub types: Vec<FType>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>, // defined functions only
    pub table: Vec<Option<u32>>,
    pub globals: Vec<u64>,
    pub mem_min: u32,
    pub data: Vec<(u32, Vec<u8>)>,
    pub exports: Vec<(String, u8, u32)>,
    pub ty_of: Vec<u32>,
    pub names: Vec<String>,
}

struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 { let x = self.b[self.p]; self.p += 1; x }
    fn u32(&mut self) -> u32 { self.leb_u() as u32 }
    fn leb_u(&mut self) -> u64 { let mut r = 0u64; let mut s = 0; loop { let x = self.u8(); r |= ((x & 0x7f) as u64) << s; if x & 0x80 == 0 { return r } s += 7 } }
    fn leb_s(&mut self) -> i64 { let mut r = 0i64; let mut s = 0; loop { let x = self.u8(); r |= ((x & 0x7f) as i64) << s; s += 7; if x & 0x80 == 0 { if s < 64 && x & 0x40 != 0 { r |= -1i64 << s } return r } } }
    fn name(&mut self) -> String { let n = self.u32() as usize; let s = String::from_utf8_lossy(&self.b[self.p..self.p + n]).into_owned(); self.p += n; s }
    fn bytes(&mut self, n: usize) -> &'a [u8] { let s = &self.b[self.p..self.p + n]; self.p += n; s }
}

fn const_expr(r: &mut R, globals: &[u64]) -> u64 {
    let mut v = 0;
    loop {
        match r.u8() {
            0x41 => v = r.leb_s() as u32 as u64,
            0x42 => v = r.leb_s() as u64,
            0x23 => v = globals[r.u32() as usize],
            0x0b => return v,
            x => panic!("const expr op {x:#x}"),
        }
    }
}

pub fn parse(b: &[u8]) -> Module {
    assert_eq!(&b[0..8], b"\0asm\x01\0\0\0");
    let mut m = Module { types: vec![], imports: vec![], funcs: vec![], table: vec![], globals: vec![], mem_min: 0, data: vec![], exports: vec![], ty_of: vec![], names: vec![] };
    let mut r = R { b, p: 8 };
    let mut ftypes: Vec<u32> = vec![];
    let mut bodies: Vec<(usize, usize)> = vec![];
    while r.p < b.len() {
        let id = r.u8();
        let len = r.u32() as usize;
        let end = r.p + len;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u32() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let n = r.u32();
                            for _ in 0..n { let i = r.u32() as usize; let s = r.name(); if m.names.len() <= i { m.names.resize(i + 1, String::new()) } m.names[i] = s }
                        }
                        r.p = se;
                    }
                }
            }
            1 => for _ in 0..r.u32() {
                assert_eq!(r.u8(), 0x60);
                let params = (0..r.u32()).map(|_| r.u8()).collect();
                let results = (0..r.u32()).map(|_| r.u8()).collect();
                m.types.push(FType { params, results });
            },
            2 => for _ in 0..r.u32() {
                let module = r.name();
                let name = r.name();
                match r.u8() {
                    0 => { let ty = r.u32(); m.imports.push(Import { ty, module, name }) }
                    1 => { r.u8(); let f = r.u8(); r.u32(); if f & 1 == 1 { r.u32(); } }
                    2 => { let f = r.u8(); m.mem_min = r.u32(); if f & 1 == 1 { r.u32(); } }
                    3 => { r.u8(); r.u8(); m.globals.push(0) }
                    x => panic!("import kind {x}"),
                }
            },
            3 => for _ in 0..r.u32() { ftypes.push(r.u32()) },
            4 => for _ in 0..r.u32() { r.u8(); let f = r.u8(); let min = r.u32(); if f & 1 == 1 { r.u32(); } m.table = vec![None; min as usize] },
            5 => for _ in 0..r.u32() { let f = r.u8(); m.mem_min = r.u32(); if f & 1 == 1 { r.u32(); } },
            6 => for _ in 0..r.u32() { r.u8(); r.u8(); let g = m.globals.clone(); let v = const_expr(&mut r, &g); m.globals.push(v) },
            7 => for _ in 0..r.u32() { let s = r.name(); let k = r.u8(); let i = r.u32(); m.exports.push((s, k, i)) },
            9 => for _ in 0..r.u32() {
                let flag = r.u32();
                match flag {
                    0 => {
                        let off = const_expr(&mut r, &m.globals) as usize;
                        for i in 0..r.u32() as usize { let f = r.u32(); if m.table.len() <= off + i { m.table.resize(off + i + 1, None) } m.table[off + i] = Some(f) }
                    }
                    x => panic!("element segment kind {x}"),
                }
            },
            10 => for _ in 0..r.u32() { let sz = r.u32() as usize; bodies.push((r.p, r.p + sz)); r.p += sz },
            11 => for _ in 0..r.u32() {
                match r.u32() {
                    0 => { let off = const_expr(&mut r, &m.globals) as u32; let n = r.u32() as usize; m.data.push((off, r.bytes(n).to_vec())) }
                    x => panic!("data segment kind {x}"),
                }
            },
            _ => {}
        }
        r.p = end;
    }
    m.ty_of = m.imports.iter().map(|i| i.ty).chain(ftypes.iter().copied()).collect();
    let ni = m.imports.len();
    m.names.resize(ni + ftypes.len(), String::new());
    for (i, (s, e)) in bodies.into_iter().enumerate() {
        let mut r = R { b, p: s };
        let ty = ftypes[i];
        let mut nl = m.types[ty as usize].params.len() as u32;
        for _ in 0..r.u32() { nl += r.u32(); r.u8(); }
        let code = decode(&m, &mut r, e, ty, nl);
        m.funcs.push(Func { ty, nlocals: nl, code, name: m.names[ni + i].clone() });
    }
    m
}

struct Ctl { is_loop: bool, is_if: bool, start: u32, height: u32, params: u16, results: u16, fix: Vec<(usize, usize)>, else_fix: Option<usize>, dead: bool }

fn decode(m: &Module, r: &mut R, end: usize, ty: u32, nl: u32) -> Vec<I> {
    let mut out: Vec<I> = vec![];
    let fr = m.types[ty as usize].results.len() as u16;
    let mut ctl = vec![Ctl { is_loop: false, is_if: false, start: 0, height: nl, params: 0, results: fr, fix: vec![], else_fix: None, dead: false }];
    let mut h: u32 = nl;
    let mut dead = false;
    let mut skip = 0u32; // nesting inside dead code
    let block_ty = |r: &mut R| -> (u16, u16) {
        let x = r.leb_s();
        if x == -64 { (0, 0) } else if x < 0 { (0, 1) } else { let t = &m.types[x as usize]; (t.params.len() as u16, t.results.len() as u16) }
    };
    while r.p < end {
        let op = r.u8();
        if dead {
            // skip immediates while tracking nesting
            match op {
                0x02 | 0x03 | 0x04 => { block_ty(r); skip += 1; continue }
                0x0b if skip > 0 => { skip -= 1; continue }
                0x05 if skip > 0 => continue,
                0x0b | 0x05 => {}
                _ => { skip_imm(r, op); continue }
            }
        }
        macro_rules! tgt { ($d:expr, $slot:expr) => {{
            let i = ctl.len() - 1 - $d as usize;
            let c = &mut ctl[i];
            if c.is_loop { Tgt { pc: c.start, arity: c.params, height: c.height } }
            else { c.fix.push((out.len(), $slot)); Tgt { pc: u32::MAX, arity: c.results, height: c.height } }
        }} }
        match op {
            0x00 => { out.push(I::Unreachable); dead = true }
            0x01 => {}
            0x02 | 0x03 => {
                let (p, q) = block_ty(r);
                ctl.push(Ctl { is_loop: op == 3, is_if: false, start: out.len() as u32, height: h - p as u32, params: p, results: q, fix: vec![], else_fix: None, dead: false });
            }
            0x04 => {
                let (p, q) = block_ty(r);
                h -= 1;
                ctl.push(Ctl { is_loop: false, is_if: true, start: 0, height: h - p as u32, params: p, results: q, fix: vec![], else_fix: Some(out.len()), dead: false });
                out.push(I::BrIfNot(u32::MAX));
            }
            0x05 => {
                let c = ctl.last_mut().unwrap();
                if !dead { c.fix.push((out.len(), usize::MAX)); out.push(I::Goto(u32::MAX)) }
                let ef = c.else_fix.take().unwrap();
                out[ef] = I::BrIfNot(out.len() as u32);
                h = c.height + c.params as u32;
                dead = false;
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let _ = (c.is_if, c.dead);
                if let Some(ef) = c.else_fix { out[ef] = I::BrIfNot(out.len() as u32) }
                let here = out.len() as u32;
                for (i, slot) in c.fix {
                    match &mut out[i] {
                        I::Br(t) | I::BrIf(t) => t.pc = here,
                        I::Goto(t) => *t = here,
                        I::BrTable(v) => v[slot].pc = here,
                        _ => unreachable!(),
                    }
                }
                h = c.height + c.results as u32;
                dead = false;
                if ctl.is_empty() { out.push(I::Return) }
            }
            0x0c => { let d = r.u32(); let t = tgt!(d, 0); out.push(I::Br(t)); dead = true }
            0x0d => { let d = r.u32(); h -= 1; let t = tgt!(d, 0); out.push(I::BrIf(t)) }
            0x0e => {
                let n = r.u32();
                h -= 1;
                let mut v = vec![];
                for i in 0..=n { let d = r.u32(); let t = tgt!(d, i as usize); v.push(t) }
                out.push(I::BrTable(v.into()));
                dead = true;
            }
            0x0f => { out.push(I::Return); dead = true }
            0x10 => { let f = r.u32(); let t = &m.types[m.ty_of[f as usize] as usize]; h = h - t.params.len() as u32 + t.results.len() as u32; out.push(I::Call(f)) }
            0x11 => { let t = r.u32(); r.u32(); let ft = &m.types[t as usize]; h = h - 1 - ft.params.len() as u32 + ft.results.len() as u32; out.push(I::CallInd(t)) }
            0x1a => { h -= 1; out.push(I::Drop) }
            0x1b => { h -= 2; out.push(I::Select) }
            0x1c => { for _ in 0..r.u32() { r.u8(); } h -= 2; out.push(I::Select) }
            0x20 => { h += 1; let i = r.u32(); out.push(I::LGet(i)) }
            0x21 => { h -= 1; let i = r.u32(); out.push(I::LSet(i)) }
            0x22 => { let i = r.u32(); out.push(I::LTee(i)) }
            0x23 => { h += 1; let i = r.u32(); out.push(I::GGet(i)) }
            0x24 => { h -= 1; let i = r.u32(); out.push(I::GSet(i)) }
            0x28..=0x35 => {
                r.u32();
                let o = r.u32();
                out.push(match op {
                    0x28 | 0x2a => I::Load(4, false, 32, o), 0x29 | 0x2b => I::Load(8, false, 64, o),
                    0x2c => I::Load(1, true, 32, o), 0x2d => I::Load(1, false, 32, o), 0x2e => I::Load(2, true, 32, o), 0x2f => I::Load(2, false, 32, o),
                    0x30 => I::Load(1, true, 64, o), 0x31 => I::Load(1, false, 64, o), 0x32 => I::Load(2, true, 64, o), 0x33 => I::Load(2, false, 64, o),
                    0x34 => I::Load(4, true, 64, o), _ => I::Load(4, false, 64, o),
                });
            }
            0x36..=0x3e => {
                r.u32();
                let o = r.u32();
                h -= 2;
                out.push(I::Store(match op { 0x36 | 0x38 | 0x3e => 4, 0x37 | 0x39 => 8, 0x3a | 0x3c => 1, _ => 2 }, o));
            }
            0x3f => { r.u8(); h += 1; out.push(I::MemSize) }
            0x40 => { r.u8(); out.push(I::MemGrow) }
            0x41 => { h += 1; let v = r.leb_s() as u32 as u64; out.push(I::Const(v)) }
            0x42 => { h += 1; let v = r.leb_s() as u64; out.push(I::Const(v)) }
            0x43 => { h += 1; let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64; out.push(I::Const(v)) }
            0x44 => { h += 1; let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap()); out.push(I::Const(v)) }
            0x45 => out.push(I::Eqz(32)),
            0x50 => out.push(I::Eqz(64)),
            0x46..=0x4f | 0x51..=0x5a => {
                h -= 1;
                let (k, w) = if op < 0x50 { (op - 0x46, 32) } else { (op - 0x51, 64) };
                // (op, swap)
                out.push(match k {
                    0 => I::Cmp(Op::Eq, w, false), 1 => I::Cmp(Op::Eq, w, true), // ne: flag = negate
                    2 => I::Cmp(Op::Slt, w, false), 3 => I::Cmp(Op::Ult, w, false),
                    4 => I::Cmp(Op::Slt, w, true), 5 => I::Cmp(Op::Ult, w, true), // gt: swapped
                    6 => I::Cmp(Op::Sle, w, false), 7 => I::Cmp(Op::Ule, w, false),
                    8 => I::Cmp(Op::Sle, w, true), _ => I::Cmp(Op::Ule, w, true),
                });
            }
            0x5b..=0x66 => { h -= 1; out.push(I::Unsup(op)) }
            0x67..=0x69 | 0x79..=0x7b => { let (k, w) = if op < 0x70 { (op - 0x67, 32) } else { (op - 0x79, 64) }; out.push(I::Un([Op::Clz, Op::Ctz, Op::Popcnt][k as usize], w)) }
            0x6a..=0x78 | 0x7c..=0x8a => {
                h -= 1;
                let (k, w) = if op < 0x79 { (op - 0x6a, 32) } else { (op - 0x7c, 64) };
                out.push(I::Bin([Op::Add, Op::Sub, Op::Mul, Op::SDiv, Op::UDiv, Op::SRem, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::AShr, Op::LShr, Op::Rotl, Op::Rotr][k as usize], w));
            }
            0x8b..=0x91 | 0x99..=0x9f => out.push(I::Unsup(op)),
            0x92..=0x98 | 0xa0..=0xa6 => { h -= 1; out.push(I::Unsup(op)) }
            0xa7 => out.push(I::Wrap),
            0xac => out.push(I::Ext(32, 64, true)),
            0xad => out.push(I::Ext(32, 64, false)),
            0xbc..=0xbf => {} // reinterpretations are the identity on raw bits
            0xa8..=0xbb => out.push(I::Unsup(op)),
            0xc0 => out.push(I::Ext(8, 32, true)), 0xc1 => out.push(I::Ext(16, 32, true)),
            0xc2 => out.push(I::Ext(8, 64, true)), 0xc3 => out.push(I::Ext(16, 64, true)), 0xc4 => out.push(I::Ext(32, 64, true)),
            0xfc => match r.u32() {
                10 => { r.u8(); r.u8(); h -= 3; out.push(I::MemCopy) }
                11 => { r.u8(); h -= 3; out.push(I::MemFill) }
                0..=7 => out.push(I::Unsup(op)),
                x => panic!("0xfc {x}"),
            },
            x => panic!("opcode {x:#x}"),
        }
    }
    out
}

fn skip_imm(r: &mut R, op: u8) {
    match op {
        0x0c | 0x0d | 0x10 | 0x20..=0x24 => { r.u32(); }
        0x0e => { for _ in 0..=r.u32() { r.u32(); } }
        0x11 => { r.u32(); r.u32(); }
        0x1c => { for _ in 0..r.u32() { r.u8(); } }
        0x28..=0x3e => { r.u32(); r.u32(); }
        0x3f | 0x40 => { r.u8(); }
        0x41 | 0x42 => { r.leb_s(); }
        0x43 => { r.bytes(4); }
        0x44 => { r.bytes(8); }
        0xfc => match r.u32() { 10 => { r.u8(); r.u8(); } 11 => { r.u8(); } _ => {} },
        _ => {}
    }
}
