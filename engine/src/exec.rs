//! Symbolic WebAssembly interpreter (depth-first exploration, copy-on-write states, one solver).
use crate::expr::*;
use crate::smt::*;
use crate::wasm::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

const PS: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct V { pub c: u64, pub e: E }
pub fn cv(c: u64) -> V { V { c, e: 0 } }

#[derive(Clone)]
pub struct Page { b: [u8; PS], s: Option<Box<[E; PS]>> }

#[derive(Clone, Copy)]
struct Frame { f: u32, pc: u32, base: u32, is_try: bool, sp: u32 }

pub struct Model { vals: HashMap<u32, u64>, memo: RefCell<HashMap<E, u64, Fx>> }
impl Model {
    fn var(&self, v: u32) -> u64 { match self.vals.get(&v) { Some(x) => *x, None => var_default(v) } }
    pub fn eval(&self, e: E) -> u64 { ar().eval(e, &|v| self.var(v), &mut self.memo.borrow_mut()) }
}
fn var_default(v: u32) -> u64 { let i = &ar().vars[v as usize]; match &i.dom { Some(d) => (0..256).find(|x| dom_has(d, *x)).unwrap(), None => i.lo } }

#[derive(Clone)]
struct State {
    mem: Vec<Rc<Page>>,
    globals: Vec<V>,
    stack: Vec<V>,
    frames: Vec<Frame>,
    pcs: Vec<E>,
    dom: HashMap<u32, [u64; 4], Fx>,
    conc: HashMap<E, u64, Fx>,
    model: Rc<Model>,
    inputs: Vec<V>,
    notes: Vec<(u32, Vec<V>)>,
    covers: BTreeSet<u32>,
    steps: u64,
    shard: (u64, u64),
    depth: u32,
}

pub struct Violation { pub id: String, pub inputs: Vec<u64>, pub how: &'static str }
pub struct Sample { pub inputs: Vec<u64>, pub notes: Vec<(String, Vec<u64>)>, pub covers: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub max_steps: u64,
    pub asserts: u64, pub asserts_folded: u64, pub asserts_solver: u64, pub traps_caught: u64,
    pub branch_sym: u64, pub branch_folded_dom: u64, pub vars_max: u64, pub max_pc: u64, pub assume_pruned: u64,
    pub eq_claims: u64, pub audit_rw: u64, pub audit_eq: u64, pub audit_dom: u64, pub audit_open: u64,
}

pub struct Cfg { pub max_steps: u64, pub max_paths: u64, pub max_secs: f64, pub shard: (u64, u64), pub samples: usize, pub seed: u64, pub max_viol: usize, pub trace: bool, pub mem_gb: f64, pub deep: u64, pub audit: usize, pub audit_eq: usize, pub grace: f64 }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Panic, Memcmp, Memcpy, Memset, AllocLike(u8) }

pub struct Eng {
    m: Module,
    pub smt: Smt,
    cfg: Cfg,
    hooks: Vec<Hook>,
    imp: Vec<u8>,
    work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub first_viol: Option<std::time::Instant>,
    viol_ids: HashMap<String, usize>,
    pub samples: Vec<Sample>,
    pub covers: BTreeMap<String, u64>,
    pub assert_ids: BTreeMap<String, (u64, u64)>,
    strs: Vec<String>,
    smap: HashMap<String, u32>,
    pub executed: Vec<u64>,
    varkey: HashMap<(usize, u8, u64, u64, Option<[u64; 4]>), E>,
    pub errors: Vec<String>,
    rng: u64,
    seen_sample: u64,
    pub eq_seen: HashSet<u64>,
    eq_pool: Vec<(Vec<(E, E)>, bool)>,
    dom_seen: u64,
}

struct FxHash(u64);
impl FxHash { fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) } }
enum Ctl { Next, Fork, Trap, End, Kill }

macro_rules! pop { ($s:expr) => { $s.stack.pop().unwrap() } }

impl Eng {
    pub fn new(m: Module, smt: Smt, cfg: Cfg) -> Self {
        let n = m.names.len();
        let mut hooks = vec![Hook::None; n];
        for (i, s) in m.names.iter().enumerate() {
            let h = if s == "memcmp" || s == "bcmp" { Hook::Memcmp }
                else if s == "memcpy" || s == "memmove" { Hook::Memcpy }
                else if s == "memset" { Hook::Memset }
                else if is_panic(s) { Hook::Panic }
                else { Hook::None };
            hooks[i] = h;
        }
        for (i, s) in m.names.iter().enumerate() {
            if s.contains("___rdl_alloc") || s.contains("__rust_alloc") || s.contains("__rust_realloc") || s.contains("___rdl_realloc") { if m.ty_of.get(i).is_some() { hooks[i] = if hooks[i] == Hook::None { Hook::AllocLike(m.types[m.ty_of[i] as usize].params.len() as u8) } else { hooks[i] } } }
        }
        let imp = m.imports.iter().map(|i| match (i.module.as_str(), i.name.as_str()) {
            ("vp", "sym_u64") => 1, ("vp", "sym_byte") => 2, ("vp", "choose") => 3, ("vp", "assume") => 4, ("vp", "assert_") => 5, ("vp", "cover") => 6,
            ("vp", "eq") => 7, ("vp", "try_") => 8, ("vp", "note") => 9, ("vp", "is_sym") => 10, ("vp", "sym_bytes") => 11, ("vp", "pick") => 12, ("vp", "and") => 13, ("vp", "or") => 14, ("vp", "deep") => 15,
            _ => 0,
        }).collect();
        let nf = m.ty_of.len();
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Eng { m, smt, cfg, hooks, imp, work: vec![], st: Default::default(), viol: vec![], first_viol: None, viol_ids: Default::default(), samples: vec![], covers: Default::default(), assert_ids: Default::default(),
            strs: vec![], smap: Default::default(), executed: vec![0; nf], varkey: Default::default(), errors: vec![], rng, seen_sample: 0, eq_seen: Default::default(), eq_pool: vec![], dom_seen: 0 }
    }
    pub fn fname(&self, i: usize) -> &str { &self.m.names[i] }
    fn sid(&mut self, s: &str) -> u32 { if let Some(i) = self.smap.get(s) { return *i } let i = self.strs.len() as u32; self.strs.push(s.to_string()); self.smap.insert(s.to_string(), i); i }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    pub fn run(&mut self, export: &str) -> Result<(), String> {
        let f = self.m.exports.iter().find(|e| e.0 == export && e.1 == 0).ok_or(format!("no export {export}"))?.2;
        let npages = self.m.mem_min as usize * 65536 / PS;
        let zero = Rc::new(Page { b: [0; PS], s: None });
        let mut mem: Vec<Rc<Page>> = vec![zero; npages];
        for (off, d) in &self.m.data { for (i, x) in d.iter().enumerate() { let a = *off as usize + i; Rc::make_mut(&mut mem[a / PS]).b[a % PS] = *x } }
        let mut st = State { mem, globals: self.m.globals.iter().map(|x| cv(*x)).collect(), stack: vec![], frames: vec![], pcs: vec![], dom: Default::default(), conc: Default::default(),
            model: Rc::new(Model { vals: Default::default(), memo: Default::default() }), inputs: vec![], notes: vec![], covers: Default::default(), steps: 0, shard: (0, 1), depth: 0 };
        self.enter(&mut st, f, false);
        self.work.push(st);
        let t0 = std::time::Instant::now();
        let mut nstates = 0u64;
        while let Some(mut s) = self.work.pop() {
            nstates += 1;
            if t0.elapsed().as_secs_f64() > self.cfg.max_secs { self.errors.push(format!("time budget exhausted after {:.0}s with {} states pending", self.cfg.max_secs, self.work.len() + 1)); break }
            if self.st.paths > self.cfg.max_paths { self.errors.push(format!("path budget {} exhausted", self.cfg.max_paths)); break }
            if nstates % 64 == 0 && rss_gb() > self.cfg.mem_gb { self.errors.push(format!("memory budget {} GB exhausted", self.cfg.mem_gb)); break }
            self.run_state(&mut s);
            if self.viol.len() >= self.cfg.max_viol { break }
            // a violation has been found: a little more time for others, then report
            if !self.viol.is_empty() && self.first_viol.get_or_insert_with(std::time::Instant::now).elapsed().as_secs_f64() > self.cfg.grace { break }
            if !self.errors.is_empty() { break }
        }
        self.audit();
        Ok(())
    }

    /// Re-decide with the solver what the simplifier decided: byte equalities it folded (a sample of the distinct ones)
    /// and rewrites it performed (a sample). A disagreement invalidates the run.
    fn audit(&mut self) {
        if self.cfg.audit == 0 { return }
        for (p, want) in std::mem::take(&mut self.eq_pool) {
            match self.smt.same_bytes(&p, want) { Some(true) => self.st.audit_eq += 1, None => self.st.audit_open += 1, Some(false) => { self.errors.push("audit: folded byte equality is not valid".into()); return } }
        }
        let rw = std::mem::take(&mut ar().rw);
        ar().rw_cap = 0;
        for (n, r) in rw {
            match self.smt.same(n, r) { Some(true) => self.st.audit_rw += 1, None => self.st.audit_open += 1, Some(false) => { self.errors.push(format!("audit: rewrite of {:?} to {} is not valid", n, show(r, 4))); return } }
        }
    }
    /// Keep a folded comparison for the audit.
    fn eq_claim(&mut self, s: &State, p: usize, q: usize, n: usize, want: bool) {
        let mut pairs = vec![];
        let mut h = FxHash(0);
        for i in 0..n {
            let (x, y) = (Self::ldb(s, p + i), Self::ldb(s, q + i));
            if x.e == 0 && y.e == 0 { if x.c == y.c { continue } }
            let (a, b) = (self.ex(x, 8), self.ex(y, 8));
            h.add(a as u64); h.add(b as u64);
            pairs.push((a, b));
        }
        if pairs.iter().all(|(a, b)| ar().as_const(*a).is_some() && ar().as_const(*b).is_some()) { return }
        self.st.eq_claims += 1;
        if !self.eq_seen.insert(h.0) { return }
        let k = self.eq_seen.len() as u64;
        if self.eq_pool.len() < self.cfg.audit_eq { self.eq_pool.push((pairs, want)) } else { let j = (self.rnd() % k) as usize; if j < self.cfg.audit_eq { self.eq_pool[j] = (pairs, want) } }
    }
    fn dom_audit(&mut self, s: &State, c: E, v: bool) -> Result<(), ()> {
        self.dom_seen += 1;
        if self.st.audit_dom >= self.cfg.audit as u64 || self.dom_seen.count_ones() > 2 && self.dom_seen % 61 != 0 { return Ok(()) }
        let x = if v { ar().not(c) } else { c };
        if ar().as_const(x).is_some() { return Ok(()) }
        let mut cs = self.slice(s, x);
        cs.push(x);
        match self.smt.check(&cs, &[]) { Res::Unsat => { self.st.audit_dom += 1; Ok(()) } Res::Unknown => { self.st.audit_open += 1; Ok(()) } Res::Sat(_) => { self.errors.push("audit: branch decided by byte domains is not forced".into()); Err(()) } }
    }

    fn enter(&mut self, s: &mut State, f: u32, is_try: bool) {
        let ni = self.m.imports.len() as u32;
        let fu = &self.m.funcs[(f - ni) as usize];
        let np = self.m.types[fu.ty as usize].params.len() as u32;
        let base = s.stack.len() as u32 - np;
        for _ in np..fu.nlocals { s.stack.push(cv(0)) }
        let sp = s.globals.first().map(|g| g.c as u32).unwrap_or(0);
        s.frames.push(Frame { f: f - ni, pc: 0, base, is_try, sp });
        self.executed[f as usize] += 1;
    }

    fn run_state(&mut self, s: &mut State) {
        let start = s.steps;
        let r = self.interp(s);
        self.st.steps += s.steps - start;
        match r {
            Ctl::End => self.finish(s, None),
            Ctl::Trap => self.finish(s, Some("uncaught panic")),
            _ => {}
        }
    }

    fn finish(&mut self, s: &mut State, trap: Option<&'static str>) {
        // path end: the path condition is satisfied by the current model (checked), so the path is not vacuous
        for c in &s.pcs { if s.model.eval(*c) != 1 { self.errors.push("internal: model does not satisfy path condition".into()); return } }
        // a path with too few choices to be assigned earlier is counted by one shard only
        let k = self.cfg.shard.1;
        if trap.is_none() && k > 1 && s.shard.1 < 16 * k && s.shard.0.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) % k != self.cfg.shard.0 { return }
        self.st.paths += 1;
        self.st.max_steps = self.st.max_steps.max(s.steps);
        self.st.vars_max = self.st.vars_max.max(s.inputs.iter().filter(|v| v.e != 0).count() as u64);
        self.st.max_pc = self.st.max_pc.max(s.pcs.len() as u64);
        for c in s.covers.clone() { *self.covers.entry(self.strs[c as usize].clone()).or_insert(0) += 1 }
        if let Some(t) = trap { let m = s.model.clone(); self.violation(s, t.to_string(), &m, "uncaught panic") ; return }
        // reservoir sample of complete paths for native validation
        self.seen_sample += 1;
        let k = self.cfg.samples;
        if k == 0 { return }
        let idx = if self.samples.len() < k { self.samples.push(Sample { inputs: vec![], notes: vec![], covers: vec![] }); self.samples.len() - 1 } else { let j = (self.rnd() % self.seen_sample) as usize; if j >= k { return } j };
        // inputs the path condition does not mention may take any value of their domain: draw them at random
        let mut vals = s.model.vals.clone();
        let mut used: HashSet<u32> = HashSet::new();
        for c in &s.pcs { used.extend(ar().sups[ar().sup[*c as usize] as usize].iter().copied()) }
        for v in s.inputs.clone() {
            if v.e == 0 { continue }
            let n = ar().n[v.e as usize];
            if n.op != Op::Var || used.contains(&(n.k as u32)) { continue }
            let (dom, lo, hi) = { let i = &ar().vars[n.k as usize]; (i.dom, i.lo, i.hi) };
            let x = match dom { Some(d) => loop { let x = self.rnd() >> 11 & 255; if dom_has(&d, x) { break x } }, None => { let r = self.rnd(); if r & 3 == 0 { lo } else if r & 3 == 1 { hi } else if hi - lo == u64::MAX { self.rnd() } else { lo + (self.rnd() >> 7) % (hi - lo + 1) } } };
            vals.insert(n.k as u32, x);
        }
        let model = Model { vals, memo: Default::default() };
        let ev = |v: &V| if v.e == 0 { v.c } else { model.eval(v.e) };
        self.samples[idx] = Sample { inputs: s.inputs.iter().map(ev).collect(), notes: s.notes.iter().map(|(k, v)| (self.strs[*k as usize].clone(), v.iter().map(ev).collect())).collect(), covers: s.covers.iter().map(|c| self.strs[*c as usize].clone()).collect() };
    }

    fn violation(&mut self, s: &State, id: String, m: &Model, how: &'static str) {
        let n = self.viol_ids.entry(id.clone()).or_insert(0);
        *n += 1;
        if *n > 3 { return }
        let inputs = s.inputs.iter().map(|v| if v.e == 0 { v.c } else { m.eval(v.e) }).collect();
        self.viol.push(Violation { id, inputs, how });
    }

    // ---------- constraints ----------
    fn add_pc(&mut self, s: &mut State, c: E) {
        let n = ar().n[c as usize];
        match n.op {
            Op::Const => {}
            Op::And => { self.add_pc(s, n.a); self.add_pc(s, n.b) }
            _ => {
                if s.pcs.contains(&c) { return }
                s.pcs.push(c);
                if n.op == Op::Tbl {
                    let b = ar().n[n.a as usize];
                    if b.op == Op::Var { if let Some(d0) = ar().vars[b.k as usize].dom {
                        let d = s.dom.entry(b.k as u32).or_insert(d0);
                        for i in 0..256u64 { if dom_has(d, i) && ar().tbl_at(c, i) == 0 { d[(i >> 6) as usize] &= !(1 << (i & 63)) } }
                    } }
                }
            }
        }
    }
    /// decide by narrowed byte domains: Some(b) if constant
    fn dom_decide(&self, s: &State, c: E, depth: u32) -> Option<bool> {
        let n = ar().n[c as usize];
        match n.op {
            Op::Const => Some(n.k != 0),
            Op::Tbl | Op::Var => {
                let b = if n.op == Op::Tbl { ar().n[n.a as usize] } else { n };
                if b.op != Op::Var { return None }
                let d0 = ar().vars[b.k as usize].dom?;
                let d = s.dom.get(&(b.k as u32)).copied().unwrap_or(d0);
                let (mut t, mut f) = (false, false);
                for i in 0..256u64 { if dom_has(&d, i) { if ar().tbl_at(c, i) != 0 { t = true } else { f = true } if t && f { return None } } }
                Some(t)
            }
            Op::Not if n.w == 1 => self.dom_decide(s, n.a, depth).map(|x| !x),
            Op::And if n.w == 1 && depth > 0 => match (self.dom_decide(s, n.a, depth - 1), self.dom_decide(s, n.b, depth - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or if n.w == 1 && depth > 0 => match (self.dom_decide(s, n.a, depth - 1), self.dom_decide(s, n.b, depth - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            _ => { if s.pcs.contains(&c) { Some(true) } else { None } }
        }
    }
    fn slice(&self, s: &State, c: E) -> Vec<E> {
        let a = ar();
        let mut vs: HashSet<u32> = a.sups[a.sup[c as usize] as usize].iter().copied().collect();
        let mut used = vec![false; s.pcs.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in s.pcs.iter().enumerate() {
                if used[i] { continue }
                let su = &a.sups[a.sup[*p as usize] as usize];
                if su.iter().any(|v| vs.contains(v)) { used[i] = true; out.push(*p); for v in su.iter() { if vs.insert(*v) { ch = true } } }
            }
            if !ch { break }
        }
        out
    }
    /// Is pc ∧ c satisfiable? Returns a model of everything if so.
    fn feasible(&mut self, s: &State, c: E) -> Result<Option<Rc<Model>>, ()> {
        if let Some(v) = ar().as_const(c) { return Ok(if v != 0 { Some(s.model.clone()) } else { None }) }
        if s.model.eval(c) == 1 { return Ok(Some(s.model.clone())) }
        match self.dom_decide(s, c, 12) { Some(false) => { self.st.branch_folded_dom += 1; self.dom_audit(s, c, false)?; return Ok(None) } _ => {} }
        let mut cs = self.slice(s, c);
        cs.push(c);
        match self.smt.check(&cs, &[]) {
            Res::Unsat => Ok(None),
            Res::Unknown => { self.errors.push("solver returned unknown".into()); Err(()) }
            Res::Sat(m) => {
                let mut vals = s.model.vals.clone();
                for (k, v) in m { vals.insert(k, v); }
                Ok(Some(Rc::new(Model { vals, memo: Default::default() })))
            }
        }
    }
    /// Branch on a width-1 term; returns the outcome followed now, the other feasible side is queued.
    /// `retry` states re-execute the current instruction, for which the condition has become decided.
    fn branch(&mut self, s: &mut State, c: E) -> Result<bool, ()> {
        if let Some(v) = ar().as_const(c) { return Ok(v != 0) }
        if let Some(v) = s.conc.get(&c) { return Ok(*v != 0) }
        if let Some(v) = self.dom_decide(s, c, 12) { self.st.branch_folded_dom += 1; self.dom_audit(s, c, v)?; return Ok(v) }
        self.st.branch_sym += 1;
        let nc = ar().not(c);
        let cur = s.model.eval(c) == 1;
        let (here, other) = if cur { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(s, other)? {
            let mut o = s.clone();
            o.model = m;
            self.add_pc(&mut o, other);
            o.conc.insert(c, !cur as u64);
            o.depth += 1;
            self.push(o);
            self.add_pc(s, here);
        }
        s.conc.insert(c, cur as u64);
        Ok(cur)
    }
    fn push(&mut self, o: State) { self.st.forks += 1; if self.cfg.trace { let f = o.frames.last().unwrap(); eprintln!("fork depth {} in {}+{} : {}", o.depth, self.m.funcs[f.f as usize].name, f.pc, show(*o.pcs.last().unwrap_or(&0), 4)) } self.work.push(o) }

    /// All feasible values of a term (bounded); forks for each but the first, which is returned.
    fn concretize(&mut self, s: &mut State, v: V, max: usize) -> Result<u64, ()> {
        if v.e == 0 { return Ok(v.c) }
        if let Some(x) = s.conc.get(&v.e) { return Ok(*x) }
        let w = ar().w(v.e);
        let cur = s.model.eval(v.e);
        let mut base = s.clone();
        let k = ar().konst(cur, w);
        let here = ar().eq(v.e, k);
        let mut ex = here;
        let mut n = 1;
        loop {
            let ne = ar().not(ex);
            let Some(m) = self.feasible(&base, ne)? else { break };
            let val = m.eval(v.e);
            n += 1;
            if n > max { let f = s.frames.last().unwrap(); self.errors.push(format!("too many values of a symbolic term to enumerate in {}+{}: {}", self.m.funcs[f.f as usize].name, f.pc, show(v.e, 5))); return Err(()) }
            let k = ar().konst(val, w);
            let q = ar().eq(v.e, k);
            let mut o = s.clone();
            o.model = m.clone();
            self.add_pc(&mut o, q);
            o.conc.insert(v.e, val);
            self.push(o);
            self.add_pc(&mut base, ne);
            base.model = m;
            ex = q;
        }
        if n > 1 { self.add_pc(s, here) }
        s.conc.insert(v.e, cur);
        Ok(cur)
    }

    // ---------- memory ----------
    fn ldb(s: &State, a: usize) -> V { let p = &s.mem[a / PS]; let o = a % PS; if let Some(x) = &p.s { let e = x[o]; if e != 0 { return V { c: 0, e } } } cv(p.b[o] as u64) }
    fn stb(s: &mut State, a: usize, v: V) {
        let p = Rc::make_mut(&mut s.mem[a / PS]);
        let o = a % PS;
        if v.e == 0 { p.b[o] = v.c as u8; if let Some(x) = &mut p.s { x[o] = 0 } }
        else { p.b[o] = 0xAA; p.s.get_or_insert_with(|| vec![0u32; PS].into_boxed_slice().try_into().unwrap())[o] = v.e }
    }
    fn load(&mut self, s: &State, a: u64, n: usize) -> Option<V> {
        let a = a as usize;
        if a + n > s.mem.len() * PS { return None }
        let o = a % PS;
        let p = &s.mem[a / PS];
        if o + n <= PS && p.s.is_none() {
            let mut x = [0u8; 8];
            x[..n].copy_from_slice(&p.b[o..o + n]);
            return Some(cv(u64::from_le_bytes(x)));
        }
        let mut bs = [cv(0); 8];
        let mut any = false;
        for i in 0..n { bs[i] = Self::ldb(s, a + i); any |= bs[i].e != 0 }
        if !any { let mut r = 0; for i in 0..n { r |= bs[i].c << (8 * i) } return Some(cv(r)) }
        let mut r = 0;
        for i in 0..n { let e = if bs[i].e != 0 { bs[i].e } else { ar().konst(bs[i].c, 8) }; r = if i == 0 { e } else { ar().concat(e, r) } }
        Some(self.norm(r))
    }
    fn norm(&self, e: E) -> V { match ar().as_const(e) { Some(c) => cv(c), None => V { c: 0, e } } }
    fn store(&mut self, s: &mut State, a: u64, v: V, n: usize) -> Option<()> {
        let a = a as usize;
        if a + n > s.mem.len() * PS { return None }
        let o = a % PS;
        if v.e == 0 {
            if o + n <= PS {
                let p = Rc::make_mut(&mut s.mem[a / PS]);
                p.b[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
                if let Some(x) = &mut p.s { for i in 0..n { x[o + i] = 0 } }
            } else { for i in 0..n { Self::stb(s, a + i, cv((v.c >> (8 * i)) & 255)) } }
        } else {
            for i in 0..n { let e = ar().extract(v.e, 8 * i as u8, 8); let b = self.norm(e); Self::stb(s, a + i, b) }
        }
        Some(())
    }
    fn copy(&mut self, s: &mut State, d: usize, a: usize, n: usize) -> Option<()> {
        if n == 0 { return Some(()) }
        let lim = s.mem.len() * PS;
        if d + n > lim || a + n > lim { return None }
        // gather then scatter, page-wise
        let mut bytes = vec![0u8; n];
        let mut syms: Option<Vec<E>> = None;
        let mut i = 0;
        while i < n {
            let p = &s.mem[(a + i) / PS];
            let o = (a + i) % PS;
            let l = (PS - o).min(n - i);
            bytes[i..i + l].copy_from_slice(&p.b[o..o + l]);
            if let Some(x) = &p.s { if x[o..o + l].iter().any(|e| *e != 0) { syms.get_or_insert_with(|| vec![0; n])[i..i + l].copy_from_slice(&x[o..o + l]) } }
            i += l;
        }
        let mut i = 0;
        while i < n {
            let p = Rc::make_mut(&mut s.mem[(d + i) / PS]);
            let o = (d + i) % PS;
            let l = (PS - o).min(n - i);
            p.b[o..o + l].copy_from_slice(&bytes[i..i + l]);
            match &syms {
                Some(y) if y[i..i + l].iter().any(|e| *e != 0) => { p.s.get_or_insert_with(|| vec![0u32; PS].into_boxed_slice().try_into().unwrap())[o..o + l].copy_from_slice(&y[i..i + l]) }
                _ => if let Some(x) = &mut p.s { for e in &mut x[o..o + l] { *e = 0 } },
            }
            i += l;
        }
        Some(())
    }
    fn fill(&mut self, s: &mut State, d: usize, v: V, n: usize) -> Option<()> {
        if d + n > s.mem.len() * PS { return None }
        let b = if v.e == 0 { cv(v.c & 255) } else { let e = ar().extract(v.e, 0, 8); self.norm(e) };
        if b.e == 0 {
            let mut i = 0;
            while i < n {
                let p = Rc::make_mut(&mut s.mem[(d + i) / PS]);
                let o = (d + i) % PS;
                let l = (PS - o).min(n - i);
                p.b[o..o + l].fill(b.c as u8);
                if let Some(x) = &mut p.s { for e in &mut x[o..o + l] { *e = 0 } }
                i += l;
            }
        } else { for i in 0..n { Self::stb(s, d + i, b) } }
        Some(())
    }
    fn ex(&self, v: V, w: u8) -> E { if v.e != 0 { v.e } else { ar().konst(v.c, w) } }
    fn cstr(&self, s: &State, p: V, l: V) -> String { let mut b = vec![]; for i in 0..l.c { b.push(Self::ldb(s, (p.c + i) as usize).c as u8) } String::from_utf8_lossy(&b).into_owned() }

    fn cmp_bytes(&mut self, s: &State, p: usize, q: usize, n: usize, ordered: bool) -> V {
        // fold concrete prefix
        let mut eq = ar().konst(1, 1);
        let mut parts: Vec<(E, E)> = vec![];
        for i in 0..n {
            let (x, y) = (Self::ldb(s, p + i), Self::ldb(s, q + i));
            if x == y { continue }
            if x.e == 0 && y.e == 0 {
                if !ordered { return cv(1) }
                parts.push((ar().konst(x.c, 8), ar().konst(y.c, 8)));
                break;
            }
            let (a, b) = (self.ex(x, 8), self.ex(y, 8));
            parts.push((a, b));
        }
        if !ordered {
            for (a, b) in parts.iter().rev() { let q = ar().eq(*a, *b); eq = ar().and(q, eq) }
            let ne = ar().not(eq);
            let r = ar().zext(ne, 32);
            return self.norm(r);
        }
        let mut r = ar().konst(0, 32);
        let m1 = ar().konst(0xffff_ffff, 32);
        let p1 = ar().konst(1, 32);
        // ite(alleq, 0, ite(lt, -1, 1)) keeps equality tests in one Boolean
        let mut lt = ar().konst(0, 1);
        for (a, b) in parts.iter().rev() {
            let q = ar().eq(*a, *b);
            let l = ar().cmp(Op::Ult, *a, *b);
            let nl = ar().and(q, lt);
            lt = ar().or(l, nl);
            eq = ar().and(q, eq);
        }
        let d = ar().ite(lt, m1, p1);
        r = ar().ite(eq, r, d);
        self.norm(r)
    }

    // ---------- main loop ----------
    fn interp(&mut self, s: &mut State) -> Ctl {
        loop {
            if s.steps > self.cfg.max_steps { let f = s.frames.last().unwrap(); self.errors.push(format!("per-path instruction budget exhausted in {}", self.m.funcs[f.f as usize].name)); return Ctl::Kill }
            let r = self.burst(s);
            match r {
                Ctl::Next => continue,
                Ctl::Trap => {
                    // unwind to the innermost try frame
                    while let Some(f) = s.frames.pop() {
                        if f.is_try {
                            s.stack.truncate(f.base as usize);
                            s.globals[0] = cv(f.sp as u64);
                            s.stack.push(cv(1));
                            self.st.traps_caught += 1;
                            break;
                        }
                    }
                    if s.frames.is_empty() { return Ctl::Trap }
                }
                r => return r,
            }
        }
    }

    fn burst(&mut self, s: &mut State) -> Ctl {
        // run within the current frame until control leaves it
        let fi = s.frames.len() - 1;
        let fr = s.frames[fi];
        let module: *const Module = &self.m;
        let func = unsafe { &(&(*module).funcs)[fr.f as usize] };
        let code = &func.code;
        let base = fr.base as usize;
        let mut pc = fr.pc as usize;
        macro_rules! save { () => { s.frames[fi].pc = pc as u32 } }
        macro_rules! try_ { ($e:expr) => { match $e { Ok(x) => x, Err(()) => return Ctl::Kill } } }
        macro_rules! goto_tgt { ($t:expr) => {{
            let t = $t;
            let h = base + t.height as usize;
            let n = t.arity as usize;
            let l = s.stack.len();
            if l - n != h { for i in 0..n { s.stack[h + i] = s.stack[l - n + i] } s.stack.truncate(h + n) }
            let np = t.pc as usize;
            if np <= pc && s.steps > self.cfg.max_steps { pc = np; save!(); return Ctl::Next }
            pc = np;
        }} }
        loop {
            s.steps += 1;
            let ins = &code[pc];
            match ins {
                I::LGet(i) => { let v = s.stack[base + *i as usize]; s.stack.push(v); pc += 1 }
                I::LSet(i) => { let v = pop!(s); s.stack[base + *i as usize] = v; pc += 1 }
                I::LTee(i) => { let v = *s.stack.last().unwrap(); s.stack[base + *i as usize] = v; pc += 1 }
                I::Const(c) => { s.stack.push(cv(*c)); pc += 1 }
                I::Bin(op, w) => {
                    let l = s.stack.len();
                    let (a, b) = (s.stack[l - 2], s.stack[l - 1]);
                    let r;
                    if a.e == 0 && b.e == 0 {
                        let m = mask(*w);
                        r = match op {
                            Op::Add => cv(a.c.wrapping_add(b.c) & m),
                            Op::Sub => cv(a.c.wrapping_sub(b.c) & m),
                            Op::And => cv(a.c & b.c), Op::Or => cv(a.c | b.c), Op::Xor => cv(a.c ^ b.c),
                            Op::Shl | Op::LShr | Op::AShr | Op::Rotl | Op::Rotr => cv(eval_op(*op, *w, *w, a.c, b.c & (*w as u64 - 1), 0, 0, *w)),
                            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                                if b.c == 0 { save!(); return Ctl::Trap }
                                if *op == Op::SDiv && b.c == m && a.c == 1 << (*w - 1) { save!(); return Ctl::Trap }
                                cv(eval_op(*op, *w, *w, a.c, b.c, 0, 0, *w))
                            }
                            _ => cv(eval_op(*op, *w, *w, a.c, b.c, 0, 0, *w)),
                        };
                    } else {
                        let (x, mut y) = (self.ex(a, *w), self.ex(b, *w));
                        match op {
                            Op::Shl | Op::LShr | Op::AShr | Op::Rotl | Op::Rotr => { let k = ar().konst(*w as u64 - 1, *w); y = ar().and(y, k) }
                            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                                let z = ar().konst(0, *w);
                                let q = ar().eq(y, z);
                                save!();
                                if try_!(self.branch(s, q)) { return Ctl::Trap }
                                if *op == Op::SDiv {
                                    let mn = ar().konst(1 << (*w - 1), *w); let m1 = ar().konst(mask(*w), *w);
                                    let q1 = ar().eq(x, mn); let q2 = ar().eq(y, m1); let q = ar().and(q1, q2);
                                    if try_!(self.branch(s, q)) { return Ctl::Trap }
                                }
                            }
                            _ => {}
                        }
                        let e = ar().bin(*op, x, y);
                        r = self.norm(e);
                    }
                    s.stack.truncate(l - 1);
                    s.stack[l - 2] = r;
                    pc += 1;
                }
                I::Cmp(op, w, flag) => {
                    let b = pop!(s);
                    let a = pop!(s);
                    let r;
                    if a.e == 0 && b.e == 0 {
                        r = cv(match (op, flag) {
                            (Op::Eq, false) => (a.c == b.c) as u64,
                            (Op::Eq, true) => (a.c != b.c) as u64,
                            (_, false) => eval_op(*op, 1, *w, a.c, b.c, 0, 0, *w),
                            (_, true) => eval_op(*op, 1, *w, b.c, a.c, 0, 0, *w),
                        });
                    } else {
                        let (x, y) = (self.ex(a, *w), self.ex(b, *w));
                        let mut e = if *op == Op::Eq || !*flag { ar().cmp(*op, x, y) } else { ar().cmp(*op, y, x) };
                        if *op == Op::Eq && *flag { e = ar().not(e) }
                        let e = ar().zext(e, 32);
                        r = self.norm(e);
                    }
                    s.stack.push(r);
                    pc += 1;
                }
                I::Eqz(w) => {
                    let a = pop!(s);
                    let r = if a.e == 0 { cv((a.c == 0) as u64) } else { let z = ar().konst(0, *w); let e = ar().eq(a.e, z); let e = ar().zext(e, 32); self.norm(e) };
                    s.stack.push(r);
                    pc += 1;
                }
                I::Un(op, w) => {
                    let a = pop!(s);
                    let r = if a.e == 0 { cv(eval_op(*op, *w, *w, a.c, 0, 0, 0, 0)) } else { let e = ar().mk(*op, *w, a.e, 0, 0, 0); self.norm(e) };
                    s.stack.push(r);
                    pc += 1;
                }
                I::Wrap => { let a = pop!(s); let r = if a.e == 0 { cv(a.c as u32 as u64) } else { let e = ar().extract(a.e, 0, 32); self.norm(e) }; s.stack.push(r); pc += 1 }
                I::Ext(from, to, signed) => {
                    let a = pop!(s);
                    let r = if a.e == 0 { let x = a.c & mask(*from); cv(if *signed { sx(x, *from) as u64 & mask(*to) } else { x }) }
                        else { let x = ar().extract(a.e, 0, *from); let e = if *signed { ar().sext(x, *to) } else { ar().zext(x, *to) }; self.norm(e) };
                    s.stack.push(r);
                    pc += 1;
                }
                I::Load(n, sg, w, off) => {
                    let a = *s.stack.last().unwrap();
                    let v = if a.e == 0 {
                        match self.load(s, a.c + *off as u64, *n as usize) { Some(v) => v, None => { save!(); return Ctl::Trap } }
                    } else {
                        save!();
                        match try_!(self.sym_load(s, a.e, *off as u64, *n as usize)) { Some(v) => v, None => return Ctl::Trap }
                    };
                    let fw = *n * 8;
                    let r = if v.e == 0 { if *sg { cv(sx(v.c, fw) as u64 & mask(*w)) } else { v } }
                        else { let e = if *sg { ar().sext(v.e, *w) } else { ar().zext(v.e, *w) }; self.norm(e) };
                    *s.stack.last_mut().unwrap() = r;
                    pc += 1;
                }
                I::Store(n, off) => {
                    let l = s.stack.len();
                    let (a, v) = (s.stack[l - 2], s.stack[l - 1]);
                    let ad = if a.e == 0 { a.c } else { save!(); try_!(self.concretize(s, a, 256)) };
                    s.stack.truncate(l - 2);
                    if self.store(s, ad + *off as u64, v, *n as usize).is_none() { save!(); return Ctl::Trap }
                    pc += 1;
                }
                I::BrIf(t) => {
                    let c = *s.stack.last().unwrap();
                    let b = if c.e == 0 { c.c != 0 } else { save!(); let z = ar().konst(0, 32); let q = ar().eq(c.e, z); let q = ar().not(q); try_!(self.branch(s, q)) };
                    s.stack.pop();
                    if b { goto_tgt!(t) } else { pc += 1 }
                }
                I::BrIfNot(t) => {
                    let c = *s.stack.last().unwrap();
                    let b = if c.e == 0 { c.c != 0 } else { save!(); let z = ar().konst(0, 32); let q = ar().eq(c.e, z); let q = ar().not(q); try_!(self.branch(s, q)) };
                    s.stack.pop();
                    if b { pc += 1 } else { pc = *t as usize }
                }
                I::Br(t) => goto_tgt!(t),
                I::Goto(t) => pc = *t as usize,
                I::BrTable(ts) => {
                    let c = *s.stack.last().unwrap();
                    let k = if c.e == 0 { c.c } else {
                        save!();
                        // fork by target
                        let v = if ar().hi[c.e as usize] as usize >= ts.len() { let lim = ar().konst(ts.len() as u64 - 1, 32); let q = ar().cmp(Op::Ult, c.e, lim); let x = ar().ite(q, c.e, lim); self.norm(x) } else { c };
                        // group equal targets through a table
                        let tv = if v.e != 0 && ar().hi[v.e as usize] < ts.len() as u64 {
                            let (lo, hi) = (ar().lo[v.e as usize], ar().hi[v.e as usize]);
                            let t: Vec<u64> = (lo..=hi).map(|i| { let p = ts[i as usize].pc; ts.iter().position(|x| x.pc == p).unwrap() as u64 }).collect();
                            let e = ar().mk_tbl(v.e, lo, t, 32);
                            self.norm(e)
                        } else { v };
                        try_!(self.concretize(s, tv, 512))
                    };
                    s.stack.pop();
                    let t = ts[(k as usize).min(ts.len() - 1)];
                    goto_tgt!(t);
                }
                I::Return => {
                    let n = unsafe { (&(*module).types)[func.ty as usize].results.len() };
                    let l = s.stack.len();
                    for i in 0..n { s.stack[base + i] = s.stack[l - n + i] }
                    s.stack.truncate(base + n);
                    let f = s.frames.pop().unwrap();
                    if f.is_try { s.stack.truncate(base); s.stack.push(cv(0)) }
                    if s.frames.is_empty() { return Ctl::End }
                    return Ctl::Next;
                }
                I::Call(f) => {
                    pc += 1;
                    save!();
                    return self.call(s, *f, fi);
                }
                I::CallInd(t) => {
                    let c = *s.stack.last().unwrap();
                    save!();
                    let k = try_!(self.concretize(s, c, 64));
                    s.stack.pop();
                    pc += 1;
                    save!();
                    let Some(Some(f)) = self.m.table.get(k as usize).copied() else { return Ctl::Trap };
                    if self.m.types[self.m.ty_of[f as usize] as usize] != self.m.types[*t as usize] { return Ctl::Trap }
                    // a retry of a fork inside the callee prologue must re-push the index
                    s.stack.push(c);
                    let idx = s.stack.pop();
                    let _ = idx;
                    return self.call(s, f, usize::MAX);
                }
                I::Drop => { s.stack.pop(); pc += 1 }
                I::Select => {
                    let c = pop!(s);
                    let b = pop!(s);
                    let a = pop!(s);
                    let r = if c.e == 0 { if c.c != 0 { a } else { b } } else if a == b { a } else {
                        let wd = if a.e != 0 { ar().w(a.e) } else if b.e != 0 { ar().w(b.e) } else if a.c > 0xffff_ffff || b.c > 0xffff_ffff { 64 } else { 0 };
                        let z = ar().konst(0, 32);
                        let q = ar().eq(c.e, z);
                        let q = ar().not(q);
                        match self.dom_decide(s, q, 12) {
                            Some(t) => if t { a } else { b },
                            None => {
                                if wd == 0 {
                                    // width unknown: decide by looking at the consumer's type is not available; encode at both widths lazily is not possible, so fork
                                    s.stack.push(a); s.stack.push(b); s.stack.push(c);
                                    match self.sel_width(fr.f, pc) {
                                        Some(w) => { s.stack.truncate(s.stack.len() - 3); let (x, y) = (self.ex(a, w), self.ex(b, w)); let e = ar().ite(q, x, y); self.norm(e) }
                                        None => { save!(); let t = try_!(self.branch(s, q)); s.stack.truncate(s.stack.len() - 3); if t { a } else { b } }
                                    }
                                } else { let (x, y) = (self.ex(a, wd), self.ex(b, wd)); let e = ar().ite(q, x, y); self.norm(e) }
                            }
                        }
                    };
                    s.stack.push(r);
                    pc += 1;
                }
                I::GGet(i) => { let v = s.globals[*i as usize]; s.stack.push(v); pc += 1 }
                I::GSet(i) => { let v = pop!(s); if v.e != 0 { s.stack.push(v); save!(); let k = try_!(self.concretize(s, v, 64)); s.stack.pop(); s.globals[*i as usize] = cv(k) } else { s.globals[*i as usize] = v } pc += 1 }
                I::MemSize => { s.stack.push(cv((s.mem.len() * PS / 65536) as u64)); pc += 1 }
                I::MemGrow => {
                    let v = pop!(s);
                    let old = s.mem.len() * PS / 65536;
                    let n = (v.c as usize) * 65536 / PS;
                    if v.e != 0 || old + v.c as usize > 2048 { s.stack.push(cv(0xffff_ffff)) }
                    else { let z = Rc::new(Page { b: [0; PS], s: None }); for _ in 0..n { s.mem.push(z.clone()) } s.stack.push(cv(old as u64)) }
                    pc += 1;
                }
                I::MemCopy | I::MemFill => {
                    let l = s.stack.len();
                    save!();
                    let n = s.stack[l - 1];
                    let n = try_!(self.concretize(s, n, 64));
                    let d = s.stack[l - 3];
                    let d = try_!(self.concretize(s, d, 64));
                    let a = s.stack[l - 2];
                    let ok = if let I::MemCopy = ins { let a = try_!(self.concretize(s, a, 64)); self.copy(s, d as usize, a as usize, n as usize) } else { self.fill(s, d as usize, a, n as usize) };
                    if ok.is_none() { return Ctl::Trap }
                    s.stack.truncate(l - 3);
                    pc += 1;
                }
                I::Unreachable => { save!(); return Ctl::Trap }
                I::Unsup(op) => { save!(); self.errors.push(format!("unsupported opcode {op:#x} executed in {}", func.name)); return Ctl::Kill }
            }
        }
    }

    /// Operand width of a `select` whose operands are small constants, from the instructions that follow it.
    fn sel_width(&self, f: u32, pc: usize) -> Option<u8> {
        let fu = &self.m.funcs[f as usize];
        match fu.code.get(pc + 1)? {
            I::Store(8, _) => None,
            I::Store(4, _) | I::Load(..) | I::BrIf(_) | I::BrIfNot(_) | I::BrTable(_) => Some(32),
            I::Bin(_, w) => Some(*w),
            I::Cmp(_, w, _) => Some(*w),
            I::Eqz(w) => Some(*w),
            _ => None,
        }
    }

    fn sym_load(&mut self, s: &mut State, a: E, off: u64, n: usize) -> Result<Option<V>, ()> {
        if let Some(x) = s.conc.get(&a).copied() { return Ok(self.load(s, x + off, n)) }
        let (lo, hi) = (ar().lo[a as usize], ar().hi[a as usize]);
        if hi - lo < 4096 && ((hi + off) as usize + n) <= s.mem.len() * PS {
            let mut t = vec![];
            let mut ok = true;
            for x in lo..=hi { match self.load(s, x + off, n) { Some(v) if v.e == 0 => t.push(v.c), _ => { ok = false; break } } }
            if ok { let e = ar().mk_tbl(a, lo, t, n as u8 * 8); return Ok(Some(self.norm(e))) }
        }
        let x = self.concretize(s, V { c: 0, e: a }, 256)?;
        Ok(self.load(s, x + off, n))
    }

    fn call(&mut self, s: &mut State, f: u32, fi: usize) -> Ctl {
        macro_rules! try_ { ($e:expr) => { match $e { Ok(x) => x, Err(()) => return Ctl::Kill } } }
        // states forked from here must re-execute the call
        macro_rules! retry { ($b:block) => {{ if fi != usize::MAX { s.frames[fi].pc -= 1 } let r = $b; if fi != usize::MAX { s.frames[fi].pc += 1 } r }} }
        let ni = self.m.imports.len();
        if (f as usize) < ni { return self.host(s, f, fi) }
        match self.hooks[f as usize] {
            Hook::None => {}
            Hook::Panic => { self.executed[f as usize] += 1; return Ctl::Trap }
            Hook::AllocLike(_) if fi != usize::MAX => {
                let l = s.stack.len();
                let np = self.m.types[self.m.ty_of[f as usize] as usize].params.len();
                for i in 0..np { let v = s.stack[l - np + i]; if v.e != 0 { let k = retry!({ try_!(self.concretize(s, v, 256)) }); s.stack[l - np + i] = cv(k) } }
            }
            Hook::AllocLike(_) => {}
            h if fi != usize::MAX => {
                let l = s.stack.len();
                let n = s.stack[l - 1];
                let n = retry!({ try_!(self.concretize(s, n, 256)) }) as usize;
                let a = s.stack[l - 3];
                let a = retry!({ try_!(self.concretize(s, a, 64)) }) as usize;
                let lim = s.mem.len() * PS;
                match h {
                    Hook::Memset => { let v = s.stack[l - 2]; if self.fill(s, a, v, n).is_none() { return Ctl::Trap } s.stack.truncate(l - 3); s.stack.push(cv(a as u64)) }
                    _ => {
                        let b = s.stack[l - 2];
                        let b = retry!({ try_!(self.concretize(s, b, 64)) }) as usize;
                        if n > 0 && (a + n > lim || b + n > lim) { return Ctl::Trap }
                        let ordered = h == Hook::Memcmp;
                        let r = if ordered { self.cmp_bytes(s, a, b, n, true) } else { if self.copy(s, a, b, n).is_none() { return Ctl::Trap } cv(a as u64) };
                        s.stack.truncate(l - 3);
                        s.stack.push(r);
                    }
                }
                self.executed[f as usize] += 1;
                return Ctl::Next;
            }
            _ => {}
        }
        if s.frames.len() > 2000 { return Ctl::Trap }
        self.enter(s, f, false);
        Ctl::Next
    }

    fn var(&mut self, pos: usize, w: u8, lo: u64, hi: u64, dom: Option<[u64; 4]>) -> E {
        let k = (pos, w, lo, hi, dom);
        if let Some(e) = self.varkey.get(&k) { return *e }
        let e = ar().new_var(w, lo, hi, dom);
        self.varkey.insert(k, e);
        e
    }

    fn host(&mut self, s: &mut State, f: u32, fi: usize) -> Ctl {
        macro_rules! try_ { ($e:expr) => { match $e { Ok(x) => x, Err(()) => return Ctl::Kill } } }
        macro_rules! retry { ($b:block) => {{ if fi != usize::MAX { s.frames[fi].pc -= 1 } let r = $b; if fi != usize::MAX { s.frames[fi].pc += 1 } r }} }
        let l = s.stack.len();
        let np = self.m.types[self.m.ty_of[f as usize] as usize].params.len();
        let mut args: Vec<V> = s.stack[l - np..].to_vec();
        // pointers, lengths and bounds must be concrete; truth values (first argument of assume/assert, connectives) may not be
        let from = match self.imp[f as usize] { 4 | 5 => 1, 10 | 13 | 14 => np, _ => 0 };
        for a in args[from..].iter_mut() { if a.e != 0 { let v = *a; let k = retry!({ try_!(self.concretize(s, v, 256)) }); *a = cv(k) } }
        let bool_of = |v: V| -> V { if v.e == 0 { cv((v.c != 0) as u64) } else { let z = ar().konst(0, ar().w(v.e)); let q = ar().eq(v.e, z); let q = ar().not(q); match ar().as_const(q) { Some(c) => cv(c), None => V { c: 0, e: q } } } };
        let mut ret: Option<V> = None;
        match self.imp[f as usize] {
            1 => { // sym_u64(lo, hi)
                let (lo, hi) = (args[0].c, args[1].c);
                let v = if lo == hi { cv(lo) } else { let e = self.var(s.inputs.len(), 64, lo, hi, None); V { c: 0, e } };
                s.inputs.push(v);
                ret = Some(v);
            }
            11 => { // sym_bytes(ptr, len, class_ptr)
                let mut d = [0u64; 4];
                for i in 0..4 { match self.load(s, args[2].c + 8 * i, 8) { Some(v) => d[i as usize] = v.c, None => return Ctl::Trap } }
                for i in 0..args[1].c as usize {
                    let e = self.dom_var(s.inputs.len(), d);
                    let v = self.norm(e);
                    s.inputs.push(v);
                    Self::stb(s, args[0].c as usize + i, v);
                }
            }
            3 => { // choose(n)
                let n = args[0].c;
                let mut opts: Vec<u64> = (0..n).collect();
                // sharding: the first choices of a path (enough of them to spread) name it; each name belongs to one shard
                let k = self.cfg.shard.1;
                let (id, total) = s.shard;
                let open = k > 1 && total < 16 * k;
                if open && total * n >= 16 * k { opts.retain(|x| (id.wrapping_mul(n).wrapping_add(*x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) % k == self.cfg.shard.0) }
                if opts.is_empty() { return Ctl::Kill }
                let name = |x: u64| if open { (id * n + x, total * n) } else { (id, total) };
                s.shard = name(opts[0]);
                for x in opts[1..].iter().rev() {
                    let mut o = s.clone();
                    o.shard = name(*x);
                    o.stack.truncate(l - np);
                    o.stack.push(cv(*x));
                    o.inputs.push(cv(*x));
                    o.depth += 1;
                    self.st.forks += 1;
                    self.work.push(o);
                }
                s.inputs.push(cv(opts[0]));
                ret = Some(cv(opts[0]));
            }
            12 => { // pick(n): a symbolic value in 0..n without forking
                let n = args[0].c;
                let v = if n == 1 { cv(0) } else { let e = self.var(s.inputs.len(), 64, 0, n - 1, None); V { c: 0, e } };
                s.inputs.push(v);
                ret = Some(v);
            }
            4 => {
                let v = bool_of(args[0]);
                if v.e == 0 { if v.c == 0 { self.st.assume_pruned += 1; return Ctl::Kill } }
                else {
                    match try_!(self.feasible(s, v.e)) { None => { self.st.assume_pruned += 1; return Ctl::Kill } Some(m) => { s.model = m; self.add_pc(s, v.e) } }
                }
            }
            5 => {
                let id = self.cstr(s, args[1], args[2]);
                let v = bool_of(args[0]);
                self.st.asserts += 1;
                let ent = self.assert_ids.entry(id.clone()).or_insert((0, 0));
                ent.0 += 1;
                if v.e == 0 {
                    self.st.asserts_folded += 1;
                    if v.c == 0 { let m = s.model.clone(); self.violation(s, id, &m, "assertion false on a feasible path"); return Ctl::Kill }
                } else {
                    ent.1 += 1;
                    self.st.asserts_solver += 1;
                    let nc = ar().not(v.e);
                    if let Some(m) = try_!(self.feasible(s, nc)) { self.violation(s, id, &m, "solver model of path and not(assertion)"); }
                    match try_!(self.feasible(s, v.e)) { None => return Ctl::Kill, Some(m) => { s.model = m; self.add_pc(s, v.e) } }
                }
            }
            6 => { let id = self.cstr(s, args[0], args[1]); let k = self.sid(&id); s.covers.insert(k); }
            7 => {
                let n = args[2].c as usize;
                let r = self.cmp_bytes(s, args[0].c as usize, args[1].c as usize, n, false);
                if r.e == 0 && self.cfg.audit > 0 { self.eq_claim(s, args[0].c as usize, args[1].c as usize, n, r.c == 0) }
                ret = Some(if r.e == 0 { cv((r.c == 0) as u64) } else { let z = ar().konst(0, 32); let q = ar().eq(r.e, z); let q = ar().zext(q, 32); self.norm(q) });
            }
            8 => { // try_(fnptr, data) -> i32
                let Some(Some(g)) = self.m.table.get(args[0].c as usize).copied() else { return Ctl::Trap };
                s.stack.truncate(l - np);
                s.stack.push(args[1]);
                self.enter(s, g, true);
                return Ctl::Next;
            }
            9 => { // note(kptr, klen, ptr, len)
                let id = self.cstr(s, args[0], args[1]);
                let k = self.sid(&id);
                let n = args[3].c as usize;
                let v = (0..n).map(|i| Self::ldb(s, args[2].c as usize + i)).collect();
                s.notes.push((k, v));
            }
            10 => ret = Some(cv((args[0].e != 0) as u64)),
            15 => ret = Some(cv(self.cfg.deep)),
            13 | 14 => { // non-forking Boolean connectives
                let (a, b) = (bool_of(args[0]), bool_of(args[1]));
                let (x, y) = (self.ex(a, 1), self.ex(b, 1));
                let e = if self.imp[f as usize] == 13 { ar().and(x, y) } else { ar().or(x, y) };
                let e = ar().zext(e, 32);
                ret = Some(self.norm(e));
            }
            _ => {
                let i = &self.m.imports[f as usize];
                if i.module != "vp" { return Ctl::Trap }
                self.errors.push(format!("unknown import {}.{}", i.module, i.name));
                return Ctl::Kill;
            }
        }
        let _ = |s: &mut State| { retry!({ s.steps }) };
        s.stack.truncate(l - np);
        if let Some(r) = ret { s.stack.push(r) }
        Ctl::Next
    }
    fn dom_var(&mut self, pos: usize, d: [u64; 4]) -> E {
        let n: u32 = d.iter().map(|x| x.count_ones()).sum();
        let lo = (0..256).find(|i| dom_has(&d, *i)).unwrap();
        let hi = (0..256).rev().find(|i| dom_has(&d, *i)).unwrap();
        if n == 1 { return ar().konst(lo, 8) }
        self.var(pos, 8, lo, hi, Some(d))
    }
}

pub fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok())).unwrap_or(0.0) * 4096.0 / 1e9
}

pub fn is_panic(s: &str) -> bool {
    const P: &[&str] = &["core9panicking", "core::panicking", "rust_begin_unwind", "rust_panic", "begin_panic_handler", "unwrap_failed", "expect_failed", "slice_start_index_len_fail", "slice_end_index_len_fail",
        "slice_index_order_fail", "slice_error_fail", "slice_index_fail", "handle_alloc_error", "raw_vec12handle_error", "raw_vec::handle_error", "capacity_overflow", "panic_already_borrowed", "panic_already_mutably_borrowed", "std7process5abort", "std::process::abort", "panic_access_error", "len_mismatch_fail"];
    P.iter().any(|p| s.contains(p))
}

pub fn show(e: E, d: u32) -> String {
    if e == 0 { return "-".into() }
    let n = ar().n[e as usize];
    match n.op {
        Op::Const => format!("{:#x}", n.k),
        Op::Var => format!("v{}", n.k),
        _ if d == 0 => "..".into(),
        Op::Tbl => format!("tbl{}({})", n.k, show(n.a, d - 1)),
        _ => { let mut s = format!("({:?}{}", n.op, n.w); for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &show(x, d - 1) } } if n.op == Op::Extract { s += &format!(" @{}", n.k) } s + ")" }
    }
}
