//! Z3 back end (C API) for the terms of `expr`.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_ext_rotate_left(c: P, a: P, b: P) -> P;
    fn Z3_mk_ext_rotate_right(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 API error {e}");
    std::process::exit(2);
}

pub enum Res { Sat(HashMap<u32, u64>), Unsat, Unknown }

pub struct Smt {
    c: P,
    params: P,
    logic: P,
    memo: HashMap<E, P, Fx>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    cache: HashMap<Vec<E>, Option<HashMap<u32, u64>>>,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
    aparams: P,
    pub audit_time: f64,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let aparams = Z3_mk_params(c);
            Z3_params_inc_ref(c, aparams);
            Z3_params_set_uint(c, aparams, Z3_mk_string_symbol(c, k.as_ptr()), 2000);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            Smt { c, params, logic, memo: Default::default(), queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, time: 0.0, max_time: 0.0, cache: Default::default(), dump_dir: None, dump_every: 1, dumped: 0, aparams, audit_time: 0.0 }
        }
    }
    fn num(&self, v: u64, w: u8) -> P { unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w as c_uint)) } }
    fn as_bv(&self, e: E) -> P {
        let p = self.memo[&e];
        if ar().w(e) == 1 { unsafe { Z3_mk_ite(self.c, p, self.num(1, 1), self.num(0, 1)) } } else { p }
    }
    fn tr(&mut self, root: E) -> P {
        if let Some(p) = self.memo.get(&root) { return *p }
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            if self.memo.contains_key(&x) { st.pop(); continue }
            let n = ar().n[x as usize];
            let mut ready = true;
            if n.op != Op::Const && n.op != Op::Var {
                for y in [n.a, n.b, n.c] { if y != 0 && !self.memo.contains_key(&y) { st.push(y); ready = false } }
            }
            if !ready { continue }
            let p = self.tr1(n);
            self.memo.insert(x, p);
            st.pop();
        }
        self.memo[&root]
    }
    fn tr1(&mut self, n: Node) -> P {
        let c = self.c;
        let w = n.w;
        unsafe {
            let g = |s: &Self, e: E| s.memo[&e];
            match n.op {
                Op::Const => if w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.k, w) },
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let p = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w as c_uint));
                    if w == 1 { Z3_mk_eq(c, p, self.num(1, 1)) } else { p }
                }
                Op::Tbl => self.tr_tbl(n),
                Op::And if w == 1 => { let a = [g(self, n.a), g(self, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or if w == 1 => { let a = [g(self, n.a), g(self, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor if w == 1 => Z3_mk_xor(c, g(self, n.a), g(self, n.b)),
                Op::Not if w == 1 => Z3_mk_not(c, g(self, n.a)),
                Op::Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                Op::Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                Op::Extract => { let p = Z3_mk_extract(c, (n.k + w as u64 - 1) as c_uint, n.k as c_uint, self.as_bv(n.a)); if w == 1 { Z3_mk_eq(c, p, self.num(1, 1)) } else { p } }
                Op::Concat => Z3_mk_concat(c, self.as_bv(n.a), self.as_bv(n.b)),
                Op::ZExt => { let aw = ar().w(n.a); if aw == 1 { Z3_mk_ite(c, g(self, n.a), self.num(1, w), self.num(0, w)) } else { Z3_mk_zero_ext(c, (w - aw) as c_uint, g(self, n.a)) } }
                Op::SExt => { let aw = ar().w(n.a); if aw == 1 { Z3_mk_ite(c, g(self, n.a), self.num(mask(w), w), self.num(0, w)) } else { Z3_mk_sign_ext(c, (w - aw) as c_uint, g(self, n.a)) } }
                Op::Clz => { let a = g(self, n.a); let mut r = self.num(w as u64, w); for i in 0..w { let bit = Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, a), self.num(1, 1)); r = Z3_mk_ite(c, bit, self.num((w - 1 - i) as u64, w), r) } r }
                Op::Ctz => { let a = g(self, n.a); let mut r = self.num(w as u64, w); for i in (0..w).rev() { let bit = Z3_mk_eq(c, Z3_mk_extract(c, i as c_uint, i as c_uint, a), self.num(1, 1)); r = Z3_mk_ite(c, bit, self.num(i as u64, w), r) } r }
                Op::Popcnt => { let a = g(self, n.a); let mut r = self.num(0, w); for i in 0..w { r = Z3_mk_bvadd(c, r, Z3_mk_zero_ext(c, (w - 1) as c_uint, Z3_mk_extract(c, i as c_uint, i as c_uint, a))) } r }
                _ => {
                    let a = if w == 1 && !matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) { self.as_bv(n.a) } else { self.as_bv(n.a) };
                    let b = if n.b != 0 { self.as_bv(n.b) } else { a };
                    let p = match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Not => Z3_mk_bvnot(c, a),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Rotl => Z3_mk_ext_rotate_left(c, a, b), Op::Rotr => Z3_mk_ext_rotate_right(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    if w == 1 && !matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) { Z3_mk_eq(c, p, self.num(1, 1)) } else { p }
                }
            }
        }
    }
    fn tr_tbl(&mut self, n: Node) -> P {
        let c = self.c;
        let base = self.as_bv(n.a);
        let bw = ar().w(n.a);
        let (lo, t) = &ar().tables[n.k as usize];
        // runs of equal value or of equal (value - index) offset
        unsafe {
            let mut runs: Vec<(u64, u64, bool)> = vec![]; // (end index inclusive, value-or-offset, is_offset)
            let len = t.len();
            let mut i = 0;
            while i < len {
                let mut j = i;
                while j + 1 < len && t[j + 1] == t[i] { j += 1 }
                let mut l = i;
                while l + 1 < len && t[l + 1] == t[l] + 1 { l += 1 }
                if n.w > 1 && l > j + 1 { runs.push((lo + l as u64, t[i].wrapping_sub(lo + i as u64), true)); i = l + 1 } else { runs.push((lo + j as u64, t[i], false)); i = j + 1 }
            }
            let val = |s: &Self, r: &(u64, u64, bool)| -> P {
                if n.w == 1 { if r.1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                else if r.2 {
                    let b = if bw < n.w { Z3_mk_zero_ext(c, (n.w - bw) as c_uint, base) } else if bw > n.w { Z3_mk_extract(c, n.w as c_uint - 1, 0, base) } else { base };
                    if r.1 & mask(n.w) == 0 { b } else { Z3_mk_bvadd(c, b, s.num(r.1 & mask(n.w), n.w)) }
                } else { s.num(r.1, n.w) }
            };
            let mut it = runs.iter().rev();
            let last = it.next().unwrap();
            let mut r = val(self, last);
            for x in it { let v = val(self, x); r = Z3_mk_ite(c, Z3_mk_bvule(c, base, self.num(x.0, bw)), v, r) }
            r
        }
    }
    /// Rewrite audit: is `op(operands)` equal to the simplifier's result for all values of the static domains?
    pub fn same(&mut self, n: Node, r: E) -> Option<bool> {
        for e in [n.a, n.b, n.c, r] { if e != 0 { self.tr(e); } }
        let raw = self.tr1(n);
        let res = self.tr(r);
        let mut vs: Vec<u32> = vec![];
        for e in [n.a, n.b, n.c, r] { if e != 0 { vs.extend_from_slice(&ar().sups[ar().sup[e as usize] as usize]) } }
        let goal = unsafe { Z3_mk_not(self.c, Z3_mk_eq(self.c, raw, res)) };
        self.valid(vs, goal)
    }
    /// Equality audit: is the conjunction of the byte equalities equal to `want` for all values of the static domains?
    pub fn same_bytes(&mut self, pairs: &[(E, E)], want: bool) -> Option<bool> {
        let mut vs: Vec<u32> = vec![];
        let mut cs: Vec<P> = vec![];
        for (a, b) in pairs {
            let (x, y) = (self.tr(*a), self.tr(*b));
            for e in [a, b] { vs.extend_from_slice(&ar().sups[ar().sup[*e as usize] as usize]) }
            cs.push(unsafe { Z3_mk_eq(self.c, x, y) });
        }
        let all = unsafe { Z3_mk_and(self.c, cs.len() as c_uint, cs.as_ptr()) };
        let goal = if want { unsafe { Z3_mk_not(self.c, all) } } else { all };
        self.valid(vs, goal)
    }
    fn valid(&mut self, mut vs: Vec<u32>, goal: P) -> Option<bool> {
        let t0 = std::time::Instant::now();
        vs.sort_unstable();
        vs.dedup();
        let mut asserts = vec![];
        for v in &vs { self.domain(*v, &mut asserts) }
        asserts.push(goal);
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.aparams);
            for a in &asserts { Z3_solver_assert(self.c, s, *a) }
            let r = Z3_solver_check(self.c, s);
            Z3_solver_dec_ref(self.c, s);
            r
        };
        self.audit_time += t0.elapsed().as_secs_f64();
        match r { -1 => Some(true), 1 => Some(false), _ => None }
    }
    /// Static domain of a variable.
    fn domain(&mut self, v: u32, out: &mut Vec<P>) {
        let c = self.c;
        let (node, w, lo, hi, dom) = { let i = &ar().vars[v as usize]; (i.node, i.w, i.lo, i.hi, i.dom) };
        self.tr(node);
        let p = self.as_bv(node);
        unsafe {
            if lo > 0 { out.push(Z3_mk_bvule(c, self.num(lo, w), p)) }
            if hi < mask(w) { out.push(Z3_mk_bvule(c, p, self.num(hi, w))) }
            if let Some(d) = dom {
                // ranges
                let mut ors: Vec<P> = vec![];
                let mut i = 0u64;
                while i < 256 {
                    if dom_has(&d, i) {
                        let s = i;
                        while i < 255 && dom_has(&d, i + 1) { i += 1 }
                        let a = [Z3_mk_bvule(c, self.num(s, w), p), Z3_mk_bvule(c, p, self.num(i, w))];
                        ors.push(Z3_mk_and(c, 2, a.as_ptr()));
                    }
                    i += 1;
                }
                out.push(Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()));
            }
        }
    }
    /// Is the conjunction of `cs` (width-1 terms) satisfiable within the static domains?
    pub fn check(&mut self, cs: &[E], extra_vars: &[u32]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t0 = std::time::Instant::now();
        let mut vs: Vec<u32> = extra_vars.to_vec();
        for e in &key { vs.extend_from_slice(&ar().sups[ar().sup[*e as usize] as usize]) }
        vs.sort_unstable();
        vs.dedup();
        let mut asserts = vec![];
        for v in &vs { self.domain(*v, &mut asserts) }
        for e in &key { let p = self.tr(*e); asserts.push(p) }
        let res = unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for a in &asserts { Z3_solver_assert(self.c, s, *a) }
            let txt = if self.dump_dir.is_some() && self.queries % self.dump_every == 0 { CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned() } else { String::new() };
            let r = Z3_solver_check(self.c, s);
            if let Some(d) = &self.dump_dir {
                if self.queries % self.dump_every == 0 && r != 0 && self.dumped < 60 {
                    let _ = std::fs::write(format!("{d}/q{:06}.{}.smt2", self.queries, if r == 1 { "sat" } else { "unsat" }), format!("(set-logic QF_BV)\n{txt}\n(check-sat)\n"));
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut mm = HashMap::new();
                    for v in &vs {
                        let node = ar().vars[*v as usize].node;
                        let p = self.as_bv(node);
                        let mut val: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, p, true, &mut val) && Z3_get_numeral_uint64(self.c, val, &mut u) { mm.insert(*v, u); }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(mm)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time { self.max_time = dt }
        match &res {
            Res::Sat(m) => { self.sat += 1; self.cache.insert(key, Some(m.clone())); }
            Res::Unsat => { self.unsat += 1; self.cache.insert(key, None); }
            Res::Unknown => self.unknown += 1,
        }
        res
    }
}
