//! Hash-consed bit-vector terms with aggressive, sound simplification.
//!
//! A term has a width (1..=64), an unsigned interval and a support (set of variables).
//! Terms that depend on one small "base" term are normalised to `Tbl` nodes (a total function
//! table over the base's interval), so every function of one symbolic byte has one canonical form.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Tbl,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr, Rotl, Rotr,
    Clz, Ctz, Popcnt,
    Eq, Ult, Ule, Slt, Sle,
    Not, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u64 }

pub struct VarInfo { pub w: u8, pub lo: u64, pub hi: u64, pub dom: Option<[u64; 4]>, pub node: E }

pub struct Arena {
    pub n: Vec<Node>,
    pub lo: Vec<u64>,
    pub hi: Vec<u64>,
    pub sup: Vec<u32>,
    map: HashMap<Node, E, Fx>,
    pub tables: Vec<(u64, Box<[u64]>)>,
    tmap: HashMap<(u64, Box<[u64]>), u32>,
    pub sups: Vec<Box<[u32]>>,
    smap: HashMap<Box<[u32]>, u32>,
    sunion: HashMap<(u32, u32), u32, Fx>,
    pub vars: Vec<VarInfo>,
    /// distinct rewrites performed by the simplifier (operator applied to non-constant operands, result), sampled
    pub rw_seen: u64,
    pub rw_cap: usize,
    pub rw: Vec<(Node, E)>,
    rw_rnd: u64,
}

#[derive(Default, Clone, Copy)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
}

pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn dom_has(d: &[u64; 4], i: u64) -> bool { i < 256 && (d[(i >> 6) as usize] >> (i & 63)) & 1 == 1 }

/// Concrete semantics of every operator: the single source of truth for folding, tables and model evaluation.
pub fn eval_op(op: Op, w: u8, aw: u8, a: u64, b: u64, c: u64, k: u64, bw: u8) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u64 & m }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u64 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (sx(a, w) >> s) as u64 & m }
        Op::Rotl => { let s = b % w as u64; if s == 0 { a } else { ((a << s) | (a >> (w as u64 - s))) & m } }
        Op::Rotr => { let s = b % w as u64; if s == 0 { a } else { ((a >> s) | (a << (w as u64 - s))) & m } }
        Op::Clz => if a == 0 { w as u64 } else { (a.leading_zeros() as u64) - (64 - w as u64) },
        Op::Ctz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
        Op::Popcnt => a.count_ones() as u64,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u64,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u64,
        Op::Not => !a & m,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => ((a << bw) | b) & m,
        Op::Extract => (a >> k) & m,
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u64) & m,
        Op::Const | Op::Var | Op::Tbl => unreachable!(),
    }
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() { ARENA = Some(Arena::new()) }
        ARENA.as_mut().unwrap()
    }
}

impl Arena {
    fn new() -> Self {
        let mut s = Arena { n: vec![], lo: vec![], hi: vec![], sup: vec![], map: Default::default(), tables: vec![], tmap: Default::default(),
            sups: vec![Box::new([])], smap: Default::default(), sunion: Default::default(), vars: vec![], rw_seen: 0, rw_cap: 0, rw: vec![], rw_rnd: 0x9e3779b97f4a7c15 };
        s.smap.insert(Box::new([]), 0);
        // id 0 is reserved
        s.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        s.lo.push(0); s.hi.push(0); s.sup.push(0);
        s
    }
    fn sup_intern(&mut self, v: Vec<u32>) -> u32 {
        let b: Box<[u32]> = v.into();
        if let Some(i) = self.smap.get(&b) { return *i }
        let i = self.sups.len() as u32;
        self.sups.push(b.clone());
        self.smap.insert(b, i);
        i
    }
    fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a }
        if a == 0 { return b }
        let key = (a.min(b), a.max(b));
        if let Some(i) = self.sunion.get(&key) { return *i }
        let mut v: Vec<u32> = self.sups[a as usize].to_vec();
        v.extend_from_slice(&self.sups[b as usize]);
        v.sort_unstable();
        v.dedup();
        let i = self.sup_intern(v);
        self.sunion.insert(key, i);
        i
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(i) = self.map.get(&nd) { return *i }
        let id = self.n.len() as E;
        let (lo, hi) = self.range_of(&nd);
        let s = match nd.op {
            Op::Const => 0,
            Op::Var => self.sup_intern(vec![nd.k as u32]),
            _ => {
                let mut s = self.sup[nd.a as usize];
                if nd.b != 0 { let t = self.sup[nd.b as usize]; s = self.sup_union(s, t) }
                if nd.c != 0 { let t = self.sup[nd.c as usize]; s = self.sup_union(s, t) }
                s
            }
        };
        self.n.push(nd);
        self.lo.push(lo);
        self.hi.push(hi);
        self.sup.push(s);
        self.map.insert(nd, id);
        id
    }
    pub fn w(&self, e: E) -> u8 { self.n[e as usize].w }
    pub fn konst(&mut self, v: u64, w: u8) -> E { self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn as_const(&self, e: E) -> Option<u64> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn new_var(&mut self, w: u8, lo: u64, hi: u64, dom: Option<[u64; 4]>) -> E {
        let id = self.vars.len();
        self.vars.push(VarInfo { w, lo, hi, dom, node: 0 });
        let e = self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u64 });
        self.vars[id].node = e;
        e
    }

    fn range_of(&self, nd: &Node) -> (u64, u64) {
        let m = mask(nd.w);
        let full = (0, m);
        let l = |e: E| self.lo[e as usize];
        let h = |e: E| self.hi[e as usize];
        match nd.op {
            Op::Const => (nd.k, nd.k),
            Op::Var => { let v = &self.vars[nd.k as usize]; (v.lo, v.hi) }
            Op::Tbl => {
                let (_, t) = &self.tables[nd.k as usize];
                (*t.iter().min().unwrap(), *t.iter().max().unwrap())
            }
            Op::Add => {
                let hi = h(nd.a) as u128 + h(nd.b) as u128;
                let lo = l(nd.a) as u128 + l(nd.b) as u128;
                if hi <= m as u128 { (lo as u64, hi as u64) }
                else if lo > m as u128 && hi <= 2 * m as u128 + 1 { ((lo - m as u128 - 1) as u64, (hi - m as u128 - 1) as u64) }
                else { full }
            }
            Op::Sub => if l(nd.a) >= h(nd.b) { (l(nd.a) - h(nd.b), h(nd.a) - l(nd.b)) } else { full },
            Op::Mul => { let hi = h(nd.a) as u128 * h(nd.b) as u128; if hi <= m as u128 { ((l(nd.a) as u128 * l(nd.b) as u128) as u64, hi as u64) } else { full } }
            Op::UDiv => if l(nd.b) > 0 { (l(nd.a) / h(nd.b), h(nd.a) / l(nd.b)) } else { full },
            Op::URem => if l(nd.b) > 0 {
                if h(nd.a) < l(nd.b) { (l(nd.a), h(nd.a)) } else { (0, (h(nd.b) - 1).min(h(nd.a))) }
            } else { full },
            Op::And => (0, h(nd.a).min(h(nd.b))),
            Op::Or | Op::Xor => {
                let x = h(nd.a) | h(nd.b);
                let bits = 64 - x.leading_zeros();
                let hi = if bits == 0 { 0 } else { mask(bits as u8) };
                (if nd.op == Op::Or { l(nd.a).max(l(nd.b)) } else { 0 }, hi.min(m))
            }
            Op::LShr => (0, h(nd.a)),
            Op::Clz => { let (a, b) = (l(nd.a), h(nd.a)); let f = |x: u64| if x == 0 { nd.w as u64 } else { x.leading_zeros() as u64 - (64 - nd.w as u64) }; (f(b), f(a)) }
            Op::Ctz | Op::Popcnt => (0, nd.w as u64),
            Op::Ite => (l(nd.b).min(l(nd.c)), h(nd.b).max(h(nd.c))),
            Op::Concat => { let bw = self.w(nd.b); ((l(nd.a) << bw) | l(nd.b), (h(nd.a) << bw) | h(nd.b)) }
            Op::Extract => {
                let (a, b) = (l(nd.a), h(nd.a));
                if b >> nd.k <= m { (a >> nd.k, b >> nd.k) } else { full }
            }
            Op::ZExt => (l(nd.a), h(nd.a)),
            Op::SExt => { let aw = self.w(nd.a); if h(nd.a) <= mask(aw - 1) { (l(nd.a), h(nd.a)) } else { full } }
            Op::Not => (m - h(nd.a), m - l(nd.a)),
            _ => full,
        }
    }

    /// View a term as a table over a base.
    fn as_tbl(&self, e: E) -> Option<E> {
        let n = &self.n[e as usize];
        match n.op {
            Op::Tbl => Some(n.a),
            Op::Var if self.vars[n.k as usize].dom.is_some() => Some(e),
            _ => None,
        }
    }
    pub fn tbl_at(&self, e: E, base_val: u64) -> u64 {
        let n = &self.n[e as usize];
        match n.op {
            Op::Tbl => { let (lo, t) = &self.tables[n.k as usize]; t[(base_val - lo) as usize] }
            Op::Const => n.k,
            _ => base_val,
        }
    }
    pub fn mk_tbl(&mut self, base: E, lo: u64, mut t: Vec<u64>, w: u8) -> E {
        let bn = self.n[base as usize];
        if bn.op == Op::Const { return self.konst(t[(bn.k - lo) as usize], w) }
        // canonicalise entries outside the base's static domain
        if bn.op == Op::Var {
            if let Some(d) = self.vars[bn.k as usize].dom {
                let first = (0..t.len()).find(|i| dom_has(&d, lo + *i as u64)).expect("empty domain");
                let fv = t[first];
                for i in 0..t.len() { if !dom_has(&d, lo + i as u64) { t[i] = fv } }
                if w == bn.w && (0..t.len()).all(|i| !dom_has(&d, lo + i as u64) || t[i] == lo + i as u64) { return base }
            }
        } else if bn.op == Op::Tbl {
            // compose
            let (l2, t2) = self.tables[bn.k as usize].clone();
            let nt: Vec<u64> = t2.iter().map(|x| t[(*x - lo) as usize]).collect();
            return self.mk_tbl(bn.a, l2, nt, w);
        } else if w == bn.w && t.iter().enumerate().all(|(i, x)| *x == lo + i as u64) { return base }
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0], w) }
        // w-bit identity over a narrower base: keep structural form as zext
        let key = (lo, t.into_boxed_slice());
        let id = match self.tmap.get(&key) { Some(i) => *i, None => { let i = self.tables.len() as u32; self.tables.push(key.clone()); self.tmap.insert(key, i); i } };
        self.intern(Node { op: Op::Tbl, w, a: base, b: 0, c: 0, k: id as u64 })
    }

    /// Smart constructor; results that differ from the plain node are candidates for the rewrite audit.
    pub fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let r = self.mk1(op, w, a, b, c, k);
        if self.rw_cap > 0 {
            let n = Node { op, w, a, b, c, k };
            if self.n[r as usize] != n && !(self.n[a as usize].op == Op::Const && (b == 0 || self.n[b as usize].op == Op::Const) && (c == 0 || self.n[c as usize].op == Op::Const)) {
                self.rw_seen += 1;
                if self.rw.len() < self.rw_cap { self.rw.push((n, r)) }
                else {
                    self.rw_rnd ^= self.rw_rnd << 13; self.rw_rnd ^= self.rw_rnd >> 7; self.rw_rnd ^= self.rw_rnd << 17;
                    let j = (self.rw_rnd % self.rw_seen) as usize;
                    if j < self.rw_cap { self.rw[j] = (n, r) }
                }
            }
        }
        r
    }
    fn mk1(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let (na, nb, nc) = (self.n[a as usize], self.n[b as usize], self.n[c as usize]);
        let ca = na.op == Op::Const;
        let cb = b == 0 || nb.op == Op::Const;
        let cc = c == 0 || nc.op == Op::Const;
        if ca && cb && cc {
            let v = eval_op(op, w, na.w, na.k, nb.k, nc.k, k, nb.w);
            return self.konst(v, w);
        }
        // pointwise table lifting
        {
            let mut base = 0;
            let mut ok = true;
            for (e, isc) in [(a, ca), (b, cb), (c, cc)] {
                if e == 0 || isc { continue }
                match self.as_tbl(e) {
                    Some(x) if base == 0 || base == x => base = x,
                    _ => { ok = false; break }
                }
            }
            if ok && base != 0 {
                let (lo, hi) = (self.lo[base as usize], self.hi[base as usize]);
                if hi - lo < 4096 {
                    let mut t = Vec::with_capacity((hi - lo + 1) as usize);
                    let bn = self.n[base as usize];
                    let dom = if bn.op == Op::Var { self.vars[bn.k as usize].dom } else { None };
                    for i in lo..=hi {
                        if let Some(d) = &dom { if !dom_has(d, i) { t.push(0); continue } }
                        let va = self.tbl_at(a, i);
                        let vb = if b == 0 { 0 } else { self.tbl_at(b, i) };
                        let vc = if c == 0 { 0 } else { self.tbl_at(c, i) };
                        t.push(eval_op(op, w, na.w, va, vb, vc, k, nb.w));
                    }
                    return self.mk_tbl(base, lo, t, w);
                }
            }
        }
        let r = self.mk2(op, w, a, b, c, k);
        // singleton interval => constant
        if self.n[r as usize].op != Op::Const && self.lo[r as usize] == self.hi[r as usize] { let v = self.lo[r as usize]; return self.konst(v, w) }
        r
    }

    fn raw(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E { self.intern(Node { op, w, a, b, c, k }) }

    pub fn not(&mut self, a: E) -> E { let w = self.w(a); self.mk(Op::Not, w, a, 0, 0, 0) }
    pub fn and(&mut self, a: E, b: E) -> E { let w = self.w(a); self.mk(Op::And, w, a, b, 0, 0) }
    pub fn or(&mut self, a: E, b: E) -> E { let w = self.w(a); self.mk(Op::Or, w, a, b, 0, 0) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.mk(Op::Eq, 1, a, b, 0, 0) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E { let w = self.w(a); self.mk(Op::Ite, w, c, a, b, 0) }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        if lo == 0 && w == self.w(a) { return a }
        self.mk(Op::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E { if self.w(a) == w { a } else { self.mk(Op::ZExt, w, a, 0, 0, 0) } }
    pub fn sext(&mut self, a: E, w: u8) -> E { if self.w(a) == w { a } else { self.mk(Op::SExt, w, a, 0, 0, 0) } }
    pub fn concat(&mut self, hi: E, lo: E) -> E { let w = self.w(hi) + self.w(lo); self.mk(Op::Concat, w, hi, lo, 0, 0) }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E { let w = self.w(a); self.mk(op, w, a, b, 0, 0) }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E { self.mk(op, 1, a, b, 0, 0) }

    /// LSB-first structural pieces.
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n[e as usize];
        match n.op {
            Op::Concat => { self.pieces(n.b, out); self.pieces(n.a, out) }
            Op::ZExt => { self.pieces(n.a, out); let z = self.konst(0, n.w - self.w(n.a)); out.push(z) }
            _ => out.push(e),
        }
    }
    fn structured(&self, e: E) -> bool { matches!(self.n[e as usize].op, Op::Concat | Op::ZExt) }
    fn bitwise(&mut self, op: Op, w: u8, a: E, b: E) -> Option<E> {
        // split points from structure and from constant runs
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if !(self.structured(a) || self.structured(b) || ca.is_some() || cb.is_some()) { return None }
        let mut cuts: u64 = 0; // bit i set => cut at i (1..w-1)
        for e in [a, b] {
            if let Some(c) = self.as_const(e) {
                for i in 1..w { if ((c >> i) ^ (c >> (i - 1))) & 1 == 1 { cuts |= 1 << i } }
            } else {
                let mut p = vec![];
                self.pieces(e, &mut p);
                let mut pos = 0;
                for x in p { pos += self.w(x); if pos < w { cuts |= 1 << pos } }
            }
        }
        if cuts == 0 && ca.is_none() && cb.is_none() { return None }
        let mut res: Vec<E> = vec![];
        let mut start = 0u8;
        for i in 1..=w {
            if i == w || (cuts >> i) & 1 == 1 {
                let ww = i - start;
                let x = self.extract(a, start, ww);
                let y = self.extract(b, start, ww);
                let r = self.seg(op, ww, x, y);
                res.push(r);
                start = i;
            }
        }
        Some(self.concat_all(&res))
    }
    fn seg(&mut self, op: Op, w: u8, x: E, y: E) -> E {
        let m = mask(w);
        let (x, y) = if self.as_const(x).is_some() { (y, x) } else { (x, y) };
        if let (Some(_), Some(_)) = (self.as_const(x), self.as_const(y)) { return self.mk(op, w, x, y, 0, 0) }
        if let Some(c) = self.as_const(y) {
            match op {
                Op::And => if c == 0 { return self.konst(0, w) } else if c == m { return x },
                Op::Or => if c == 0 { return x } else if c == m { return self.konst(m, w) },
                Op::Xor => if c == 0 { return x } else if c == m { return self.not(x) },
                _ => {}
            }
        }
        if x == y { return match op { Op::Xor => self.konst(0, w), _ => x } }
        // avoid infinite recursion: x,y are single pieces now
        let (x, y) = if x > y { (y, x) } else { (x, y) };
        if self.as_tbl(x).is_some() && self.as_tbl(x) == self.as_tbl(y) { return self.mk(op, w, x, y, 0, 0) }
        if w == 1 { return self.bool2(op, x, y) }
        self.raw(op, w, x, y, 0, 0)
    }
    fn bool2(&mut self, op: Op, x: E, y: E) -> E {
        let nx = self.n[x as usize];
        let ny = self.n[y as usize];
        // complement
        if (nx.op == Op::Not && nx.a == y) || (ny.op == Op::Not && ny.a == x) { return self.konst(if op == Op::And { 0 } else { 1 }, 1) }
        self.raw(op, 1, x, y, 0, 0)
    }
    fn concat_all(&mut self, lsb: &[E]) -> E {
        let mut r = lsb[0];
        for x in &lsb[1..] { r = self.concat(*x, r) }
        r
    }
    fn is_ite_const(&self, e: E) -> bool { let n = &self.n[e as usize]; n.op == Op::Ite && self.n[n.b as usize].op == Op::Const && self.n[n.c as usize].op == Op::Const }
    fn ite_leafy(&self, e: E, depth: u32) -> bool {
        let n = &self.n[e as usize];
        if n.op == Op::Const { return true }
        n.op == Op::Ite && depth > 0 && self.ite_leafy(n.b, depth - 1) && self.ite_leafy(n.c, depth - 1)
    }

    fn mk2(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let m = mask(w);
        let na = self.n[a as usize];
        let ka = self.as_const(a);
        let kb = if b != 0 { self.as_const(b) } else { None };
        match op {
            Op::Add => {
                if ka.is_some() { return self.mk(op, w, b, a, 0, 0) }
                if let Some(v) = kb {
                    if v == 0 { return a }
                    if na.op == Op::Add { if let Some(v2) = self.as_const(na.b) { let s = self.konst(v.wrapping_add(v2), w); return self.mk(Op::Add, w, na.a, s, 0, 0) } }
                    if self.is_ite_const(a) { let x = self.mk(op, w, na.b, b, 0, 0); let y = self.mk(op, w, na.c, b, 0, 0); return self.ite(na.a, x, y) }
                } else {
                    let nb = self.n[b as usize];
                    if nb.op == Op::Add { if self.as_const(nb.b).is_some() { let s = self.mk(Op::Add, w, a, nb.a, 0, 0); return self.mk(Op::Add, w, s, nb.b, 0, 0) } }
                    if na.op == Op::Add { if self.as_const(na.b).is_some() { let s = self.mk(Op::Add, w, na.a, b, 0, 0); return self.mk(Op::Add, w, s, na.b, 0, 0) } }
                    if nb.op == Op::Sub && nb.b == a { return nb.a }
                    if na.op == Op::Sub && na.b == b { return na.a }
                }
                if let Some(r) = self.disjoint_add(w, a, b) { return r }
                let (x, y) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(op, w, x, y, 0, 0)
            }
            Op::Sub => {
                if a == b { return self.konst(0, w) }
                if let Some(v) = kb { let nk = self.konst(v.wrapping_neg(), w); return self.mk(Op::Add, w, a, nk, 0, 0) }
                if na.op == Op::Add {
                    if na.a == b { return na.b }
                    if na.b == b { return na.a }
                    if self.as_const(na.b).is_some() { let s = self.mk(Op::Sub, w, na.a, b, 0, 0); return self.mk(Op::Add, w, s, na.b, 0, 0) }
                }
                let nb = self.n[b as usize];
                if nb.op == Op::Add {
                    if let Some(v2) = self.as_const(nb.b) { let s = self.mk(Op::Sub, w, a, nb.a, 0, 0); let nk = self.konst(v2.wrapping_neg(), w); return self.mk(Op::Add, w, s, nk, 0, 0) }
                    if nb.a == a { let z = self.konst(0, w); return self.mk(Op::Sub, w, z, nb.b, 0, 0) }
                    if nb.b == a { let z = self.konst(0, w); return self.mk(Op::Sub, w, z, nb.a, 0, 0) }
                }
                // x - (x/c)*c => x % c
                if nb.op == Op::Mul { if let Some(cc) = self.as_const(nb.b) { let nd = self.n[nb.a as usize]; if nd.op == Op::UDiv && nd.a == a && self.as_const(nd.b) == Some(cc) { return self.mk(Op::URem, w, a, nd.b, 0, 0) } } }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::Mul => {
                if ka.is_some() { return self.mk(op, w, b, a, 0, 0) }
                if let Some(v) = kb {
                    if v == 0 { return b }
                    if v == 1 { return a }
                    if v.is_power_of_two() { let s = self.konst(v.trailing_zeros() as u64, w); return self.mk(Op::Shl, w, a, s, 0, 0) }
                    if self.is_ite_const(a) { let x = self.mk(op, w, na.b, b, 0, 0); let y = self.mk(op, w, na.c, b, 0, 0); return self.ite(na.a, x, y) }
                }
                let (x, y) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(op, w, x, y, 0, 0)
            }
            Op::UDiv => {
                if let Some(v) = kb {
                    if v == 1 { return a }
                    if v != 0 && v.is_power_of_two() { let s = self.konst(v.trailing_zeros() as u64, w); return self.mk(Op::LShr, w, a, s, 0, 0) }
                    if v != 0 && na.op == Op::UDiv { if let Some(v2) = self.as_const(na.b).filter(|x| *x != 0) { if let Some(p) = v.checked_mul(v2) { if p <= m { let s = self.konst(p, w); return self.mk(Op::UDiv, w, na.a, s, 0, 0) } } } }
                    if v != 0 && na.op == Op::ZExt && v <= mask(self.w(na.a)) { let iw = self.w(na.a); let kk = self.konst(v, iw); let x = self.mk(Op::UDiv, iw, na.a, kk, 0, 0); return self.zext(x, w) }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::URem => {
                if let Some(v) = kb {
                    if v != 0 && self.hi[a as usize] < v { return a }
                    if v != 0 && v.is_power_of_two() { let s = self.konst(v - 1, w); return self.mk(Op::And, w, a, s, 0, 0) }
                    if v != 0 && na.op == Op::ZExt && v <= mask(self.w(na.a)) { let iw = self.w(na.a); let kk = self.konst(v, iw); let x = self.mk(Op::URem, iw, na.a, kk, 0, 0); return self.zext(x, w) }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::SDiv | Op::SRem => {
                if let Some(v) = kb {
                    let half = mask(w - 1);
                    if v != 0 && v <= half && self.hi[a as usize] <= half { return self.mk(if op == Op::SDiv { Op::UDiv } else { Op::URem }, w, a, b, 0, 0) }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b { return if op == Op::Xor { self.konst(0, w) } else { a } }
                if let Some(r) = self.bitwise(op, w, a, b) { return r }
                self.seg(op, w, a, b)
            }
            Op::Not => {
                if na.op == Op::Not { return na.a }
                if w == 1 {
                    match na.op {
                        Op::Ult => return self.mk(Op::Ule, 1, na.b, na.a, 0, 0),
                        Op::Ule => return self.mk(Op::Ult, 1, na.b, na.a, 0, 0),
                        Op::Slt => return self.mk(Op::Sle, 1, na.b, na.a, 0, 0),
                        Op::Sle => return self.mk(Op::Slt, 1, na.b, na.a, 0, 0),
                        _ => {}
                    }
                }
                if self.structured(a) {
                    let mut p = vec![];
                    self.pieces(a, &mut p);
                    let r: Vec<E> = p.into_iter().map(|x| self.not(x)).collect();
                    return self.concat_all(&r);
                }
                self.raw(op, w, a, 0, 0, 0)
            }
            Op::Shl => {
                if let Some(s) = kb {
                    if s == 0 { return a }
                    if s >= w as u64 { return self.konst(0, w) }
                    let x = self.extract(a, 0, w - s as u8);
                    let z = self.konst(0, s as u8);
                    return self.concat(x, z);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::LShr => {
                if let Some(s) = kb {
                    if s == 0 { return a }
                    if s >= w as u64 { return self.konst(0, w) }
                    let x = self.extract(a, s as u8, w - s as u8);
                    return self.zext(x, w);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::AShr => {
                if let Some(s) = kb {
                    if s == 0 { return a }
                    if self.hi[a as usize] <= mask(w - 1) { return self.mk(Op::LShr, w, a, b, 0, 0) }
                    let s = s.min(w as u64 - 1);
                    let x = self.extract(a, s as u8, w - s as u8);
                    return self.sext(x, w);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::Rotl | Op::Rotr => {
                if let Some(s) = kb {
                    let s = (s % w as u64) as u8;
                    if s == 0 { return a }
                    let l = if op == Op::Rotl { s } else { w - s };
                    let hi = self.extract(a, 0, w - l);
                    let lo = self.extract(a, w - l, l);
                    return self.concat(hi, lo);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::Clz | Op::Ctz | Op::Popcnt => {
                if self.ite_leafy(a, 3) && na.op == Op::Ite { let x = self.mk(op, w, na.b, 0, 0, 0); let y = self.mk(op, w, na.c, 0, 0, 0); return self.ite(na.a, x, y) }
                self.raw(op, w, a, 0, 0, 0)
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1) }
                if self.lo[a as usize] > self.hi[b as usize] || self.hi[a as usize] < self.lo[b as usize] { return self.konst(0, 1) }
                if ka.is_some() && kb.is_none() { return self.mk(op, 1, b, a, 0, 0) }
                let aw = na.w;
                if let Some(v) = kb {
                    if aw == 1 { return if v == 1 { a } else { self.not(a) } }
                    match na.op {
                        Op::Tbl => unreachable!(),
                        Op::Add => if let Some(v2) = self.as_const(na.b) { let s = self.konst(v.wrapping_sub(v2), aw); return self.mk(Op::Eq, 1, na.a, s, 0, 0) },
                        Op::Sub if v == 0 => return self.mk(Op::Eq, 1, na.a, na.b, 0, 0),
                        Op::Xor if v == 0 => return self.mk(Op::Eq, 1, na.a, na.b, 0, 0),
                        Op::Or if v == 0 => { let z = b; let x = self.mk(Op::Eq, 1, na.a, z, 0, 0); let y = self.mk(Op::Eq, 1, na.b, z, 0, 0); return self.and(x, y) }
                        Op::Ite => {
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                                let x = self.mk(Op::Eq, 1, na.b, b, 0, 0);
                                let y = self.mk(Op::Eq, 1, na.c, b, 0, 0);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Not => { let s = self.konst(!v, aw); return self.mk(Op::Eq, 1, na.a, s, 0, 0) }
                        Op::SExt => { let iw = self.w(na.a); let s = self.konst(v, iw); if (sx(v & mask(iw), iw) as u64) & mask(aw) != v { return self.konst(0, 1) } return self.mk(Op::Eq, 1, na.a, s, 0, 0) }
                        _ => {}
                    }
                }
                if self.structured(a) || self.structured(b) {
                    let mut cuts = 0u64;
                    let mut any = false;
                    for e in [a, b] {
                        if self.as_const(e).is_some() { continue }
                        let mut p = vec![];
                        self.pieces(e, &mut p);
                        if p.len() > 1 { any = true }
                        let mut pos = 0;
                        for x in p { pos += self.w(x); if pos < aw { cuts |= 1 << pos } }
                    }
                    if any {
                        let mut r = self.konst(1, 1);
                        let mut start = 0u8;
                        for i in 1..=aw {
                            if i == aw || (cuts >> i) & 1 == 1 {
                                let x = self.extract(a, start, i - start);
                                let y = self.extract(b, start, i - start);
                                let q = self.mk(Op::Eq, 1, x, y, 0, 0);
                                r = self.and(r, q);
                                start = i;
                            }
                        }
                        return r;
                    }
                }
                if kb.is_none() {
                    let nb = self.n[b as usize];
                    // x + c == x + d etc.
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.mk(Op::Eq, 1, na.a, nb.a, 0, 0) }
                    if aw == 1 { let x = self.mk(Op::Xor, 1, a, b, 0, 0); return self.not(x) }
                }
                let (x, y) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(op, 1, x, y, 0, 0)
            }
            Op::Ult | Op::Ule => {
                let (la, ha, lb, hb) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
                if a == b { return self.konst((op == Op::Ule) as u64, 1) }
                if op == Op::Ult { if ha < lb { return self.konst(1, 1) } if la >= hb { return self.konst(0, 1) } }
                else { if ha <= lb { return self.konst(1, 1) } if la > hb { return self.konst(0, 1) } }
                // normalise Ule with constants to Ult
                if op == Op::Ule {
                    if let Some(v) = kb { let s = self.konst(v + 1, na.w); return self.mk(Op::Ult, 1, a, s, 0, 0) } // v < max since not folded
                    if let Some(v) = ka { let s = self.konst(v - 1, na.w); return self.mk(Op::Ult, 1, s, b, 0, 0) } // v > 0 since not folded
                }
                if let Some(v) = kb {
                    if v == 1 && op == Op::Ult { let z = self.konst(0, na.w); return self.mk(Op::Eq, 1, a, z, 0, 0) }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if v <= mask(iw) { let s = self.konst(v, iw); return self.mk(op, 1, na.a, s, 0, 0) } }
                    if self.ite_leafy(a, 4) { let x = self.mk(op, 1, na.b, b, 0, 0); let y = self.mk(op, 1, na.c, b, 0, 0); return self.ite(na.a, x, y) }
                }
                if let Some(v) = ka {
                    let nb = self.n[b as usize];
                    if v == 0 && op == Op::Ult { let z = self.konst(0, na.w); let q = self.mk(Op::Eq, 1, b, z, 0, 0); return self.not(q) }
                    if nb.op == Op::ZExt { let iw = self.w(nb.a); if v <= mask(iw) { let s = self.konst(v, iw); return self.mk(op, 1, s, nb.a, 0, 0) } }
                    if self.ite_leafy(b, 4) { let x = self.mk(op, 1, a, nb.b, 0, 0); let y = self.mk(op, 1, a, nb.c, 0, 0); return self.ite(nb.a, x, y) }
                }
                let nb = self.n[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.mk(op, 1, na.a, nb.a, 0, 0) }
                self.raw(op, 1, a, b, 0, 0)
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst((op == Op::Sle) as u64, 1) }
                let half = mask(na.w - 1);
                let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                let (la, ha, lb, hb) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
                let apos = ha <= half; let aneg = la > half; let bpos = hb <= half; let bneg = lb > half;
                if (apos && bpos) || (aneg && bneg) { return self.mk(uop, 1, a, b, 0, 0) }
                if apos && bneg { return self.konst(0, 1) }
                if aneg && bpos { return self.konst(1, 1) }
                if let Some(v) = kb {
                    // x < 0  => sign bit
                    if (v == 0 && op == Op::Slt) || (v == m && na.w == w && op == Op::Sle) { return self.extract(a, na.w - 1, 1) }
                    if op == Op::Sle && v == mask(na.w) { return self.extract(a, na.w - 1, 1) }
                    if self.ite_leafy(a, 4) { let x = self.mk(op, 1, na.b, b, 0, 0); let y = self.mk(op, 1, na.c, b, 0, 0); return self.ite(na.a, x, y) }
                }
                if let Some(v) = ka {
                    let nb = self.n[b as usize];
                    if op == Op::Slt && v == mask(na.w) { let s = self.extract(b, na.w - 1, 1); return self.not(s) }
                    if op == Op::Sle && v == 0 { let s = self.extract(b, na.w - 1, 1); return self.not(s) }
                    if self.ite_leafy(b, 4) { let x = self.mk(op, 1, a, nb.b, 0, 0); let y = self.mk(op, 1, a, nb.c, 0, 0); return self.ite(nb.a, x, y) }
                }
                self.raw(op, 1, a, b, 0, 0)
            }
            Op::Ite => {
                if let Some(v) = ka { return if v != 0 { b } else { c } }
                if b == c { return b }
                if na.op == Op::Not { return self.mk(op, w, na.a, c, b, 0) }
                let kc = self.as_const(c);
                if w == 1 {
                    match (kb, kc) {
                        (Some(1), Some(0)) => return a,
                        (Some(0), Some(1)) => return self.not(a),
                        (Some(1), _) => return self.or(a, c),
                        (Some(0), _) => { let x = self.not(a); return self.and(x, c) }
                        (_, Some(0)) => return self.and(a, b),
                        (_, Some(1)) => { let x = self.not(a); return self.or(x, b) }
                        _ => {}
                    }
                }
                if kb == Some(1) && kc == Some(0) { return self.zext(a, w) }
                if kb == Some(0) && kc == Some(1) { let x = self.not(a); return self.zext(x, w) }
                self.raw(op, w, a, b, c, 0)
            }
            Op::Concat => {
                if ka == Some(0) { return self.zext(b, w) }
                let nb = self.n[b as usize];
                // merge adjacent extracts
                if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 { return self.extract(na.a, nb.k as u8, na.w + nb.w) }
                // full value split: concat(extract(x, k..), x') where x' = low part kept as different term is handled by extract
                if nb.op == Op::Concat {
                    // right-assoc: concat(a, concat(x, y)) => try merge a,x
                    let nx = self.n[nb.a as usize];
                    if na.op == Op::Extract && nx.op == Op::Extract && na.a == nx.a && na.k == nx.k + nx.w as u64 { let x = self.extract(na.a, nx.k as u8, na.w + nx.w); return self.concat(x, nb.b) }
                    if ka.is_some() && nx.op == Op::Const { let x = self.concat(a, nb.a); return self.concat(x, nb.b) }
                }
                if na.op == Op::ZExt { let x = self.concat(na.a, b); return self.zext(x, w) }
                if na.op == Op::Concat { // make right-nested: concat(concat(x,y), b) => concat(x, concat(y,b))
                    let y = self.concat(na.b, b);
                    return self.mk(Op::Concat, w, na.a, y, 0, 0);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::Extract => {
                let lo = k as u8;
                match na.op {
                    Op::Extract => self.extract(na.a, lo + na.k as u8, w),
                    Op::Concat => {
                        let bw = self.w(na.b);
                        if lo + w <= bw { self.extract(na.b, lo, w) }
                        else if lo >= bw { self.extract(na.a, lo - bw, w) }
                        else { let l = self.extract(na.b, lo, bw - lo); let h = self.extract(na.a, 0, lo + w - bw); self.concat(h, l) }
                    }
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if lo >= iw { self.konst(0, w) }
                        else if lo + w <= iw { self.extract(na.a, lo, w) }
                        else { let x = self.extract(na.a, lo, iw - lo); self.zext(x, w) }
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        if lo + w <= iw { self.extract(na.a, lo, w) }
                        else if lo < iw { let x = self.extract(na.a, lo, iw - lo); self.sext(x, w) }
                        else { let x = self.extract(na.a, iw - 1, 1); self.sext(x, w) }
                    }
                    Op::And | Op::Or | Op::Xor => { let x = self.extract(na.a, lo, w); let y = self.extract(na.b, lo, w); self.mk(na.op, w, x, y, 0, 0) }
                    Op::Not => { let x = self.extract(na.a, lo, w); self.not(x) }
                    Op::Ite => { let x = self.extract(na.b, lo, w); let y = self.extract(na.c, lo, w); self.ite(na.a, x, y) }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                        let x = self.extract(na.a, 0, w); let y = self.extract(na.b, 0, w); self.mk(na.op, w, x, y, 0, 0)
                    }
                    _ => {
                        // high part known zero
                        if lo < 64 && (self.hi[a as usize] >> lo) == 0 { return self.konst(0, w) }
                        self.raw(op, w, a, 0, 0, k)
                    }
                }
            }
            Op::ZExt => {
                match na.op {
                    Op::ZExt => self.zext(na.a, w),
                    Op::Ite if self.ite_leafy(a, 4) => { let x = self.zext(na.b, w); let y = self.zext(na.c, w); self.raw_ite(na.a, x, y, w) }
                    Op::Extract if na.k == 0 && self.w(na.a) == w && self.hi[na.a as usize] <= mask(na.w) => na.a,
                    _ => self.raw(op, w, a, 0, 0, 0),
                }
            }
            Op::SExt => {
                if self.hi[a as usize] <= mask(na.w - 1) { return self.zext(a, w) }
                if na.op == Op::SExt { return self.sext(na.a, w) }
                if self.ite_leafy(a, 4) && na.op == Op::Ite { let x = self.sext(na.b, w); let y = self.sext(na.c, w); return self.raw_ite(na.a, x, y, w) }
                self.raw(op, w, a, 0, 0, 0)
            }
            Op::Const | Op::Var | Op::Tbl => unreachable!(),
        }
    }
    fn raw_ite(&mut self, c: E, x: E, y: E, w: u8) -> E {
        if x == y { return x }
        self.raw(Op::Ite, w, c, x, y, 0)
    }
    /// a + b where the structural pieces never overlap => or
    fn disjoint_add(&mut self, w: u8, a: E, b: E) -> Option<E> {
        let ba = self.possible_bits(a);
        let bb = self.possible_bits(b);
        if ba & bb == 0 && (self.structured(a) || self.structured(b)) && self.as_const(a).is_none() && self.as_const(b).is_none() { return Some(self.mk(Op::Or, w, a, b, 0, 0)) }
        None
    }
    fn possible_bits(&mut self, e: E) -> u64 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => n.k,
            Op::Concat => { let bw = self.w(n.b); (self.possible_bits(n.a) << bw) | self.possible_bits(n.b) }
            Op::ZExt => self.possible_bits(n.a),
            _ => { let h = self.hi[e as usize]; let bits = 64 - h.leading_zeros(); if bits == 0 { 0 } else { mask(bits as u8) } }
        }
    }

    /// Evaluate under an assignment (var id -> value), memoised in `memo`.
    pub fn eval(&self, e: E, m: &dyn Fn(u32) -> u64, memo: &mut HashMap<E, u64, Fx>) -> u64 {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m(n.k as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v }
        // iterative to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue }
            let n = self.n[x as usize];
            match n.op {
                Op::Const => { memo.insert(x, n.k); stack.pop(); continue }
                Op::Var => { memo.insert(x, m(n.k as u32)); stack.pop(); continue }
                _ => {}
            }
            let mut ready = true;
            for y in [n.a, n.b, n.c] { if y != 0 && !memo.contains_key(&y) { stack.push(y); ready = false } }
            if !ready { continue }
            let g = |y: E| if y == 0 { 0 } else { memo[&y] };
            let v = if n.op == Op::Tbl { let (lo, t) = &self.tables[n.k as usize]; t[(g(n.a).wrapping_sub(*lo)) as usize] }
                else { eval_op(n.op, n.w, self.n[n.a as usize].w, g(n.a), g(n.b), g(n.c), n.k, self.n[n.b as usize].w) };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e]
    }
}
