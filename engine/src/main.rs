mod expr;
mod smt;
mod wasm;
mod exec;
use expr::*;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String { let mut s = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(',') } let _ = write!(s, "{x}"); } s.push(']'); s }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") { selftest(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(20000)); return }
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string()) };
    let wasm_path = get("--wasm", "");
    let export = get("--fn", "");
    let out = get("--out", "/dev/stdout");
    let f = |k: &str, d: &str| get(k, d).parse::<f64>().unwrap();
    let sh = get("--shard", "0/1");
    let (i, n) = sh.split_once('/').unwrap();
    let cfg = exec::Cfg { max_steps: f("--max-steps", "200000000") as u64, max_paths: f("--max-paths", "2000000") as u64, max_secs: f("--max-secs", "600"), shard: (i.parse().unwrap(), n.parse().unwrap()),
        samples: f("--samples", "8") as usize, seed: f("--seed", "1") as u64, max_viol: f("--max-viol", "6") as usize, trace: a.iter().any(|x| x == "--trace"), mem_gb: f("--mem-gb", "6"), deep: f("--deep", "0") as u64, audit: f("--audit", "0") as usize, audit_eq: f("--audit-eq", "3000") as usize, grace: f("--grace", "1e9") };
    ar().rw_cap = cfg.audit;
    let t0 = std::time::Instant::now();
    let bytes = std::fs::read(&wasm_path).expect("wasm");
    let m = wasm::parse(&bytes);
    let mut s = smt::Smt::new(f("--solver-ms", "60000") as u32);
    let dd = get("--dump", "");
    if !dd.is_empty() { s.dump_dir = Some(dd); s.dump_every = f("--dump-every", "1") as u64 }
    let mut e = exec::Eng::new(m, s, cfg);
    if let Err(x) = e.run(&export) { eprintln!("{x}"); std::process::exit(2) }
    let mut o = String::new();
    let st = &e.st;
    let _ = write!(o, "{{\"fn\":{},\"shard\":{},\"wall_s\":{:.3},\"rss_gb\":{:.3},\"paths\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"asserts\":{},\"asserts_folded\":{},\"asserts_solver\":{},\"traps_caught\":{},\"branch_sym\":{},\"branch_folded_dom\":{},\"sym_inputs_max\":{},\"max_pc\":{},\"assume_pruned\":{},\"terms\":{},",
        esc(&export), esc(&sh), t0.elapsed().as_secs_f64(), exec::rss_gb(), st.paths, st.forks, st.steps, st.max_steps, st.asserts, st.asserts_folded, st.asserts_solver, st.traps_caught, st.branch_sym, st.branch_folded_dom, st.vars_max, st.max_pc, st.assume_pruned, ar().n.len());
    let _ = write!(o, "\"audit\":{{\"equalities_folded\":{},\"equalities_distinct\":{},\"equalities_rechecked\":{},\"rewrites_seen\":{},\"rewrites_rechecked\":{},\"domain_branches_rechecked\":{},\"inconclusive\":{},\"time_s\":{:.3}}},", st.eq_claims, e.eq_seen.len(), st.audit_eq, ar().rw_seen, st.audit_rw, st.audit_dom, st.audit_open, e.smt.audit_time);
    let q = &e.smt;
    let _ = write!(o, "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"time_s\":{:.3},\"max_s\":{:.3}}},", q.queries, q.sat, q.unsat, q.unknown, q.cache_hits, q.time, q.max_time);
    let _ = write!(o, "\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"assert_ids\":{{{}}},", e.assert_ids.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"functions\":[{}],", (0..e.executed.len()).filter(|i| e.executed[*i] > 0).map(|i| esc(e.fname(i))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}],", e.viol.iter().map(|v| format!("{{\"id\":{},\"how\":{},\"inputs\":{}}}", esc(&v.id), esc(v.how), nums(&v.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", e.samples.iter().map(|s| format!("{{\"inputs\":{},\"covers\":[{}],\"notes\":[{}]}}", nums(&s.inputs), s.covers.iter().map(|c| esc(c)).collect::<Vec<_>>().join(","),
        s.notes.iter().map(|(k, v)| format!("[{},{}]", esc(k), nums(v))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":[{}]}}\n", e.errors.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    std::fs::write(&out, o).expect("write");
    // the arena and solver are process-wide; skip their destructors
    std::process::exit(0);
}

/// Differential test of the simplifier: every smart-constructor result must agree with the raw operator semantics.
fn selftest(n: u64) {
    let mut r = 0x1234_5678_9abc_def1u64;
    let mut rnd = move || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
    let printable = { let mut d = [0u64; 4]; for i in 32..127u64 { if i != 34 && i != 92 { d[(i >> 6) as usize] |= 1 << (i & 63) } } d };
    let digits = { let mut d = [0u64; 4]; for i in 48..58u64 { d[0] |= 1 << i } d };
    // pools of (term, concrete value under assignment k) for 4 assignments
    const K: usize = 4;
    let mut smt = smt::Smt::new(10000);
    let mut bad = 0;
    for round in 0..n / 200 {
        let mut pool: Vec<(E, [u64; K])> = vec![];
        let mut asg: Vec<(u32, [u64; K])> = vec![];
        for i in 0..6 {
            let (w, lo, hi, dom): (u8, u64, u64, Option<[u64; 4]>) = match i { 0 | 1 => (8, 32, 126, Some(printable)), 2 => (8, 48, 57, Some(digits)), 3 => (64, 0, !0, None), 4 => (64, 5, 1000, None), _ => (32, 0, 0xffff_ffff, None) };
            let e = ar().new_var(w, lo, hi, dom);
            let mut v = [0; K];
            for x in v.iter_mut() { *x = loop { let y = rnd(); let y = if y % 3 == 0 { lo } else if y % 3 == 1 { hi } else { let z = rnd(); if hi - lo == !0 { z } else { lo + z % (hi - lo + 1) } }; if dom.map_or(true, |d| dom_has(&d, y)) { break y } } }
            asg.push(((ar().vars.len() - 1) as u32, v));
            pool.push((e, v));
        }
        for c in [0u64, 1, 0xff, 0x80, 0xffff_ffff, !0, 10, rnd()] { for w in [1u8, 8, 32, 64] { let e = ar().konst(c, w); pool.push((e, [c & mask(w); K])) } }
        for _ in 0..200 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize];
            let w = ar().w(a);
            let same: Vec<usize> = (0..pool.len()).filter(|i| ar().w(pool[*i].0) == w).collect();
            let (b, vb) = pool[same[(rnd() % same.len() as u64) as usize]];
            let mut res = [0; K];
            let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Rotl, Op::Rotr];
            let t = rnd() % 34;
            let e = match t {
                0..=14 => { let op = ops[t as usize]; if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && vb.iter().any(|x| *x == 0) { continue } if w == 1 && !matches!(op, Op::And | Op::Or | Op::Xor) { continue }
                    for k in 0..K { res[k] = eval_op(op, w, w, va[k], vb[k], 0, 0, w) } ar().bin(op, a, b) }
                15..=20 => { let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle, Op::Eq][(t - 15) as usize]; if w == 1 { continue } for k in 0..K { res[k] = eval_op(op, 1, w, va[k], vb[k], 0, 0, w) } ar().cmp(op, a, b) }
                21 => { for k in 0..K { res[k] = !va[k] & mask(w) } ar().not(a) }
                22 | 23 => { let cs: Vec<usize> = (0..pool.len()).filter(|i| ar().w(pool[*i].0) == 1).collect(); let (c, vc) = pool[cs[(rnd() % cs.len() as u64) as usize]]; for k in 0..K { res[k] = if vc[k] != 0 { va[k] } else { vb[k] } } ar().ite(c, a, b) }
                24..=26 => { let nw = (rnd() % w as u64 + 1) as u8; let lo = (rnd() % (w - nw + 1) as u64) as u8; let (nw, lo) = if t == 24 && w % 8 == 0 { (8, (rnd() % (w as u64 / 8)) as u8 * 8) } else { (nw, lo) }; for k in 0..K { res[k] = (va[k] >> lo) & mask(nw) } ar().extract(a, lo, nw) }
                27 | 28 => { let nw = [32, 64][(rnd() % 2) as usize]; if nw < w { continue } for k in 0..K { res[k] = va[k] } ar().zext(a, nw) }
                29 => { let nw = [32, 64][(rnd() % 2) as usize]; if nw < w { continue } for k in 0..K { res[k] = sx(va[k], w) as u64 & mask(nw) } ar().sext(a, nw) }
                30 | 31 => { if w > 32 { continue } for k in 0..K { res[k] = (va[k] << w) | vb[k] } ar().concat(a, b) }
                32 => { if w < 8 { continue } let op = [Op::Clz, Op::Ctz, Op::Popcnt][(rnd() % 3) as usize]; for k in 0..K { res[k] = eval_op(op, w, w, va[k], 0, 0, 0, 0) } ar().mk(op, w, a, 0, 0, 0) }
                _ => { let (lo, hi) = (ar().lo[a as usize], ar().hi[a as usize]); if hi - lo >= 300 { continue } let tb: Vec<u64> = (lo..=hi).map(|x| (x.wrapping_mul(7) ^ x >> 3) & 255).collect(); for k in 0..K { res[k] = tb[(va[k] - lo) as usize] } ar().mk_tbl(a, lo, tb, 8) }
            };
            for k in 0..K {
                let got = ar().eval(e, &|v| asg.iter().find(|x| x.0 == v).map(|x| x.1[k]).unwrap(), &mut Default::default());
                if got != res[k] || res[k] < ar().lo[e as usize] || res[k] > ar().hi[e as usize] { bad += 1; if bad < 10 { println!("MISMATCH kind {t} a={} b={} -> {} got {got:#x} want {:#x} range [{:#x},{:#x}]", exec::show(a, 6), exec::show(b, 6), exec::show(e, 6), res[k], ar().lo[e as usize], ar().hi[e as usize]) } }
            }
            pool.push((e, res));
            // the SMT translation must agree with the evaluator
            if rnd() % 40 == 0 {
                let w = ar().w(e);
                let k = ar().konst(res[0], w);
                let mut cs = vec![];
                for (v, x) in &asg { let nd = ar().vars[*v as usize].node; let ww = ar().w(nd); let kk = ar().konst(x[0], ww); let q = ar().eq(nd, kk); cs.push(q) }
                let q = ar().eq(e, k);
                let nq = ar().not(q);
                if ar().as_const(nq).is_none() { cs.push(nq); match smt.check(&cs, &[]) { smt::Res::Unsat => {} _ => { bad += 1; println!("SMT MISMATCH {}", exec::show(e, 8)) } } }
            }
        }
        let _ = round;
    }
    println!("selftest: {} terms, {} solver queries, {} mismatches", ar().n.len(), smt.queries, bad);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
