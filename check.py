#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real contract code.

usage: check.py ID            (tier from VERIF_TIER, default quick; seed from VERIF_SEED)
       check.py --build       (build everything, used by setup_cmd)
       check.py --replay FILE (replay a stored counterexample natively)

exit 0: no assertion of the property's harnesses can be violated within the stated bounds; if a budget ran out (never on
        the unchanged tree), in what was explored: INCOMPLETE lines and the evidence ("exhaustive": false) say what was not
exit 1: VIOLATION line; the counterexample was reproduced on a native build of /repo
exit 2: no verdict (build failure, a reachability witness not reached, engine error, non-reproducing counterexample, ...)
"""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
sys.path.insert(0, V)
from props import PROPS, COMMON_ASSUMPTIONS
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WASM = f"{B}/wasm/wasm32-unknown-unknown/release/ica_harness.wasm"
ENGINE = f"{B}/engine/release/wasmsym"
REPLAY = f"{B}/native/replay/replay"
TOOLCHAIN = "1.99.1"

def toolchain():
    t = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    for w in t.split():
        if w.startswith(TOOLCHAIN): return w
    return None

DROPPED, LIBS = set(), set()
def build(libs=("lib0", "libq", "owner", "counter")):
    """Build engine, harness (wasm and native) and, where needed, the library harnesses, from the current tree.

    The harnesses that call a conversion function directly sit behind cargo features; if the harness does not compile
    with all of them, it is built without those that stand in the way and their harnesses are skipped (and reported)."""
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER") or k.startswith("CARGO_PROFILE") or k.startswith("CARGO_BUILD"): env.pop(k)
    tc = toolchain()
    if tc: env["RUSTUP_TOOLCHAIN"] = tc
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "--cap-lints warn"
    wenv = dict(env, RUSTFLAGS="--cap-lints warn -C link-arg=--allow-undefined")
    def wasm(d, *x): return ("wasm", ["cargo", "build", "--locked", "--lib", "--release", "--offline", "--target", "wasm32-unknown-unknown", "--target-dir", f"{B}/wasm", *x], d, wenv)
    def nat(d, b, *x): return ("native", ["cargo", "build", "--locked", "--bin", b, "--profile", "replay", "--offline", "--target-dir", f"{B}/native", *x], d, env)
    def go(jobs):
        def one(j):
            r = subprocess.run(j[1], cwd=j[2], env=j[3], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return None if r.returncode == 0 else f"build of {j[0]} ({os.path.basename(j[2])}) failed:\n" + "\n".join(r.stdout.splitlines()[-40:])
        with cf.ThreadPoolExecutor(4) as ex: return [e for e in ex.map(one, jobs) if e]
    h = f"{V}/harness"
    lock = open(f"{B}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    errs = go([wasm(h), ("engine", ["cargo", "build", "--locked", "--release", "--offline", "--target-dir", f"{B}/engine"], f"{V}/engine", env), nat(h, "replay")])
    ok = not errs
    if errs and not any("build of engine" in e for e in errs):
        parts = ["msg", "qry", "resp", "lib"]
        for keep in [[p for p in parts if p != q] for q in parts] + [[]]:
            x = ["--no-default-features", "--features", ",".join(keep + ["query", "export"])]
            if not go([wasm(h, *x)]) and not go([nat(h, "replay", *x)]): ok = True; DROPPED.update(p for p in parts if p not in keep); break
    if not ok:
        for e in errs: print(e)
    if ok:
        for l in libs:
            e = go([wasm(f"{V}/libs/{l}"), nat(f"{V}/libs/{l}", f"replay_{l}")])
            if e: print(e[0]); LIBS.add(l)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return ok

def split(fn):
    """harness key -> (build, function)"""
    b, _, f = fn.rpartition(":")
    return b or "main", f

def native(fn, lists):
    """Run the harness natively on each input list."""
    env = dict(os.environ, VP_DEEP="1" if TIER == "thorough" else "0")
    txt = "\n".join("[" + ",".join(map(str, l)) + "]" for l in lists) + "\n"
    b, f = split(fn)
    try: r = subprocess.run([REPLAY if b == "main" else f"{REPLAY}_{b}", f], input=txt, capture_output=True, text=True, env=env, timeout=120)
    except subprocess.TimeoutExpired: return None, "timeout"
    out = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
    if r.returncode != 0 or len(out) != len(lists): return None, f"rc={r.returncode} {r.stderr[-300:]}"
    return out, ""

START = time.time()
STOP = threading.Event()  # a violation has been confirmed: the rest of the exploration no longer changes the verdict
RUNNING = set()
def engine(task):
    fn, i, n, opt = task
    if STOP.is_set(): return dict(fn=fn, shard=f"{i}/{n}", fatal="not run: a violation had been confirmed")
    b, f = split(fn)
    secs = opt.get("secs", 420 if TIER == "quick" else 3000)
    if TIER == "quick": secs = max(5, min(secs, int(START + 780 - time.time())))
    out = f"{B}/out/{os.getpid()}-{b}-{f}-{i}.json"
    cmd = [ENGINE, "--wasm", WASM if b == "main" else WASM.replace("ica_harness", f"ica_{b}"), "--fn", f, "--out", out, "--shard", f"{i}/{n}", "--seed", str(SEED), "--samples", str(opt.get("samples", 4)),
           "--max-secs", str(secs), "--max-paths", "4000000", "--mem-gb", "3.5", "--deep", "1" if TIER == "thorough" else "0", "--solver-ms", "120000",
           "--audit", "200" if TIER == "quick" else "2000", "--audit-eq", "3000" if TIER == "quick" else "30000"]
    if opt.get("dump"): cmd += ["--dump", opt["dump"], "--dump-every", "25"]
    if not opt.get("known"): cmd += ["--grace", "15"]
    t = time.time()
    r = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    RUNNING.add(r)
    try: err = r.communicate(timeout=secs + (60 if TIER == "quick" else 120))[1]
    except subprocess.TimeoutExpired: r.kill(); r.communicate(); return dict(fn=fn, shard=f"{i}/{n}", fatal="engine timeout")
    finally: RUNNING.discard(r)
    if r.returncode != 0 or not os.path.exists(out):
        if os.path.exists(out): os.unlink(out)
        return dict(fn=fn, shard=f"{i}/{n}", fatal="stopped: a violation had been confirmed" if STOP.is_set() else f"engine rc={r.returncode}: {err[-600:]}")
    d = json.load(open(out)); os.unlink(out)
    d["proc_s"] = time.time() - t
    d["fn"] = fn
    if d["violations"] and not opt.get("known") and not STOP.is_set():
        o, _ = native(fn, [d["violations"][0]["inputs"]])
        if o and d["violations"][0]["id"] in o[0]["fails"]:
            STOP.set()
            def halt():
                time.sleep(20)
                for q in list(RUNNING): q.kill()
            threading.Thread(target=halt, daemon=True).start()
    return d

# a budget ran out: what was explored counts, the rest is reported as unexplored
LIMIT = re.compile(r"budget|engine timeout|solver returned unknown|too many values|a violation had been confirmed")

def cross_check(dumps, problems):
    """Thorough tier: a sample of the solver's queries is decided again by cvc5."""
    fs = sorted(os.path.join(d, f) for d, _, x in os.walk(dumps) for f in x)
    fs = fs[:: max(1, len(fs) // 160)]
    def one(f):
        want = f.split(".")[-2]
        try: o = subprocess.run(["cvc5", "--tlimit=10000", f], capture_output=True, text=True, timeout=30).stdout.split()
        except (subprocess.TimeoutExpired, OSError): return "open"
        got = o[0] if o else ""
        return "open" if got not in ("sat", "unsat") else "agree" if got == want else f
    t = time.time()
    with cf.ThreadPoolExecutor(8) as ex: r = list(ex.map(one, fs))
    for f in r:
        if f not in ("open", "agree"): problems.append(f"cvc5 disagrees with z3 on {os.path.basename(f)}")
    shutil.rmtree(dumps, ignore_errors=True)
    return dict(name="cvc5", queries=len(r), agree=r.count("agree"), inconclusive=r.count("open"), time_s=round(time.time() - t, 1))

def demangle(names):
    """crate paths of v0 symbols, good enough for reporting"""
    out = set()
    for n in names:
        if "cw_ica_controller" not in n: continue
        ids = re.findall(r"(?<![0-9])(\d{1,2})_?([A-Za-z_][A-Za-z0-9_]*)", n)
        parts, pos = [], 0
        while pos < len(n):
            m = re.compile(r"\d+").search(n, pos)
            if not m: break
            l = int(m.group()); s = m.end()
            if s < len(n) and n[s] == "_": s += 1
            w = n[s:s + l]
            if 0 < l < 60 and len(w) == l and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w): parts.append(w); pos = s + l
            else: pos = m.end()
        if "cw_ica_controller" in parts:
            p = parts[parts.index("cw_ica_controller") + 1:]
            if p: out.add("::".join(p[:6]))
    return sorted(out)

def show(sample):
    d = {"harness": sample["fn"], "covers": sample["covers"], "inputs": " ".join(map(str, sample["inputs"]))[:400]}
    for k, v in sample["notes"][:6]:
        b = bytes(x & 255 for x in v)
        d["observed " + k] = b.decode("utf8", "replace")[:300]
    return d

def known():
    p = f"{V}/known/findings.jsonl"
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def main(pid):
    t0 = time.time()
    P = PROPS[pid]
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage={}, assumptions=COMMON_ASSUMPTIONS + P.get("assumptions", []), wall_s=0.0, violations=0)
    def write(cov, nviol=0):
        ev["coverage"] = cov; ev["wall_s"] = round(time.time() - t0, 3); ev["violations"] = nviol
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    if not build(sorted({split(f)[0] for f in P["harnesses"]} - {"main"})):
        write(dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], note="build failed")); return 2
    tb = time.time() - t0
    os.makedirs(f"{B}/out", exist_ok=True)
    fns = dict(P["harnesses"])
    if TIER == "thorough": fns.update(P.get("thorough", {}))
    skipped = [f for f, o in fns.items() if o.get("needs") in DROPPED or split(f)[0] in LIBS]
    for f in skipped: fns.pop(f)
    if skipped: print("skipped (the tree no longer offers the function they call):", ", ".join(skipped))
    tasks = []
    for fn, opt in fns.items():
        n = opt.get("shards", 1)
        for i in range(n): tasks.append((fn, i, n, dict(opt)))
    dumps = None
    if TIER == "thorough":
        dumps = f"{B}/out/dump-{os.getpid()}"
        for j, t in enumerate(tasks): t[3]["dump"] = f"{dumps}/{j}"; os.makedirs(t[3]["dump"], exist_ok=True)
    if any(k.get("property") == pid and k.get("status") == "known" for k in known()):
        for t in tasks: t[3]["known"] = True
    tasks.sort(key=lambda t: -t[3].get("cost", 1))
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(engine, tasks))
    problems, viols, limits = ([] if fns else ["no harness of this property compiles against the tree"]), [], []
    for r in res:
        for e in [r["fatal"]] if "fatal" in r else r["errors"]: (limits if LIMIT.search(e) else problems).append(f"{r['fn']} shard {r['shard']}: {e}")
        if "fatal" in r: continue
        if r["solver"]["unknown"]: limits.append(f"{r['fn']}: solver answered unknown {r['solver']['unknown']} times")
        for v in r["violations"]: viols.append((r["fn"], v))
    good = [r for r in res if "fatal" not in r]
    # vacuity: every declared reachability witness must have been reached
    cov_by = {}
    for r in good:
        for k, v in r["covers"].items(): cov_by.setdefault(r["fn"], {}).setdefault(k, 0); cov_by[r["fn"]][k] += v
    missing = []
    for fn, opt in fns.items():
        for c in opt.get("covers", []):
            if not cov_by.get(fn, {}).get(c): missing.append(f"{fn}: witness '{c}' never reached")
    # replay counterexamples on the native build
    confirmed, spurious = [], []
    by = {}
    for fn, v in viols: by.setdefault(fn, []).append(v)
    for fn, vs in by.items():
        for v in vs:
            out, err = native(fn, [v["inputs"]])
            if out is None: spurious.append(f"{fn}: {v['id']}: replay failed: {err}"); continue
            if v["id"] in out[0]["fails"]: confirmed.append((fn, v, out[0]))
            else: spurious.append(f"{fn}: '{v['id']}' not reproduced natively (native failures: {out[0]['fails']})")
    # validate sampled paths: the native run must observe exactly what the symbolic run predicts
    nval, samples, byfn = 0, [], {}
    for r in good:
        for s in r["samples"]: byfn.setdefault(r["fn"], []).append(dict(s, fn=r["fn"]))
    for fn, ss in byfn.items():
        out, err = native(fn, [s["inputs"] for s in ss])
        if out is None: problems.append(f"{fn}: native validation failed: {err}"); continue
        for s, o in zip(ss, out):
            want = [[k, bytes(x & 255 for x in v).hex()] for k, v in s["notes"]]
            if o["fails"] or sorted(o["covers"]) != sorted(s["covers"]) or [list(x) for x in o["notes"]] != want or o["consumed"] != len(s["inputs"]):
                if not confirmed: problems.append(f"{fn}: native run disagrees with symbolic path: fails={o['fails']} covers={o['covers']} vs {s['covers']} notes_equal={[list(x) for x in o['notes']] == want}")
            else: nval += 1
        samples += [show(s) for s in ss[:2]]
    tot = lambda k: sum(r[k] for r in good)
    sol = lambda k: sum(r["solver"][k] for r in good)
    aids = {}
    for r in good:
        for k, (a, b) in r["assert_ids"].items(): x = aids.setdefault(f"{r['fn']}: {k}", [0, 0]); x[0] += a; x[1] += b
    cross = cross_check(dumps, problems) if TIER == "thorough" else None
    funcs = set()
    for r in good: funcs.update(r["functions"])
    cov = dict(states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=nval, samples=samples[:6],
        technique="symbolic execution of the contract's compiled WebAssembly (regenerated from /repo on this run); every feasible path within the bounds is explored, each assertion is decided by Z3 over all inputs of the path",
        bounds=P["bounds"], exhaustive=not problems and not missing and not limits, unexplored=limits,
        functions_encoded=demangle(funcs), functions_encoded_total=len(funcs),
        instructions_executed=tot("steps"), longest_path_instructions=max([r["max_steps"] for r in good] or [0]), symbolic_inputs_max=max([r["sym_inputs_max"] for r in good] or [0]),
        assertion_checks=tot("asserts"), assertions_decided_by_solver=tot("asserts_solver"), assertions_folded_by_simplifier=tot("asserts_folded"), distinct_assertions=len(aids),
        solver=dict(name="z3 4.8.12", queries=sol("queries"), sat=sol("sat"), unsat=sol("unsat"), unknown=sol("unknown"), cache_hits=sol("cache_hits"), time_s=round(sol("time_s"), 3)),
        simplifier_audit={k: round(sum(r["audit"][k] for r in good), 3) for k in ("equalities_folded", "equalities_distinct", "equalities_rechecked", "rewrites_seen", "rewrites_rechecked", "domain_branches_rechecked", "inconclusive", "time_s")},
        second_solver=cross, branches_symbolic=tot("branch_sym"), panics_caught=tot("traps_caught"), reachability_witnesses={f: c for f, c in cov_by.items()},
        harnesses={r["fn"] + (" " + r["shard"] if r["shard"] != "0/1" else ""): dict(paths=r["paths"], asserts=r["asserts"], wall_s=round(r["wall_s"], 2), rss_gb=r["rss_gb"]) for r in good},
        build_s=round(tb, 1), harnesses_skipped=skipped, problems=problems + missing + spurious)
    kn = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    fresh = []
    for fn, v, o in confirmed:
        m = [k for k in kn if k["harness"] == fn and k["assertion"] == v["id"]]
        if m: print(f"KNOWN-FINDING: property={pid} {m[0]['what']}")
        else: fresh.append((fn, v, o))
    write(cov, len(fresh))
    print(f"{pid} {TIER}: {tot('paths')} paths, {tot('asserts')} assertion checks, {sol('queries')} solver queries ({sol('time_s'):.1f}s), {sum(r['audit']['equalities_rechecked'] + r['audit']['rewrites_rechecked'] for r in good)} simplifier results re-decided by the solver, {nval} paths validated natively, build {tb:.0f}s, total {time.time() - t0:.0f}s")
    if fresh:
        os.makedirs(f"{V}/evidence/replay", exist_ok=True)
        seen = set()
        for fn, v, o in fresh:
            key = (fn, v["id"])
            if key in seen: continue
            seen.add(key)
            path = f"{V}/evidence/replay/{pid}-{fn.replace(':', '-')}-{len(seen)}.json"
            json.dump(dict(property=pid, harness=fn, assertion=v["id"], how=v["how"], tier=TIER, inputs=v["inputs"], native=dict(fails=o["fails"], covers=o["covers"], notes=[[k, bytes.fromhex(h).decode("utf8", "replace")] for k, h in o["notes"]]), reproduce=f"VERIF_TIER={TIER} python3 {V}/check.py --replay {path}"), open(path, "w"), indent=1)
            print(f"  counterexample: harness {fn}, assertion '{v['id']}' ({v['how']}), reproduced on the native build")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for p in limits: print("INCOMPLETE (within the bounds, not everything was explored):", p)
    for p in problems + missing + spurious: print("NO VERDICT:", p)
    return 2 if problems or missing or spurious else 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--build": sys.exit(0 if build() and not LIBS else 2)
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        if not build(): sys.exit(2)
        TIER = d["tier"]
        out, err = native(d["harness"], [d["inputs"]])
        print(json.dumps(out[0] if out else err, indent=1))
        sys.exit(1 if out and d["assertion"] in out[0]["fails"] else 0)
    if len(a) != 1 or a[0] not in PROPS: print(__doc__); sys.exit(2)
    sys.exit(main(a[0]))
