#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by symbolic execution of the LLVM IR
that rustc emits for /repo's current sources plus the property's harness, with z3 as the decider.

exit 0: no violation within the bounds; 1: confirmed violation (VIOLATION line);
3: no answer (build failure, solver gave up, a counterexample that does not reproduce, ...)."""
import sys, os, json, subprocess, time, shutil, concurrent.futures as cf, re, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS
B = os.path.join(V, "build")
ENG = os.path.join(B, "engine", "release", "symir")
TGT = os.path.join(B, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
FLAGS = f"-Cno-vectorize-loops -Cno-vectorize-slp -Ctarget-cpu=x86-64-v3 -Lnative={B} -lstatic=symrt -Awarnings"

def die(msg):
    print(f"NO-ANSWER: {msg}", flush=True)
    sys.exit(3)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(bin_):
    os.makedirs(B, exist_ok=True)
    o = os.path.join(B, "symrt.o")
    r = run(["gcc", "-O1", "-fPIC", "-c", os.path.join(V, "harness/symrt/symrt.c"), "-o", o])
    if r.returncode: die("symrt: " + r.stdout)
    lib = os.path.join(B, "libsymrt.a")
    if os.path.exists(lib): os.remove(lib)
    run(["ar", "rcs", lib, o])
    with cf.ThreadPoolExecutor(2) as ex:
        e = ex.submit(run, ["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")],
                      cwd=os.path.join(V, "engine"), env=ENV)
        deps = os.path.join(TGT, "release", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith(bin_ + "-") and f.endswith(".ll"): os.remove(os.path.join(deps, f))
        exe = os.path.join(TGT, "release", bin_)
        if os.path.exists(exe): os.remove(exe)
        h = run(["cargo", "rustc", "--release", "--offline", "--target-dir", TGT, "--bin", bin_, "--", "--emit=llvm-ir,link"],
                cwd=os.path.join(V, "harness"), env=dict(ENV, RUSTFLAGS=FLAGS))
        if h.returncode: die("harness build failed\n" + h.stdout[-4000:])
        e = e.result()
        if e.returncode: die("engine build failed\n" + e.stdout[-4000:])
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(bin_ + "-") and f.endswith(".ll")]
    if not ll:
        # up to date from cargo's point of view but the IR was removed: force it
        os.utime(os.path.join(V, "harness/src/bin", bin_ + ".rs"))
        h = run(["cargo", "rustc", "--release", "--offline", "--target-dir", TGT, "--bin", bin_, "--", "--emit=llvm-ir,link"],
                cwd=os.path.join(V, "harness"), env=dict(ENV, RUSTFLAGS=FLAGS))
        ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(bin_ + "-") and f.endswith(".ll")]
    if not ll: die("no IR produced")
    return max(ll, key=os.path.getmtime), exe

_n = [0]; _lk = threading.Lock()
def native(exe, entry, inputs, extra_env=None, wrap=(), timeout=20):
    with _lk:
        _n[0] += 1; k = _n[0]
    d = os.path.join(B, "run", str(os.getpid())); os.makedirs(d, exist_ok=True)
    fi, fo = os.path.join(d, f"{k}.in"), os.path.join(d, f"{k}.out")
    with open(fi, "w") as f: f.write("\n".join(str(x) for x in inputs) + "\n")
    env = dict(os.environ, SYMRT_IN=fi, SYMRT_OUT=fo, RUST_BACKTRACE="0"); env.update(extra_env or {})
    try:
        r = subprocess.run(list(wrap) + [exe, entry], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=d)
        rc, err, done = r.returncode, r.stderr.decode(errors="replace"), b"DONE" in r.stdout
    except subprocess.TimeoutExpired:
        rc, err, done = "timeout", "", False
    out = open(fo).read().splitlines() if os.path.exists(fo) else []
    for f in (fi, fo):
        if os.path.exists(f): os.remove(f)
    return dict(rc=rc, out=out, err=err, done=done, obs=[l.split()[1] for l in out if l.startswith("OBS ")],
                failed=[l[13:] for l in out if l.startswith("CHECK-FAILED ")], covers=[l[6:] for l in out if l.startswith("COVER ")])

def confirm(exe, entry, v):
    """Replay a counterexample against the real code; returns a description if it reproduces."""
    for pert in (None, "170", "85", "255"):
        r = native(exe, entry, v["inputs"], {"MALLOC_PERTURB_": pert} if pert else None)
        if r["failed"]: return f"check {r['failed'][0]} fails natively", r["failed"][0]
        if r["rc"] == "timeout": return "native run does not terminate", "termination"
        if r["rc"] not in (0, 77): 
            m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", r["err"])
            return f"native run dies (status {r['rc']})" + (f": {m.group(1)} {m.group(2)}" if m else ""), v["id"]
    if v["kind"] not in ("hang",) and shutil.which("valgrind"):
        r = native(exe, entry, v["inputs"], wrap=["valgrind", "-q", "--error-exitcode=55"], timeout=120)
        if r["rc"] == 55: return "valgrind: " + (r["err"].splitlines() or [""])[0], v["id"]
    return None, None

def load_known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    ll, exe = build(c["bin"])
    t_build = time.time() - t0
    entries = [e for e in c["entries"] if e["tier"] == "quick" or tier == "thorough"]
    only = os.environ.get("ENTRY")
    if only: entries = [e for e in entries if e["name"] in only.split(",")]
    od = os.path.join(B, "out", pid); os.makedirs(od, exist_ok=True)
    budget = 840 if tier == "quick" else 36000
    res, crashed = {}, []
    # longest first, a few at a time: most entries split into cases that use several cores
    def one(e):
        out = os.path.join(od, e["name"] + ".json")
        if os.path.exists(out): os.remove(out)
        secs = max(20, min(e["secs"] * (1 if tier == "quick" else 20), budget - (time.time() - t0)))
        r = run([ENG, ll, "--entry", e["name"], "--jobs", "8", "--secs", str(int(secs)), "--out", out] + e["args"])
        if r.returncode or not os.path.exists(out): crashed.append(f"{e['name']}: engine failed: {r.stdout[-1500:]}"); return
        res[e["name"]] = json.load(open(out))
    with cf.ThreadPoolExecutor(c.get("par", 3)) as ex: list(ex.map(one, entries))
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    problems, viols, kf = list(crashed), [], []
    tot = dict(steps=0, paths=0, forks=0, merges=0, queries=0, cache_hits=0, solver_s=0.0, killed=0, fallback=0, sum_decisions=0)
    closing = dict(proved=0, undecided=0, skipped_too_many_paths=0, not_needed=0)
    checks, covers, fns, samples, validated, maxq = {}, {}, set(), [], 0, 0.0
    per_entry = {}
    for e in entries:
        cases = res.get(e["name"])
        if cases is None: continue
        ecov = {}; vs = {}; es = dict(cases=len(cases), paths=0, queries=0, solver_s=0.0, steps=0, wall=0.0)
        traces = []
        for k in cases:
            for x in k.get("incomplete", []): problems.append(f"{e['name']} case {k.get('case')}: {x}")
            if "steps" not in k: continue
            for f in tot: tot[f] += k[f]
            for f in ("paths", "queries", "solver_s", "steps"): es[f] += k[f]
            es["wall"] = max(es["wall"], k["wall"])
            maxq = max(maxq, k["max_query_s"])
            closing[{1: "proved", 2: "undecided", 3: "skipped_too_many_paths"}.get(k.get("closing"), "not_needed")] += 1
            if k["unknowns"] and not k["incomplete"]: problems.append(f"{e['name']}: solver unknowns")
            if not k["paths"] and not k["killed"] and not k["violations"] and not k["incomplete"]: problems.append(f"{e['name']} case {k['case']}: no path explored")
            for i, (a, b) in k["checks"].items():
                x = checks.setdefault(i, [0, 0]); x[0] += a; x[1] += b
            for i, n in k["covers"].items(): ecov[i] = ecov.get(i, 0) + n
            fns.update(k["fns"])
            for v in k["violations"]: vs.setdefault(v["id"], []).append(v)
            traces += k["traces"][:3]
        # violations: each must reproduce against the real code
        for vid, lst in vs.items():
            hit = None
            for v in lst:
                how, rid = confirm(exe, e["name"], v)
                if how: hit = (v, how, rid); break
            if not hit: problems.append(f"{e['name']}: counterexample for {vid} ({lst[0]['kind']}: {lst[0]['msg']}) does not reproduce natively; inputs {lst[0]['inputs']}")
            else:
                v, how, rid = hit
                k = next((k for k in known if k["entry"] == e["name"] and k["check"] in (vid, rid)), None)
                if k: kf.append((k, v))
                else: viols.append((e["name"], v, how, rid))
        if not vs:
            miss = [x for x in e["covers"] if x not in ecov]
            if miss: problems.append(f"{e['name']}: never reached {miss}")
            # situations the property promises: unreachable over every input is a violation
            gone = [x for x in e.get("must", []) if x not in ecov]
            if gone and all("steps" in k and not k.get("incomplete") and not k["unknowns"] for k in cases):
                viols.append((e["name"], dict(id="reachable", kind="unreachable", msg=f"no input leads to: {', '.join(gone[:8])}", inputs=[]), "every path of the entry was explored", "reachable"))
            elif gone: problems.append(f"{e['name']}: never reached {gone[:8]}")
        for i, n in ecov.items(): covers[i] = covers.get(i, 0) + n
        # translation validation of sampled paths: same observations natively
        step = max(1, len(traces) // 24)
        def val(t):
            return t, native(exe, e["name"], t["inputs"])
        if not vs:
            with cf.ThreadPoolExecutor(8) as ex:
                for t, r in ex.map(val, traces[::step][:40]):
                    o = t["observed"]
                    ok = r["rc"] == 0 and len(o) == len(r["obs"]) and all(a == "?" or a == b for a, b in zip(o, r["obs"]))
                    if not ok: problems.append(f"{e['name']}: native run of an explored path differs: rc {r['rc']} failed {r['failed']} observed {r['obs'][:20]} expected {o[:20]} inputs {t['inputs'][:60]} {r['err'][-300:]}")
                    else:
                        validated += 1
                        if len(samples) < 6: samples.append(dict(entry=e["name"], inputs=t["inputs"][:40], observed=o[:12]))
        per_entry[e["name"]] = {k: (round(x, 2) if isinstance(x, float) else x) for k, x in es.items()}
    rc = 0
    for k, v in kf: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rd = os.path.join(B, "replays", pid); os.makedirs(rd, exist_ok=True)
    for i, (en, v, how, rid) in enumerate(viols):
        p = os.path.join(rd, f"{en}-{i}.json")
        json.dump(dict(property=pid, entry=en, check=v["id"], kind=v["kind"], message=v["msg"], confirmed=how, inputs=v["inputs"],
                       replay=f"SYMRT_IN=<inputs, one per line> {exe} {en}"), open(p, "w"), indent=1)
        print(f"  {en}: {v['kind']} {v['id']}: {v['msg']} -- {how}")
        print(f"VIOLATION property={pid} replay={p}")
        rc = 1
    if problems:
        for p in problems[:20]: print("PROBLEM:", p[:1500])
        if rc == 0: rc = 3
    unproved = {i: x for i, x in checks.items() if x[0] != x[1]}
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viols),
        assumptions=c.get("assumptions", []) + COMMON,
        coverage=dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples or [{"note": "no path sampled (violations were found)"}],
            states_meaning="symbolic paths explored to their end (each covers every input that follows it; joined branches count once)",
            transitions_meaning="LLVM instructions executed symbolically", bounds=c["bounds"], assertions={i: dict(evaluated=a, proved=b) for i, (a, b) in sorted(checks.items())},
            assertions_not_proved=sorted(unproved), situations_reached=covers, queries=tot["queries"], query_cache_hits=tot["cache_hits"], solver_s=round(tot["solver_s"], 2),
            longest_query_s=round(maxq, 2), forks=tot["forks"], merges=tot["merges"], closing_queries=closing, infeasible_or_assumed_away=tot["killed"], structural_sum_decisions=tot["sum_decisions"],
            functions_encoded=sorted(f for f in fns if "bitboost" in f), other_functions_encoded=len([f for f in fns if "bitboost" not in f]),
            entries=per_entry, build_s=round(t_build, 2), problems=problems[:20], known_findings=[k["what"] for k, _ in kf], exit=rc))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(os.path.join(B, "run", str(os.getpid())), ignore_errors=True)
    print(f"{pid} {tier}: {'ok' if rc == 0 else 'violation' if rc == 1 else 'no answer'}; {len(checks)} assertions, {tot['paths']} paths, {tot['queries']} queries, solver {tot['solver_s']:.1f}s, {validated} traces validated, build {t_build:.0f}s, wall {wall:.0f}s")
    sys.exit(rc)

COMMON = ["rustc's code generation from the IR to machine code is trusted (sampled paths are re-run natively)",
          "the IR is that of the check profile: opt-level 1, overflow checks and debug assertions on, AVX2",
          "allocation never fails; rand, rayon, cpu-time and pretty_env_logger are replaced by stand-ins that allow every behaviour of their contract"]
if __name__ == "__main__": main()
