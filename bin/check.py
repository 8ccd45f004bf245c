#!/usr/bin/env python3
"""check.py PID : build the harness from /repo's current tree, execute it symbolically, replay, report."""
import sys, os, json, hashlib, subprocess, time, glob, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
import props
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TC = "nightly-2025-12-19"
JOBS = os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8))
WORK = os.path.join(V, "work")

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg, code=3):
    print("CHECK-ERROR:", msg); sys.exit(code)
def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
def src_files(root, pats=(".rs", ".toml", ".lock")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules", "work", "evidence", "pkg")]
        out += [os.path.join(d, f) for f in fs if f.endswith(pats)]
    return out
def ensure_rsx():
    exe = os.path.join(V, "rsx/target/release/rsx"); keyf = os.path.join(WORK, "rsx.key")
    os.makedirs(WORK, exist_ok=True)
    key = hash_files(src_files(os.path.join(V, "rsx")) + [os.path.join(V, "rt/rsx_rt.c")])
    obj = os.path.join(WORK, "rsx_rt.o")
    if not (os.path.exists(exe) and os.path.exists(obj) and os.path.exists(keyf) and open(keyf).read() == key):
        r = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "rsx"), env={**os.environ, "RUSTUP_TOOLCHAIN": "stable"})
        if r.returncode: die("building rsx failed\n" + r.stdout[-3000:])
        r = run(["gcc", "-O1", "-c", os.path.join(V, "rt/rsx_rt.c"), "-o", obj])
        if r.returncode: die("building rsx_rt failed\n" + r.stdout[-3000:])
        open(keyf, "w").write(key)
    return exe, obj
def build(crate, binname, obj):
    cd = os.path.join(V, crate)
    repohash = hash_files(src_files(REPO))
    shared = [p for p in src_files(cd) if "/src/bin/" not in p] + [os.path.join(cd, "src/bin", binname + ".rs")] + src_files(os.path.join(V, "stubs")) + [os.path.join(V, "rt/rt.rs"), os.path.join(V, "rt/rsx_rt.c")]
    key = hashlib.sha256((repohash + hash_files([p for p in shared if not p.endswith("Cargo.lock")]) + TC + V + open(__file__).read()).encode()).hexdigest()
    ll, exe, kf = (os.path.join(WORK, binname + x) for x in (".ll", ".exe", ".key"))
    if os.path.exists(kf) and open(kf).read() == key and os.path.exists(ll) and os.path.exists(exe): return ll, exe
    tgt = os.path.join(cd, "target")
    env = {**os.environ, "RUSTUP_TOOLCHAIN": TC, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cfg verif_hooks", "CARGO_TARGET_DIR": tgt}
    rh = os.path.join(tgt, ".repohash")
    if os.path.exists(rh) and open(rh).read() != repohash:
        for pk in ("dynamic_expressions", "symbolic_regression", "symbolic_regression_wasm"):
            run(["cargo", "clean", "--release", "--offline", "-p", pk], cwd=cd, env=env)
    for f in glob.glob(os.path.join(tgt, "release/deps", binname + "-*.ll")): os.remove(f)
    os.utime(os.path.join(cd, "src/bin", binname + ".rs"))
    t = time.time()
    r = run(["cargo", "rustc", "--release", "--offline", "--bin", binname, "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=" + obj], cwd=cd, env=env)
    if r.returncode: die("building the harness against %s failed\n%s" % (REPO, r.stdout[-6000:]))
    os.makedirs(tgt, exist_ok=True); open(rh, "w").write(repohash)
    lls = glob.glob(os.path.join(tgt, "release/deps", binname + "-*.ll"))
    if len(lls) != 1: die("expected one .ll, got %s" % lls)
    shutil.copy(lls[0], ll); shutil.copy(os.path.join(tgt, "release", binname), exe)
    open(kf, "w").write(key)
    print("built %s/%s from %s in %.1fs" % (crate, binname, REPO, time.time() - t))
    return ll, exe
def replay(exe, harness, params, inputs, timeout=20):
    f = os.path.join(WORK, "replay-%d.in" % os.getpid()); o = os.path.join(WORK, "replay-%d.obs" % os.getpid())
    open(f, "w").write("\n".join(str(x) for x in inputs) + "\n")
    if os.path.exists(o): os.remove(o)
    env = {**os.environ, "RSX_HARNESS": harness, "RSX_REPLAY": f, "RSX_OBS": o, "RSX_PARAMS": ",".join(map(str, params)), "RUST_BACKTRACE": "0"}
    try:
        r = run([exe], env=env, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, out = -999, "timeout"
    ob = [int(x) for x in open(o).read().split()] if os.path.exists(o) else []
    for x in (f, o):
        if os.path.exists(x): os.remove(x)
    # outcome
    if rc == 0 and "REPLAY: completed" in out: k = "ok"
    elif rc == 10: k = "check"
    elif rc == -999: k = "steps"
    elif rc == 4: k = "rejected"
    elif rc == 3: k = "mismatch"
    else: k = "panic"
    return k, out, ob
def known():
    f = os.path.join(V, "known_findings.jsonl"); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"): out.append(json.loads(l))
    return out
def is_known(pid, h, v, kf):
    for k in kf:
        if k.get("status") == "known" and k["property"] == pid and k["harness"] == h and k["kind"] == v["kind"] and re.search(k["msg"], v["msg"]): return k
    return None
def main():
    pid = sys.argv[1]; only = sys.argv[2:] 
    P = props.PROPS[pid]; t0 = time.time()
    exe_rsx, obj = ensure_rsx()
    ll, exe = build(P["crate"], P["bin"], obj)
    tb = time.time() - t0
    kf = known(); reported_known = set()
    viols = []; undecided = []; per = []; nsamp = 0; nval = 0; mism = 0; samples = []; funcs = {}; vac = []
    tot = {}
    for h in P["harnesses"]:
        if only and h["name"] not in only: continue
        params = h["q"] if TIER == "quick" else h["t"]
        to = h.get("timeout", 200) if TIER == "quick" else h.get("ttimeout", 3600)
        if TIER == "quick": to = max(20, min(to, 700 - (time.time() - t0)))  # the whole check stays under 900 s
        out = os.path.join(WORK, "%s-%s.json" % (pid, h["name"]))
        if os.path.exists(out): os.remove(out)
        cmd = [exe_rsx, "--ll", ll, "--harness", h["name"], "--mode", h["mode"], "--jobs", JOBS, "--timeout", str(int(to)), "--samples", "4", "--max-viol", "3", "--stop-after", "4", "--out", out, "--work", os.path.join(WORK, "rsx-" + pid)]
        for k in ("ieee-timeout", "real-timeout", "max-steps"):
            if k.replace("-", "_") in h: cmd += ["--" + k, str(h[k.replace("-", "_")])]
        if params: cmd += ["--params", ",".join(map(str, params))]
        r = run(cmd)
        try: j = json.loads(open(out).readlines()[-1])
        except Exception: die("rsx gave no result for %s: %s" % (h["name"], r.stdout[-2000:]))
        for v in j["violations"]:
            k, o, _ = replay(exe, h["name"], params, v["inputs"])
            v["native"] = k
            if k in ("check", "panic", "steps") :
                v["native_output"] = o[-600:]
                kn = is_known(pid, h["name"], v, kf)
                if kn:
                    if kn["id"] not in reported_known: print("KNOWN-FINDING: property=%s %s" % (pid, kn["what"])); reported_known.add(kn["id"])
                else: viols.append((h["name"], params, v))
            else: undecided.append("%s: %s '%s' found symbolically but the native run ends '%s'" % (h["name"], v["kind"], v["msg"], k))
        if j["undecided"]: undecided.append("%s: %d assertions undecided by the solver" % (h["name"], j["undecided"]))
        if j["incomplete"]: undecided.append("%s: %d paths not completed (%s)" % (h["name"], j["incomplete"], "; ".join(j["notes"])[:300]))
        for s in j["samples"]:
            nsamp += 1
            k, o, ob = replay(exe, h["name"], params, s["inputs"])
            if k == "ok" and ob == s["obs"]: nval += 1
            else: mism += 1; undecided.append("%s: sample path differs natively (%s) inputs=%s obs=%s native=%s" % (h["name"], k, s["inputs"], s["obs"], ob))
        if j["samples"]: samples.append({"harness": h["name"], "inputs": j["samples"][0]["inputs"], "observed": j["samples"][0]["obs"]})
        miss = [c for c in h["covers"] if str(c) not in j["covers"]]
        if miss: vac.append("%s: coverage points %s not reached" % (h["name"], miss))
        # what must remain possible: not reached although every path was explored to its end
        miss = [c for c in h.get("musts", {}) if str(c) not in j["covers"]]
        if miss and not (j["undecided"] or j["incomplete"] or j["violations"] or j["solver_unknown"] or j.get("branch_unknown")):
            for c in miss: viols.append((h["name"], params, {"kind": "unreachable", "msg": "no input or draw within the bounds leads to: " + h["musts"][c], "inputs": [], "native": "n/a", "native_output": "every path was explored; none reaches point %s" % c}))
        elif miss: undecided.append("%s: points %s not reached, exploration incomplete" % (h["name"], miss))
        if j["completed_paths"] == 0: vac.append("%s: no completed path" % h["name"])
        for k, n in j["functions"].items(): funcs[k] = max(funcs.get(k, 0), n) if isinstance(n, int) else n
        for k in ("paths", "completed_paths", "assumed_away", "forks", "ir_instructions", "checks_trivial", "checks_proved", "checks_proved_real", "checks_proved_ieee", "undecided", "incomplete", "infeasible", "queries_uf", "queries_ieee", "queries_real", "solver_unknown", "solver_sat", "solver_unsat", "solver_us", "branch_unknown"): tot[k] = tot.get(k, 0) + j.get(k, 0)
        per.append({"harness": h["name"], "bounds": h["bounds"], "params": params, "mode": h["mode"], "paths": j["paths"], "completed": j["completed_paths"], "checks": {k: j[k] for k in ("checks_trivial", "checks_proved", "checks_proved_real", "checks_proved_ieee", "undecided")}, "wall_s": j["wall_s"], "covers": j["covers"], "stopped_early": bool(j["violations"])})
        print("%-28s paths=%d checks=%d+%d+%d+%d undecided=%d incomplete=%d queries=%d violations=%d %.1fs" % (h["name"], j["paths"], j["checks_trivial"], j["checks_proved"], j["checks_proved_ieee"], j["checks_proved_real"], j["undecided"], j["incomplete"], j["queries_uf"] + j["queries_ieee"] + j["queries_real"], len(j["violations"]), j["wall_s"]))
        if viols and TIER == "quick": break
    for u in undecided[:8]: print("UNDECIDED:", u[:300])
    for u in vac[:20]: print("VACUITY-WARNING:", u)
    rd = os.path.join(V, "evidence", "replay"); 
    if viols: os.makedirs(rd, exist_ok=True)
    lines = []
    for i, (h, params, v) in enumerate(viols[:5]):
        p = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "harness": h, "params": params, "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"], "log": v.get("log"), "native": v["native"], "native_output": v["native_output"], "how": "python3 bin/replay.py " + p}, open(p, "w"), indent=1)
        print("  %s: %s: %s" % (h, v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viols),
      "assumptions": props.COMMON_ASSUME + P["assume"],
      "coverage": {"states": tot.get("paths", 0), "transitions": tot.get("ir_instructions", 0), "traces_validated_against_impl": nval, "samples": samples,
        "exhaustive": not undecided and not viols,
        "explanation": "states = symbolic paths of the compiled code (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; assertions are decided for all values on each path (trivial = both sides reduce to the same term; others by z3)",
        "harnesses": per, "functions_encoded": [{"fn": k, "lines_reached": n} for k, n in sorted(funcs.items())], "functions_encoded_count": len(funcs),
        "queries": {k: tot.get(k, 0) for k in ("queries_uf", "queries_ieee", "queries_real", "solver_sat", "solver_unsat", "solver_unknown")}, "solver_time_s": round(tot.get("solver_us", 0) / 1e6, 2),
        "assertions": {k: tot.get(k, 0) for k in ("checks_trivial", "checks_proved", "checks_proved_real", "checks_proved_ieee", "undecided")},
        "paths_completed": tot.get("completed_paths", 0), "paths_assumed_away": tot.get("assumed_away", 0), "paths_incomplete": tot.get("incomplete", 0),
        "samples_replayed": nsamp, "sample_mismatches": mism, "undecided": undecided[:40], "vacuity": vac, "build_s": round(tb, 1), "known_findings_seen": sorted(reported_known)}}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s in %.1fs" % (pid, "VIOLATED" if viols else "held on everything explored", time.time() - t0))
    sys.exit(1 if viols else 0)
if __name__ == "__main__": main()
