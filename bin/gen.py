#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/spec.py and bin/props.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props, spec
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for s in spec.SPECS:
            f.write(json.dumps({"id": s["id"], "title": s["title"], "statement": s["statement"],
              "quantifier": {"over": s["over"], "text": s["quant"]}, "why_tests_cant": s["why"],
              "anchors": {"files": s["files"], "mechanism": [{"name": n, "where": w} for n, w in s["mech"]], "observe_at": s.get("observe", []), "hook_needed": s.get("hook")}}) + "\n")
    commits = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if "verif hooks" in l]
    checks, na = [], []
    for s in spec.SPECS:
        if s["id"] in props.PROPS:
            hs = props.PROPS[s["id"]]["harnesses"]
            bound = "; ".join("%s[%s]: %s" % (h["name"], ",".join("p%d=%s" % (i, v) for i, v in enumerate(h["q"])), h["bounds"]) for h in hs)
            checks.append({"property": s["id"], "technique": "symbolic execution of the compiled LLVM IR of the real code with SMT (z3) deciding every assertion on every path; counterexamples replayed natively",
              "level": "model_checking", "level_note": "Holds for all values within the bounds, nothing outside them. Bounds (quick tier): " + bound + ". Trusts rustc/LLVM's front end up to optimised IR, the executor rsx (validated by replaying sampled paths natively on every run), z3; libm functions are uninterpreted, random draws are any value the generator's contract allows.",
              "quick_cmd": "VERIF_TIER=quick python3 bin/check.py %s" % s["id"], "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % s["id"]})
        else: na.append({"property": s["id"], "reason": s.get("na", "check under construction in this session")})
    return checks, na, commits
if __name__ == "__main__":
    checks, na, commits = main()
    m = spec.manifest(checks, na, commits)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
