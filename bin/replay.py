#!/usr/bin/env python3
"""replay.py FILE: run the recorded counterexample natively against the code currently built in work/."""
import sys, json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = json.load(open(sys.argv[1])); sys.path.insert(0, V + "/bin"); import props
f = tempfile.NamedTemporaryFile("w", delete=False); f.write("\n".join(map(str, j["inputs"])) + "\n"); f.close()
exe = os.path.join(V, "work", props.PROPS[j["property"]]["bin"] + ".exe")
r = subprocess.run([exe], env={**os.environ, "RSX_HARNESS": j["harness"], "RSX_REPLAY": f.name, "RSX_PARAMS": ",".join(map(str, j["params"]))})
os.remove(f.name); print("exit", r.returncode)
