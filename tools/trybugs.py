#!/usr/bin/env python3
"""Runs the checks against planted bugs in scratch copies: trybugs.py [id...] [--check Cxx]. Development aid."""
import json, os, shutil, subprocess, sys, tempfile, time
V = "/verif"
a = sys.argv[1:]
checks = None
if "--check" in a:
    i = a.index("--check"); checks = a[i + 1].split(","); del a[i:i + 2]
for id in a or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + id
    w = tempfile.mkdtemp(prefix="try.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"])
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
        if r.returncode: print(id, "does not apply", r.stderr); continue
        for c in checks or [json.load(open(d + "/meta.json"))["property"]]:
            t = time.time()
            r = subprocess.run(["python3", "run.py", c], cwd=V, capture_output=True, text=True, env=dict(os.environ, MC_REPO=w + "/repo", MC_BUILD=w + "/build"))
            o = r.stdout.strip().split("\n")
            print("%-36s %s %s %.0fs: %s" % (id, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), time.time() - t, " | ".join(o[:2])[:260] if r.returncode else ""), flush=True)
            if r.returncode > 1: print(r.stdout[-2000:], r.stderr[-1000:])
    finally:
        shutil.rmtree(w)
