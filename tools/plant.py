#!/usr/bin/env python3
"""plant.py ID PROPERTY 'needs' 'breaks' < edits : confirm a planted change in a scratch copy and store it.

The scratch copy lives at /tmp/plant/repo.  The working files (demo.cpp, edited sources) are prepared by the caller:
  plant.py start                 make the scratch copy
  plant.py keep ID PROP NEEDS BREAKS DEMO_CPP    verify the scratch copy's changes with the demo and store them
  plant.py end                   remove it
The scratch is bind-less: demo.sh names /repo, so the demo is run against a copy of demo.sh with the path replaced."""
import json, os, shutil, subprocess, sys
S = "/tmp/plant/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def build(root):
    r = sh(f"sed 's#/repo#{root}#g' /opt/vp/build.sh > /tmp/plant/build.sh; bash /tmp/plant/build.sh")
    if r.returncode: print(r.stdout[-3000:], r.stderr[-2000:]); sys.exit("build failed")
def demo(root, d):
    t = "/tmp/plant/demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in ("meta.json", "patch.diff"):
        if os.path.exists(f"{t}/{f}"): os.remove(f"{t}/{f}")
    p = f"{t}/demo.sh"; s = open(p).read().replace("/repo", root); open(p, "w").write(s)
    r = sh(f"bash {p}", cwd=root); return r.returncode, r.stdout + r.stderr
def tests(root):
    """Names of the passing tests, one process per run (the stable ones are in BASELINE.json)."""
    out = sh(f"timeout 300 {root}/_build/tests/hydrobricks-tests 2>&1", cwd=root).stdout
    ok = {l.split("]")[1].split("(")[0].strip() for l in out.splitlines() if l.startswith("[       OK ]")}
    return ok
a = sys.argv
if a[1] == "start":
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.rmtree(S, ignore_errors=True); sh(f"git clone -q /repo {S}")
    build(S)
elif a[1] == "end":
    shutil.rmtree("/tmp/plant", ignore_errors=True)
elif a[1] == "keep":
    _, _, i, prop, needs, breaks, cpp = a
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    for f in ("mini.h", "demo.sh"): shutil.copy(f"{V}/tools/seedkit/{f}", d)
    shutil.copy(cpp, f"{d}/demo.cpp")
    diff = sh("git diff", cwd=S).stdout
    if not diff: sys.exit("no change")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    build(S); rc, out = demo(S, d); t = tests(S)
    print("patched demo rc", rc, out[-500:])
    sh("git stash", cwd=S); build(S); rc0, out0 = demo(S, d)
    print("clean demo rc", rc0, out0[-1500:])
    t0 = tests(S); print("tests passing clean", len(t0), "patched", len(t & t0), sorted(t0 - t)[:5])
    ok = rc != 0 and rc0 == 0 and t0 <= t and len(t0) >= 355
    sh("git stash drop", cwd=S)
    print("KEPT" if ok else "REJECTED", i)
    if not ok: shutil.rmtree(d)
