#!/usr/bin/env python3
"""tryseeds.py [ID ...]: apply each planted change to /repo, run its property's quick check (or all with --all), undo."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
seed = next((a.split("=")[1] for a in sys.argv if a.startswith("--seed=")), "1")
props = sorted(json.load(open(f"{V}/harness/checks.json")))
for i in ids:
    d = f"{V}/seeded/{i}"; m = json.load(open(f"{d}/meta.json"))
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    try:
        for p in (props if "--all" in sys.argv else [m["property"]]):
            r = subprocess.run(["python3", "run.py", p, "--seed", seed, "--no-evidence"], cwd=V, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode or p == m["property"]:
                print(f"{i}: {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'missed'}  {(r.stdout.strip().splitlines() or [''])[0][:230] if r.returncode else ''}", flush=True)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
subprocess.run("rm -rf /verif/replays", shell=True)
