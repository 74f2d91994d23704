#!/usr/bin/env python3
"""Builds the monitor of one property from /repo's working tree, runs its cases on all cores, judges, writes evidence.

usage: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]
"""
import argparse, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NCPU = os.cpu_count() or 4
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:detect_invalid_pointer_pairs=0:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
}
CRASH_KEYS = ("crash", "sanitizer", "ub:", "eigen", "stl-", "terminate")
CFG = json.load(open(os.path.join(HERE, "harness", "checks.json")))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(mode, target):
    bdir = os.path.join(BUILD, mode)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, mode + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        logf = os.path.join(bdir, "build.log")
        with open(logf, "w") as lf:
            conf = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", bdir, "-G", "Ninja", "-DMODE=" + mode, "-DREPO=" + REPO,
                    "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE="]
            ok = False
            # Batched translation units first (faster); one by one if batching does not compile.
            for unity in ("ON", "OFF"):
                ok = all(subprocess.call(c, stdout=lf, stderr=subprocess.STDOUT) == 0
                         for c in (conf + ["-DBATCHED=" + unity], ["ninja", "-C", bdir] + target))
                if ok:
                    break
            if not ok:
                lf.flush()
                log(open(logf, errors="replace").read()[-6000:])
                log("build failed")
                sys.exit(2)
    return bdir


class Shard:
    def __init__(self, exe, seed, frm, to, stride, tier, scratch, tag, cpu, extra=()):
        self.exe, self.seed, self.frm, self.to, self.stride, self.tier = exe, seed, frm, to, stride, tier
        self.scratch = os.path.join(scratch, "s%s" % tag)
        self.out = os.path.join(scratch, "o%s.jsonl" % tag)
        self.err = os.path.join(scratch, "e%s.txt" % tag)
        self.cpu, self.extra = cpu, list(extra)
        self.proc = None

    def start(self):
        env = dict(os.environ, **SAN_ENV)
        env["HBMON_DATA"] = os.path.join(HERE, "harness", "data")
        os.makedirs(self.scratch, exist_ok=True)
        cmd = [self.exe, "--seed", str(self.seed), "--from", str(self.frm), "--to", str(self.to), "--stride", str(self.stride),
               "--tier", self.tier, "--out", self.out, "--scratch", self.scratch, "--cpu", str(self.cpu)] + self.extra
        self.proc = subprocess.Popen(cmd, cwd=self.scratch, env=env, stdin=subprocess.DEVNULL,
                                     stdout=subprocess.DEVNULL, stderr=open(self.err, "ab"))

    def events(self):
        evs = []
        if os.path.exists(self.out):
            for ln in open(self.out, errors="replace"):
                ln = ln.strip()
                if not ln:
                    continue
                try:
                    evs.append(json.loads(ln))
                except ValueError:
                    pass
        return evs


def crash_key(errtext, rc):
    m = re.search(r"SUMMARY: (AddressSanitizer|ThreadSanitizer|LeakSanitizer|UndefinedBehaviorSanitizer): (.*)", errtext)
    if m:
        d = m.group(2)
        kind = d.split()[0]
        fn = re.search(r" in ([\w:~<>]+)", d)
        site = ""
        f = re.search(r"([\w]+\.(?:cpp|h)):\d+", d)
        if f:
            site = f.group(1)
        return "sanitizer:%s:%s:%s" % (kind, site, fn.group(1) if fn else "")
    m = re.search(r"([\w]+\.(?:cpp|h)):\d+:\d+: runtime error: (.*)", errtext)
    if m:
        return "ub:%s:%s" % (m.group(1), re.sub(r"-?[\d.e+]+|0x[0-9a-f]+", "#", m.group(2))[:80])
    m = re.search(r"EIGEN-ASSERT (.*) at (\S+?):(\d+)", errtext)
    if m:
        return "eigen-bounds:" + os.path.basename(m.group(2))
    m = re.search(r"Assertion '(.*)' failed", errtext)
    if m:
        return "stl-assert:" + m.group(1)[:80]
    m = re.search(r"terminate called after throwing.*?\n\s*what\(\):\s*(.*)", errtext)
    if m:
        return "terminate:" + m.group(1)[:80]
    return "crash:rc%d" % rc


def alone(exe, seed, index, tier, scratch, cpu, tag):
    """Runs one case in a fresh process; returns (events, rc, stderr)."""
    sh = Shard(exe, seed, index, index + 1, 1, tier, scratch, tag, cpu)
    sh.start()
    sh.proc.wait()
    err = open(sh.err, errors="replace").read() if os.path.exists(sh.err) else ""
    return sh.events(), sh.proc.returncode, err


def sweep(exe, a, ncases, scratch, prefix, cpu, deadline):
    """Runs the cases on all cores, continuing after a crash; returns (shards, crashes, out of time) or None."""
    shards = [Shard(exe, a.seed, i, ncases, NCPU, a.tier, scratch, prefix + str(i), cpu) for i in range(min(NCPU, ncases))]
    for s in shards:
        s.start()
    crashes = []   # (index, rc, err)
    timedout = False
    pending = list(shards)
    gen = {id(s): 0 for s in shards}
    while pending:
        time.sleep(0.05)
        for s in list(pending):
            r = s.proc.poll()
            if r is None:
                if time.time() > deadline:
                    timedout = True
                    s.proc.kill()
                    s.proc.wait()
                    pending.remove(s)
                continue
            evs = s.events()
            if evs and evs[-1]["ev"] == "end" and r in (0,):
                pending.remove(s)
                continue
            started = [e["index"] for e in evs if e["ev"] == "start"]
            done = {e["index"] for e in evs if e["ev"] == "done"}
            open_ = [i for i in started if i not in done]
            if not open_:
                log("shard ended abnormally outside a case, rc", r)
                log(open(s.err, errors="replace").read()[-3000:])
                if r != 0 and started:
                    crashes.append((max(started), r, open(s.err, errors="replace").read()))
                    pending.remove(s)
                    continue
                return None
            idx = open_[-1]
            crashes.append((idx, r, open(s.err, errors="replace").read()[-20000:]))
            if len(crashes) > 40 or idx + NCPU >= ncases:
                pending.remove(s)
                continue
            s.frm = idx + NCPU
            gen[id(s)] += 1
            s.out_prev = s.out
            # Continue after the crashing case; keep the same output file (appended).
            open(s.err, "w").close()
            s.start()
    return shards, crashes, timedout


def confirm_crashes(exe, a, crashes, scratch, prefix, cpu, found, inconclusive):
    """A crash counts if it comes back in a fresh process, or if a sanitizer or an assertion reported it."""
    ck_seen = {}
    for idx, r, err in crashes:
        k0 = crash_key(err, r)
        if ck_seen.get(k0, 0) >= 3:
            continue
        ck_seen[k0] = ck_seen.get(k0, 0) + 1
        evs, rc2, err2 = alone(exe, a.seed, idx, a.tier, scratch, cpu * 2, prefix + "c%d" % idx)
        if rc2 == 97:
            found.append((idx, "nontermination", "case used more than %d s of CPU time twice" % cpu))
        elif rc2 != 0:
            found.append((idx, crash_key(err2, rc2), err2[-6000:]))
        elif any(e["ev"] == "done" for e in evs):
            again = 0
            for t in range(4):
                evs, rc3, err3 = alone(exe, a.seed, idx, a.tier, scratch, cpu * 2, prefix + "c%d_%d" % (idx, t))
                if rc3 != 0:
                    found.append((idx, crash_key(err3, rc3), err3[-6000:]))
                    again = 1
                    break
            if not again:
                if "Sanitizer" in err or "runtime error" in err or "EIGEN-ASSERT" in err:
                    found.append((idx, k0, "(seen once, within a shard)\n" + err[-6000:]))
                else:
                    inconclusive.append("case %d ended with rc %d once and not again" % (idx, r))
            for e in evs:
                if e["ev"] == "done":
                    for k, d in e["viol"]:
                        found.append((idx, k, d))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, cfg = a.id, CFG[a.id]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    mode = cfg.get("mode", "plain")
    bdir = build(mode, ["mon_" + i for i in [pid] + sorted(cfg.get("also", {}))])
    exe = os.path.join(bdir, "mon_" + pid)
    scratch = tempfile.mkdtemp(prefix="hbmon_%s_" % pid)
    try:
        rc = run(a, pid, cfg, exe, scratch, t0, mode)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, cfg, exe, scratch, t0, mode):
    cpu = cfg.get("cpu", 60)
    if a.replay:
        rp = json.load(open(a.replay))
        if rp.get("workload"):
            exe = os.path.join(os.path.dirname(exe), "mon_" + rp["workload"])
        evs, rc, err = alone(exe, rp["seed"], rp["index"], rp["tier"], scratch, cpu, "replay")
        print(json.dumps(evs, indent=1))
        print(err[-4000:])
        bad = rc != 0 or any(e.get("viol") for e in evs)
        if rp.get("key") == "rates beyond the supported range":
            bad = bad or any(e.get("counts", {}).get("refused: rate beyond the supported range") for e in evs)
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if bad else 0

    info = json.loads(subprocess.check_output([exe, "--info"], env=dict(os.environ, **SAN_ENV)))
    ncases = a.cases or info[a.tier]
    budget = a.budget or (cfg.get("quick_budget", 420) if a.tier == "quick" else cfg.get("thorough_budget", 3000))
    deadline = time.time() + budget
    swept = sweep(exe, a, ncases, scratch, "", cpu, deadline)
    if swept is None:
        return 2
    shards, crashes, timedout = swept
    cases, sigs, counts, samples, found = 0, set(), {}, [], []
    order = []
    for s in shards:
        for e in s.events():
            if e["ev"] != "done":
                continue
            order.append(e)
    order.sort(key=lambda e: e["index"])
    for e in order:
        cases += 1
        if e["sig"]:
            sigs.add(e["sig"])
        for k, n in e["counts"].items():
            counts[k] = counts.get(k, 0) + n
        if e["sig"] and len(samples) < 5 and (not samples or e["index"] % 3 == 0):
            samples.append({"index": e["index"], "case": e["sample"][:700]})
        for k, d in e["viol"]:
            found.append((e["index"], k, d))
    # Rates beyond the supported range are refused: rarely, with this weather. Often, something makes them grow.
    toohigh = [e["index"] for e in order if e["counts"].get("refused: rate beyond the supported range")]
    if len(toohigh) > 8 + cfg.get("refused_share", 0.002) * cases:
        for i in toohigh[:3]:
            found.append((i, "rates beyond the supported range", "%d of %d cases are refused because a rate is too high" % (len(toohigh), cases)))
    inconclusive = []
    confirm_crashes(exe, a, crashes, scratch, "", cpu, found, inconclusive)
    # The workloads of other monitors in this build: only what the sanitizers report is judged here.
    also = {}
    for oid, per in sorted(cfg.get("also", {}).items()):
        oexe = os.path.join(os.path.dirname(exe), "mon_" + oid)
        n = per[0] if a.tier == "quick" else per[1]
        if a.cases:
            n = min(n, a.cases)
        left = deadline - time.time()
        if left < 5:
            timedout = True
            break
        swept = sweep(oexe, a, n, scratch, oid, cpu * 3, min(deadline, time.time() + (60 if a.tier == "quick" else 900)))
        if swept is None:
            return 2
        osh, ocr, _ = swept
        seen = sum(1 for s in osh for e in s.events() if e["ev"] == "done")
        counts["cases of " + oid] = seen
        cases += seen
        of = []
        confirm_crashes(oexe, a, [c for c in ocr if c[1] != 97], scratch, oid, cpu * 3, of, inconclusive)
        for idx, k, d in of:
            if k.startswith(CRASH_KEYS):
                also.setdefault(k, (oid, idx))
                found.append((idx, k, "[workload of %s] " % oid + d))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    kf_hit, new = {}, {}
    for idx, k, d in found:
        ent = next((f for f in known.get("findings", []) if f["property"] == pid and re.fullmatch(f["key"], k)), None)
        if ent:
            kf_hit.setdefault(ent["key"], (ent, idx))
        else:
            new.setdefault(k, []).append((idx, d))
    confirmed = []
    for k, lst in list(new.items())[:12]:
        ok = False
        for idx, d in lst[:3]:
            if "seen once" in d or k.startswith(CRASH_KEYS + ("nontermination",)):
                ok = True
            else:
                evs, rc2, err2 = alone(exe, a.seed, idx, a.tier, scratch, cpu * 2, "v%d_%d" % (idx, len(confirmed)))
                ok = rc2 != 0 or any(e.get("viol") for e in evs if e["ev"] == "done")
            if ok:
                confirmed.append((k, idx, d, len(lst)))
                break
        if not ok:
            # Depends on what ran earlier in the process: still an observed violation; replay the shard prefix.
            confirmed.append((k, lst[0][0], "(only within its shard) " + lst[0][1], len(lst)))
    for key, (ent, idx) in sorted(kf_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, ent["what"]))
    rdir = os.path.join(HERE, "replays")
    for n, (k, idx, d, cnt) in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-s%d-%s-%d.json" % (pid, a.seed, a.tier, idx))
        json.dump({"property": pid, "workload": also[k][0] if k in also and also[k][1] == idx else None, "seed": a.seed, "tier": a.tier, "index": idx, "key": k, "detail": d,
                   "rerun": "python3 %s/run.py %s --replay %s" % (HERE, pid, rp)}, open(rp, "w"), indent=1)
        print("violation [%s] (%d case(s)): %s" % (k, cnt, d[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    nev = sum(counts.values())
    problem = None
    minimum = max(1, int(0.5 * ncases)) if not timedout else 1
    if not confirmed and (cases < minimum or nev == 0 or not sigs):
        problem = "the run observed too little: %d of %d cases, %d events" % (cases, ncases, nev)
    for k in cfg.get("must_observe", []):
        if not confirmed and not timedout and not a.cases and counts.get(k, 0) == 0:
            problem = "the run never observed '%s'" % k
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": len(sigs), "rule": info["rule"],
                       "samples": samples or [{"case": "none"}], "observed": counts,
                       "cases_planned": ncases, "stopped_by_budget": timedout, "build_mode": mode,
                       "inconclusive": inconclusive, "known_findings_seen": sorted(kf_hit)},
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
          "assumptions": cfg.get("assumptions", [])}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d violation(s), %.1f s; observed %s" % (
        pid, a.tier, a.seed, cases, len(sigs), len(confirmed), time.time() - t0, json.dumps(counts)))
    if confirmed:
        return 1
    if problem:
        log(problem)
        return 2
    return 0


if __name__ == "__main__":
    main()
