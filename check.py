#!/usr/bin/env python3
"""Runs the monitors of one property: python3 /verif/check.py <ID> [--tier T] [--seed N]
or re-executes one recorded violation: python3 /verif/check.py <ID> --replay FILE.

Spawns Jython workers (harness/worker.py) which run the real code of /repo/src under
generated workloads while the property's monitor (harness/props_<id>.py) watches;
merges what they observed, applies KNOWN_FINDINGS, writes evidence/<ID>.json.
Exit: 0 held, 1 violated, 2 inconclusive (monitor not reached / harness error)."""
import json, os, subprocess, sys, tempfile, time, shutil, signal, argparse

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EV = os.path.join(HERE, "evidence")
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
TIER = "quick"
STALL = 90          # seconds without any finished case before a worker is looked at
SETTLED = 60        # seconds after which a quick check ends once a violation is recorded
STEP_BUDGET = 60 * 1000 * 1000


def env_for():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LC_ALL="C.UTF-8", VERIF_REPO=REPO)
    for k in ("JYTHONPATH", "PYTHONPATH"):
        e.pop(k, None)
    e["JYTHON_OPTS"] = ""
    e["JDK_JAVA_OPTIONS"] = e.get("VERIF_JAVA", "-Xmx2g -Xss16m -XX:+UseSerialGC" + (" -XX:TieredStopAtLevel=1" if TIER == "quick" else ""))
    return e


def known_findings(pid):
    res = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == "property=" + pid and parts[2].startswith("key="):
                    res[parts[2][4:]] = parts[3]
    return res


def spawn(args, out, work):
    cmd = ["jython", "-B", os.path.join(HERE, "harness", "worker.py")] + args + ["--out", out, "--work", work]
    return subprocess.Popen(cmd, env=env_for(), stdout=open(out + ".stdout", "w"),
                            stderr=open(out + ".stderr", "w"), cwd=work, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def load(out):
    """(finished?, records)"""
    recs = []
    done = False
    try:
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get("t") == "done":
                    done = True
                recs.append(r)
    except OSError:
        pass
    return done, recs


def found(procs, known):
    """whether a worker has already recorded a violation that is not listed"""
    for p in procs:
        for r in load(p[2])[1]:
            if r.get("t") == "viol" and r.get("key") not in known:
                return True
    return False


def run_shards(pid, tier, seed, scratch, deadline, known):
    procs = []
    begun = looked = time.time()
    os.makedirs(os.path.join(scratch, "claims"))
    for s in range(NSHARDS):
        w = os.path.join(scratch, "w%d" % s)
        os.makedirs(w)
        out = os.path.join(scratch, "out%d" % s)
        procs.append([s, spawn([pid, tier, str(seed), str(s), str(NSHARDS)], out, w), out, w, time.time(), -1, None])
    stalled = []
    live = list(procs)
    while live:
        time.sleep(0.1)
        now = time.time()
        if tier == "quick" and now - begun > SETTLED and now - looked > 5:
            # the answer is known: what a slow or hanging case would add does not change it
            looked = now
            if found(procs, known):
                for p in live:
                    kill(p[1])
                return procs, [(p[0], None) for p in live], True
        for p in list(live):
            if p[1].poll() is not None:
                live.remove(p)
                continue
            try:
                sz = os.stat(p[2] + ".cur").st_mtime_ns
            except OSError:
                sz = -1
            if sz != p[5]:
                p[5], p[4] = sz, now
            elif now - p[4] > STALL or now > deadline:
                kill(p[1])
                live.remove(p)
                try:
                    cur = json.load(open(p[2] + ".cur"))
                except (OSError, ValueError):
                    cur = None
                stalled.append((p[0], cur))
    return procs, stalled, False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the tools the checks use are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int, default=0)
    a = ap.parse_args()
    global TIER
    if a.setup or not a.pid:
        r = subprocess.run(["jython", "-B", "-c", "import sys; sys.path.insert(0, '%s/src'); import pycalendar.icalendar.calendar" % REPO], env=env_for(), cwd=tempfile.gettempdir())
        sys.exit(r.returncode)
    pid, tier, seed = a.pid, a.tier, a.seed
    TIER = tier
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if a.replay:
            sys.exit(replay(pid, a.replay, scratch))
        sys.exit(check(pid, tier, seed, scratch, t0, a.show))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def one_case(pid, tier, seed, fn, i, scratch, tag, steps):
    w = os.path.join(scratch, "r" + tag)
    os.makedirs(w)
    out = os.path.join(scratch, "rout" + tag)
    args = [pid, tier, str(seed), "0", "1", "--only", "%s:%d" % (fn, i)]
    if steps:
        args += ["--steps", str(STEP_BUDGET)]
    p = spawn(args, out, w)
    try:
        p.wait(timeout=500)
    except subprocess.TimeoutExpired:
        kill(p)
    return load(out), out


def replay(pid, path, scratch):
    r = json.load(open(path))
    (done, recs), out = one_case(pid, r["tier"], r["seed"], r["fn"], r["i"], scratch, "0", r.get("steps", False))
    bad = [x for x in recs if x["t"] == "viol"]
    for x in bad:
        print(json.dumps(x, indent=1))
    print("done=%s violations=%d" % (done, len(bad)))
    sys.stdout.write(open(out + ".stderr").read()[-3000:])
    return 1 if bad else (0 if done else 2)


def check(pid, tier, seed, scratch, t0, show):
    known = known_findings(pid)
    limit = 800 if tier == "quick" else 3 * 3600
    procs, stalled, settled = run_shards(pid, tier, seed, scratch, t0 + limit, known)
    evals = 0
    distinct = set()
    samples = []
    obs = {}
    viols = []
    errors = []
    meta = {}
    for p in procs:
        done, recs = load(p[2])
        if not done and p[0] not in [s for s, _c in stalled]:
            errors.append("worker %d ended early: %s" % (p[0], open(p[2] + ".stderr").read()[-1500:]))
        for r in recs:
            t = r["t"]
            if t == "viol":
                viols.append(r)
            elif t == "error":
                errors.append(r["text"])
            elif t == "meta":
                meta = r
            elif t in ("done", "part"):
                evals += r["evals"]
                distinct.update(r["distinct"])
                samples.extend(r["samples"])
                for k, v in r["obs"].items():
                    if isinstance(v, list):
                        obs.setdefault(k, set()).update(v)
                    else:
                        obs[k] = obs.get(k, 0) + v
    if "VERIF_TIMES" in os.environ:
        tm = {}
        for p in procs:
            for line in open(p[2] + ".stderr"):
                f = line.split()
                if len(f) == 2:
                    tm.setdefault(f[0], []).append(float(f[1]))
        for k, v in tm.items():
            print("  time %s avg %.1f max %.1f" % (k, sum(v) / len(v), max(v)))
    # stalled workers: decide by counting executed lines, not by the clock
    settled = settled or any(v["key"] not in known for v in viols)
    for s, cur in [] if settled else stalled[:2]:
        if cur is None:
            errors.append("worker %d stalled before its first case" % s)
            continue
        (done, recs), out = one_case(pid, tier, seed, cur["fn"], cur["i"], scratch, "s%d" % s, True)
        hv = [r for r in recs if r["t"] == "viol"]
        if hv:
            for r in hv:
                r["steps"] = True
            viols.extend(hv)
        else:
            errors.append("worker %d stalled in %s:%s but the case ends on its own" % (s, cur["fn"], cur["i"]))
    # conclude
    by_key = {}
    for v in viols:
        by_key.setdefault(v["key"], []).append(v)
    unknown = {k: v for k, v in by_key.items() if k not in known}
    for k in sorted(by_key):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for k in sorted(known):
        if k not in by_key:
            print("note: known finding %s not observed in this run" % k)
    missing = []
    for k, floor in (meta.get("require") or {}).items():
        got = obs.get(k, 0)
        got = len(got) if isinstance(got, set) else got
        if got < floor:
            missing.append("%s: observed %s, need %s" % (k, got, floor))
    rc = 0
    if unknown:
        rc = 1
        rd = os.path.join(EV, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, k in enumerate(sorted(unknown)):
            v = unknown[k][0]
            path = os.path.join(rd, "%s-%d.json" % (pid, n))
            v2 = dict(v, property=pid, tier=tier, seed=seed, occurrences=len(unknown[k]))
            json.dump(v2, open(path, "w"), indent=1)
            if n < 10:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  %s (x%d): %s" % (k, len(unknown[k]), v["detail"][:1500]))
                if show:
                    for w in unknown[k][1:show]:
                        print("   + %s" % w["detail"][:700])
    elif errors or missing:
        rc = 2
        for e in errors[:5]:
            print("INCONCLUSIVE: %s" % e)
        for m in missing:
            print("INCONCLUSIVE: not observed enough: %s" % m)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": meta.get("rule", ""),
            "samples": samples[:12],
            "observed": {k: (len(v) if isinstance(v, set) else v) for k, v in sorted(obs.items())},
            "observed_values": {k: sorted(v)[:60] for k, v in sorted(obs.items()) if isinstance(v, set)},
            "shards": len(procs),
            "inconclusive": errors[:5] + missing,
            "known_findings_observed": sorted(k for k in by_key if k in known),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(v) for v in unknown.values()),
    }
    tmp = os.path.join(EV, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EV, "%s.json" % pid))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs -> %s" % (
        pid, tier, seed, evals, len(distinct), ev["violations"], ev["wall_s"],
        {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc]))
    return rc


main()
