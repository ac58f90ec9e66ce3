#!/usr/bin/env python3
"""plant.py <specfile>: confirm planted bugs in a scratch copy and keep them under seeded/<id>/.
The spec is a python file defining BUGS = [dict(id, property, file, old, new, needs, breaks, demo)] where (file, old, new) may also be
lists of equal length and demo is jython source (imports pycalendar, exits 0 when the property holds)."""
import os, subprocess, sys, json, shutil, re, time
SEED = "/verif/seeded"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
HEAD = """import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
"""


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)


for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    w = "/tmp/plant-%s" % b["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("git -C /repo worktree prune; cp -a /repo %s" % w, "/tmp")
    try:
        L = lambda x: x if isinstance(x, list) else [x]
        for f, o, n in zip(L(b["file"]), L(b["old"]), L(b["new"])):
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(o) == 1, "%s: %d occurrences of %r in %s" % (b["id"], s.count(o), o, f)
            open(p, "w").write(s.replace(o, n))
        diff = sh("git diff", w).stdout
        # original lines only: no line removed that one of our own commits added
        added = set()
        for l in sh("git diff 7c3ecde HEAD", w).stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++"):
                added.add(l[1:].strip())
        mine = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and len(l) > 6]
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8 JYTHON_OPTS=\nexec jython -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, "/repo")
        r1 = sh("bash %s/demo.sh" % d, w)
        # tests in the changed copy
        t = sh("git stash list >/dev/null; sed 's#/repo#%s#g' /opt/vp/test.sh > %s/.t.sh; sed 's#/repo#%s#g' /opt/vp/jy_tests.py > %s/.jy_tests.py; sed -i 's#/opt/vp/jy_tests.py#%s/.jy_tests.py#' %s/.t.sh; bash %s/.t.sh %s/.out.json" % ((w,) * 8), w)
        try:
            passed = set(json.load(open(w + "/.out.json"))["passed"])
            miss = [x for x in BASE if x not in passed]
        except Exception as e:
            miss = ["no result: %s %s" % (e, t.stdout[-300:])]
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        catch = "-"
        if ok and not os.environ.get("NOCHECK"):
            e = dict(os.environ, VERIF_REPO=w)
            t0 = time.time()
            c = subprocess.run("python3 /verif/check.py %s" % b["property"], shell=True, cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            catch = "caught" if c.returncode == 1 and "VIOLATION property=%s" % b["property"] in c.stdout else "MISSED(rc=%d)" % c.returncode
            keys = re.findall(r"^  (\S+) \(x", c.stdout, re.M)[:3]
            cj = "/verif/tools/caught.json"
            reg = json.load(open(cj)) if os.path.exists(cj) else {}
            reg[b["id"]] = {"result": catch, "keys": ", ".join(keys)}
            json.dump(reg, open(cj, "w"), indent=1, sort_keys=True)
            catch += " %.0fs " % (time.time() - t0) + " | ".join(re.findall(r"^  (\S+) \(x", c.stdout, re.M)[:4])
        print("%s %s demo %d/%d missing tests %s mine %s -> %s" % ("OK " if ok else "BAD", b["id"], r0.returncode, r1.returncode, miss[:2], mine[:2], catch), flush=True)
        if not ok:
            print(r0.stdout[-400:], "\n---", r1.stdout[-400:])
            if not os.environ.get("KEEP"):
                shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
