# -*- coding: utf-8 -*-
"""Jython worker: runs one shard of the cases of one property and records what its monitors observed."""
import sys, os, json, time, traceback, hashlib, random, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class StepLimit(BaseException):
    pass


def sanitize(x):
    """Something json.dumps certainly takes"""
    if isinstance(x, str):
        try:
            return x.decode("utf-8")
        except UnicodeError:
            return x.decode("latin-1")
    if isinstance(x, unicode):
        return x
    return unicode(repr(x), "latin-1", "replace")


from vskip import Skip


class Ctx(object):
    def __init__(self, pid, tier, seed, shard, nshards, out, work):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.work = work
        self.path = out
        self.out = open(out, "w")
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.obs = {}
        self.fn, self.i = None, None
        self.nviol = {}

    # ---- what monitors call
    def seen(self, sig, nontrivial=True, sample=None):
        """One evaluated case with its distinguishing signature"""
        self.evals += 1
        if nontrivial:
            h = hashlib.md5(repr((self.fn, sig))).hexdigest()[:12]
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 2 and sample is not None:
                    self.samples.append(sanitize(sample)[:400])

    def count(self, name, n=1):
        self.obs[name] = self.obs.get(name, 0) + n

    def mark(self, name, value):
        self.obs.setdefault(name, set()).add(sanitize(value))

    def viol(self, key, detail):
        n = self.nviol.get(key, 0)
        self.nviol[key] = n + 1
        if n < 5:
            self.rec({"t": "viol", "key": re.sub(r"\s+", "_", key), "detail": sanitize(detail), "fn": self.fn, "i": self.i})

    def check(self, ok, key, detail):
        if not ok:
            self.viol(key, detail() if callable(detail) else detail if isinstance(detail, basestring) else repr(detail))
        return ok

    def eq(self, got, want, key, what):
        if got != want:
            self.viol(key, "%s: got %r, expected %r" % (what, got, want))
            return False
        return True

    # ---- plumbing
    def rec(self, r):
        self.out.write(json.dumps(r) + "\n")
        self.out.flush()

    def finish(self):
        obs = dict((k, (sorted(v)[:500] if isinstance(v, set) else v)) for k, v in self.obs.items())
        self.rec({"t": "done", "evals": self.evals, "distinct": sorted(self.distinct), "samples": self.samples, "obs": obs})


def case_rng(seed, fn, i):
    return random.Random(int(hashlib.md5("%d/%s/%d" % (seed, fn, i)).hexdigest()[:15], 16))


def exc_info_text():
    et, ev, tb = sys.exc_info()
    frames = traceback.extract_tb(tb)
    try:
        msg = str(ev)
    except Exception:
        msg = "?"
    loc = ["%s:%s(%s)" % (os.path.basename(f[0] or "?"), f[1], f[2]) for f in frames[-4:]]
    inrepo = [f for f in frames if (f[0] or "").startswith(SRC)]
    return et, msg, loc, inrepo


def run_case(ctx, mod, fn, i, steps=None):
    ctx.fn, ctx.i = fn, i
    rng = case_rng(ctx.seed, fn, i)
    f = getattr(mod, fn)
    try:
        if steps:
            cnt = [0]

            def tracer(frame, event, arg):
                cnt[0] += 1
                if cnt[0] > steps:
                    sys.settrace(None)
                    raise StepLimit()
                return tracer
            sys.settrace(tracer)
            try:
                f(ctx, rng, i)
            finally:
                sys.settrace(None)
        else:
            f(ctx, rng, i)
    except Skip:
        ctx.count("skipped")
    except StepLimit:
        ctx.viol("no-termination", "case %s:%d executed more than %d lines without finishing" % (fn, i, steps))
    except Exception:
        et, msg, loc, inrepo = exc_info_text()
        if inrepo:
            ctx.viol("unexpected-%s-in-%s" % (et.__name__, inrepo[-1][2]),
                     "%s: %s at %s (case %s:%d)" % (et.__name__, msg[:300], " < ".join(reversed(loc)), fn, i))
        else:
            # a public call returned something the monitor cannot even examine
            ctx.viol("malformed-result-%s" % et.__name__,
                     "%s: %s at %s (case %s:%d)" % (et.__name__, msg[:300], " < ".join(reversed(loc)), fn, i))
    except:
        # java.lang.* throwables (StackOverflowError, OutOfMemoryError) raised inside the code under test
        et, msg, loc, inrepo = exc_info_text()
        if et in (SystemExit, KeyboardInterrupt):
            raise
        ctx.viol("unexpected-%s" % getattr(et, "__name__", et), "%s: %s at %s" % (et, msg[:300], " < ".join(reversed(loc))))


def cases(ctx, fn, n):
    """the cases of this worker: chunks are claimed one at a time, so that no worker sits idle"""
    claims = os.path.join(os.path.dirname(ctx.work.rstrip("/")), "claims")
    nchunks = min(n, 96)
    for c in [(ctx.shard * nchunks // ctx.nshards + k) % nchunks for k in range(nchunks)]:
        try:
            os.mkdir(os.path.join(claims, "%s-%d" % (fn, c)))
        except OSError:
            continue
        for i in xrange(c, n, nchunks):
            yield i


def main():
    a = sys.argv[1:]
    opts = {}
    pos = []
    while a:
        x = a.pop(0)
        if x.startswith("--"):
            opts[x[2:]] = a.pop(0)
        else:
            pos.append(x)
    pid, tier, seed, shard, nshards = pos[0], pos[1], int(pos[2]), int(pos[3]), int(pos[4])
    ctx = Ctx(pid, tier, seed, shard, nshards, opts["out"], opts["work"])
    try:
        mod = __import__("props_%s" % pid.lower())
    except Exception:
        # the harness only imports the public modules of the code under test
        et, msg, loc, inrepo = exc_info_text()
        ctx.rec({"t": "error", "text": sanitize("import: %s %s %s" % (et, msg, traceback.format_exc()[-1500:]))})
        sys.exit(3)
    ctx.rec({"t": "meta", "rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", []),
             "require": getattr(mod, "REQUIRE", {}) if tier == "quick" or True else {}})
    if "only" in opts:
        fn, i = opts["only"].split(":")
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        run_case(ctx, mod, fn, int(i), int(opts["steps"]) if "steps" in opts else None)
        ctx.finish()
        return
    plan = mod.PLAN
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    mult = float(os.environ.get("VERIF_MULT", "1"))
    last = 0
    for ent in plan:
        fn, nq, nt = ent
        n = nq if tier == "quick" else nt
        if nq > 1 or n > 1:
            n = int(n * mult)
        tf = time.time()
        for i in cases(ctx, fn, n):
            now = time.time()
            if now - last > 0.5 or last == 0:
                last = now
            ctx.fn, ctx.i = fn, i
            g = open(ctx.path + ".cur", "w")
            g.write('{"fn": "%s", "i": %d}' % (fn, i))
            g.close()
            run_case(ctx, mod, fn, i)
        if "VERIF_TIMES" in os.environ:
            sys.stderr.write("%s %.2f\n" % (fn, time.time() - tf))
    if hasattr(mod, "teardown"):
        mod.teardown(ctx)
    ctx.finish()
    sys.stdout.flush()


if __name__ == "__main__":
    main()
