"""Common machinery: scratch space, build, evidence, violations, findings."""
import argparse, atexit, hashlib, json, os, shutil, subprocess, sys, time
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("REPO", "/repo")
NCPU = max(1, min(8, os.cpu_count() or 1))


def _scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return "/tmp"


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay", default=None)
        a, _ = ap.parse_known_args()
        self.tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        self.replay_file = a.replay
        self.thorough = self.tier == "thorough"
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.counters = {}
        self.samples = []
        self.assumptions = []
        self.parts = []
        self.exhaustive = True
        self.scratch = os.path.join(_scratch_base(), "fgmc.%s.%d" % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    self.known[d["key"]] = d["what"]

    def _cleanup(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- build -----------------------------------------------------------
    def build(self, *variants, har=()):
        dest = os.path.join(self.scratch, "b")
        r = subprocess.run([os.path.join(VERIF, "lib/build.sh"), dest] + list(variants),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, HARNESS=" ".join(har)))
        if r.returncode:
            sys.stdout.write(r.stdout.decode(errors="replace"))
            print("BUILD-FAILED: the tree in %s does not build" % REPO)
            sys.exit(2)
        self.bdir = dest
        from . import mcx
        mcx.MCX = os.path.join(dest, "mcx")
        return dest

    def bin(self, name, variant="plain"):
        return os.path.join(self.bdir, variant, "src", name)

    def har(self, name, variant="plain"):
        return os.path.join(self.bdir, variant, "h", name)

    # ---- accounting ------------------------------------------------------
    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) and len(s) < 2000 else json.loads(json.dumps(s, default=repr))
                                if not isinstance(s, str) else s[:2000])

    def part(self, name, **kw):
        self.parts.append(dict(name=name, **kw))
        print("  [%6.1fs] %s: %s" % (time.time() - self.t0, name,
              ", ".join("%s=%s" % i for i in kw.items())), flush=True)

    # ---- verdicts --------------------------------------------------------
    def violation(self, what, key=None, detail=None):
        """key identifies the failing input/site/history for known findings."""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return False
        self.violations.append(dict(what=what, key=key, detail=detail))
        return True

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.counters)
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("evaluations", cov.get("traces_validated_against_impl", 0))
        cov.setdefault("traces_validated_against_impl", cov["evaluations"])
        cov.setdefault("distinct_nontrivial", cov["states"])
        cov["rule"] = getattr(self, "rule", "see parts")
        cov["parts"] = self.parts
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = self.exhaustive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov, wall_s=round(wall, 2),
                  assumptions=self.assumptions,
                  violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        for k, n in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s [%d]" % (self.prop, self.known[k], n))
        if self.violations:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(self.violations[:20]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, i + 1))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1, default=repr)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + v["what"][:1500] + ("   [key %s]" % v["key"] if v["key"] else ""))
            if len(self.violations) > 20:
                print("  ... and %d more" % (len(self.violations) - 20))
        print("%s %s: %s, %.1fs, %s" % (self.prop, self.tier,
              "FAIL" if self.violations else "ok", wall,
              json.dumps(self.counters)))
        sys.stdout.flush()
        self._cleanup()
        sys.exit(1 if self.violations else 0)


def h(b):
    if isinstance(b, str):
        b = b.encode()
    return hashlib.sha1(b).hexdigest()[:16]


# ---- parallel map with fork (workers see module globals) ------------------
_FN = None
_WID = None


def _init(q):
    global _WID
    _WID = q.get()


def _call(x):
    return _FN(x)


def worker_id():
    return _WID if _WID is not None else 0


def pmap(fn, items, chunk=1, n=NCPU):
    """Unordered parallel map; fn may be a closure (fork)."""
    global _FN
    items = list(items)
    if not items:
        return
    _FN = fn
    if n <= 1:
        for i in items:
            yield fn(i)
        return
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    for i in range(n):
        q.put(i)
    with ctx.Pool(n, initializer=_init, initargs=(q,)) as pool:
        for r in pool.imap_unordered(_call, items, chunk):
            yield r
