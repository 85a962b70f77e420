"""Driver of engine/mcx: one job = one controlled execution; plus the
exhaustive enumeration of schedules, crash points and faults."""
import os, subprocess, tempfile
from . import core

MCX = None
O_CREAT, O_TRUNC, O_EXCL = 0o100, 0o1000, 0o200


class Step:
    __slots__ = ("i", "proc", "mask", "op", "name", "ret", "arg", "p1", "p2")

    def __repr__(self):
        return "%d:%s(%s%s)=%d" % (self.proc, self.name, self.p1.rsplit("/", 1)[-1],
                                   "," + self.p2.rsplit("/", 1)[-1] if self.p2 != "-" else "", self.ret)


class Result:
    def __init__(self):
        self.steps = []
        self.exits = {}
        self.dead = 0
        self.time = 0

    def sched(self):
        return [s.proc for s in self.steps]


class Job:
    def __init__(self, root, procs, ignore=("/log",), time=1000000000, env=(), vpids=(), maxsteps=20000):
        """procs: list of dict(args=[...], stdin=, stdout=, cwd=)"""
        self.root, self.procs, self.ignore, self.time = root, procs, ignore, time
        self.env, self.vpids, self.maxsteps = list(env), list(vpids), maxsteps

    def text(self, choices=(), faults=()):
        o = ["root " + self.root, "time %d" % self.time, "maxsteps %d" % self.maxsteps]
        o += ["ignore " + i for i in self.ignore]
        o += ["vpid %d %d" % v for v in self.vpids]
        o += ["env " + e for e in ["PATH=/usr/bin:/bin", "TZ=UTC", "LC_ALL=C", "ASAN_OPTIONS=detect_leaks=0"] + self.env]
        for i, p in enumerate(self.procs):
            o.append("proc %d" % p.get("vpid", 1001 + i))
            o += ["arg " + a for a in p["args"]]
            for k in ("stdin", "stdout", "cwd"):
                if p.get(k):
                    o.append("%s %s" % (k, p[k]))
        if choices:
            o.append("choices " + " ".join(map(str, choices)))
        for f in faults:
            o.append("fault " + " ".join(map(str, f)))
        return "\n".join(o) + "\n"

    def run(self, choices=(), faults=(), timeout=120):
        p = subprocess.run([MCX], input=self.text(choices, faults).encode("utf-8", "surrogateescape"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode != 0:
            raise RuntimeError("mcx failed: %d %s" % (p.returncode, p.stderr.decode(errors="replace")))
        r = Result()
        for l in p.stdout.decode("utf-8", "surrogateescape").split("\n"):
            if l.startswith("S "):
                f = l.split(" ")
                s = Step()
                s.i, s.proc, s.mask, s.op = int(f[1]), int(f[2]), int(f[3]), int(f[4])
                s.name, s.ret, s.arg, s.p1, s.p2 = f[5], int(f[6]), int(f[7]), f[8], f[9]
                r.steps.append(s)
            elif l.startswith("X "):
                f = l.split(" ")
                r.exits[int(f[1])] = f[2]
            elif l.startswith("T "):
                r.time = int(l[2:])
            elif l.startswith("D "):
                r.dead = int(l[2:])
        return r


def preemptions(sched, masks):
    n = 0
    for i in range(1, len(sched)):
        if sched[i] != sched[i - 1] and masks[i] & (1 << sched[i - 1]):
            n += 1
    return n


def branches(res, m, pb):
    """New schedule prefixes deviating from res at position >= m."""
    sched = res.sched()
    masks = [s.mask for s in res.steps]
    out = []
    n = 0
    for i in range(len(sched)):
        if i >= m:
            for a in range(8):
                if a != sched[i] and masks[i] & (1 << a):
                    extra = 1 if i > 0 and a != sched[i - 1] and masks[i] & (1 << sched[i - 1]) else 0
                    if n + extra <= pb:
                        out.append(sched[:i] + [a])
        if i > 0 and sched[i] != sched[i - 1] and masks[i] & (1 << sched[i - 1]):
            n += 1
    return out


def explore(ck, name, setup, judge, pb, limit=None, batch=60):
    """Run every schedule with at most pb preemptions.
    setup(worker) -> Job, with the initial files (re)created;
    judge(worker, res) -> None or (what, key).
    """
    def work(prefixes):
        w = core.worker_id()
        st, runs, trans, bad, finals = list(prefixes), 0, 0, [], {}
        while st and runs < batch:
            p = st.pop()
            job = setup(w)
            res = job.run(choices=p)
            if res.dead == 2:
                raise RuntimeError("%s: schedule prefix %r not reproducible" % (name, p))
            runs += 1
            trans += len(res.steps)
            v = judge(w, res)
            if v:
                # replay before reporting
                job = setup(w)
                r2 = job.run(choices=res.sched())
                v2 = judge(w, r2)
                if v2 is None:
                    raise RuntimeError("%s: violation %r did not replay" % (name, v))
                bad.append((v[0], v[1], res.sched(), [repr(s) for s in res.steps]))
            f = core.h(repr([(s.proc, s.name, s.ret) for s in res.steps]))
            finals[f] = 1
            st += branches(res, len(p), pb)
        return st, runs, trans, bad, list(finals)

    runs = trans = 0
    frontier = [[]]
    seen = set()
    nbad = 0
    keys = {}
    complete = True
    sample = None
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    core._FN = work
    q = ctx.SimpleQueue()
    for i in range(core.NCPU):
        q.put(i)
    with ctx.Pool(core.NCPU, initializer=core._init, initargs=(q,)) as pool:
        pend = []
        while frontier or pend:
            while frontier and len(pend) < 2 * core.NCPU:
                k = max(1, min(batch // 2, len(frontier) // (2 * core.NCPU)))
                chunk, frontier = frontier[-k:], frontier[:-k]
                pend.append(pool.apply_async(core._call, (chunk,)))
            ready = [p for p in pend if p.ready()]
            if not ready:
                pend[0].wait(0.005)
                continue
            for p in ready:
                pend.remove(p)
                st, r, t, bad, fin = p.get()
                runs += r
                trans += t
                seen.update(fin)
                frontier += st
                for what, key, sched, steps in bad:
                    nbad += 1
                    if keys.setdefault(key or what, 0) < 2:
                        keys[key or what] += 1
                        ck.violation("%s: %s" % (name, what), key, dict(schedule=sched, steps=steps))
            if limit and runs >= limit:
                complete = not (frontier or pend)
                break
            if nbad > 200:
                complete = False
                break
        if not complete:
            pool.terminate()
    if not complete:
        ck.exhaustive = False
    ck.count("states", len(seen))
    ck.count("transitions", trans)
    ck.count("evaluations", runs)
    ck.part(name, schedules=runs, transitions=trans, distinct_traces=len(seen), preemption_bound=pb,
            complete=complete, violating=nbad)
    return runs
