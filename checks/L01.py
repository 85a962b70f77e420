import re
from fg import core, mcx, world
ck = core.Check("L01")
ck.rule = ("every schedule (preemption-bounded) of 2-3 real processes taking and releasing one lock, every crash "
           "point of a holder, every initial lock file content; non-trivial = distinct execution trace")
ck.build("plain", har=["h_lock"])
KINDS = {"prog": ("tst", "lock/tst"), "path": ("%V/areas.bbs.lock", "var/areas.bbs.lock"),
         "bsy": ("2:1/5", "bt/out/00010005.bsy")}

def job(wd, kind, specs, vpids=()):
    return mcx.Job(wd.root, [dict(args=[ck.har("h_lock"), wd.p("etc/fidogate.conf"), kind, KINDS[kind][0], str(wait),
                                        str(rounds), wd.p("var/cs")], stdout=wd.p("log/o%d" % i))
                             for i, (wait, rounds) in enumerate(specs)], ignore=("/log/", "/etc/"), vpids=vpids)

def outs(wd, n):
    return [(wd.get("log/o%d" % i) or b"").decode() for i in range(n)]

def verdict(wd, kind, specs, res, must, left=False):
    o = outs(wd, len(specs))
    if any("V" in x for x in o):
        return "two processes hold the lock at once: %s" % o
    if any("l" in x for x in o):
        return "lock file does not name its holder: %s" % o
    if any("R" in x for x in o):
        return "lock vanished while held: %s" % o
    if res.dead:
        return "deadlock/livelock: %s" % o
    if any(v != "0" for k, v in res.exits.items() if v != "killed"):
        return "process failed: %s" % res.exits
    e = must(o)
    if e:
        return e
    if not left and wd.get(KINDS[kind][1]) is not None:
        return "lock file left behind"
    lo = [f for f in wd.ls(KINDS[kind][1].rsplit("/", 1)[0]) if "tst" in f or ".lock" in f or ".bsy" in f]
    if lo and not left:
        return "files left behind: %s" % lo
    return None

def scen(name, kind, specs, initial, pb, must, vpids=(), limit=None):
    worlds = {}
    def setup(w):
        wd = worlds.get(w)
        if wd is None:
            wd = worlds[w] = world.World("%s/w%d" % (ck.scratch, w), dirs=["bt/out"])
        wd.reset({KINDS[kind][1]: initial} if initial is not None else None)
        return job(wd, kind, specs, vpids)
    def judge(w, res):
        e = verdict(worlds[w], kind, specs, res, must)
        return (e, None) if e else None
    mcx.explore(ck, name, setup, judge, pb, limit)

some = lambda o: None if any("A" in x for x in o) else "nobody got the lock: %s" % o
def allwait(n):
    return lambda o: None if all(x.count("A") == n for x in o) else "a waiting process gave up: %s" % o
WAIT, NOWAIT = 1 << 30, 0
import subprocess, os
# the value of WAIT is read from the headers of the tree under test
src = '#include "fidogate.h"\nint main(){printf("%d %d\\n",(int)WAIT,(int)NOWAIT);return 0;}'
t = ck.bdir + "/plain"
subprocess.run(["gcc", "-w", "-DHAVE_CONFIG_H", "-I" + t, "-I" + t + "/src/include", "-x", "c", "-", "-o", ck.scratch + "/wv"],
               input=src.encode(), check=True)
WAIT, NOWAIT = map(int, subprocess.check_output([ck.scratch + "/wv"]).split())
T = ck.thorough
for kind in KINDS:
    scen(kind + " free, 2 nowait", kind, [(NOWAIT, 1)] * 2, None, 3 if not T else 5, some)
    scen(kind + " stale, 2 nowait", kind, [(NOWAIT, 1)] * 2, b"77\n", 3 if not T else 4, some)
scen("free, 2 waiting", "prog", [(WAIT, 1)] * 2, None, 3 if not T else 4, allwait(1))
scen("stale, 2 waiting", "prog", [(WAIT, 1)] * 2, b"77\n", 2 if not T else 3, allwait(1))
scen("free, 2 rounds", "prog", [(WAIT, 2)] * 2, None, 2 if not T else 3, allwait(2))
scen("stale, 3 nowait", "prog", [(NOWAIT, 1)] * 3, b"77\n", 2 if not T else 3, some)
scen("free, 3 waiting", "prog", [(WAIT, 1)] * 3, None, 1 if not T else 2, allwait(1))
scen("garbage owner, 2 nowait", "prog", [(NOWAIT, 1)] * 2, b"999999999\n", 2, some)

# sequential semantics: every initial lock state x wait mode
seq = []
for kind in KINDS:
    for alive in (0, 1, 2):
        for wait in (NOWAIT, 1, 3, 7, WAIT):
            seq.append((kind, alive, wait))
def one(c):
    kind, alive, wait = c
    wd = world.World("%s/s%d" % (ck.scratch, core.worker_id()), dirs=["bt/out"])
    wd.reset({KINDS[kind][1]: b"77\n"})
    j = job(wd, kind, [(wait, 1)], vpids=[(77, alive)])
    j.maxsteps = 400
    r = j.run()
    o = outs(wd, 1)[0]
    if alive:
        if wait == WAIT:
            ok = r.dead and o == "" or "%s: %r" % (r.dead, o)
            ok = True if ok is True else ok
            ok = (r.dead == 1 and o == "")
        else:
            ok = o == "B" and (r.time - 1000000000 >= (wait if wait else 0)) and r.time - 1000000000 <= wait + 1
        ok = ok and wd.get(KINDS[kind][1]) == b"77\n"
    else:
        ok = o == "ALr" and wd.get(KINDS[kind][1]) is None
    return c, bool(ok), o, r.time - 1000000000, len(r.steps)
for c, ok, o, dt, n in core.pmap(one, seq):
    ck.count("evaluations"); ck.count("transitions", n); ck.count("states")
    if not ok:
        ck.violation("lock state %r: events %r after %d s" % (c, o, dt))
ck.part("initial states", cases=len(seq))

# crash of the holder at every operation, then a successor must get the lock
def crash(c):
    kind, k = c
    wd = world.World("%s/c%d" % (ck.scratch, core.worker_id()), dirs=["bt/out"])
    wd.reset()
    j = job(wd, kind, [(NOWAIT, 1)])
    r = j.run(faults=[(0, k, "kill")])
    if r.exits[0] != "killed":
        return c, None, None, len(r.steps)
    lock = wd.get(KINDS[kind][1])
    try:
        os.unlink(wd.p("var/cs"))
    except OSError:
        pass
    j = mcx.Job(wd.root, [dict(args=[ck.har("h_lock"), wd.p("etc/fidogate.conf"), kind, KINDS[kind][0], str(NOWAIT), "1",
                                     wd.p("var/cs")], stdout=wd.p("log/o0"), vpid=2001)], ignore=("/log/", "/etc/"))
    r2 = j.run()
    o = outs(wd, 1)[0]
    bad = None
    if o != "ALr" or wd.get(KINDS[kind][1]) is not None:
        bad = "holder died before op %d (%r), lock file %r: successor saw %r" % (k, r.steps[-1], lock, o)
    return c, bad, r.sched(), len(r.steps) + len(r2.steps)
cases = [(kind, k) for kind in KINDS for k in range(30)]
n = 0
for c, bad, s, st in core.pmap(crash, cases):
    if s is None:
        continue
    n += 1
    ck.count("evaluations"); ck.count("transitions", st); ck.count("states")
    if bad:
        ck.violation("%s: %s" % (c[0], bad))
ck.part("holder crash points", crashes=n)
ck.sample("schedule of 2 processes on a stale lock: every interleaving of stat/open/link/unlink/kill steps up to the bound")
ck.assumptions += ["preemption bound as listed per part", "pids are not reused between a crash and the next check"]
ck.finish()
