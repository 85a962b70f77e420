from fg import core, mcx, world
ck = core.Check("L03")
ck.rule = ("every schedule (preemption-bounded) of 2-3 processes drawing numbers from one sequence file, every crash "
           "point of a draw; non-trivial = distinct execution trace")
ck.build("plain", har=["h_seq"])
T = ck.thorough

def procs(wd, nproc, draws):
    return [dict(args=[ck.har("h_seq"), wd.p("etc/fidogate.conf"), "%V/seq/x", str(draws)],
                 stdout=wd.p("log/o%d" % i)) for i in range(nproc)]

def outs(wd, n):
    return [[int(x) for x in (wd.get("log/o%d" % i) or b"").split()] for i in range(n)]

def verdict(wd, initial, o, draws):
    start = int(initial) if initial else 0
    nums = [x for l in o for x in l]
    if any(len(l) != draws for l in o):
        return "missing numbers: %s" % o
    if len(set(nums)) != len(nums):
        return "duplicate number: %s" % o
    if any(l != sorted(l) for l in o) or min(nums) <= start:
        return "numbers not increasing from %d: %s" % (start, o)
    return None

def scen(name, initial, nproc, draws, pb, limit=None):
    worlds = {}
    def setup(w):
        wd = worlds.get(w)
        if wd is None:
            wd = worlds[w] = world.World("%s/w%d" % (ck.scratch, w))
        wd.reset({"var/seq/x": initial} if initial is not None else None)
        return mcx.Job(wd.root, procs(wd, nproc, draws), ignore=("/log/", "/etc/"))
    def judge(w, res):
        wd = worlds[w]
        o = outs(wd, nproc)
        if res.dead or any(v != "0" for v in res.exits.values()):
            return ("process failed: %s %s" % (res.exits, o), None)
        e = verdict(wd, initial, o, draws)
        if not e:
            # draws after everybody has finished
            wd.run_seq = mcx.Job(wd.root, procs(wd, 1, 2), ignore=("/log/", "/etc/")).run()
            more = outs(wd, 1)[0]
            if len(more) != 2 or not max(x for l in o for x in l) < more[0] < more[1]:
                e = "later draws %s after %s" % (more, o)
        return (e, None) if e else None
    mcx.explore(ck, name, setup, judge, pb, limit)

for init in (None, b"", b"9\n", b"41\n", b"99999\n", b"41"):
    n = "absent" if init is None else repr(init)
    scen(n + ", 2 procs x 2", init, 2, 2, 3 if not T else 5)
    if init in (None, b"9\n"):
        scen(n + ", 3 procs x 1", init, 3, 1, 3 if not T else 5)
scen("absent, 2 procs x 1", None, 2, 1, 6)

# crash of one process at each of its operations, then another one draws
def crash(c):
    init, k = c
    wd = world.World("%s/c%d" % (ck.scratch, core.worker_id()))
    wd.reset({"var/seq/x": init} if init is not None else None)
    r = mcx.Job(wd.root, procs(wd, 1, 3), ignore=("/log/", "/etc/")).run(faults=[(0, k, "kill")])
    if r.exits[0] != "killed":
        return c, None, 0
    a = outs(wd, 1)[0]
    r2 = mcx.Job(wd.root, procs(wd, 1, 2), ignore=("/log/", "/etc/")).run()
    b = outs(wd, 1)[0]
    start = max(a + [int(init or 0)])
    bad = "" if len(b) == 2 and start < b[0] < b[1] else "died at op %d having drawn %s; then %s" % (k, a, b)
    return c, bad, len(r.steps) + len(r2.steps)
n = 0
for c, bad, st in core.pmap(crash, [(i, k) for i in (None, b"", b"9\n", b"41\n") for k in range(40)]):
    if bad is None:
        continue
    n += 1
    ck.count("evaluations"); ck.count("states"); ck.count("transitions", st)
    if bad:
        ck.violation("initial %r: %s" % (c[0], bad))
ck.part("crash points", crashes=n)
# long histories across every power of ten (the file grows)
def hist(start):
    wd = world.World("%s/h%d" % (ck.scratch, core.worker_id()))
    wd.reset({"var/seq/x": b"%d\n" % start})
    import subprocess
    o = [int(x) for x in subprocess.check_output([ck.har("h_seq"), wd.p("etc/fidogate.conf"), "%V/seq/x", "25"]).split()]
    return start, o == list(range(start + 1, start + 26)) or o
for s, ok in core.pmap(hist, [10 ** k - 12 for k in range(2, 10)] + [0, 2 ** 16 - 5, 2 ** 31 - 5]):
    ck.count("evaluations"); ck.count("states"); ck.count("transitions", 25)
    if ok is not True:
        ck.violation("history from %d gives %s" % (s, ok))
ck.part("histories", cases=11)
ck.sample("2 processes drawing 2 numbers each, file absent: all interleavings of open/create/lock/read/write/close")
ck.finish()
