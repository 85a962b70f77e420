import itertools, os, re
from fg import core, mcx, crash
from fg.world import World
ck = core.Check("R04")
ck.rule = ("every archive (type x result x listing x name x members), every pair of archives and packets with every sharing of names over 2 runs, every sequence of exit codes of the started programs x "
           "inbound x scripts, free disk space x limits, through runinc and compared with a model; every crash point and failing operation of 4 scenarios; non-trivial = case whose inbound isn't empty")
ck.build("plain", har=["h_runinc"])
T = ck.thorough
INC = ck.bin("toss/runinc")
PACK = ('unarc ZIP "PK0x030x04" "@/bin/unarc %s" "@/bin/list %s"\nunarc RAR "Rar!" "@/bin/unarc %s"\nunarc ARJ "0x600xEA" "@/bin/unarc %s" "@/bin/list %s"\nunarc LZH "-lh" "@/bin/unarc %s"\n'
        'unarc GZ 0x1f0x8b "@/bin/unarc %s"\n')
IDENT = {"ZIP": b"PK\x03\x04", "RAR": b"Rar!", "ARJ": b"\x60\xea", "LZH": b"-lh5-", "GZ": b"\x1f\x8b"}
DIRS = ["spool/uuin", "spool/ftpin", "tossed", "codes", "bt/pin/tmpunpack", "bt/pin/bad", "bt/in/bad"]


def arc(kind, rc, members):
    """kind: type or any first line"""
    return IDENT.get(kind, kind if isinstance(kind, bytes) else b"") + b"\n%d\n" % rc + b"".join(b"%s=%s\n" % (n.encode(), c) for n, c in members)


def world(wid, conf="", df=None):
    w = World("%s/r%d" % (ck.scratch, wid), conf=conf, files={"etc/packing": PACK}, dirs=DIRS).reset()
    for p in ("lib/ftntoss", "lib/ftnroute", "lib/ftnpack", "lib/ftntick", "bin/unarc", "bin/list", "bin/df", "bin/before", "bin/after"):
        os.symlink(ck.har("h_runinc"), w.p(p))
    if df is not None:
        w.put("df", df)
    return w


def tossed(w):
    return sorted(w.get("tossed/" + f) for f in w.ls("tossed"))


def calls(w):
    return (w.get("calls") or b"").decode().splitlines()


DAYS = ("su", "mo", "tu", "we", "th", "fr", "sa")
low = lambda b: bytes(c + 32 if 65 <= c <= 90 else c for c in b).decode("latin-1")


class Model:
    """inbound, bad, tmpunpack: name -> contents; what must (and what may) be tossed"""

    def __init__(self):
        self.inb, self.bad, self.toss, self.may, self.tmp = {}, [], [], [], {}
        self.tic = False

    def run(self, listing, ratio=10, full=False):
        """one run of runinc; True if the tosser is to be started"""
        start = False
        for n in sorted(self.inb):
            b = self.inb[n]
            if len(n) != 12 or n[8] != ".":
                continue
            e = low(n[9:].encode())
            if e == "pkt":
                start = True
            if e == "tic":
                self.tic = True
            if e[:2] not in DAYS:
                continue
            kind = next((k for k, i in IDENT.items() if b.startswith(i)), None)
            del self.inb[n]
            if kind is None:
                self.bad.append(b)
                continue
            if kind == "ZIP":
                last = (listing.get(n) or b"").splitlines()[-1:]
                m = re.match(rb"[ \t]*(\d+)", last[0]) if last else None
                if not m or ratio > 0 and int(m.group(1)) // ratio > len(b):
                    self.bad.append(b)
                    continue
            l = b.split(b"\n")
            mem = dict(x.decode().split("=", 1) for x in l[2:] if b"=" in x)
            rc = int(l[1])
            for k, v in list(self.tmp.items()):
                if k not in mem and low(k.encode()).endswith(".pkt"):
                    self.toss.append(v)         # left by an earlier run
                    del self.tmp[k]
            for k, v in mem.items():
                if not low(k.encode()).endswith(".pkt"):
                    self.tmp[k] = v.encode()
                    continue
                self.tmp.pop(k, None)
                (self.may if rc else self.toss).append(v.encode())
            if rc:
                self.bad.append(b)
                start = start or None
            else:
                start = True
        if full:
            return False
        if start is not False:
            for n in list(self.inb):
                if low(n.encode()).endswith(".pkt"):
                    (self.toss if start else self.may).append(self.inb.pop(n))
        return start

    def compare(self, w, d="bt/pin"):
        errs = []
        got, may = tossed(w), list(self.may)
        for c in self.toss:
            if c in got:
                got.remove(c)
            else:
                errs.append("packet %r not tossed" % c)
        for c in got:
            if c in may:
                may.remove(c)
            else:
                errs.append("packet %r tossed %s" % (c, "twice" if c in self.toss else "though it shouldn't"))
        bad = sorted(w.get(d + "/bad/" + f) for f in w.ls(d + "/bad"))
        if bad != sorted(self.bad):
            errs.append("bad archives %r instead of %r" % (bad, sorted(self.bad)))
        inb = {f: w.get(d + "/" + f) for f in w.ls(d) if f not in ("tmpunpack", "bad") and not f.endswith(".list")}
        for n in set(inb) | set(self.inb):
            if inb.get(n) != self.inb.get(n) and not (inb.get(n) in may):
                errs.append("inbound %s is %r instead of %r" % (n, inb.get(n), self.inb.get(n)))
        tmp = {f: w.get(d + "/tmpunpack/" + f) for f in w.ls(d + "/tmpunpack")}
        for n in set(tmp) | set(self.tmp):
            if tmp.get(n) != self.tmp.get(n) and not (tmp.get(n) in may):
                errs.append("unpacked %s is %r instead of %r" % (n, tmp.get(n), self.tmp.get(n)))
        return errs


def one(x):
    """x: runs: each (new inbound files, leftovers, bad, listings), conf"""
    runs, conf, ratio = x
    w = world(core.worker_id(), conf)
    m = Model()
    errs = []
    for i, (files, left, bad, listing) in enumerate(runs):
        for n, b in files.items():
            if n in m.inb:
                continue
            w.put("bt/pin/" + n, b)
            m.inb[n] = b
        for n, b in listing.items():
            w.put("bt/pin/" + n + ".list", b)
        for n, b in left.items():
            w.put("bt/pin/tmpunpack/" + n, b)
            m.tmp[n] = b
        for n, b in bad.items():
            w.put("bt/pin/bad/" + n, b)
            m.bad.append(b)
        old = len(calls(w))
        r = w.run(INC, "pin")
        start = m.run(listing, ratio)
        errs = m.compare(w)
        c = [l for l in calls(w)[old:] if not l.startswith("ftntick ")]
        if r.returncode:
            errs.append("exit %d %s" % (r.returncode, r.stdout[-100:]))
        if start is not None and bool(start) != bool(c):
            errs.append("tosser %sstarted" % ("not " if start else ""))
        if errs:
            return x, "run %d: %s" % (i + 1, "; ".join(errs[:3])), bool(files)
    return x, None, any(r[0] for r in runs)


def show(runs):
    return " then ".join(", ".join("%s=%r" % (n, b.decode("latin-1")) for n, b in list(f.items()) + [("tmpunpack/" + k, v) for k, v in l.items()] + [("bad/" + k, v) for k, v in b_.items()]) for f, l, b_, _ in runs) + repr([r[3] for r in runs if r[3]])


def part(name, cases, chunk=20):
    bad = n = 0
    for x, e, nt in core.pmap(one, cases, chunk):
        n += len(x[0])
        ck.count("states", len(x[0]))
        ck.count("evaluations", len(x[0]) if nt else 0)
        if e:
            bad += 1
            if bad <= 3:
                ck.violation("%s: %s: %s" % (name, show(x[0]), e), None, dict(case=repr(x), error=e))
    ck.part(name, cases=len(cases), runs=n, violating=bad)


# ---- one archive --------------------------------------------------------------------------------
def singles():
    o = []
    P = [("00000001.pkt", b"one"), ("00000002.PKT", b"two"), ("file.txt", b"txt")]
    LIST = [b"Archive: x\n  10  2 files\n", b"999999999 2 files\n", b"no archive\n", b"", b"\n", b"a\nb\n  0   0 files\n", b"12", b" \t 1234 x\n"]
    for kind in list(IDENT) + [b"unknown", b"", b"P", b"PK\x03", b"\x60\xca", b"Rar"]:
        for rc in (0, 1, 3, 99):
            for k in range(4):
                for l in LIST if kind == "ZIP" else LIST[:1]:
                    o.append(([({"abcd0123.mo0": arc(kind, rc, P[:k])}, {}, {}, {"abcd0123.mo0": l})], "", 10))
    for e in [d + c for d in DAYS for c in "0a9Z"] + [d.upper() + "1" for d in DAYS] + ["Mo0", "zip", "tix", "tuu", "pk", "pkt", "PKT", "tic", "sux", "xmo", "s0", "mo", "bad", "out"]:
        for stem in ("abcd0123", "ABCD0123", "short", "toolong12", "a b c.d "):
            n = stem + "." + e
            for kind in ("ZIP", b"unknown"):
                o.append(([({n: arc(kind, 0, P[:1])}, {}, {}, {n: LIST[0]})], "", 10))
    for big in (0, 1, 10, 99, 200, 439, 440, 10000):
        for r in (0, 1, 10, 100):
            o.append(([({"abcd0123.we1": arc("ZIP", 0, P[:2])}, {}, {}, {"abcd0123.we1": b"x\n %d 2\n" % big})], "MaxArchiveRatio %d\n" % r, r))
    return o


part("one archive", singles())


# ---- names shared by archives, packets, leftovers and bad archives -------------------------------
def shared():
    """two archives whose packets, the inbound's packets and leftovers share two names; a second run"""
    N = ("00000000.pkt", "abcd0123.pkt")
    mem = [[], [0], [1], [0, 1]]
    o = []
    for a in mem:
        for b in mem:
            for rcs in ((0, 0), (0, 1), (1, 0)):
                for inb in mem:
                    for left in mem if rcs == (0, 0) else mem[:1]:
                        f = {"aaaaaaaa.mo0": arc("RAR", rcs[0], [(N[i], b"a%d" % i) for i in a]), "bbbbbbbb.mo0": arc("ARJ", rcs[1], [(N[i], b"b%d" % i) for i in b])}
                        f.update({N[i]: b"in%d" % i for i in inb})
                        lf = {N[i]: b"left%d" % i for i in left}
                        o.append(([(f, {}, {}, {})], "", 10))
                        if left and not (set(left) & set(a) or set(left) & set(b)):
                            o.append(([(f, lf, {}, {})], "", 10))
    # history: the same names again, archives of the same name go bad twice
    F = [{"aaaaaaaa.mo0": arc("RAR", rc, [(N[i], b"r%d%d" % (rc, i)) for i in m]), **({N[0]: b"p"} if p else {})} for rc in (0, 1) for m in mem for p in (0, 1)]
    F += [{"aaaaaaaa.mo0": arc(b"junk%d" % i, 0, []), "00000000.mo0": arc(b"more", 0, [])} for i in range(2)]
    F += [{"00000001.mo0": arc(b"junk", 0, []), "x.txt": b"text"}]
    for x in F:
        for y in F:
            y = {n: b + (b"tail=2\n" if n[-3:] != "pkt" else b"2") if n != "x.txt" else b for n, b in y.items()}
            o.append(([(x, {}, {}, {}), (y, {}, {}, {})], "", 10))
            if T:
                for z in F:
                    o.append(([(x, {}, {}, {}), (y, {}, {}, {}), (z, {}, {}, {})], "", 10))
    for b in ("aaaaaaaa.mo0", "00000000.mo0", "00000001.mo0"):
        for x in F:
            o.append(([(x, {}, {b: b"old", "00000000.mo0": b"older"}, {})], "", 10))
    return o


part("names shared", shared())


# ---- the programs started -----------------------------------------------------------------------
IN = [("pin", "bt/pin", "-gp", "-s"), ("in", "bt/in", "-gi", "-s"), ("outpkt", "spool/outpkt", "-go", "-n -t -p"), ("outpkt/mail", "spool/outpkt/mail", "-gm", "-n -t -p"),
      ("outpkt/news", "spool/outpkt/news", "-gn", "-n -t -p"), ("uuin", "spool/uuin", "-gu", "-s"), ("ftpin", "spool/ftpin", "-gf", "-s"), ("PIN", "bt/pin", "-gp", "-s")]


def started(x):
    d, npk, tic, toss, route, pack, bef, aft, what = x
    w = world(core.worker_id())
    name, path, grade, flags = d
    for i in range(npk):
        w.put("%s/0000000%d.pkt" % (path, i), b"%d" % i)
    if tic:
        w.put(path + "/abcd0123.tic", b"x")
    for n, c in (("ftntoss", toss), ("ftnroute", route), ("ftnpack", pack)):
        w.put("codes/" + n, " ".join(map(str, c)))
    for n, c in (("before", bef), ("after", aft)):
        if c is not None:
            w.put("codes/" + n, str(c))
    a = []
    if bef is not None:
        a += ["-b", w.p("bin/before")]
    if aft is not None:
        a += ["-a", w.p("bin/after")]
    if what == "dir":
        a.append(name)
    elif what == "o":
        a.append("-o")
    r = w.run(INC, *a, timeout=20)
    # what is to be run
    ds = [d] if what == "dir" else IN[2:5] if what == "o" else [IN[1], IN[0]]
    exp, err, k = [], False, [0, 0, 0]
    for (n, p, g, f) in ds:
        if p != path:
            continue
        if npk:
            if bef is not None:
                exp.append("before")
                if bef:
                    err = True
                    break
            while not err:
                c = (list(toss) + [0] * 9)[k[0]]
                k[0] += 1
                exp.append(("ftntoss", g, f, p))
                if c == 1:
                    err = True
                    break
                for i, (prog, cs) in enumerate((("ftnroute", route), ("ftnpack", pack))):
                    exp.append((prog, g, p))
                    if (list(cs) + [0] * 9)[k[i + 1]]:
                        err = True
                        break
                    k[i + 1] += 1
                if err or c == 0:
                    break
            if err:
                break
            if aft is not None:
                exp.append("after")
                if aft:
                    err = True
                    break
        if tic:
            exp.append(("ftntick", p))
    got = calls(w)
    errs = []
    # the other directories' ftntick may be started again, it finds nothing
    got = [l for l in got if not (l.startswith("ftntick ") and w.p(path) not in l.split())]
    for i, e in enumerate(exp):
        l = got[i].split() if i < len(got) else ["nothing"]
        ok = l[0] == (e if isinstance(e, str) else e[0])
        if ok and not isinstance(e, str):
            if e[0] == "ftntoss":
                ok = "-I %s " % w.p(e[3]) in got[i] and e[1] in l and (" %s " % e[2]) in got[i] + " "
            elif e[0] == "ftntick":
                ok = "-I %s" % w.p(e[1]) in got[i]
            else:
                ok = e[1] in l and (e[0] != "ftnpack" or ("-F" + w.p(e[2]) in l) == (e[2] in ("bt/pin", "bt/in")))
        if not ok:
            errs.append("call %d is %s, not %s" % (i + 1, " ".join(l), e))
            break
    if not errs and len(got) > len(exp):
        errs.append("called %s, too" % got[len(exp)])
    if bool(r.returncode) != err:
        errs.append("exit %d" % r.returncode)
    if w.ls("lock"):
        errs.append("locks left: %s" % w.ls("lock"))
    return x, "; ".join(errs[:2])


S = [()] + [s for k in range(1, 4 if T else 3) for s in itertools.product((0, 1, 2, 3), repeat=k)]
cases = [(d, n, t, s, (), (), None, None, "dir") for d in IN for n in (0, 1, 2) for t in (0, 1) for s in S]
cases += [(IN[0], 1, 1, s, r, p, None, None, "dir") for s in ((), (3,), (3, 2), (2, 3, 3)) for r in S for p in S]
cases += [(d, n, t, s, (), (), b, a, "dir") for d in IN[:3] for n in (0, 1) for t in (0, 1) for s in ((), (3,), (1,)) for b in (None, 0, 1) for a in (None, 0, 1)]
cases += [(d, n, t, s, (), (), None, None, wh) for wh, ds in (("o", IN[2:5]), ("all", IN[:2])) for d in ds for n in (0, 1) for t in (0, 1) for s in S]
bad = 0
for x, e in core.pmap(started, cases, 20):
    ck.count("states")
    ck.count("evaluations", 1 if x[1] or x[2] else 0)
    if e:
        bad += 1
        if bad <= 3:
            ck.violation("programs started: %r: %s" % (x, e), None, dict(case=repr(x), error=e))
ck.part("programs started", cases=len(cases), violating=bad)


# ---- free space ---------------------------------------------------------------------------------
def space(x):
    avail, minfree, form, opt = x
    conf = "DiskFreeProg %%s/bin/df %s\n" % ("%%p" if opt != "nomacro" else "")
    w = World("%s/r%d" % (ck.scratch, core.worker_id()))
    root = w.root
    conf = conf % root
    if minfree is not None:
        conf += "%s %d\n" % ("MinDiskFree" if opt == "old" else "DiskFreeMin", minfree)
    out = {"df": "Filesystem 1024-blocks Used Available Capacity Mounted on\n/dev/disk 90000000 80000000 %d 99%% /var\n" % avail, "empty": "", "err": "df: no such file\n",
           "head": "/dev/disk 1 1 %d 1%% /\n" % avail, "long": "/dev/mapper/%s 90000000 1 %d 99%% /\n" % ("x" * 100, avail)}[form]
    w = world(core.worker_id(), conf, out)
    w.put("bt/pin/00000001.pkt", b"1")
    r = w.run(INC, "pin")
    full = form in ("df", "head", "long") and avail < (1024 if minfree is None else minfree)
    t = tossed(w)
    if r.returncode:
        return x, "exit %d" % r.returncode
    if bool(t) == full or (w.get("bt/pin/00000001.pkt") is None) == full:
        return x, "tossed %r" % t
    return x, None


cases = [(a, m, f, o) for a in (0, 1, 100, 1023, 1024, 1025, 10239, 10240, 5000000, 5000000000) for m in (None, 0, 1, 100, 1024, 10240, 4000000) for f in ("df", "head", "empty", "err", "long") for o in ("", "old", "nomacro")]
bad = 0
for x, e in core.pmap(space, cases, 20):
    ck.count("states")
    ck.count("evaluations")
    if e:
        bad += 1
        if bad <= 3:
            ck.violation("free space: %r: %s" % (x, e), None, dict(case=repr(x), error=e))
ck.part("free space", cases=len(cases), violating=bad)


# ---- crash points and failing operations --------------------------------------------------------
def scen(name, files, left=()):
    def setup(wid):
        w = world(wid)
        for n, b in files.items():
            w.put("bt/pin/" + n, b)
        for n, b in dict(left).items():
            w.put("bt/pin/tmpunpack/" + n, b)
        return w, mcx.Job(w.root, [dict(args=w.args(INC, "pin"), vpid=1001)], ignore=("/log/", "/etc/"))

    want = sorted(set([b for n, b in files.items() if n.endswith("pkt")] + [l.split(b"=")[1] for b in files.values() for l in b.split(b"\n")[2:] if b".pkt=" in l and b.split(b"\n")[1] == b"0"] + list(dict(left).values())))

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and (res.exits[0] != "0" or tossed(w) != want):
            return ["exit %r, tossed %r" % (res.exits, tossed(w))], None
        rec, again = None, False
        for rnd in range(3):
            for f in w.ls("lock"):
                os.unlink(w.p("lock/" + f))
            bad = w.ls("bt/pin/bad")
            again |= bool(bad)
            for f in bad:                       # the operator looks at bad archives which aren't
                b = w.get("bt/pin/bad/" + f)
                if b.split(b"\n")[1] == b"0" and not os.path.exists(w.p("bt/pin/" + f)):
                    os.rename(w.p("bt/pin/bad/" + f), w.p("bt/pin/" + f))
            if rnd == 2:
                w.put("bt/pin/zzzzzzzz.su0", arc("RAR", 0, [("zzzzzzzz.pkt", b"z")]))       # the next archive
            r2 = mcx.Job(w.root, [dict(args=w.args(INC, "pin"), vpid=2001 + rnd)], ignore=("/log/", "/etc/")).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
        t = tossed(w)
        for c in want:
            if c not in t:
                errs.append("packet %r lost: inbound %s, bad %s, unpacked %s: %s" % (c, w.ls("bt/pin"), w.ls("bt/pin/bad"), w.ls("bt/pin/tmpunpack"), w.log()[-200:]))
        for c in t:
            if c not in want and c != b"z" and not (fault and any(x.startswith(c) for x in want)):
                errs.append("packet %r never received" % c)
        if not again and (not fault or fault[1] not in ("kill", "torn") and not (res.steps[fault[0]].name == "rename" and ".pkt" in res.steps[fault[0]].p1)):
            for c in set(t):
                if t.count(c) > 1:
                    errs.append("packet %r tossed %d times" % (c, t.count(c)))
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=lambda steps, f: steps[f[0]].name == "unlink" and ".mo0" in steps[f[0]].p1 and f[1] != "kill")


Z = arc("RAR", 0, [("00000001.pkt", b"a1"), ("00000002.pkt", b"a2")])
Y = arc("ARJ", 0, [("00000001.pkt", b"b1")])
scen("crash: one archive", {"aaaaaaaa.mo0": Z})
scen("crash: two archives and a packet of one name", {"aaaaaaaa.mo0": Z, "bbbbbbbb.mo0": Y, "00000001.pkt": b"c1"})
scen("crash: leftover of a former crash", {"aaaaaaaa.mo0": Y}, {"00000009.pkt": b"l9"})
scen("crash: bad and good archive", {"aaaaaaaa.mo0": arc(b"junk", 0, []) , "bbbbbbbb.mo0": Y})
ck.finish()
