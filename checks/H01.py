import itertools, os, subprocess
from fg import core, mcx
from fg.world import World
ck = core.Check("H01")
ck.rule = ("history database: every sequence of operations up to the stated depth over every key set, every pair of keys, every key length, every order of keys over tables of 2..5 slots, "
           "ftnexpire over every age x limit x database, on the real code and compared with a model; non-trivial = distinct sequence")
ck.build("plain", har=["h_hist"])
T = ck.thorough
NOW, DAY = 1000000000, 86400
S = "\1"


def harness(w, script, timeout=300):
    """list of operations -> list of output lines"""
    p = subprocess.run([ck.har("h_hist"), w.p("etc/fidogate.conf")], input="".join(x + "\n" for x in script).encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                       env={"PATH": "/usr/bin:/bin", "TZ": "UTC"}, cwd=w.root)
    o = p.stdout.decode("latin-1").split("\n")[:-1]
    if p.returncode or len(o) != len(script):
        o.append("harness: exit %d after %d of %d operations" % (p.returncode, len(o), len(script)))
    return o


def canon(k):
    """what dbz takes for equal: the domain's case doesn't matter (and the one of postmaster's name)"""
    a = k.find("@")
    if a < 0:
        return k
    return k.lower() if k[1:a].lower() == "postmaster" else k[:a] + k[a:].lower()


class DB:
    """reference: entries on disk and in the running session"""

    def __init__(self):
        self.disk, self.cur, self.open = [], [], False

    def find(self, k):
        c = canon(k)
        return next((v for x, v in self.cur if canon(x) == c), None)


def run(seqs, wid, name):
    """seqs: list of (description, operations, expected outputs)"""
    w = World("%s/h%d" % (ck.scratch, wid)).reset()
    script, bad, i = [], [], 0
    for k, (d, ops, exp) in enumerate(seqs):
        n = w.p("var/x%d" % k)
        script += [o.replace("%N", n) for o in ops]
    out = harness(w, script)
    for k, (d, ops, exp) in enumerate(seqs):
        got = out[i:i + len(ops)]
        i += len(ops)
        err = [(o, g, e) for o, g, e in itertools.zip_longest(ops, got, exp) if g != e and e is not None]
        if err:
            bad.append("%s: %s: %r gives %r instead of %r" % (name, d, *err[0]))
    if len(out) > i:
        bad.append("%s: %s" % (name, out[-1]))
    w.reset()
    return len(seqs), len(script), bad


def part(name, seqs, chunk=400):
    if os.environ.get("PARTS") and os.environ["PARTS"] not in name:
        return
    n = t = nb = 0
    batches = [seqs[i:i + chunk] for i in range(0, len(seqs), chunk)]
    for a, b, bad in core.pmap(lambda s: run(s, core.worker_id(), name), batches):
        n += a
        t += b
        for e in bad:
            nb += 1
            if nb <= 6:
                ck.violation(e, None, bad[:20])
    ck.count("states", n)
    ck.count("evaluations", n)
    ck.count("transitions", t)
    ck.part(name, sequences=n, operations=t, violating=nb)


# 1. every sequence of operations
KEYSETS = {"prefixes": ["a", "ab", "abc"], "domains": ["x@Host 1", "x@hosT 1", "X@Host 1"], "bit 7": ["k\xe1", "ka", "k\xe1a"], "ids": ["A 2:1/2@fido 1234", "A 2:1/2@FIDO 1234", "A 2:1/2@fido 12345"],
           "spaces": ["a b", "a  b", "a"], "postmaster": ["<PostMaster@x>", "<postmaster@x>", "<postmastes@x>"], "last": ["z", "\x80z", "\x80\x80z"]}


def model_seq(keys, ops, probes=True):
    """ops: w<i>, r (close, open), x (cancel, open); all keys are tested after each"""
    db = DB()
    script, exp = ["o%N"], ["0"]
    val = 100
    for o in ops:
        if o[0] == "w":
            k = keys[int(o[1:])]
            val += 1
            script.append("w" + k + S + str(val))
            exp.append("0")
            db.cur.append((k, str(val)))
        elif o == "r":
            script += ["c", "o%N"]
            exp += ["", "0"]
            db.disk = list(db.cur)
        else:
            script += ["x", "o%N"]
            exp += ["", "0"]
            db.cur = list(db.disk)
        for k in keys:
            f = db.find(k)
            script.append("t" + k)
            exp.append("1" if f else "0")
    return script + ["c"], exp + [""]


D = 5 if not T else 6
seqs = []
for name, keys in KEYSETS.items():
    al = ["w%d" % i for i in range(len(keys))] + ["r", "x"]
    for d in range(1, D + 1):
        for ops in itertools.product(al, repeat=d):
            if any(a == b and a in "rx" for a, b in zip(ops, ops[1:])):
                continue
            s, e = model_seq(keys, ops)
            seqs.append(("%s %s" % (name, " ".join(ops)), s, e))
part("sequences of operations", seqs)

# 2. every pair of keys of a catalogue: one is written, the other is looked up
CAT = ["a", "b", "A", "aa", "ab", "a b", "b a", "\x80a", "\xe1", "a@b", "A@b", "a@B", "a@b@C", "a@b@c", "@", "@a", "@A", "a@", "a ", " a", "0", "1", "<id@host>", "<ID@host>", "<id@HOST>", "<id@host> ",
       "AREA 2:1/2 00000001", "AREA 2:1/2 00000002", "AREA 2:1/2.0 00000001", "AREA 2:1/2@fidonet 00000001", "AREA 2:1/2@FidoNet 00000001", "AREA 2:1/2@FidoNet 0000000A", "AREA 2:1/2@FidoNet 0000000a",
       "area 2:1/2 00000001", "x" * 200, "x" * 199 + "y", "y" + "x" * 199, "k" * 253, "k" * 252, "k" * 252 + "l", "\xff", "\xfe", "\xff\xff", "a=b", "a|b", "%s%n", "a\\b", '"q"', "\x01MSGID", "<postmaster@h>", "<PostMaster@h>"]
seqs = []
for a in CAT:
    ops, exp = ["o%N", "w" + a + S + "5"], ["0", "0"]
    for b in CAT:
        ops.append("t" + b)
        exp.append(str(int(canon(a) == canon(b))))
    ops += ["c", "o%N"]
    exp += ["", "0"]
    for b in CAT:
        ops.append("t" + b)
        exp.append(str(int(canon(a) == canon(b))))
    seqs.append(("%r written" % a, ops + ["c"], exp + [""]))
for a in CAT:  # all but one
    ops, exp = ["o%N"], ["0"]
    for b in CAT:
        if canon(b) != canon(a):
            ops.append("w" + b + S + "5")
            exp.append("0")
    ops += ["t" + a, "c", "o%N", "t" + a]
    exp += ["0", "", "0", "0"]
    for b in CAT:
        if canon(b) != canon(a):
            ops.append("t" + b)
            exp.append("1")
    seqs.append(("all but %r written" % a, ops + ["c"], exp + [""]))
part("pairs of keys", seqs, 5)

# 3. lengths
seqs = []
for l in range(1, 300):
    k = "k" * l
    ok = l < 254
    ops = ["o%N", "wfirst" + S + "1", "t" + k, "w" + k + S + "7", "t" + k, "tfirst", "x" if not ok else "c", "o%N"]
    exp = ["0", "0", "0", "0" if ok else "-1", str(int(ok)), "1", "", "0"]
    for q in (k, k[:-1], k + "k", k[:-1] + "x"):
        ops.append("t" + q)
        # keys which can't be stored are compared by their head
        exp.append(str(int(ok and q == k)) if len(q) < 254 else None)
    ops += ["wlast" + S + "1", "tlast", "tfirst", "c"]
    exp += ["0", "1", None if not ok else "1", ""]
    seqs.append(("length %d" % l, ops, exp))
part("lengths", seqs, 20)

# offsets in large (sparse) texts
seqs = []
for size in sorted({(1 << b) + d for b in (10, 15, 16, 23, 24, 25, 28, 30) for d in (-40, -17, -1, 0, 1)}):
    for tab in (2, 11):
        keys = ["A 2:1/2@x %08x" % i for i in range(4)]
        ops, exp = ["s%N" + S + str(tab), "o%N", "w" + keys[0] + S + "1", "c", "e%N" + S + str(size), "o%N"], ["0", "0", "0", "", "0", "0"]
        for i, k in enumerate(keys[1:]):
            ops += ["w" + k + S + "1"] + ["t" + q for q in keys] + ["c", "o%N"] + ["t" + q for q in keys]
            exp += ["0"] + [str(int(j <= i + 1)) for j in range(4)] + ["", "0"] + [str(int(j <= i + 1)) for j in range(4)]
        seqs.append(("text of %d" % size, ops + ["c", "u%N"], exp + ["", "0"]))
part("large texts", seqs, 10)

# 4. small tables: keys go over to further tables
seqs = []
names = ["2:1/2 1", "k", "x@y", "abc", "zz", "\xe1"]
for size in (2, 3, 5):
    for p in itertools.permutations(names):
        if not T and p[0] > p[1] and size == 5:
            continue
        ops, exp = ["s%N" + S + str(size), "o%N"], ["0", "0"]
        for i, k in enumerate(p):
            ops.append("w" + k + S + str(i))
            exp.append("0")
            if i in (1, 3):
                ops += ["c", "o%N"]
                exp += ["", "0"]
            for q in p:
                ops.append("t" + q)
                exp.append(str(int(q in p[:i + 1])))
        ops += ["c", "o%N"] + ["t" + q for q in p] + ["c"]
        exp += ["", "0"] + ["1"] * len(p) + [""]
        seqs.append(("table of %d, order %s" % (size, p), ops, exp))
for size in (2, 7, 101, 1009):
    for cnt in (1, size - 1, size, size + 1, 3 * size):
        for step in (1, 7, 50):
            ops, exp = ["s%N" + S + str(size), "o%N"], ["0", "0"]
            for i in range(cnt):
                ops.append("wA 2:1/%d@net %08x" % (i % 5, i * 77) + S + str(i))
                exp.append("0")
                if i % step == step - 1 and i < 300:
                    ops += ["c", "o%N"]
                    exp += ["", "0"]
            ops += ["c", "o%N"]
            exp += ["", "0"]
            for i in range(cnt):
                ops += ["tA 2:1/%d@net %08x" % (i % 5, i * 77), "tA 2:1/%d@net %08x" % (i % 5, i * 77 + 1)]
                exp += ["1", "0"]
            seqs.append(("table of %d, %d ids, close every %d" % (size, cnt, step), ops + ["c"], exp + [""]))
part("small tables", seqs, 40)

# 5. values: Message-IDs of the correspondence database, newest or oldest of the same key
seqs = []
vals = ["<a@b>", "<%s@h>" % ("x" * 300), "<A=B_c@d.e>", "<\xe1@b>"]
for n in (1, 2, 3):
    for p in itertools.product(range(len(vals)), repeat=n):
        for reopen in (0, 1):
            ops, exp = ["o%N"], ["0"]
            for i, v in enumerate(p):
                ops.append("d" + vals[v] + S + "2:1/2@n %08x" % i)
                exp.append("0")
                if reopen:
                    ops += ["c", "o%N"]
                    exp += ["", "0"]
                for j in range(n):
                    ops.append("F2:1/2@n %08x" % j)
                    exp.append("-" if j > i else vals[p[j]])
                    ops.append("f%08x" % j)
                    exp.append("-" if j > i else vals[p[j]])
            seqs.append(("dbc %s" % (p,), ops + ["c"], exp + [""]))
part("values", seqs)

# 6. ftnexpire
CONF = "MaxHistory 10\nMaxHistoryDBC 5\nMaxTicHistory 3\n"
DBS = {(): "var/history", ("-d",): "var/dbc", ("-t",): "var/tic"}
HC = "HISTORY @/var/history\nDBC_HISTORY @/var/dbc\nTIC_HISTORY @/var/tic\n"


def expire(w, args, now):
    r = mcx.Job(w.root, [dict(args=w.args(ck.bin("toss/ftnexpire"), *args), stdout=w.p("log/o"))], ignore=("/log", "/etc"), time=now).run()
    return r.exits[0]


def lines(db, l):
    return "".join("%s%s\t%d\n" % (k, "\t<r-%s@h>" % k.replace(" ", "_") if db == "var/dbc" else "", t) for k, t in l).encode("latin-1")


def fill(w, db, l, size=None):
    """entries written through the library"""
    ops = ["s" + w.p(db) + S + str(size)] if size else []
    ops.append("o" + w.p(db))
    for k, t in l:
        ops.append("a" + k + S + "<r-%s@h>\t%d" % (k.replace(" ", "_"), t) if db == "var/dbc" else "w" + k + S + str(t))
    return harness(w, ops + ["c"])


def look(w, db, keys):
    o = harness(w, ["o" + w.p(db)] + ["t" + k for k in keys] + ["c"])
    return o[1:-1] if len(o) == len(keys) + 2 and o[0] == "0" else o


def oneexp(c):
    conf, args, size, steps, desc = c
    w = World("%s/e%d" % (ck.scratch, core.worker_id()), conf=HC + conf).reset()
    db = DBS[tuple(a for a in args if a in ("-d", "-t"))]
    m = next((a for i, a in enumerate(args) if i and args[i - 1] == "-m"), None)
    name = {"var/history": "MaxHistory", "var/dbc": "MaxHistoryDBC", "var/tic": "MaxTicHistory"}[db]
    cf = dict(l.split() for l in conf.splitlines())
    lim = m or cf.get(name) or cf.get("MaxHistory") or "14"
    other = [d for d in DBS.values() if d != db]
    for d in other:
        fill(w, d, [("other", 1), ("new", NOW)])
    before = {d + x: w.get(d + x) for d in other for x in ("", ".dir", ".pag")}
    ent, gone, bad, first, n, now = [], [], [], True, 0, NOW
    for st in steps:
        n += 1
        if st[0] == "w":
            o = fill(w, db, st[1], size if first else None)
            first = False
            ent += st[1]
            if any(x not in ("0", "") for x in o):
                bad.append("write gives %r" % (o,))
        elif st[0] == "day":
            now += st[1]
        else:
            if w.get(db) is None:
                continue
            rc = expire(w, args, now)
            if rc != "0":
                bad.append("exit %s: %s" % (rc, w.log()[-200:]))
            bound = max(0, now - int(24 * 3600 * max(0, float(lim))))
            gone += [k for k, t in ent if t < bound]
            ent = [(k, t) for k, t in ent if t >= bound]
            if w.get(db) != lines(db, ent):
                bad.append("step %d: text is %r instead of %r" % (n, w.get(db), lines(db, ent)))
        if w.get(db) is None:
            continue
        live = {canon(k) for k, t in ent}
        keys = sorted(set([k for k, t in ent] + gone + ["never"]))
        got = look(w, db, keys)
        want = [str(int(canon(k) in live)) for k in keys]
        if got != want:
            bad.append("step %d: known ids are %r instead of %r of %r" % (n, got, want, keys))
    for f, b in before.items():
        if w.get(f) != b:
            bad.append("%s changed" % f)
    return n, ["ftnexpire %s, %s: %s" % (" ".join(args), desc, b) for b in bad[:3]]


cases = []
# ages around the limit
for db in DBS:
    for conf, opt in ((CONF, ()), (CONF, ("-m", "2")), (CONF, ("-m", "0.5")), (CONF, ("-m", "0")), (CONF, ("-m", "-3")), (CONF, ("-m", "100000")), ("", ()), ("MaxHistory 4\n", ()),
                      ("MaxHistoryDBC 4\n", ()), ("MaxTicHistory 0\n", ())):
        cf = dict(l.split() for l in conf.splitlines())
        lim = float(dict(zip(opt, opt[1:])).get("-m") or cf.get({(): "MaxHistory", ("-d",): "MaxHistoryDBC", ("-t",): "MaxTicHistory"}[db]) or cf.get("MaxHistory") or 14)
        b = NOW - int(DAY * max(0, lim))
        for size in (None, 3):
            ages = [b - 1, b, b + 1, 0, 1, NOW, NOW - 1, NOW + 5 * DAY, b - 30 * DAY, 2 ** 31 + 5]
            ages = [max(a, 0) for a in ages]
            cases.append((conf, db + opt, size, [("w", [("A 2:1/2@n %08x" % i if db != ("-d",) else "%08x" % i, a) for i, a in enumerate(ages)]), ("e",), ("e",)], "limits %r %r" % (conf, size)))
            for k in range(len(ages)):
                cases.append((conf, db + opt, size, [("w", [("k%d" % k, ages[k])]), ("e",), ("w", [("l", NOW)]), ("e",)], "age %d, %r" % (ages[k], conf)))
# which of 6 entries are old
for db in DBS:
    for keys in (["a", "ab", "abc", "b", "c@X", "d"], ["k\xe1", "ka", "x y z", "x y", "<i@h>", "x"]):
        for v in itertools.product((0, 1), repeat=6):
            if not T and db == ("-d",) and sum(v) % 2:
                continue
            cases.append((CONF, db, None, [("w", [(k, NOW - 100 * DAY * o - 5) for k, o in zip(keys, v)]), ("e",), ("w", [(k, NOW) for k, o in zip(keys, v) if o][:2] or [("n", NOW)]), ("e",)],
                          "old %s of %r" % (v, keys)))
# sequences
for d in range(1, 5 if not T else 6):
    for ops in itertools.product("wvoed", repeat=d):
        if "e" not in ops or ops[-1] == "d" or ops[0] not in "wvo":
            continue
        for db in list(DBS)[:1] if not T else DBS:
            steps, now = [], NOW
            for i, o in enumerate(ops):
                if o == "d":
                    steps.append(("day", 4 * DAY))
                    now += 4 * DAY
                elif o == "e":
                    steps.append(("e",))
                else:  # a new id, one id again and again, an old one
                    steps.append(("w", [("n%d" % i if o == "w" else "same" if o == "v" else "old%d" % i, now - (8 * DAY if o == "o" else 0))]))
            cases.append((CONF, db, 2 if d % 2 else None, steps, "sequence " + "".join(ops)))
# growing tables
for size in (2, 5, 101):
    for cnt in (1, 5, 20, 300):
        steps = []
        for r in range(4):
            steps += [("w", [("r%d %08x" % (r, i), NOW + r * 4 * DAY) for i in range(cnt)]), ("e",), ("day", 4 * DAY)]
        cases.append((CONF, (), size, steps, "table of %d, %d ids a day" % (size, cnt)))
if not os.environ.get("PARTS") or os.environ["PARTS"] in "ftnexpire":
    n = t = nb = 0
    for k, bad in core.pmap(oneexp, cases, 8):
        n += 1
        t += k
        for e in bad:
            nb += 1
            if nb <= 6:
                ck.violation(e, None, bad)
    ck.count("states", n)
    ck.count("evaluations", n)
    ck.count("transitions", t)
    ck.part("ftnexpire", cases=n, steps=t, violating=nb)
ck.finish()
