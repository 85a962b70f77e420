import itertools, os
from fg import core, toss, pack, world
from fg.ftn import Node, N, A, Msg, Pkt
ck = core.Check("R02")
ck.rule = ("packing files (single rules, ordered pairs), packets of every type, flavour and destination, contents of the "
           "outbound before the run, file attaches, message texts, BSY files, failing archivers, run through the real ftnpack "
           "with a stand-in archiver and compared with a reference model; non-trivial = distinct run")
ck.build("plain", har=["h_arc"])
T = ck.thorough
AK = ["2:1/1", "1:9/1", "2:1/1.5"]
US = N("2:1/1")
PW = {N("2:1/2"): "Secret", N("2:1/9"): "pw2", N("2:5/6.7"): "12345678"}
HEAD = ["arc z ARC", "prog p1 LOG1", "progn p2 LOG2"]


def go(name, cases):
    def one(c):
        label, kw, pkts = c
        m = pack.Pack(AK, **kw)
        w, before, r = pack.run(ck, m, pkts)
        return label, pack.judge(w, m, pkts, before, r), len(pkts), m.events, repr(m.outs)[:300]
    n = k = bad = 0
    ev = {}
    s = ""
    for label, errs, a, e, s in core.pmap(one, cases, 1 if len(cases) < 64 else 8):
        n, k = n + 1, k + a
        for x, y in e.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 4:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.sample(s)
    ck.count("states", n)
    ck.count("transitions", k)
    ck.count("evaluations", n)
    ck.part(name, runs=n, packets=k, events=ev, violating=bad)


def net(f, t, subj, attr=0, text=b"text\r"):
    return Msg(f, t, subj=subj, attr=attr, body=("\1INTL %s %s\r" % (A(t._replace(point=0)), A(f._replace(point=0)))).encode() + text)


def echo(f, t, subj, text=b"text\r"):
    return Msg(f, t, subj=subj, body=b"AREA:T\r\1MSGID: 2:9/9 12345678\r" + text + b"--- x\r * Origin: y (2:9/9)\rSEEN-BY: 9/9\r\1PATH: 9/9\r")


def mk(ty, f, t, subj, attr=0):
    return echo(f, t, subj) if ty == "e" else net(f, t, subj, attr)


DEST = ["2:1/2", "2:1/2.3", "2:5/6", "2:5/6.7", "1:5/0", "3:700/5000.1", "5:1/1"]


def packets(types="ne", flavs="nhcd", dests=DEST):
    out = []
    for i, (ty, fl, d) in enumerate(itertools.product(types, flavs, dests)):
        out.append(("%s%s%s%05x.pkt" % ("m" if i % 3 else "a", ty, fl, i), Pkt(US, N(d), [mk(ty, US, N(d), b"S%d.%d" % (i, j)) for j in range(1 + i % 2)])))
    return out


# 1. rules
PATS = ["2:1/2", "2:1/2.*", "2:1/2.0", "2:5/*", "2:5/*.*", "*", "3:all/all 1:*/*", "2:1/2 5/6", "2:5/6.7 .8 2:1/2.3 1/2"]
RULES = []
for sec in ("", "echomail "):
    for p in PATS:
        for a in ("noarc", "z", "p1", "p2"):
            RULES.append(sec + "pack %s %s" % (a, p))
        for d in ("2:1/9", "1:7/7.7"):
            RULES += [sec + "%s %s %s %s" % (c, a, d, p) for c in ("rpack", "fpack") for a in ("z", "noarc")]
        RULES += [sec + "dirpack @/spool/dir1 z " + p, sec + "dirmove @/spool/dir2 " + p, sec + "rpack p1 2:1/9 " + p]


def lines(*rules):
    out = list(HEAD)
    for r in rules:
        out += ["echomail", r[9:]] if r.startswith("echomail ") else ["netmail", r]
    return out


P1 = packets()
go("each rule, every type, flavour, destination",
   [((r, aso, disp), dict(rules=lines(r), pw=PW, aso=aso, disp=disp), P1)
    for r in RULES for aso, disp in ((False, 0), (False, 1), (True, 2)) if T or disp != 1 or "z" in r])
P2 = packets("ne", "nc", ["2:1/2", "2:1/2.3", "2:5/6.7"])
S = [r for r in RULES if r.split()[-1] in ("2:1/2", "2:1/2.*", "*", "2:5/*.*")] if not T else RULES
S = S if T else [r for r in S if "1:7/7.7" not in r and " p2" not in r]
go("ordered pairs of rules", [("%s / %s" % p, dict(rules=lines(*p), pw=PW), P2) for p in itertools.product(S, S)
                              if ("echomail" in p[0]) == ("echomail" in p[1])])

# 2. what the outbound held before
D = N("2:1/2")
cases = []


def outpkt(n):
    return Pkt(N("2:1/1"), D, [net(US, D, b"OLD%d" % i) for i in range(n)], passwd=b"oldpw").pack()


for point in (False, True):
    d = N("2:1/2.3") if point else D
    b = "bt/out/00010002." if not point else "bt/out/00010002.pnt/00000003."
    ab = "bt/out/0000ffff." if not point else "bt/out/00010002.pnt/0000fffe."
    for have in itertools.product((0, 1), repeat=4):
        for fl in "nhcd":
            for ty in "ne":
                for rule in ("pack noarc *", "pack z *"):
                    pre = {}
                    if "noarc" in rule or fl == "c":
                        pre.update({b + pack.OUT[f]: outpkt(i) for i, (h, f) in enumerate(zip(have, "hndc")) if h})
                    if "z" in rule and fl != "c":
                        pre.update({b + pack.FLO[f]: b"^@/x/%d\n" % i for i, (h, f) in enumerate(zip(have, "hndc")) if h})
                    cases.append(("%s %s %s %s %s" % (d, have, fl, ty, rule), dict(rules=lines("netmail" == ty and rule or rule, "echomail " + rule), pw=PW, pre=pre),
                                  [("m%s%s%05x.pkt" % (ty, fl, i), Pkt(US, d, [mk(ty, US, d, b"N%d" % i)])) for i in range(2)]))
    OLD = [b"", b"#NAME", b"^NAME", b"@NAME", b"NAME", b"~NAME", b"^NAME2", b"^X", b"~#NAME"]
    for s in itertools.product(OLD, repeat=2):
        for dg in "0z":
            fl = b"".join(x.replace(b"NAME", b"@/" + ab.encode() + b"DAY" + dg.encode()) + b"\n" for x in s if x)
            for exists in (0, 1):
                for disp in (0, 1, 2):
                    pre = {b + "flo": fl}
                    if exists:
                        pre[ab + "DAY" + dg] = b"FILE old.pkt 3\nabc\n"
                    cases.append(("%s %r %s %d %d" % (d, s, dg, exists, disp), dict(rules=lines("pack z *", "echomail pack z *"), pre=pre, disp=disp),
                                  [("men%05x.pkt" % i, Pkt(US, d, [mk("e", US, d, b"N%d" % i)])) for i in range(2)]))
go("outbound before the run", cases)

# 3. file attaches
SUBJ = [b"file.zip", b"FILE.ZIP", b"missing", b"Mixed.Lha", b"../etc/passwd", b"", b"file"]
cases = []
for fa in (None, "@/fadir", "/"):
    for faa in (0, 1, 2):
        for rule in ("pack noarc *", "pack z *", "rpack z 2:1/9 *", "fpack z 2:1/9 *", "rpack noarc 2:1/9 *", "dirmove @/spool/dir2 *", "dirpack @/spool/dir1 z *", "pack p1 *"):
            for subj in itertools.product(SUBJ, repeat=2):
                for attr in ((0x10, 0x10), (0x10, 0), (0, 0x11)):
                    if fa == "/":
                        subj2 = [b"@/fadir/" + s for s in subj]
                        if any(b".." in s or s.endswith(b"/") for s in subj2):
                            continue
                    else:
                        subj2 = subj
                    ty = "e" if attr == (0, 0x11) else "n"
                    cases.append(((fa, faa, rule, subj, attr), dict(rules=lines(rule, "echomail " + rule), fa=fa, faa=faa, files=("file.zip", "Mixed.Lha", "other")),
                                  [("m%sn%05x.pkt" % (ty, 1), Pkt(US, D, [Msg(US, D, subj=s, attr=a, body=b"t\r") for s, a in zip(subj2, attr)]))]))


def fa_go(name, cases):
    # full path names depend on the scratch directory
    def fix(kw, pkts, root):
        return kw, [(n, Pkt(p.frm, p.to, [Msg(US, D, subj=m.subj.replace(b"@/", root.encode() + b"/"), attr=m.attr, body=m.body) for m in p.msgs])) for n, p in pkts]

    def one(c):
        label, kw, pkts = c
        root = "%s/w%d" % (ck.scratch, core.worker_id())
        kw, pkts = fix(kw, pkts, root)
        if any(len(m.subj) > 71 for n, p in pkts for m in p.msgs):
            raise SystemExit("path too long")
        m = pack.Pack(AK, **kw)
        w, before, r = pack.run(ck, m, pkts)
        return label, pack.judge(w, m, pkts, before, r), m.events
    bad = n = 0
    ev = {}
    for label, errs, e in core.pmap(one, cases, 8):
        n += 1
        for x, y in e.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 4:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.count("states", n)
    ck.count("transitions", 2 * n)
    ck.count("evaluations", n)
    ck.part(name, runs=n, events=ev, violating=bad)


fa_go("file attaches", cases if T else [c for i, c in enumerate(cases) if c[0][0] or i % 4 == 0])

# 4. texts and header fields
KINDS = [b"text\r", b"\r", b"---\r", b" * Origin: x (2:9/9)\r", b"\1PID: x\r", b"lf\r\n", b"SEEN-BY: 1/2\r", b"AREA:X\r", b"\n", b"long " * 60 + b"\r"]
ms = [Msg(N("2:9/9"), D, subj=b"T%d" % i, body=b"".join(s)) for i, s in enumerate(s for n in range(5 if T else 4) for s in itertools.product(KINDS, repeat=n))]
ms += [Msg(N("2:9/9"), D, subj=b"U%d" % i, body=s) for i, s in enumerate((b"x", b"a\rb", b"a\r\nb\n", b"", b"\n", b"z" * 5000))]
ms += [Msg(N("2:9/9"), D, to=b"t" * a, frm=b"f" * a, subj=b"s" * b, cost=c, body=b"x\r") for a in (0, 1, 34, 35) for b in (0, 1, 70, 71) for c in (0, 1, 65535)]
ms += [Msg(N("2:9/9"), D, to=bytes([c]) + b"x", subj=b"z" + bytes([c]), body=b"a" + bytes([c]) + b"b\r") for c in range(1, 256) if c not in (10, 13)]
ms += [Msg(N("2:9/9"), D, subj=b"A%d.%d" % (a, b), attr=1 << a | 1 << b) for a in range(16) for b in range(a, 16)]
ms += [Msg(N("2:9/9"), D, subj=b"L%d" % n, body=b"x" * n + b"\r") for n in range(4090, 4101)] + [Msg(N("2:9/9"), D, subj=b"L%d" % n, body=b"y\r" * n) for n in (2047, 2048, 5000)]
go("texts and header fields", [((r, i, ty), dict(rules=lines(r, "echomail " + r)), [("m%sn%05x.pkt" % (ty, k), Pkt(US, D, ms[i::16][k::2])) for k in range(2)])
                               for r in ("pack noarc *", "pack z *", "dirmove @/spool/dir2 *") for i in range(16) for ty in "ne"])

# 5. histories of packets
KEY = [("mnn", "2:1/2"), ("mnh", "2:1/2"), ("mnc", "2:1/2"), ("men", "2:1/2"), ("ann", "2:1/2.3"), ("mec", "2:5/6")]
go("packet histories", [((s, r), dict(rules=lines(*r), pw=PW), [("%s%05x.pkt" % (KEY[k][0], 0xfffff - i), Pkt(US, N(KEY[k][1]), [mk(KEY[k][0][1], US, N(KEY[k][1]), b"H%d.%d" % (i, j)) for j in range(i % 3)]))
                                 for i, k in enumerate(s)])
                        for s in itertools.product(range(6), repeat=5 if T else 4)
                        for r in (("pack noarc *", "echomail pack z *"), ("rpack z 2:1/2 *", "echomail fpack z 2:1/2 *"))])

# 6. BSY files
NODES = [N("2:1/2"), N("2:1/9"), N("2:5/6"), N("2:5/6.7")]
cases = []
for rule in ("pack noarc *", "pack z *", "rpack z 2:1/9 *", "fpack z 2:1/9 *", "rpack noarc 2:1/9 *", "fpack z 2:5/6.7 *", "pack p1 *", "dirpack @/spool/dir1 z *", "dirmove @/spool/dir2 *"):
    for st in itertools.product((0, 1, 2), repeat=4):
        busy = [n for n, s in zip(NODES, st) if s == 1]
        stale = [n for n, s in zip(NODES, st) if s == 2]
        cases.append(((rule, st), dict(rules=lines(rule, "echomail " + rule), busy=busy, stale=stale), packets("ne", "nc", ["2:1/2", "2:5/6", "2:5/6.7"])))
go("BSY files", cases)

# 7. failing archivers and programs, rejected packets
cases = []
for arc in ("arc z false", "arc z kill", "prog z false", "prog z kill"):
    for rule in ("pack z *", "rpack z 2:1/9 *", "fpack z 2:1/9 *", "dirpack @/spool/dir1 z *"):
        if "prog" in arc and "dirpack" in rule:
            continue
        cases.append(((arc, rule), dict(rules=[arc] + lines(rule, "echomail " + rule)[1:]), P2))
for fl in "nc":
    for ty in "ne":
        full = Pkt(US, D, [mk(ty, US, D, b"B%d" % i) for i in range(2)]).pack()
        for r in ("pack noarc *", "pack z *", "dirmove @/spool/dir2 *"):
            if ty == "e" and r == "pack z *" and fl == "n":
                continue            # archived as they are
            for pre in ({}, {"bt/out/00010002.out": outpkt(1)}):
                e1 = full.index(b"B0") - 20
                cuts = [i for i in range(0, len(full)) if i < 58 or (i > 58 and (full[:i].count(b"\0B0\0") == 0 and i > 60))]
                for n in cuts if T else cuts[::3]:
                    cases.append(((r, fl, ty, len(pre), n), dict(rules=lines(r, "echomail " + r), pre=pre), [("m%s%s00001.pkt" % (ty, fl), full[:n])]))
go("failing programs, malformed packets", cases)

# 8. choice of the archive
OPT = dict(a=None, e=b"", s=b"FILE old.pkt 3\nabc\n", b=b"FILE big.pkt 1100\n" + b"x" * 1100 + b"\n", o=(b"", 90000))
n = bad = 0
cases = [(st, mx, k, flo) for st in itertools.product("aesbo", repeat=4) for mx in (0, 1) for k in (1, 2) for flo in (0, 1)]


def choose(c):
    st, mx, k, flo = c
    m = pack.Pack(AK, rules=["lastarcmailchars 3", "arc z ARC", "echomail", "pack z *"], conf="MaxArc 1\n" if mx else "",
                  pre={**{"bt/out/0000ffff.DAY%d" % i: OPT[x] for i, x in enumerate(st) if x != "a"},
                       **({"bt/out/00010002.flo": b"".join(b"#@/bt/out/0000ffff.DAY%d\n" % i for i, x in enumerate(st) if x in "sb")} if flo else {})})
    pk = [("men%05x.pkt" % i, Pkt(US, D, [echo(US, D, b"N%d" % i, b"y" * (700 if k == 2 else 1))])) for i in range(2)]
    w, before, r = pack.run(ck, m, pk)
    errs = pack.judge(w, m, pk, before, r)
    # a full archive only gets more when there is no other place
    size = {i: len(before.get("bt/out/0000ffff.%s%d" % (pack.week(), i), b"")) for i in range(4)}
    got = [int(m.where.get(("bt/out/0000ffff." + pack.week(), n), "9")[-1]) for n, p in pk]
    for g, (nm, p) in zip(got, pk):
        if mx and g in size:
            lim = 1024 + len(p.pack()) / 2
            if size[g] >= lim and any(s < lim for s in size.values()):
                errs.append("packet added to the full archive %d (sizes %s)" % (g, size))
            size[g] += len(p.pack()) + 30
    return c, errs, got


seen = set()
for c, errs, got in core.pmap(choose, cases, 8):
    n += 1
    seen.add(tuple(got))
    if errs:
        bad += 1
        if bad <= 4:
            ck.violation("choice of the archive: %s: %s" % (c, errs[0]), None, errs[:10])
ck.count("states", n)
ck.count("transitions", 2 * n)
ck.count("evaluations", n)
ck.part("choice of the archive", runs=n, choices=len(seen), violating=bad)
ck.finish()
