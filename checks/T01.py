import itertools, os
from fg import core, world, toss
from fg.ftn import Node, N, A, Msg, Pkt, parse
from fg.toss import Toss, Body
ck = core.Check("T01")
ck.rule = ("netmail messages (all text structures up to a length, address kludges, attributes, flags, ordered pairs of "
           "routing rules, packet histories) tossed by the real ftntoss and compared with a reference model; "
           "non-trivial = distinct message text / rule pair / history")
ck.build("plain")
FT = ck.bin("toss/ftntoss")
T = ck.thorough
K0 = b"\1MSGID: 2:9/9 12345678\r"


def run(case):
    """case: (label, model ctor kw, packets, args, extra)"""
    label, kw, pkts, check = case
    w = world.World("%s/w%d" % (ck.scratch, core.worker_id()), zones=False)
    w.conf = "\n".join(l for l in w.conf.splitlines() if not l.startswith("Address")) + "\n"
    m = Toss(**kw)
    conf, files = m.files()
    w.conf += conf
    w.files.update({k: v.encode("latin-1") for k, v in files.items()})
    w.reset({"bt/pin/%02d.pkt" % i: p.pack() for i, p in enumerate(pkts)})
    for i in range(len(pkts)):
        os.utime(w.p("bt/pin/%02d.pkt" % i), (10 ** 9 + i, 10 ** 9 + i))
    r = w.run(FT, *m.args)
    for p in pkts:
        m.packet(p)
    errs = []
    if r.returncode != 0:
        errs.append("ftntoss exit %d: %r" % (r.returncode, r.stdout[-300:]))
    if w.ls("bt/pin"):
        errs.append("input left: %s" % w.ls("bt/pin"))
    errs += toss.compare(m, toss.observed(w, errs))
    if check:
        errs += check(w, m)
    return label, errs, sum(len(p.msgs) for p in pkts), len(m.out), m.events, repr(m.out[:1])[:300]


def go(name, cases):
    n = k = o = bad = 0
    ev = {}
    for label, errs, a, b, e, s in core.pmap(run, cases, 1 if len(cases) < 64 else 8):
        n += 1
        k += a
        o += b
        for x, y in e.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 5:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.sample(s)
    ck.count("states", k)
    ck.count("transitions", o)
    ck.count("evaluations", n)
    ck.part(name, runs=n, messages=k, outputs=o, events=ev, violating=bad)


US = "2:1/1"
LINK = N("2:1/2")
AK = [US, "2:1/1.5", "1:9/1"]


def split(msgs, n, frm=LINK, to=N(US), pw=b""):
    msgs = list(msgs)
    for i, m in enumerate(msgs):
        m.subj = b"T%d" % i if m.subj == b"Subj" else m.subj
    k = (len(msgs) + n - 1) // n
    return [Pkt(frm, to, msgs[i:i + k], pw) for i in range(0, len(msgs), k)]


# 1. every text structure
KINDS = [b"text\r", b"\r", b"---\r", b"--- tear 1.0\r", b" * Origin: x (2:9/9)\r", b"From: a@b\r", b"\1PID: x\r",
         b"\1Via 2:9/9 x\r", b"lf\r\n", b"-----\r", b"SEEN-BY: 1/2\r", b"AREAS: none\r", b"\1Recd y\r", b" \t\r"]
VIA = {b"\1Via 2:9/9 x\r", b"\1Recd y\r"}


def texts(depth):
    for n in range(0, depth + 1):
        for s in itertools.product(KINDS, repeat=n):
            seen = False
            ok = True
            for i, l in enumerate(s):
                # control lines at the end only; text after them is not conserved by design
                if l in VIA and any(x not in KL for x in s[:i]) or l in VIA and all(x in KL for x in s[:i]):
                    seen = True
                elif seen:
                    ok = False
            if not ok:
                continue
            yield b"".join(s)
            if n and s[-1].endswith(b"\r") and s[-1] != b"\r":
                yield b"".join(s)[:-1]


KL = {b"\1PID: x\r"}
# a Via line right after the first kludges is one of them
def structures(depth):
    for t in texts(depth):
        yield Msg(N("2:9/9"), N(US), body=K0 + t)


D = 5 if T else 4
allm = list(structures(D))
for i, m in enumerate(allm):
    m.subj = b"T%d" % i
go("text structures up to %d lines" % D, [("chunk %d" % i, dict(akas=AK), [Pkt(LINK, N(US), allm[i::64])], None) for i in range(64)])

# long lines and texts
ln = [1, 72, 79, 80] + list(range(126, 130)) + list(range(253, 260)) + list(range(510, 515)) + list(range(1021, 1027)) + \
    list(range(4093, 4099)) + list(range(8189, 8195)) + list(range(16381, 16387)) + list(range(32755, 32775)) + [65535, 65536, 70000]
ms = [Msg(N("2:9/9"), N(US), body=K0 + p + b"x" * n + e) for n in ln for p in (b"", b"text\r") for e in (b"\r", b"", b"\r---\r * Origin: y (2:9/9)\r")]
# (an unterminated line of exactly the size of the line buffer may or may not be given a CR)
ms = [m for m in ms if m.body[-1:] == b"\r" or not 32760 < len(m.body) - len(K0) - 5 * (m.body.find(b"text") > 0) < 32770]
ms += [Msg(N("2:9/9"), N(US), body=K0 + b"".join(b"line %d\r" % i for i in range(n))) for n in (100, 1000, 20000)]
ms += [Msg(N("2:9/9"), N(US), body=b"".join(b"\1K%d: %s\r" % (i, b"y" * i) for i in range(n)) + b"x\r") for n in (10, 100, 500)]
for i, m in enumerate(ms):
    m.subj = b"T%d" % i
go("long lines and texts", [("chunk %d" % i, dict(akas=AK), [Pkt(LINK, N(US), ms[i::8])], None) for i in range(8)])

# KillEmpty
kill = []
for t in texts(2):
    for to in ("2:1/1", "2:1/1.5", "1:9/1", "2:1/7"):
        for name in (b"x", b"Ping"):
            kill.append(Msg(N("2:9/9"), N(to), to=name, body=(b"\1INTL %s 2:9/9\r" % A(N(to)._replace(point=0)).encode()) +
                            (b"\1TOPT 5\r" if N(to).point else b"") + t))
for key in ("KillEmpty", "KillBlank"):
    go(key, [("all", dict(akas=AK, conf={key: ""}), split(kill, 2), None)])

# 2. addressing kludges: every combination and order
intl = [None, b"2:1/7 2:9/9", b"1:5/6 2:9/9", b"3:1/1 1:4/4", b"2:1/1.3 2:9/9.4", b"bad 2:9/9", b"2:1/7"]
fm, tp = [None, b"0", b"3", b"x"], [None, b"0", b"7", b"9 "]
ms = []
for i, f, t in itertools.product(intl, fm, tp):
    ks = [k for k in ((b"INTL " + i) if i else None, (b"FMPT " + f) if f else None, (b"TOPT " + t) if t else None, b"PID: x") if k]
    for p in itertools.permutations(ks):
        for sep in (b" ", b": "):
            ms.append(Msg(N("2:8/8"), N("2:1/3"), body=b"".join(b"\1" + k.replace(b" ", sep, 1) + b"\r" for k in p) + b"text\r"))
for i in intl[1:4]:
    for j in intl[1:4]:
        ms.append(Msg(N("2:8/8"), N("2:1/3"), body=b"\1INTL " + i + b"\r\1TOPT 1\r\1INTL " + j + b"\r\1TOPT 2\rtext\r"))
cases = []
for frm, to in (("2:1/2", US), ("2:1/2.3", "2:1/1.5"), ("1:5/5", "1:9/1")):
    cases += [("%s->%s" % (frm, to), dict(akas=AK, passwd={N("2:1/7"): "PW", N("1:5/6"): "secret12", N(frm): "p"}),
               split(ms, 3, N(frm), N(to), b"p"), None)]
go("address kludges", cases)

# 3. header fields: every attribute bit and pair, dates, names
ms = [Msg(N("2:8/8"), N("2:1/3"), attr=(1 << a | 1 << b), cost=c, body=K0 + b"text\r")
      for a in range(16) for b in range(a, 16) for c in (0, 1, 0xffff)]
for n in (0, 1, 34, 35):
    for s in (0, 1, 70, 71):
        ms.append(Msg(N("2:8/8"), N("2:1/3"), to=b"t" * n, frm=b"f" * n, subj=b"s" * s, body=K0 + b"text\r"))
for mo in range(12):
    for d in (1, 28):
        for t in ("00:00:00", "23:59:59", "12:34:56"):
            for y in (90, 99, 0, 1, 24, 30):
                ms.append(Msg(N("2:8/8"), N("2:1/3"), date=("%02d %s %02d  %s" % (d, toss.MON[mo], y, t)).encode(), body=K0 + b"text\r"))
ms += [Msg(N("2:8/8"), N("2:1/3"), date=d, body=K0 + b"t\r") for d in (b"29 Feb 24  00:00:00", b"31 Dec 99  23:59:59", b"01 Jan 00  00:00:00")]
ms += [Msg(N("2:8/8"), N("2:1/3"), to=bytes([c]) + b"x", frm=b"y" + bytes([c]), subj=b"z" + bytes([c]) + b"z",
           body=K0 + b"a" + bytes([c]) + b"b\r") for c in range(3, 256) if c not in (10, 13)]
ms += [Msg(Node(2, a, b, 0), Node(2, c, d, 0), body=K0 + b"t\r") for a, b, c, d in itertools.product((0, 1, 255, 32767), repeat=4)]
seen = set()
go("header fields and bytes", [(" ".join(a), dict(akas=AK, args=a), split(ms, 3), None) for a in ([], ["-s"], ["-g", "m"])])

# 4. routing rules, all ordered pairs
PAT = lambda s: toss.ppart(s)
R = []
for c, a, z, n in [("rewrite", "2:9/9", "2:1/1.6", None), ("rewrite", "2:*/*.*", "1:9/1", None), ("rewrite", "2:1/7", "2:1/1", None),
                   ("rewrite", "*", "2:4/4", None), ("rewrite", "2:9/9.0", "2:9/9.3", None),
                   ("rewritefrom", "2:9/9", "2:2/2", "Jo*"), ("rewriteto", "2:1/7", "2:3/3", "Al"), ("rewritefrom", "*", "1:1/1.1", "*"),
                   ("remapto", "2:1/7", "2:1/7.1", "Al"), ("remapto", "*", "1:3/3", "jo"), ("remapto", "2:1/1.*", "0:0/0.0", "*"),
                   ("remapfrom", "2:9/9", "2:5/5.5", "Al"), ("remapfrom", "2:*/*", "0:0/0.0", "Jo"), ("remapto", "2:1/1", "2:1/1.7", "a*"),
                   ("remapfrom", "2:9/*.*", "3:1/1.0", "J*"), ("remapto", "1:9/1.0", "2:1/3.0", "*"), ("remapto", "2:1/1", "3:0/0.0", "*"), ("remapfrom", "*", "0:0/0.1", "Jo")]:
    R.append((c, PAT(a), PAT(z), n))
ms = []
for f in ("2:9/9", "2:9/9.3", "1:2/2", "2:4/4"):
    for t in ("2:1/7", "2:1/1", "2:1/1.5", "1:9/1", "2:1/7.1"):
        for nf in (b"Al", b"Jo"):
            for nt in (b"Al", b"Jo", b"aX"):
                F, G = N(f), N(t)
                ms.append(Msg(F, G, to=nt, frm=nf, body=("\1INTL %s %s\r" % (A(G._replace(point=0)), A(F._replace(point=0))) +
                          ("\1FMPT %d\r" % F.point if F.point else "") + ("\1TOPT %d\r" % G.point if G.point else "") + "t\r").encode()))
cases = [("%s / %s" % (a, b), dict(akas=AK, rules=[a, b]), split(ms, 1), None) for a in R for b in R]
if T:
    cases += [("%s / %s / %s" % c, dict(akas=AK, rules=c), split(ms, 1), None) for c in itertools.permutations(R, 3)]
go("routing rules", cases)

# 5. spy copies
SP = [(N("2:9/9"), N("2:7/7.0")), (N("2:1/7"), N("1:7/8.2")), (N("1:9/1"), N("2:1/1.5")), (N("2:9/9.3"), N("2:6/6.1"))]
cases = []
for k in range(1, 4):
    for s in itertools.permutations(SP, k):
        if len({x[0][:3] for x in s}) != len(s):
            continue
        for rl in ([], [R[1]], [R[8]], [R[12]]):
            cases.append(("%s %s" % (s, rl), dict(akas=AK, spyes=s, rules=rl), split(ms, 1), None))
go("copies to observers", cases)

# 6. histories: destinations, splitting into packets, open file limits
DEST = [("2:1/3", 0), ("2:1/4", 0), ("2:1/3", 2), ("1:5/5", 0)]
def h(seq, npk):
    mm = []
    for i, d in enumerate(seq):
        to = N(DEST[d][0])
        mm.append(Msg(N("2:8/8"), to, attr=DEST[d][1], subj=b"T%d" % i,
                      body=("\1INTL %s 2:8/8\rtext %d\r" % (A(to), i)).encode()))
    return split(mm, npk)
cases = []
L = 5 if not T else 6
for a in (["-m", "1"], ["-m", "2"], ["-m", "3"], ["-M", "1"], ["-M", "2"], ["-m", "3", "-M", "1"], []):
    for s in itertools.product(range(4), repeat=L):
        if s[0] > 1 and not T or len(set(s)) < 2:
            continue
        for npk in (1, 2) if a else (2, 5):
            cases.append(("%s %s %d" % (a, s, npk), dict(akas=AK, args=a), h(s, npk), None))
go("packet histories", cases)
for c in (dict(MaxMsg="2"), dict(MaxOpenFiles="1")):
    go("packet histories %s" % c, [(str(s), dict(akas=AK, conf=c), h(s, 2), None) for s in itertools.product(range(3), repeat=4)])

# 7. replies to pings
def ping_check(w, m):
    e = []
    got = []
    for f in w.ls("spool/outpkt"):
        if f.endswith(".pkt"):
            p = parse(w.get("spool/outpkt/" + f))
            for x in p.msgs:
                b = Body(x.body, Node(0, x.dnet, x.dnode, 0))
                got.append((x.to, (b.kget("INTL") or b"").split()[0].decode() + (".%s" % b.kget("TOPT").split()[0].decode() if b.kget("TOPT") else ""),
                            b"".join(b.text).count(b"Received ping"), sum(l.startswith(b"@Via") for l in b.text)))
    want = [(b"Jo", f, 1, v) for f, v in PINGS]
    if sorted(got) != sorted(want):
        e.append("replies %r, expected %r" % (got, want))
    return e
PINGS = []
ms2 = []
for f in ("2:9/9", "2:9/9.3", "1:2/2"):
    for t in ("2:1/1", "2:1/7"):
        for nm in (b"PING", b"ping", b"Ping", b"pinga", b"x"):
            for v in (0, 2):
                F = N(f)
                ms2.append(Msg(F, N(t), to=nm, frm=b"Jo", body=("\1MSGID: %s 12345678\r\1INTL %s %s\r" % (f, t, A(F._replace(point=0))) +
                               ("\1FMPT %d\r" % F.point if F.point else "") + "\r" + "\1Via 2:8/8 z\r" * v).encode()))
                if nm.lower() == b"ping":
                    PINGS.append((f, v))
go("ping", [("all", dict(akas=AK, conf=dict(SupportPing="", KillEmpty="")), split(ms2, 2), ping_check)])
ck.finish()
