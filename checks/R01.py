import itertools
from fg import core, toss, route
from fg.ftn import Node, N, A, Msg, Pkt
ck = core.Check("R01")
ck.rule = ("routing files (every ordered pair of rules over types, flavours and address patterns) applied to packets of "
           "every type, flavour and destination, message texts and packet histories, run through the real ftnroute and "
           "compared with a reference model; non-trivial = distinct rule pair or message")
ck.build("plain")
T = ck.thorough
AK = ["2:1/1", "1:9/1", "2:1/1.5"]
US = N("2:1/1")


def go(name, cases):
    def one(c):
        label, kw, pkts = c
        m = route.Route(AK, **kw)
        w, r = route.run(ck, m, pkts)
        for n, p in pkts:
            m.packet(n, p)
        return label, route.judge(w, m, r), sum(len(p.msgs) for n, p in pkts), len(m.out), m.events, repr(m.out[-1:])[:300]
    n = k = o = bad = 0
    ev = {}
    s = ""
    for label, errs, a, b, e, s in core.pmap(one, cases, 1 if len(cases) < 64 else 8):
        n, k, o = n + 1, k + a, o + b
        for x, y in e.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 4:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.sample(s)
    ck.count("states", k)
    ck.count("transitions", o)
    ck.count("evaluations", n)
    ck.part(name, runs=n, messages=k, outputs=o, events=ev, violating=bad)


def net(f, t, subj, attr=0, text=b"text\r", extra=b""):
    return Msg(f, t, subj=subj, attr=attr, body=("\1INTL %s %s\r" % (A(t._replace(point=0)), A(f._replace(point=0))) +
               ("\1FMPT %d\r" % f.point if f.point else "") + ("\1TOPT %d\r" % t.point if t.point else "")).encode() + extra + text)


def echo(f, t, subj, text=b"text\r"):
    return Msg(f, t, subj=subj, body=b"AREA:T\r\1MSGID: 2:9/9 12345678\r" + text + b"--- x\r * Origin: y (2:9/9)\rSEEN-BY: 9/9\r\1PATH: 9/9\r")


def mk(ty, f, t, subj, attr=0):
    return echo(f, t, subj) if ty == "e" else net(f, t, subj, attr)


DEST = ["2:1/2", "2:1/2.3", "2:5/6", "2:5/6.7", "3:1/2", "1:5/0"]


def packets(types="nex", flavs="nhcdx", dests=DEST, frms=("2:1/1",), attr=0):
    out = []
    i = 0
    for ty, fl, d, f in itertools.product(types, flavs, dests, frms):
        out.append(("%s%s%s%05x.pkt" % ("m" if i % 3 else "a", ty, fl, i), Pkt(N(f), N(d), [mk(ty, N(f), N(d), b"S%d" % i, attr)])))
        i += 1
    return out


# 1. single rules and ordered pairs
PATS = ["2:1/2", "2:1/2.*", "2:1/2.0", "2:5/*", "2:5/*.*", "*", "3:all/all", "2:1/2 5/6", "2:5/6.7 2:1/2"]
RULES = []
for sec in ("", "echomail ", "tick "):
    for fl in ("hold", "crash", "normal"):
        for p in PATS:
            RULES += [sec + "send %s %s" % (fl, p)]
            if fl == "hold":
                RULES += [sec + "sendmove %s %s" % (fl, p)]
            else:
                RULES += [sec + "route %s %s %s" % (fl, d, p) for d in ("2:1/9", "3:7/7.7")]
    for a, b in (("normal", "crash"), ("crash", "hold"), ("hold", "normal"), ("direct", "crash")):
        RULES += [sec + "change %s %s %s" % (a, b, p) for p in PATS[:7]]
MK = []
for fl in ("normal", "hold", "crash", "dut"):
    for p in PATS[:3] + PATS[5:6] + ["2:5/6", "2:5/6.7 3:1/2", "2:1/2 2:5/6", "2:*/*.*", "2:1/2 .3 5/6.7"]:
        MK += ["%s %s %s" % (c, fl, p) for c in ("hostroute", "bossroute")]
    MK += ["xroute %s %s %s %s" % (fl, d, f, t) for d in ("2:1/9", "1:5/5.5") for f in ("2:1/1", "1:9/1") for t in ("2:1/2", "2:5/6", "2:*/*.*")]


def lines(*rules):
    out = []
    for r in rules:
        w = r.split(" ", 1)
        if w[0] in ("echomail", "tick"):
            out += [w[0], w[1]]
        else:
            out += ["netmail", r]
    return out


P1 = packets(frms=("2:1/1", "1:9/1"))
ALL = RULES + MK
go("each rule, every type, flavour, destination", [(r, dict(rules=lines(r)), P1) for r in ALL])
pw = {N("2:1/2"): "Secret", N("2:1/9"): "pw2", N("3:7/7.7"): "x", N("2:5/6"): "12345678"}
P2 = packets("ne", "nhc", ["2:1/2", "2:1/2.3", "2:5/6.7", "3:1/2"])
S = [r for r in RULES if not r.startswith("tick") and (T or "normal 2:1/9" not in r)]
S = S if T else [r for i, r in enumerate(S) if r.split()[-1] in ("2:1/2", "2:1/2.*", "*", "2:5/*.*", "5/6")]
M2 = MK if T else [r for r in MK if "dut" not in r]
pairs = [(a, b) for a in S for b in S if ("echomail" in a) == ("echomail" in b) or T] + \
    [(a, b) for a in M2 for b in M2] + [(a, b) for a in M2[::2] for b in S] + [(a, b) for a in S for b in M2[::3]]
P2 = packets("ne", "nhc", ["2:1/2", "2:1/2.3", "2:5/6.7"], ("2:1/1",))
go("ordered pairs of rules", [("%s / %s" % p, dict(rules=lines(*p), pw=pw), P2) for p in pairs])
C = ["send hold 2:1/2", "change normal crash 2:1/2.*", "route crash 2:1/9 2:5/*.* 1/2.3", "change crash hold *", "route hold 3:7/7.7 *",
     "sendmove crash 2:5/6", "hostroute crash 2:5/6", "bossroute normal 2:1/2.3", "echomail route normal 2:1/9 *", "echomail send direct 2:1/2"]
go("ordered triples of rules", [(" / ".join(p), dict(rules=lines(*p), pw=pw), P2) for p in itertools.permutations(C, 3)])

# 2. messages: texts, attributes, header fields
KINDS = [b"text\r", b"\r", b"---\r", b"--- tear 1.0\r", b" * Origin: x (2:9/9)\r", b"From: a@b\r", b"\1PID: x\r",
         b"\1Via 2:9/9 x\r", b"lf\r\n", b"SEEN-BY: 1/2\r", b"AREAS: none\r", b"\1Recd y\r"]
VIA = {b"\1Via 2:9/9 x\r", b"\1Recd y\r"}


def texts(depth):
    for n in range(depth + 1):
        for s in itertools.product(KINDS, repeat=n):
            v = [i for i, l in enumerate(s) if l in VIA]
            if v and (any(l not in VIA for l in s[v[0]:]) or all(l == KINDS[6] for l in s[:v[0]])):
                continue
            yield b"".join(s)


ms = [net(N("2:9/9.4"), N("2:1/2"), b"T%d" % i, text=t, extra=b"\1MSGID: 2:9/9 12345678\r") for i, t in enumerate(texts(4 if T else 3))]
EK = [b"text\r", b"\r", b"---\r", b" * Origin: y (2:9/9)\r", b"\1PID: x\r", b"From: a\r", b"lf\r\n"]
ET = [b"SEEN-BY: 9/9\r\1PATH: 9/9\r", b"SEEN-BY: 1/2 3 9/9\rSEEN-BY: 10/1\r\1PATH: 9/9 10\r", b"", b"SEEN-BY: 9/9\r"]
es = [Msg(N("2:9/9"), N("2:1/2"), subj=b"E%d" % i, body=b"AREA:T\r\1MSGID: 2:9/9 1\r" + b"".join(s) + t)
      for i, (s, t) in enumerate((s, t) for n in range(5 if T else 4) for s in itertools.product(EK, repeat=n) for t in ET)]


def chunks(l, n, ty="n"):
    return [("mnn%05x.pkt" % i if ty == "n" else "men%05x.pkt" % i, Pkt(US, N("2:1/2"), l[i::n])) for i in range(n)]


cases = []
for r in ([], ["route hold 2:1/9 *"], ["change normal crash *"]):
    cases += [("netmail %s %d" % (r, i), dict(rules=r, pw=pw), chunks(ms[i::16], 2)) for i in range(16)]
    cases += [("echomail %s %d" % (r, i), dict(rules=["echomail"] + r, pw=pw), chunks(es[i::16], 2, "e")) for i in range(16)]
go("message texts", cases)

ms = [net(N("2:9/9"), N("2:1/2"), b"T%d.%d" % (a, b), attr=1 << a | 1 << b) for a in range(16) for b in range(a, 16)]
ms += [Msg(N("2:9/9"), N("2:1/2"), to=b"t" * a, frm=b"f" * a, subj=b"s" * b, cost=c, body=b"\1INTL 2:1/2 2:9/9\rx\r")
       for a in (0, 1, 34, 35) for b in (0, 1, 70, 71) for c in (0, 1, 65535)]
ms += [Msg(N("2:9/9"), N("2:1/2"), to=bytes([c]) + b"x", subj=b"z" + bytes([c]), body=b"\1INTL 2:1/2 2:9/9\ra" + bytes([c]) + b"b\r")
       for c in range(3, 256) if c not in (10, 13)]
INTL = [("2:9/9", 0), ("2:9/9", 4), ("1:5/6", 0), ("3:7/8", 9)]
ms += [net(N(f)._replace(point=fp), N(t)._replace(point=tp), b"K%d" % i)
       for i, ((f, fp), (t, tp)) in enumerate(itertools.product(INTL, INTL))]
# messages without (all) kludges behind ones with others: nothing of a message is left for the next
ms += [x for i, m in enumerate(ms[-len(INTL) ** 2:]) for j, k in enumerate((b"\1PID: y\r", b"\1FMPT 2\r", b"\1TOPT 3\r", b"\1INTL 2:1/2 2:9/9\r"))
       for x in (Msg(m.frm, m.to, subj=b"L%d.%d" % (i, j), body=m.body), Msg(N("2:9/9"), N("2:1/2"), subj=b"M%d.%d" % (i, j), body=k + b"x\r"))]
cases = []
es = [Msg(N("2:9/9"), N("2:1/2"), subj=b"E%d.%d" % (a, b), attr=1 << a | 1 << b, cost=b, body=b"AREA:T\r\1MSGID: 2:9/9 12345678\rx\r--- x\r * Origin: y (2:9/9)\rSEEN-BY: 9/9\r\1PATH: 9/9\r") for a in range(16) for b in range(a, 16)]
for r in ([], ["route hold 2:1/9 *"], ["send crash 2:1/2"], ["sendmove hold *"], ["change normal crash *"]):
    cases.append(("echomail %s" % r, dict(rules=["echomail"] + r, pw=pw), chunks(es, 3, "e")))
for r in ([], ["route hold 2:1/9 *"], ["send crash 2:1/2"], ["sendmove hold *"], ["hostroute direct 2:1/2"]):
    for f, t in (("2:1/1", "2:1/2"), ("2:1/1.5", "2:1/2.3"), ("1:9/1", "1:5/5")):
        cases.append(("%s %s %s" % (r, f, t), dict(rules=r, pw=pw), [("mnn%05x.pkt" % i, Pkt(N(f), N(t), ms[len(ms) * i // 3:len(ms) * (i + 1) // 3])) for i in range(3)]))
go("header fields", cases)

# 3. histories of packets: merging, open file limits
KEY = [("mnn", "2:1/2"), ("mnn", "2:5/6"), ("mnc", "2:1/2"), ("men", "2:1/2"), ("ann", "2:1/2.3")]
L = 5 if T else 4
cases = []
for s in itertools.product(range(5), repeat=L):
    pk = []
    for i, k in enumerate(s):
        n, d = KEY[k]
        pk.append(("%s%05x.pkt" % (n, 0xfffff - i), Pkt(US, N(d), [mk(n[1], US, N(d), b"H%d.%d" % (i, j), route.DIRECT if (i + j) % 3 == 2 and n[1] == "n" else 0)
                                                               for j in range(1 + i % 3)])))
    for kw in (dict(args=["-M", "1"]), dict(conf="MaxOpenFiles 2\n"), dict()):
        for r in ([], ["route normal 2:1/9 *"]) if not kw or T else (["route normal 2:1/9 2:1/2"],):
            cases.append(("%s %s %s" % (s, kw, r), dict(rules=r, pw=pw, **kw), pk))
go("packet histories", cases)
go("grade selection", [(g, dict(args=["-g", g], rules=["send hold *"]), [p for p in P1 if p[0][0] == g]) for g in "am"])
ck.finish()
