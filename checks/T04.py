import itertools, os
from fg import core, world, toss, tossrun
from fg.ftn import Node, N, A, Msg, Pkt, parse
from fg.toss import Toss, Area
from fg.tossrun import Runner
ck = core.Check("T04")
ck.rule = ("every combination of packet sender, recipient, packet password, area, origin address, kill options, command line "
           "options and passwd file, tossed by the real ftntoss and compared with a reference model; rejected mail tossed "
           "again; non-trivial = distinct message/configuration")
ck.build("plain")
R = Runner(ck)
FT = ck.bin("toss/ftntoss")
T = ck.thorough
US, AKA = N("2:1/1"), N("1:9/1")
B, C, P, X, XP = N("2:1/2"), N("2:1/3"), N("2:1/2.7"), N("2:7/7"), N("2:7/7.9")
AK = ["2:1/1", "1:9/1"]
n = 0


def msg(tag, f, t, org, mid, **kw):
    global n
    n += 1
    b = b"AREA:" + tag + b"\r" + (b"\1MSGID: " + mid + b" 12345678\r" if mid else b"") + b"text\r--- x\r" + \
        (b" * Origin: o " + org + b"\r" if org is not None else b"") + b"SEEN-BY: %d/%d\r\1PATH: %d/%d\r" % (f.net, f.node, f.net, f.node)
    return Msg(f, t, subj=b"T%d" % n, body=b, **kw)


ORG = [(b"(2:77/8)", None), (b"(2:1/2)", None), (b"(2:1/2.7)", None), (b"(2:7/7.9)", b"2:7/7.9"), (None, b"2:1/2.7"), (None, b"2:7/7.9@fido"), (None, None),
       (b"no address", None), (b"(nothing here)", None), (b"", b"x@y.z"), (b"(FidoNet 2:1/2.7@fidonet)", None), (b"(2:1/2.7", None), (b"(a) (2:7/7.9)", None),
       (b"(2:1/2.7) tail", None), (b"(1/2.7)", None), (b"(1:1/2.7)", None)]
TAGS = [b"A", b"a", b"B", b"NOPE", b"A ", b"OURS", b"ONE"]
SND = [B, C, P, X, XP, US, AKA, N("1:1/2"), N("1:1/2.7")]       # the last two as B and P but for the zone
RCP = [US, AKA, N("2:1/9"), N("2:1/1.1"), N("3:1/1")]
PWD = [b"", b"SECRET", b"secret", b"SECRETS", b"S", b"LONGPASS"]


def areas():
    return [Area("A", [B, C, P]), Area("B", [C, N("2:2/4")]), Area("OURS", [B, US], "our.news"), Area("ONE", [AKA, N("1:5/6")])]


def pkts(sel=slice(None)):
    out = []
    for f in SND:
        for t in RCP:
            for pw in PWD:
                out.append(Pkt(f, t, [msg(tag, f, t, o, m) for tag in TAGS for o, m in ORG][sel], pw))
    return out


KILL = ["KillInsecure", "KillUnknown", "KillRouted", "KillCircular"]
PW = [{}, {B: "SECRET"}, {B: "secret", X: "SECRET", P: "S", C: "LONGPASS", US: "zz"}]
cases = []
confs = [{}, dict(CheckPointOriginAddr="")] + [{k: ""} for k in KILL] + [{k: "" for k in KILL}, dict(CheckPointOriginAddr="", KillInsecure="")]
if T:
    confs = [{k: "" for k in s} for j in range(6) for s in itertools.combinations(KILL + ["CheckPointOriginAddr"], j)]
for cf in confs:
    for av in ([], ["-n"], ["-t"], ["-n", "-t"]):
        for pw in PW:
            if not T and cf and av and pw:
                continue
            cases.append(("%s %s %s" % (cf, av, {A(k): v for k, v in pw.items()}), dict(akas=AK, areas=areas(), conf=cf, args=av, passwd=pw), pkts()))
R.go("who may send what", cases)


# the passwd file: contexts, several entries, upper/lower case, includes
def other(w, m):
    return []


def pwrun(case):
    label, text, pw = case
    m = Toss(akas=AK, areas=areas(), passwd=pw)
    ps = [Pkt(f, US, [msg(b"A", f, US, b"(2:77/8)", None)], p) for f in (B, C, P) for p in PWD]
    w = tossrun.setup(ck, m, ps)
    w.put("etc/passwd", text.replace(b"@/", w.root.encode() + b"/"))
    w.put("etc/more", b"packet 2:1/3 S\n")
    r = w.run(FT)
    for p in ps:
        m.packet(p)
    return label, tossrun.judge(w, m, r), len(ps)


LINES = [(b"packet 2:1/2 SECRET\n", B, "SECRET"), (b"packet 2:1/2 S\n", B, "S"), (b"areafix 2:1/2 S\n", None, ""), (b"packet 2:1/2.7 S areas\n", P, "S"),
         (b"# packet 2:1/3 S\n", None, ""), (b"include @/etc/more\n", C, "S"), (b"packet 2:1/3\n", None, ""), (b"Packet 2:1/3 S\n", None, ""),
         (b"uplink 2:1/2.7 SECRET\n", None, ""), (b"\n", None, "")]
cases = []
for k in range(1, 4 if T else 3):
    for s in itertools.permutations(LINES, k):
        pw = {}
        for _, a, b in s:
            if a is not None:
                pw.setdefault(a, b)
        cases.append((repr([x[0] for x in s]), b"".join(x[0] for x in s), pw))
bad = 0
for label, errs, k in core.pmap(pwrun, cases, 8):
    ck.count("states", k)
    ck.count("transitions", k)
    ck.count("evaluations")
    if errs:
        bad += 1
        if bad < 5:
            ck.violation("passwd file: %s: %s" % (label, errs[0]), None, errs[:10])
ck.part("passwd file", files=len(cases), violating=bad)


# rejected mail is complete: tossing it again under a configuration that accepts it gives what would have been sent at first
def again(case):
    label, kw, kw2, ps = case
    m = Toss(**kw)
    w = tossrun.setup(ck, m, ps)
    r = w.run(FT, *m.args)
    for p in ps:
        m.packet(p)
    errs = tossrun.judge(w, m, r)
    bad = [w.get("spool/toss/bad/" + f) for f in sorted(w.ls("spool/toss/bad"))]
    rej = {x[1][7] for x in m.out if x[0][0]}
    m2 = Toss(**kw2)
    w = tossrun.setup(ck, m2, [])
    for i, d in enumerate(bad):
        w.put("bt/pin/%02d.pkt" % i, d)
    r = w.run(FT, *m2.args)
    obs = toss.observed(w, errs)
    for p in ps:
        m2.packet(Pkt(p.frm, p.to, [x for x in p.msgs if x.subj in rej], p.passwd))
    srt = lambda l: sorted(repr(x) for x in l)
    want, got = {}, {}
    for k, v in m2.out:
        want.setdefault(k, []).append(v)
    for k in sorted(set(want) | set(obs), key=repr):
        if srt(want.get(k, [])) != srt(obs.get(k, [])):
            errs.append("tossed again: %r: %d messages, expected %d" % (k, len(obs.get(k, [])), len(want.get(k, []))))
    return label, errs, len(rej)


cases = []
allp = [B, C, P, X, XP, US, AKA, N("2:2/4"), N("1:5/6")]
for pw in PW:
    for lo in range(0, len(TAGS) * len(ORG), 15):
        ps = [p for p in pkts(slice(lo, lo + 15)) if p.passwd in (b"", b"SECRET")]
        a2 = [Area(a.tag, allp, a.dir) for a in areas()] + [Area("NOPE", allp), ]
        cases.append(("%s %d" % (len(pw), lo), dict(akas=AK, areas=areas(), passwd=pw), dict(akas=AK, areas=a2, args=["-n"]), ps))
bad = rej = 0
for label, errs, k in core.pmap(again, cases, 1):
    rej += k
    ck.count("states", k)
    ck.count("evaluations")
    if errs:
        bad += 1
        if bad < 5:
            ck.violation("rejected mail tossed again: %s: %s" % (label, errs[0]), None, errs[:10])
ck.part("rejected mail tossed again", runs=len(cases), rejected=rej, violating=bad)
ck.finish()
