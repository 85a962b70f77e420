import itertools, os
from fg import core, world, toss
from fg.ftn import Node, N, A, Msg, Pkt
from fg.toss import Toss, Area
from fg.tossrun import Runner
ck = core.Check("T02")
ck.rule = ("echomail: every combination of area links, passive links, sender, SEEN-BY subset, PATH, area options and "
           "configuration up to the stated sizes, tossed by the real ftntoss and compared with a reference model; "
           "non-trivial = distinct message/area/configuration")
ck.build("plain")
R = Runner(ck)
T = ck.thorough
US = N("2:1/1")
AK = ["2:1/1", "2:9/1", "1:9/1", "2:1/1.5"]
B, C, D, E, P = N("2:1/2"), N("2:1/3"), N("2:2/4"), N("1:5/6"), N("2:1/2.7")
U4 = [B, C, D, P]
subsets = lambda l: [list(s) for k in range(len(l) + 1) for s in itertools.combinations(l, k)]
n = 0


def echo(tag, frm=B, to=US, sb=None, pa=None, body=b"text\r", origin=b" * Origin: o (2:77/8.9)\r", tear=b"--- x\r", kl=b"", **kw):
    global n
    n += 1
    s = b""
    for l in ([] if sb is None else [sb] if isinstance(sb, str) else sb):
        s += b"SEEN-BY: " + l.encode() + b"\r"
    for l in ([] if pa is None else [pa] if isinstance(pa, str) else pa):
        s += b"\1PATH: " + l.encode() + b"\r"
    kw.setdefault("subj", b"T%d" % n)
    return Msg(frm, to, body=b"AREA:" + tag.encode() + b"\r" + kl + body + tear + origin + s, **kw)


def sb(nodes, pt=True):
    return " ".join("%d/%d%s" % (x.net, x.node, ".%d" % x.point if x.point and pt else "") for x in nodes)


# 1. links x passive x passthru x sender x SEEN-BY subset
areas, i = [], 0
for links in subsets(U4):
    for pas in subsets(links):
        for thru in (0, 1):
            for perm in (links, links[::-1]) if len(links) == 2 or T else (links,):
                for us in (0, 1):
                    areas.append(("L%d" % len(areas), perm + ([US] if us else []), "#-" if thru else "test", pas))


def mk(chunk):
    return [Area(t, l, d, passive=p, zone=2 if not l else None) for t, l, d, p in chunk]


cases = []
for c in range(0, len(areas), 40):
    chunk = areas[c:c + 40]
    pk = []
    for f in (B, C, P, US):
        ms = []
        for t, l, d, p in chunk:
            for s in subsets([B, C, D, P, US]):
                ms.append(echo(t, f, sb=sb(s), pa=sb([f])))
        pk.append(Pkt(f, US, ms))
    cases.append(("areas %d.." % c, dict(akas=AK, areas=mk(chunk)), pk))
R.go("links x passive x passthru x sender x SEEN-BY", cases)

# 2. other links: zones, AKAs, area address, uplinks, states; SEEN-BY and PATH variants
SBV = [None, "", "1/2", "1/2 3 2/4", "2/4 1/2", ["1/2", "1/3", "2/4"], "1/2 1/2 2", "1/2.7", "1/2 .7", "77/8.9", "2:1/3 1:2/4", "1/1", "9/1 1/1",
       "x 1/3", ["  1/2\t3"], "65535/65535 0/0", " ".join("%d/%d" % (200 + k // 7, k) for k in range(40)),
       [" ".join("3000/%d" % (k * 10 + j) for j in range(9)) for k in range(30)]]
PAV = [None, "", "1/2", "77/8 1/2", "77/8", "1/3 1/2", "1/1 1/2", "1/2 1/1", "9/1 1/2", "1/2.7", "1/2.7 1/2", "1/2 .7", ["5/5", "6/6 1/2"],
       "1/2 1/2", " ".join("%d/%d" % (100 + k, k) for k in range(30)) + " 1/2"]
base = [B, C, D]
AR = [Area("A", base), Area("Z1", [E, B], zone=1), Area("Z1a", [E, B]), Area("ADDR", base, addr=N("2:9/1")), Area("ADDR1", [E, B, D], addr=N("1:9/1")),
      Area("PT", [P, C, N("2:1/2.8"), N("2:1/1.5")], "test"), Area("X", [C, C, B, D, N("2:2/4.3")]), Area("S", base, state="S"), Area("W", base, state="W"),
      Area("U", base, state="U"), Area("F", base, state="F"), Area("PS", base, state="P"), Area("SP", base, state="SP"), Area("NONE", [], zone=2),
      Area("a", [D]), Area("BIG", [N("2:%d/%d" % (k % 4 + 1, k + 10)) for k in range(60)] + [B]), Area("OPT", base, opts='-l 5 -k K -d "De sc" -e 3 -n 4')]


def fresh():
    return [Area(a.tag, a.links, a.dir, a.opts, a.passive, a.state, a.uplinks, a.zopt, a.addr) for a in AR]


CF = [{}, dict(TossEchoMail4D=""), dict(NoEmptyPath=""), dict(AddOtherAKA=""), dict(CheckPath=""), dict(CheckPath="", KillCircular=""),
      dict(AddToSeenBy=[("A*", "7/7 8.1"), ("*", "1/2 6/6")]), dict(AddToSeenBy=[("a*", "7/7 8.1"), ("x", "9/9")]), dict(DeleteSeenBy=["1/2", "2/4"]), dict(DeletePath=["77/8"]),
      dict(DeleteSeenBy=["1/3"], DeletePath=["1/2", "5/5"]), dict(DeletePath=["1/1", "1/2"], NoEmptyPath=""),
      dict(ZoneGate=["1/3\t1/3 99/9", "2/4 2/4"]), dict(ZoneGate=["2:1/2.7 1/2 5"], TossEchoMail4D=""), dict(CheckPointOriginAddr=""),
      dict(KillInsecure=""), dict(KillUnknown=""), dict(KillRouted=""), dict(TossEchoMail4D="", AddOtherAKA="", CheckPath="", NoEmptyPath=""),
      dict(AddToSeenBy=[("?", "1:7/7")], DeleteSeenBy=["7/7", "1/1"]), dict(MaxOpenFiles="2"), dict(MaxMsg="3")]
AV = [[], ["-n"], ["-t"], ["-p"], ["-n", "-t", "-p"], ["-g", "x"]]


def variants(tags, f):
    for t in tags:
        for s in SBV:
            yield echo(t, f, sb=s, pa=sb([f]))
        for p in PAV:
            yield echo(t, f, sb="1/2", pa=p)
            yield echo(t, f, sb="1/1 9/1 2", pa=p)
            yield echo(t, f, sb=sb([f]), pa=p)
        if T:
            for s in SBV:
                for p in PAV:
                    yield echo(t, f, sb=s, pa=p)


SEND = [B, C, P, E, US, N("2:3/3"), N("2:1/1.5"), N("1:9/1"), N("1:5/6.2")]
cases = []
for cf in CF:
    for av in (AV if not cf else AV[:1] if not T else AV):
        pk = []
        for f in SEND:
            pk.append(Pkt(f, US, list(variants([a.tag for a in AR], f))))
        cases.append(("%s %s" % (cf, av), dict(akas=AK, areas=fresh(), conf=cf, args=av), pk))
R.go("area options, SEEN-BY and PATH lines, configuration", cases)

# 3. area state machine: all histories
cases = []
for st in ("S", "W", "U", "F", "P", "", "SP", "FS", "WP"):
    for up in (1, 2):
        for pas in ([], [C]):
            for seq in itertools.product((B, C, N("2:3/3")), repeat=3):
                a = Area("A", [B, C, D], state=st, uplinks=1, passive=pas)
                cases.append(("state %s %s" % (st, seq), dict(akas=AK, areas=[a]), [Pkt(f, US, [echo("A", f, sb=sb([f]), pa=sb([f]))]) for f in seq]))
R.go("area state histories", cases, areas=True)

# 4. text structure of area messages
KINDS = [b"text\r", b"\r", b"---\r", b"--- t\r", b" * Origin: q (2:5/5)\r", b"To: a\r", b"SEEN-BYE\r"[:0] + b"lf\r\n", b"\1x\r", b"AREA:B\r", b"\1Via x\r"]
ms = []
for k in range(0, 5 if T else 4):
    for s in itertools.product(KINDS, repeat=k):
        for tail in ((b"--- x\r", b" * Origin: o (2:77/8)\r"), (b"", b" * Origin: o (2:77/8)\r")):
            ms.append(echo("A", B, sb="1/2", pa="1/2", body=b"".join(s), tear=tail[0], origin=tail[1], kl=b"\1PID: y\r"))
cases = [("chunk %d" % i, dict(akas=AK, areas=[Area("A", [B, C]), Area("B", [B, D])]), [Pkt(B, US, ms[i::16])]) for i in range(16)]
R.go("text structures", cases)

# 5. our addresses, recipients
cases = []
for aks in (["2:1/1"], ["2:1/1.5", "2:1/1"], ["1:9/1", "2:1/1"], ["2:1/2", "2:1/1"], AK):
    for to in ("2:1/1", "2:9/1", "1:9/1", "2:1/1.5", "2:1/7", "3:1/1"):
        for pw in ({}, {B: "SECRET"}, {C: "x", D: "Y2"}):
            cases.append(("%s to %s %s" % (aks, to, pw), dict(akas=aks, areas=fresh(), passwd=pw),
                          [Pkt(f, N(to), list(itertools.islice(variants(["A", "Z1a", "PT", "ADDR"], f), 0, None, 5)), b"secret") for f in (B, P, E)]))
R.go("own addresses and recipients", cases)
ck.finish()
