import itertools
from fg import core, afrun
from fg.ftn import N, A
from fg.areafix import Fix, Area, Pw
ck = core.Check("A02")
ck.rule = ("every combination of requester, password, permissions and command, every sequence of commands up to a length and every history "
           "of messages, handled by the real ftnafpkt and compared with a reference model; non-trivial = distinct request/configuration")
ck.build("plain")
FT = ck.bin("areafix/ftnafpkt")
T = ck.thorough
B, C, D, P, E, F9 = N("2:1/2"), N("2:1/3"), N("2:1/4"), N("2:1/3.5"), N("3:1/5"), N("9:1/5")
U10, U1 = N("2:1/20"), N("12:1/2")


def run(name, cases):
    """cases: (label, kw of Fix, messages, how)"""
    def one(c):
        m = Fix(**c[1])
        return c, afrun.batch(ck, FT, m, c[2], c[3]), len(m.requests), m.changed

    n = bad = req = chg = 0
    for c, errs, q, g in core.pmap(one, cases, 1 if len(cases) < 64 else 8):
        n += 1
        req += q
        chg += bool(g)
        ck.count("states", len(c[2]))
        ck.count("transitions", sum(len(x[2]) for x in c[2]))
        if errs:
            bad += 1
            if bad <= 5:
                ck.violation("%s: %s %r %s: %s" % (name, c[0], c[2], c[3], errs[0]), None, errs)
    ck.count("evaluations", n)
    ck.sample(repr(cases[-1])[:600])
    ck.part(name, runs=n, changed=chg, requests=req, violating=bad)


def areas():
    return [Area("A", [B, C, D], state="S", time=1000, desc="The \"A\" area"), Area("AB", [B], state="U", passthru=True),
            Area("ABC", [B, C], state="S", passthru=True, key="X", lvl=5), Area("K", [B, D], state="S", lvl=10, key="K", ro=True),
            Area("K2", [B], state="SW", lvl=5, key="K"), Area("PA", [B, D], passive=[C], state="S"), Area("PB", [B], passive=[C, D], state="P"),
            Area("NS", [B, D]), Area("DEAD", [], zone=2, state="S"), Area("ORPHAN", [U10], state="U"), Area("Z3", [E], state="S"),
            Area("Z9", [F9], state="S"), Area("FW", [B], state="F"), Area("LAST", [B, D], state="S", u=2)]


UP = [(["NEW1", "NEW2", "NX"], B, "AreaFix", "uppw", "-k K -l 4 -d \"new one\""), (["Q1", "NEW2", "!NO", "N*"], U1, "Robot", "pw2", None)]
LINES = ["+A", "-A", "+AB", "+ABC", "-ABC", "+K", "+K2", "+PA", "-PA", "+NS", "+DEAD", "-DEAD", "+ORPHAN", "+Z3", "+Z9", "+FW", "+LAST", "-LAST",
         "-NOPE", "+NOPE", "+NEW1", "+Q1", "+new2", "+NX", "A", "sub A", "subscribe a", "unsub A", "unsubscribe A", "%+AB", "%-a", "+*", "-*", "+A*", "-A*",
         "+?", "+[A-K]", "+NEW*", "passive", "passive A", "pause PA", "active", "resume P*", "active A", "query", "list", "unlinked", "avail",
         "%list", "&CREATED", "&CREATED -# -k X -l 3 -d \"say \\\"x\\\"\" -a 2:1/1.9 -z 3 -e 4 -n 5 -s S", "new A", "create NEW1 -r -p", "&", "new",
         "~A", "delete A*", "~NOPE", "~", "passwd 2:1/4 dpw", "password 2:1/4 wrong", "from 2:1/3", "passwd", "passwd 2:1/4", "passwd x y", "%bogus", "bogus", "+", "-",
         "--", "---", " * Origin", "", "   +AB  ", "+AB\tx", "subABC A"]
PWS = [("C full", Pw("secret", 10, "KX$&~%", "Joe User")), ("C plain", Pw("Secret", 5, "X")), ("C noargs", Pw("secret")), ("C low", Pw("secret", 1, "K&", "a b")),
       ("C none", None)]
SUBJ = ["secret", "SECRET", "wrong", "", "dpw", "secret -q", "secret -l", "wrong -q -l", "secrets"]
base = {D: Pw("dpw", 10, "KX", "D"), P: Pw("ppw", 5, "", "P"), B: Pw("bpw", 10, "$~&KX"), E: Pw("secret", 10, "KX"), F9: Pw("secret", 10, "KX&")}


def kw(c=None, conf=None, ar=None, up=None, **x):
    pw = dict(base)
    if c:
        pw[C] = c
    pw.update(x)
    return dict(areas=ar or areas(), passwd=pw, uplinks=UP if up is None else up, conf=conf or {})


# 1. who may do what
cases = []
for lab, c in PWS:
    for s in SUBJ:
        for l in LINES:
            cases.append((lab, kw(c), [(C, s, [l])], "packet"))
for n, s in ((B, "bpw"), (D, "dpw"), (P, "ppw"), (P, "secret"), (E, "secret"), (F9, "secret"), (U10, "x"), (N("2:1/1"), "secret")):
    for l in LINES:
        cases.append(("full", kw(PWS[0][1]), [(n, s, [l])], "packet"))
run("permissions: requester x password x keys x command", cases)

# 2. sequences of commands in one message
SEQ = ["+A", "-A", "+AB", "-AB", "+ABC", "-ABC", "+PA", "-PA", "passive", "active", "+NEW1", "~A", "&CR", "passwd 2:1/4 dpw", "passwd 2:1/4", "passwd 2:1/3 secret", "+*", "-*", "query"]
cases = [("seq", kw(PWS[0][1]), [(C, "secret", list(s))], "packet") for s in itertools.product(SEQ, repeat=2)]
S3 = ["+A", "-A", "+AB", "passive", "active", "-AB", "+ABC", "-ABC", "+NEW1", "-*", "~A", "+PA"] if not T else SEQ
cases += [("seq", kw(PWS[0][1]), [(C, "secret", list(s))], "packet") for s in itertools.product(S3, repeat=3)]
S4 = ["+A", "-A", "+AB", "-AB", "passive A*", "active"] + (["+NEW1", "~A*", "&CR", "-PA", "+*", "-*"] if T else [])
cases += [("seq", kw(PWS[0][1]), [(C, "secret", list(s))], "packet") for s in itertools.product(S4, repeat=4)]
run("sequences of commands", cases)

# 3. histories of messages from several nodes
H = [(C, "secret", ["+AB"]), (C, "secret", ["-AB"]), (D, "dpw", ["+AB"]), (D, "dpw", ["-*"]), (C, "secret", ["passive"]), (C, "secret", ["active"]),
     (D, "wrong", ["-A", "~A"]), (C, "secret", ["+NEW1"]), (D, "dpw", ["+NEW1"])]
cases = []
for how in ("packet", "packets", "runs"):
    for k in (2, 3):
        if k == 3 and how == "packets" and not T:
            continue
        hs = H
        cases += [("history", kw(PWS[0][1]), list(s), how) for s in itertools.product(hs, repeat=k)]
if T:
    cases += [("history", kw(PWS[0][1]), list(s), "runs") for s in itertools.product(H, repeat=4)]
run("histories of messages", cases)

# 4. limits of the number of areas
cases = []
LA = [Area("L%d" % i, [B, D] if i % 2 else [B], state="S") for i in range(5)] + [Area("M%d" % i, [U10, D], state="S") for i in range(3)] + \
     [Area("LP", [B, D], passive=[C], state="S")]
for lim in ("0", "1", "2", "3", "0/1", "3/1", "5/2", "2/0", "9/9"):
    pw = Pw("secret", 10, "K", "x", lim)
    for ls in (["+L*"], ["+M*"], ["+*"], ["+L0", "+L1", "-L0", "+L2", "+M0", "+M1"], ["+LP", "+L1", "+L3"], ["+L1", "passive", "+L2", "active", "+L3"],
               ["+LP", "-LP", "+L0", "+M1", "+M2"]):
        cases.append(("limit " + lim, kw(pw, ar=LA), [(C, "secret", ls)], "packet"))
        cases.append(("limit " + lim, kw(pw, ar=LA, **{}), [(D, "dpw", ["+L0", "-L1"]), (C, "secret", ls)], "packet"))
        cases.append(("limit " + lim, kw(pw, ar=LA), [(C, "secret", ["passwd 2:1/4 dpw", "+L*", "passwd 2:1/3 secret"] + ls)], "packet"))
run("limits", cases)

# 5. requests to several uplinks with similar addresses
ups = [N("2:1/2"), N("2:1/20"), N("12:1/2"), N("2:1/2.1")]
ups2 = [(["X%d" % i], u, "Robot%d" % i, "pw%d" % i, None) for i, u in enumerate(ups)]
cases = []
UA = [Area("U%d" % i, [u], state="U", zone=2) for i, u in enumerate(ups)] + [Area("T%d" % i, [u, C], state="S", passthru=True, zone=2) for i, u in enumerate(ups)]
W = ["%s%d" % (c, i) for i in range(4) for c in ("+U", "-T", "+X")]
for k in (2, 3) if not T else (2, 3, 4):
    for s in itertools.permutations(W, k):
        if k == 3 and not T and any(x[1] == "X" for x in s):
            continue
        cases.append(("uplinks", kw(PWS[0][1], ar=UA, up=ups2), [(C, "secret", list(s))], "packet"))
for conf in ({"AreaFixName": "MyFix"}, {}):
    cases.append(("name", kw(PWS[0][1], ar=UA, up=ups2, conf=conf), [(C, "secret", ["+*"])], "packet"))
run("requests to several uplinks", cases)

# 6. configuration: forbidden areas and characters, automatic subscription, list options
cases = []
CF = [{"AreaFixSubscribeOnlyIfPlus": ""}, {"ForbiddenChar": "%,;#"}, {"AreaFixCreateForbiddenAreas": ["CR*", "NEW1"]}, {"IgnorePRLKey": ""},
      {"AutoCreateSubscribeNodes": [N("2:1/8"), N("2:1/7"), N("2:1/3"), N("2:1/8"), N("2:1/8.1"), N("2:1/8.2"), N("2:5/7"), N("3:5/7"), N("3:5/7.9"), N("3:5/6")]}, {"AreafixAvailPrintsAllAreas": ""}, {"FStatusAreaFixList": ""}]
for i in range(3 if not T else 4):
    for sel in itertools.combinations(CF, i):
        cf = {}
        for x in sel:
            cf.update(x)
        for ls in (["A", "bogus"], ["&CR1", "&CR2 -r -p -l 3", "&OTHER", "query"], ["&A;B", "&A%B -k Xy", "passwd 2:1/4 dpw", "+K", "+K2"], ["list", "avail"],
                   ["+NEW1", "+NEW2", "-NEW1"], ["+N*"]):
            cases.append(("conf %s" % sorted(cf), kw(PWS[0][1], conf=cf), [(C, "secret", ls)], "packet"))
            cases.append(("conf %s" % sorted(cf), dict(kw(PWS[0][1], conf=cf), passwd={C: PWS[0][1], D: Pw("dpw")}), [(C, "secret", ls)], "packet"))
run("configuration", cases)

# 7. long replies: no line is lost
cases = []
for n in [1, 2, 140] + list(range(144, 156)) + list(range(294, 306)) + [450, 451, 600]:
    ar = [Area("G%03d" % i, [B, C], state="S", desc="d") for i in range(n)]
    cases.append(("long", kw(PWS[0][1], ar=ar), [(C, "secret", ["query"])], "packet"))
    cases.append(("long", kw(PWS[0][1], ar=ar), [(C, "secret", ["-*"])], "packet"))
run("long replies", cases)
# 8. every state of an area and its links
cases = []
ST = [None] + list("SUWFP")
for st in ST:
    for pt in (False, True):
        for ls, ps in (([B], []), ([B], [C]), ([B, C], []), ([B, D], []), ([B, D], [C]), ([B, C, D], [D]), ([U10, C], []), ([U10], [C]), ([C, B], []), ([], [C]),
                       ([B], [C, D]), ([C], [])):
            for cmd in ("+X", "-X", "passive X", "active X"):
                if T or len(st or "") < 2 or cmd != "active X":
                    cases.append(("state", kw(PWS[0][1], ar=[Area("X", ls, passive=ps, state=st, passthru=pt, zone=2), Area("Y", [B, C])]), [(C, "secret", [cmd])], "packet"))
run("states and links of an area", cases)

# 9. Filefix
cases = []
for l in LINES:
    if not l.startswith(("&", "new", "create")):
        for n in (C, E, F9):
            cases.append(("filefix", dict(kw(PWS[0][1], up=[]), context="ff", name="Filefix Daemon"), [(n, "secret", [l])], "packet"))
for s in itertools.product(["+A", "-A", "+AB", "-ABC", "passive", "active", "~A", "+Z9", "-*"], repeat=2):
    cases.append(("filefix", dict(kw(PWS[0][1], up=[]), context="ff", name="Filefix Daemon"), [(C, "secret", list(s))], "packet"))
run("filefix", cases)
ck.finish()
