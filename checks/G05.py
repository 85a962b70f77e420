import itertools
from fg import core, rfcgate
from fg.rfcgate import R, RG, RA
from fg.gate import Host, Alias
ck = core.Check("G05")
ck.rule = ("every recipient, sender, name, flag and option set of the pools in the listed products, given to the real rfc2ftn as mail; packets, "
           "message fields, kludges and refusals are compared with a reference model; non-trivial = one gated message")
ck.build("plain")
T = ck.thorough
go = lambda name, cases: rfcgate.go(ck, name, cases)
C = ["DefaultCharset cp866:cp866:utf-8", 'Origin "Test origin"']
H = [("From", "Jane Doe <jane@x.org>"), ("To", "Max.Mueller@f3.n2.z2.fidonet.org"), ("Subject", "Hi there"), ("Date", "Mon, 15 Jan 2001 10:11:12 +0300"),
     ("Message-ID", "<abc.1@x.org>")]
TO = "Max.Mueller@f3.n2.z2.fidonet.org"


def hs(**k):
    k = {a.replace("_", "-"): v for a, v in k.items()}
    o = [(n, k.pop(n, v)) for n, v in H]
    return [(n, v) for n, v in o + list(k.items()) if v is not None]


# 1. recipients
HOSTS = [Host("2:1/2", "bbs"), Host("2:1/3", "down", "-d"), Host("2:5/6", "full.name.org."), Host("3:4/5.6", "pt"), Host("2:1/7", "-"), Host("2:9/9", "downf.org.", "-d")]
DOMS = ["f3.n2.z2.fidonet.org", "p4.f3.n2.z2.fidonet.org", "f3.n2.z3.fidonet.org", "F3.N2.Z2.FidoNet.Org", "f3.n2.fidonet.org", "f1.n1.z2.fidonet.org", "f3.n2.z7.fidonet.org",
        "p0.f3.n2.z2.fidonet.org", "bbs.n1.z2.test.org", "bbs", "p5.bbs.n1.z2.test.org", "P5.BBS", "full.name.org", "p3.full.name.org", "down.n1.z2.test.org", "pt.n1.z2.test.org", "p9.pt",
        "f7.n1.z2.test.org", "f3", "f2.n1.z2.fidonet.org", "p1.f2.n1.z2.fidonet.org", "p2", "x.org", "n2.z2.fidonet.org", "f3.n2.z2.other.org", "2:2/3", "2:2/3.4", "f3.n2.z2", "p4.f3.n2.z2", "downf.org",
        "bbs.full.name.org", "f3.n2.z2.p4.fidonet.org", "fidonet.org", "f5.n1.z2.test.org", "f12.n345.z2.fidonet.org", "p77.f12345.n12345.z3.fidonet.org", "", "xf3.n2.z2.fidonet.org", "f3x.n2.z2.fidonet.org"]
USERS = ["Max.Mueller", "postmaster", "jd"]
ALI = [Alias("jd", "2:2/3", "John Doe"), Alias("md", "2:1/1", "Mary Doe"), Alias("md@x.org", "2:1/1.7", "Ext Mary"), Alias("sysop", "2:1/2", "The Sys Op")]
FROMS = ["Jane Doe <jane@x.org>", "jane", "jane@f1.n1.z2.test.org", "jane@sub.n1.z2.test.org"]
cases = []
for o in itertools.product(([], ["HostsRestricted"]), ([], ["Gateway 2:1/99"]), ([], ["HostsDomain .hd.org"])):
    o = sum(o, [])
    for a in ((), ("-i",)):
        for f in FROMS:
            for u in USERS:
                for d in DOMS:
                    to = u + "@" + d if d else u
                    cases.append(("to %s %s %s" % (to, o, a), RG(C + o, hosts=HOSTS, aliases=ALI, args=a, akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9")), [R(hs(From=f, To=to))], "mail", [to]))
if not T:
    cases = [c for i, c in enumerate(cases) if "jd@" not in c[0] or i % 3 == 0]
for u in ("post", "postmasters", "Postmaster", "POSTMASTER", "postmaste", "sysop", "root", "pos_tmaster", "p", "JD", "j", "jdx", "md", "Max_Mueller", "max%x.org", "a.b.c", "All", "x" * 40):
    for d in ("f3.n2.z2.fidonet.org", "bbs", "p4.bbs", "f1.n1.z2.test.org", "full.name.org", "p1.f1.n1.z2.test.org", "x.org"):
        for o in ([], ["Gateway 2:1/99"]):
            to = u + "@" + d
            cases.append(("to %s %s" % (to, o), RG(C + o, hosts=HOSTS, aliases=ALI, akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9")), [R(hs(To=to))], "mail", [to]))
go("recipients", cases)
FORMS = ["u@h", "<u@h>", "Real Name <u@h>", '"Real Name" <u@h>', "u@h (Real Name)", "h!u", "u%h", '"Name, Last" <u@h>', "u@h ()", '"u"@h', "Some One At Home Too <u@h>", '"x" <u@h>']
go("recipient forms", [("to %s" % x, RG(C, hosts=HOSTS, aliases=ALI), [R(hs(To=x))], m, [x]) for x in [f.replace("u", u).replace("h", h) if u != "u" else f.replace("h", h) for f in FORMS for u in ("jd", "u")
    for h in ("f3.n2.z2.fidonet.org", "bbs")] for m in ("mail", "-t")])
# several recipients
POOL = ["a@f3.n2.z2.fidonet.org", "B.C@f4.n5.z3.fidonet.org", "Real Name <d@bbs>", "nobody@x.org", "down@down", '"Last, First" <e@p1.f3.n2.z2.fidonet.org>', "f@p9.bbs (Comment, text)"]
L = [list(x) for n in (1, 2, 3) for x in itertools.product(POOL, repeat=n)]
cases = []
for l in L:
    g = RG(C, hosts=HOSTS, akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9"))
    cases.append(("rcpts %s" % l, g, [R(hs(To=l[0]))], "mail", l))
    cases.append(("To %s" % l, g, [R(hs(To=", ".join(l)))], "-t", ()))
    if len(l) == 3:
        cases.append(("To,Cc,Bcc %s" % l, g, [R(hs(To=l[0], Cc=l[1], Bcc=l[2]))], "-t", ()))
go("several recipients", cases)

# 2. senders
FR = ["Jane Doe <jane@x.org>", "jane@x.org (Jane Doe)", "jane@x.org", "<jane@x.org>", '"Jane Doe" <jane@x.org>', "md", "MD@f1.n1.z2.test.org", "Mary D <md@x.org>", "jane.doe", "Jane_Doe@x.org", "a%b@x.org",
      "x!jane", '"Doe, Jane" <jane@x.org>', "Very Long Name Of Some Person Who Writes Mail <longlonglong@very.long.domain.name.of.some.where.org>", None]
RP = [None, "other@y.org", "Other Name <other@y.org>", "jane@x.org", "JANE@X.ORG (Jay)", "md@x.org", "md"]
OPT = [[], ["DontUseReplyTo"], ["ForceRFCAddrInFrom"], ["NoFSC0035ifAlias"], ["NoFSC0035"], ["NoFromLine"], ["ReplyAddrIfmailTX"], ["RFCAddrMode <>"], ["XFromKludge"], ["Gateway 2:1/99"], ["NoFidoStyleMsgid"]]
OPS = OPT + [a + b for a, b in itertools.combinations(OPT[1:], 2)]
EX = [{}, {"Sender": "Boss <boss@x.org>", "Cc": "c@x.org"}, {"Resent-From": "Re Sent <rs@x.org>"}]
cases = []
for i, (f, r, o) in enumerate(itertools.product(FR, RP, OPS)):
    if f is None and r is None:
        continue
    for x in EX if T else [EX[i % 3]]:
        cases.append(("from %s reply %s %s" % (f, r, o), RG(C + o, hosts=HOSTS, aliases=ALI), [R(hs(From=f, Reply_To=r, **x))], "mail", [[TO], ["jd@x.org"]][("Gateway 2:1/99" in o) * i % 2]))
go("senders", cases)
AL = [Alias("jane", "2:1/1", "Alias One"), Alias("jane@x.org", "2:1/1.5", "Alias Two"), Alias("jane@y.org", "2:1/1.6", "Alias Three"), Alias("JANE@X.ORG", "3:4/1.1", "Alias Four"), Alias("jane", "2:1/2", "Alias Five"),
      Alias("jane@x.org", "2:2/3", "*"), Alias("jane", "2:1/1.9", "Up Only", "rfc2ftn"), Alias("jane", "2:1/1", "Down Only", "ftn2rfc"), Alias("max.mueller", "2:2/3", "Alias Six"), Alias("sysop", "2:2/3", "Alias Seven")]
cases = []
for n in (1, 2, 3) if T else (1, 2):
    for al in itertools.permutations(AL, n):
        al = sorted(al, key=lambda a: a.kind or "")
        for f in ("Jane Doe <jane@x.org>", "jane"):
            for to in (TO, "postmaster@f3.n2.z2.fidonet.org", "jane@bbs", "jane@f1.n1.z2.test.org"):
                cases.append(("aliases %s, %s -> %s" % ([a.line().strip() for a in al], f, to), RG(C, hosts=HOSTS, aliases=al, akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9")), [R(hs(From=f))], "mail", [to]))
go("aliases", cases)

# 3. names: every name of up to 6 characters
AB = "aB._"
NAMES = ["".join(x) for n in range(1, 8 if T else 7) for x in itertools.product(AB, repeat=n)]
NAMES = [n for n in NAMES if not n.startswith(".") and not n.endswith(".")]
CH = [NAMES[i:i + 40] for i in range(0, len(NAMES), 40)]
go("names", [("names %s..." % c[0], RG(C), [R(hs())], "mail", [n + "@f3.n2.z2.fidonet.org" for n in c]) for c in CH])
OTHER = ["a-b.c", "a+b", "x=y", "o'brien", "a%b", "a%b%c", "1.2", "abc.DEF", "McDonald.john", "john.r.smith", "JOHN", "j_r.d", "a" * 34, "a" * 35, "a" * 36, "abcd_" * 8, "abcd." * 8 + "x", "root", "POSTMASTER", "Postmaster", "uucp"]
for o in ['"john r.smith"', '"J.R. Smith"', '"a b"', '"a.b"', '"a_b.c d"']:
    go("quoted names", [("name %s" % o, RG(C), [R(hs())], "mail", [o + "@f3.n2.z2.fidonet.org"]), ("name %s, -t" % o, RG(C), [R(hs(To=o + "@f3.n2.z2.fidonet.org"))], "-t", ())])
go("other names", [("name %s" % n, RG(C), [R(hs(From=n + "@x.org"))], "mail", [n + "@f3.n2.z2.fidonet.org"]) for n in OTHER])

# 4. flags
XF = [None, "C", "H", "P", "F", "R", "D", "A", "N", "M"] + ["".join(x) for x in itertools.combinations("CHPFRDANM", 2)] + ["chp", "CHPFRDANM", "x"]
cases = []
for p in ([], ["XFlagsPolicy n"], ["XFlagsPolicy 0"], ["XFlagsPolicy s"], ["XFlagsPolicy local"], ["XFlagsPolicy 1"], ["XFlagsPolicy a"], ["XFlagsPolicy 2"]):
    p = [x.replace("local", "Secure") for x in p]
    for x in XF:
        for f in ("jane@x.org", "jane", "jane@f1.n1.z2.test.org"):
            for e in ([], [("Received", "from x")], [("Received", "from x"), ("Received", "from y")]):
                for rr in (None, "jane@x.org"):
                    if rr and x not in (None, "CR", "C"):
                        continue
                    for o in ([], ["DontProcessReturnReceiptTo"]) if rr else ([],):
                        cases.append(("flags %s %s %s" % (x, f, p + o), RG(C + p + o), [R(hs(From=f, X_Flags=x, Return_Receipt_To=rr) + e)], "mail", [TO]))
go("flags", cases)

# 5. options and kludges
OPT = [["NoChrsKludge"], ["NoRfcKludge"], ["NoGatewayKludge"], ["UseTZUTCKludge"], ["RFCLevel 1"], ["RFCLevel 2"], ["NoFSC0035"], ["NoFromLine"], ["ReplyAddrIfmailTX"], ["XFromKludge"], ["UseXHeaderForTearline"],
       ["NoFidoStyleMsgid"], ["NoFSC0047", "MaxMsgSize 3"], ["MaxMsgSize 3"], ["LimitMsgSize 20"], ["RFCAddrMode a"]]
OPS = [sum(x, []) for n in ((0, 1, 2, 3) if T else (0, 1, 2)) for x in itertools.combinations(OPT, n)]
MS = [{}, {"Date": None}, {"Subject": None}, {"Message_ID": None}, {"Message_ID": "<1a2b3c4d@f3.n2.z2.fidonet.org>"}, {"Message_ID": "<MSGID_2=3A2=2F3_=31a2b@x.org>"}, {"Message_ID": "<NOMSGID_x@y>"}, {"Message_ID": "<funpack1@y>"},
      {"Message_ID": "no id"}, {"References": "<r1@x.org> <r2@x.org>"}, {"In_Reply_To": "<r1@x.org>"}, {"X_Gateway": "gw.org"}, {"X_FTN_Kludge": "MYKLUDGE: 1"}, {"X_Mailer": "Mailer 1.0"}, {"User_Agent": "Ag 1", "X_FTN_Tearline": "Tear"},
      {"Date": "15 Jan 2001 10:11:12 GMT"}, {"Date": "Mon, 5 Feb 2024 23:59:59 -0930"}, {"Organization": "Some Org"}, {"Subject": "x" * 70}, {"Subject": "y" * 71}, {"Subject": "z" * 90}, {"Received": "from y; long"}]
go("options", [("options %s %s" % (o, m), RG(C + o), [R(hs(**m), body="Text\nxx\nyyyy\n")], "mail", [TO]) for o in OPS for m in MS])

# 6. zones, uplinks, points
AK = [("2:1/1",), ("2:1/1.5",), ("2:1/1", "3:4/1"), ("3:4/1", "2:1/1"), ("2:1/1.5", "1:4/1.2", "3:9/9")]
UPL = {"1": "1:4/9", "2": "2:1/10", "3": "3:4/9"}
TOS = ["a@f3.n2.z%d.fidonet.org" % z for z in (1, 2, 3, 4)] + ["a@p5.f3.n2.z%d.fidonet.org" % z for z in (1, 2, 3)] + ["a@f1.n1.z2.fidonet.org", "a@p5.f1.n1.z2.fidonet.org"]
cases = []
for ak in AK:
    for n in (1, 2):
        for to in itertools.product(TOS, repeat=n):
            for o in ([], ["SinglePKTs"]):
                cases.append(("zones %s %s" % (ak, to), RG(C + o, akas=ak, uplinks=[UPL[a[0]] for a in ak]), [R(hs())], "mail", to))
go("zones", cases)

# 7. access rules
RULES = ["* *", "* 2:2/3", "jane@x.org 2:2/3", "*@x.org 2:2/*", "jane@x.org *", "*@y.org *", "jane@x.org *,!2:2/3", "* !2:2/3", "*@x.org 2:2/4,2:2/3", "jane@* 2:2/3.*"]
TOS = ["a@f3.n2.z2.fidonet.org", "a@p1.f3.n2.z2.fidonet.org", "a@f4.n2.z2.fidonet.org"]
cases = []
for n in (0, 1, 2):
    for r in itertools.product(RULES, repeat=n):
        for pre in (("netmail",), ("rfc2ftn", "netmail"), ("netmail", "* *", "echomail"), ("ftn2rfc", "netmail")):
            for nf in ([], ["PostingNotAllowedNotify *"], ["PostingNotAllowedNotify *,!jane@*"]):
                for f in ("jane@x.org", "md@y.org"):
                    if nf and n == 2:
                        continue
                    cases.append(("rules %s %s %s" % (pre, r, nf), RG(C, acl=nf + list(pre) + list(r)), [R(hs(From=f))], "mail", TOS))
go("access rules", cases)

# 8. mail written directly to the outbound
def direct(c):
    label, g, m, rc, fl = c
    g.last = None
    w = g.world("%s/w%s" % (ck.scratch, core.worker_id() or 0)).reset({"bt/x": b"", "files/a.zip": b"zip"})
    m.h = [(k, w.p("files/a.zip") if v == "@FILE" else v) for k, v in m.h]
    args = list(g.args) + ["--"] + rc
    w.put("stdin", m.raw())
    with open(w.p("stdin"), "rb") as f:
        r = w.run(ck.bin("gate/rfc2ftn"), *args, stdin=f)
    er = []
    if r.returncode:
        return label, ["exit code %d: %s" % (r.returncode, w.log()[-200:])], 0
    want, flo = {}, {}
    wf = g.args[g.args.index("-w") + 1] if "-w" in g.args else None
    for x in rc:
        e = g.mail(m, x)
        crash = e["attr"] & 2 and (wf or "-W" in g.args)
        if crash or wf:
            to = (e["to"] if crash else e["pkt"][1])._replace(point=0)
            f = "Crash" if crash else wf
            b = "bt/out%s/%04x%04x" % ("" if to.zone == g.akas[0].zone else ".%03d" % to.zone if to.zone in (1, 3) else "", to.net, to.node)
            want.setdefault(b + "." + {"N": "o", "H": "h", "C": "c", "D": "d"}[f[0]] + "ut", []).append((e, to))
            if e["attr"] & 16:
                flo[b + "." + {"N": "f", "H": "h", "C": "c", "D": "d"}[f[0]] + "lo"] = w.p("files/a.zip")
                e["subj"] = "a.zip"
        else:
            want.setdefault("pkt", []).append((e, e["pkt"][1]))
    got = {}
    t = w.tree()
    for f in t:
        if f.startswith("bt/out") and f.endswith("ut"):
            got[f] = [f]
        elif f.startswith("spool/outpkt") and f.endswith(".pkt"):
            got.setdefault("pkt", []).append(f)
        elif f.startswith("bt/out") and f.endswith("lo"):
            if t[f].decode() != flo.pop(f, None) + "\n":
                er.append("%s holds %r" % (f, t[f]))
        elif f.startswith("bt/out"):
            er.append("left " + f)
    if flo:
        er.append("no FLO files %s" % list(flo))
    if set(got) != set(want):
        return label, ["files %s, not %s" % (sorted(got), sorted(want))] + er, 0
    for f in got:
        P = [rfcgate.parse(w.get(x)) for x in sorted(got[f])]
        ms = [(p, x) for p in P for x in p.msgs]
        if len(ms) != len(want[f]):
            er.append("%s: %d messages, not %d" % (f, len(ms), len(want[f])))
            continue
        for (p, x), (e, to) in zip(ms, want[f]):
            e["nparts"] = 1
            if p.to != to or p.frm != g.pick(to.zone)[0]:
                er.append("%s from %s to %s" % (f, p.frm, p.to))
            er += [f + ": " + y for y in rfcgate.judge(g, e, [x])]
    return label, er, len(rc)


RC = ["a@f3.n2.z2.fidonet.org", "b@p4.f4.n5.z2.fidonet.org", "c@p7.f3.n2.z2.fidonet.org", "d@f3.n2.z3.fidonet.org"]
cases = []
for a in (("-W",), ("-w", "Hold"), ("-w", "Normal"), ("-w", "Crash"), ("-w", "Direct", "-W")):
    for fl in ("", "c", "h", "cf", "f"):
        for n in (1, 2, 3):
            for rc in itertools.product(RC, repeat=n):
                if fl == "f" and n > 1:
                    continue
                for o in ([], ["SinglePKTs"]):
                    cases.append(("direct %s %s %s %s" % (a, fl, rc, o), RG(C + ["XFlagsPolicy a"] + o, akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9"), args=a),
                                  R(hs(X_Flags=fl or None, Subject="@FILE" if "f" in fl else "Hi")), list(rc), fl))
import os, re
if re.search(os.environ.get("PARTS", ""), "direct"):
    n = bad = 0
    for label, er, k in core.pmap(direct, cases, 8):
        n += k
        if er:
            bad += 1
            if bad <= 8:
                ck.violation("%s: %s" % (label, er[0]), None, er)
    ck.count("states", n)
    ck.count("transitions", n)
    ck.count("evaluations", len(cases))
    ck.part("direct", runs=len(cases), messages=n, violating=bad)
ck.finish()
