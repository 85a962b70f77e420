import itertools
from fg import core, rfcgate
from fg.rfcgate import R, RG, RA
from fg.gate import Host, Alias
ck = core.Check("G06")
ck.rule = ("every article, areas table, AKA set, option set and batch of the listed pools and lengths, given to the real rfc2ftn as news; packets, "
           "message fields, areas, kludges and SEEN-BY/PATH are compared with a reference model which sees one article at a time; non-trivial = one gated message")
ck.build("plain")
T = ck.thorough
go = lambda name, cases: rfcgate.go(ck, name, cases)
C = ["DefaultCharset cp866:cp866:utf-8", 'Origin "Test origin"']
H = [("From", "Jane Doe <jane@x.org>"), ("Newsgroups", "a.b"), ("Subject", "Hi there"), ("Date", "Mon, 15 Jan 2001 10:11:12 +0300"), ("Message-ID", "<abc.1@x.org>")]


def hs(**k):
    k = {a.replace("_", "-"): v for a, v in k.items()}
    o = [(n, k.pop(n, v)) for n, v in H]
    return [(n, v) for n, v in o + list(k.items()) if v is not None]


# 1. areas table and groups
E = [RA("A.B", "a.b"), RA("A.B.X", "a.b", "-x"), RA("H.", "h.", "-H"), RA("H.NO", "h.no", "-!"), RA("HL.", "h.l.", "-H -l"), RA("A.C", "a.c", "-l"), RA("A.D", "a.d", "-!"),
     RA("BIG", "Big.Group"), RA("HH.", "h.", "-H -x"), RA("A.L", "a.l", "-L 3"), RA("ZZ", "a.z", "-z 3"), RA("H.P.", "h.p.", "-H -!")]
GR = ["h.p.z", "h.pz", "a.b", "A.B", "a.b.c", "a.c", "a.d", "h.x", "h.no", "h.l.y", "big.group", "a.l", "none.x", "a.z", "h.", "H.q", "h.so.me_x"]
cases = []
for n in (1, 2):
    for e in itertools.permutations(E, n):
        for g in GR:
            cases.append(("areas %s group %s" % ([x.line() for x in e], g), RG(C, areas=e), [R(hs(Newsgroups=g))], "news", ()))
cases = [c for i, c in enumerate(cases)]
go("areas", cases)
cases = []
X = ["a.b", "a.c", "h.x", "a.l", "none.x", "h.l.y", "a.z"]
for n in (2, 3):
    for gs in itertools.product(X, repeat=n):
        if len(set(gs)) < n:
            continue
        for f in ("jane@x.org", "jane", "jane@f1.n1.z2.test.org", "joe@lo.org"):
            for o in ([], ["AddressIsLocalForXPost *@lo.org"], ["AddressIsLocalForXPost *@*.org,!*@x.org"]):
                if n == 3 and (o and not T):
                    continue
                cases.append(("crosspost %s from %s %s" % (gs, f, o), RG(C + o, areas=[E[2], E[5], E[4], E[9], E[10], E[0]], akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9")),
                              [R(hs(Newsgroups=",".join(gs), From=f), body="long text line\n")], "news", ()))
        cases.append(("crosspost, %s" % (gs,), RG(C, areas=[E[1], E[8], E[10]], akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9")), [R(hs(Newsgroups=", ".join(gs)))], "news", ()))
go("crossposts", cases)
cases = []
for m in ([], ["AreasXlate _ #"], ["AreasXlate a b", "AreasXlate . -"], ["AreasXlate x y"]):
    for g in GR + ["h.a_b.x", "h.xaax"]:
        cases.append(("xlate %s %s" % (m, g), RG(C + m, areas=[E[2]]), [R(hs(Newsgroups=g))], "news", ()))
go("names", cases)

# 2. addresses
AK = [("2:1/1",), ("2:1/1.5",), ("2:1/1", "3:4/1"), ("3:4/1", "2:1/1"), ("2:1/1", "2:1/9"), ("2:1/1", "2:7/7.7", "3:4/1.2"), ("1:1/1", "2:1/1", "2:1/9")]
UPL = {"1": "1:4/9", "2": "2:1/10", "3": "3:4/9"}
BB = [None, [], ["- A.B 2:1/10 2:5/5"], ["- A.B -z 3 3:4/9"], ["- A.B -a 2:1/9 2:1/10"], ["- A.B -a 2:1/1 2:1/10 11"], ["- A.B -a 2:7/7.7 2:1/10"], ["#- A.B 3:4/9 2:1/10"], ["#- A.C -a 2:1/9 2:1/10", "- A.B 2:1/1"],
      ["- A.B"], ["- A.B -a 2:1/9", "- A.B 3:4/9"]]
AO = ["", "-z 3", "-z 2", "-a 2:1/9", "-a 3:4/1.2", "-a 2:1/1.5", "-a 2:7/7.7 -z 3"]
M1 = R(hs())
M2 = R(hs(Newsgroups="a.c", Message_ID="<2@x.org>", Subject="Two"))
M3 = R(hs(Newsgroups="a.b,a.c", Message_ID="<3@x.org>", Subject="Three", From="md"))
cases = []
for ak in AK:
    for bb in BB:
        for ao in AO:
            for o in ([], ["CheckAreasBBS"], ["EchoMail4D"], ["EchogateAlias"], ["SinglePKTs"]):
                if o == ["CheckAreasBBS"] and bb is None:
                    continue
                for ms in ([M1], [M1, M1], [M2, M1], [M1, M2, M1], [M3, M1]):
                    if len(ms) > 2 and o and not T:
                        continue
                    for al in ([], [Alias("md", "2:1/1", "Mary Doe"), Alias("jane@x.org", "2:1/9", "Jane Alias")]):
                        if al and o not in ([], ["EchogateAlias"]):
                            continue
                        cases.append(("akas %s bbs %s areas %s %s n=%d %s" % (ak, bb, ao, o, len(ms), bool(al)),
                                      RG(C + o, areas=[RA("A.B", "a.b", ao), RA("A.C", "a.c")], akas=ak, uplinks=[UPL[a[0]] for a in ak], areasbbs=bb, aliases=al), ms, "-b", ()))
go("addresses", cases)

# senders one after the other
SN = ["Jane <jane@x.org>", "md", "Bob <bob@y.org>", "Fred@f7.n8.z2.fidonet.org", "host@bbs"]
cases = []
for o in ([], ["EchogateAlias"], ["NoFSC0035ifAlias"], ["ReplyAddrIfmailTX"], ["ForceRFCAddrInFrom"], ["NoFidoStyleMsgid"]):
    for n in (2, 3):
        for s in itertools.product(SN, repeat=n):
            for mid in (True, False):
                if n == 3 and not (T or (mid and not o)):
                    continue
                for bb in ([], ["- A.B -a 2:1/9 2:1/10"]):
                    cases.append(("senders %s %s %s %s" % (s, o, mid, bb), RG(C + o, areas=[RA("A.B", "a.b"), RA("A.C", "a.c", "-z 3")], akas=("2:1/1", "3:4/1"), uplinks=("2:1/10", "3:4/9"), areasbbs=bb,
                                  hosts=[Host("2:1/2", "bbs"), Host("2:1/10", "up", "-p")], aliases=[Alias("md", "2:1/1", "Mary Doe"), Alias("jane@x.org", "2:1/9", "Jane Alias")]),
                                  [R(hs(From=f, Newsgroups=("a.b", "a.c", "a.b")[i], Message_ID="<%d@x>" % i if mid else None)) for i, f in enumerate(s)], "-b", ()))
go("senders", cases)

# 3. sizes and options of an area
cases = []
for s in (0, 1, 5, 17, 18, 19, 20, 21, 40):
    for ao in ("", "-L 20", "-M 6", "-M 6 -L 20", "-M 19"):
        for o in ([], ["LimitMsgSize 20"], ["MaxMsgSize 6"], ["MaxMsgSize 6", "NoFSC0047"]):
            for n in (5, 8):
                body = "".join("abcdefg"[:n - 1] + "\n" for _ in range(s // n)) + ("x" * (s % n - 1) + "\n" if s % n else "")
                for mode in ("news", "-b", "-f"):
                    cases.append(("size %d/%d %s %s %s" % (s, n, ao, o, mode), RG(C + o, areas=[RA("A.B", "a.b", ao)]), [R(hs(), body=body), R(hs(Message_ID="<2@x>"), body=body)][:1 if mode == "news" else 2], mode, ()))
go("sizes", cases)
OPT = [["NoChrsKludge"], ["NoRfcKludge"], ["NoGatewayKludge"], ["UseTZUTCKludge"], ["RFCLevel 1"], ["RFCLevel 2"], ["NoFSC0035"], ["NoFromLine"], ["ReplyAddrIfmailTX"], ["XFromKludge"], ["UseXHeaderForTearline"],
       ["UseOrganizationForOrigin"], ["NoFidoStyleMsgid"], ["RFCAddrMode a"], ["EchogateAlias"]]
OPS = [sum(x, []) for n in ((0, 1, 2, 3) if T else (0, 1, 2)) for x in itertools.combinations(OPT, n)]
MS = [{}, {"Date": None}, {"Subject": None}, {"Message_ID": None}, {"Message_ID": "<1a2b3c4d@f3.n2.z2.fidonet.org>"}, {"Message_ID": "<MSGID_2=3A2=2F3_=31a2b@x.org>"}, {"References": "<r1@x.org> <r2@x.org>"}, {"X_Gateway": "gw.org"},
      {"X_FTN_Kludge": "MYKLUDGE: 1"}, {"X_Mailer": "Mailer 1.0"}, {"Organization": "Some Org"}, {"Organization": "Some Org " * 9}, {"X_Comment_To": "Max Muster <m@y.org>"}, {"X_Comment_To": "max"}, {"X_Comment_To": "m@y.org (Max M)"},
      {"Control": "cancel <x>"}, {"Newsgroups": None}, {"X_Flags": "n"}, {"X_Flags": "m"}, {"Reply_To": "Other <o@z.org>"}, {"Sender": "s@z.org"}]
cases = [("options %s %s" % (o, m), RG(C + o, areas=[RA("A.B", "a.b", ao)]), [R(hs(**m))], "news", ()) for o in OPS for m in MS for ao in ("", '-o "Area origin"', "-R 1", "-R 2")
         if not ao or len(o) < 2]
go("options", cases)
RX = ["^Hello,? ([A-Z][a-z]+ [A-Z][a-z]+)", "^([A-Z][a-z]+)[,!]", "^.*On .*, (.*) wrote:"]
BO = ["Hello Max Muster\nfoo\n", "Max!\n", "On Mon, Jan 1, Fred Foo wrote:\n> x\n", "\n\nMax, hi\n", "Hello, Max\nMuster, how\n", "On a day, Some\nOne wrote:\n> text\n", "nothing\n", "On x, y\n> wrote:\n", "", "\n"]
cases = [("to %s %r %s" % (rx, b, c), RG(C + ["Regex1stLine " + x for x in rx], areas=[RA("A.B", "a.b")]), [R(hs(X_Comment_To=c), body=b)], "news", ()) for n in (0, 1, 2, 3) for rx in itertools.permutations(RX, n) for b in BO
         for c in (None, "Given Name <g@n>")]
go("addressee", cases)

# 4. access rules
RULES = ["* *", "* a.b", "jane@x.org a.b", "*@x.org a.*", "*@y.org *", "jane@x.org *,!a.b", "* !a.b", "*@x.org a.c,a.b", "*@x.org none"]
cases = []
for n in (0, 1, 2):
    for r in itertools.product(RULES, repeat=n):
        for pre in (("echomail",), ("rfc2ftn", "echomail"), ("echomail", "* *", "netmail"), ("ftn2rfc", "echomail")):
            for nf in ([], ["PostingNotAllowedNotify *,!jane@*"], ["PostingNotAllowedNotify *"]):
                for f in ("jane@x.org", "md@y.org"):
                    if nf and n == 2:
                        continue
                    cases.append(("rules %s %s %s" % (pre, r, nf), RG(C, acl=nf + list(pre) + list(r), areas=[RA("A.B", "a.b"), RA("A.C", "a.c"), RA("H.", "a.h.", "-H")]),
                                  [R(hs(From=f, Newsgroups="a.b,a.c,a.h.x")), R(hs(From="other@z.org", Newsgroups="a.b"))], "-b", ()))
go("access rules", cases)

# 5. batches
K = [R(hs(Message_ID="<k1@x>")), R(hs(Message_ID="<k2@x>", Newsgroups="a.c", Subject="Two", From="md@y.org", X_Comment_To="Some One")), R(hs(Message_ID="<k3@x>", Newsgroups="a.b,a.z,h.q", Subject="Three"), body="l1\nl2\nl3\n"),
     R(hs(Message_ID="<k4@x>", Newsgroups="none", Subject="Four")), R(hs(Message_ID="<k5@x>", Control="x", Subject="Five")), R(hs(Message_ID="<k6@x>", Newsgroups="a.z", Subject="Six", X_Mailer="M", Organization="Org"), body=""),
     R(hs(Message_ID="<k7@x>", Newsgroups="a.l", Subject="Seven"), body="123\n" * 9), R(hs(Message_ID=None, Subject="Eight", Date=None), body="No end"), R(hs(Message_ID="<k9@x>", Newsgroups="a.u", Subject="Nine \u044f"), body="\u0431\u0431\n", cs="koi8-r", cte="base64"),
     R(hs(Message_ID="<k10@x>", Newsgroups="a.big", Subject="Ten"), body="line of text\n" * 6), R(hs(Message_ID="<k11@x>", Newsgroups="a.b", From="bad@bad.org", Subject="Eleven"))]
AR = [RA("A.C", "a.c", "-a 2:1/9"), RA("A.Z", "a.z", "-z 3"), RA("H.", "h.", "-H -a 2:1/1.4"), RA("A.L", "a.l", "-L 30"), RA("A.U", "a.u", "-C koi8-r:koi8-r:utf-8"), RA("A.BIG", "a.big", "-M 30")]
cases = []
for n in (1, 2, 3):
    for s in itertools.product(K, repeat=n):
        for mode in ("-b", "-f"):
            for o, a, x in (([], (), ""), ([], (), "-x"), ([], (), "-l"), (["SinglePKTs"], (), ""), ([], ("-m", "1"), ""), ([], ("-m", "2"), "")):
                if n == 3 and not T and (o or a or x or mode == "-f"):
                    continue
                cases.append(("batch %s %s %s %s %s" % ([x.get("Subject") for x in s], mode, o, a, x), RG(C + o, areas=[RA("A.B", "a.b", x)] + AR, akas=("2:1/1", "3:4/1", "2:1/9"), uplinks=("2:1/10", "3:4/9", "2:1/10"), args=a,
                              acl=("echomail", "* *", "bad@* none")), list(s), mode, ()))
go("batches", cases)
ck.finish()
