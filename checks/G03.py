import itertools
from fg import core, gate
from fg.gate import Gate, Host, Alias, Area
from fg.ftn import N, A, Msg, Pkt
ck = core.Check("G03")
ck.rule = ("every ordered choice of areas table entries, every pair of options and every ordered pair (triple) of messages within the pools "
           "gated by the real ftn2rfc; articles, batches and dropped messages are compared with a reference model; non-trivial = one message "
           "under one configuration")
ck.build("plain")
T = ck.thorough
go = lambda name, cases: gate.go(ck, name, cases)
US, UP = "2:1/1", "2:1/2"
AK = ["2:1/1", "2:1/9", "3:4/5"]
HOSTS = [Host(UP, "bbs")]
TAIL = b"--- Ed 1\r * Origin: Here (2:1/2)\rSEEN-BY: 1/1 2\r\1PATH: 1/2\r"


def em(area, text=b"Text\r", k=b"", tail=TAIL, fn=b"John Smith", tn=b"All", subj=b"Hello", id=b"\1MSGID: 2:1/2 1\r", to=US, **kw):
    return Msg(N(UP), N(to), tn, fn, subj, b"AREA:" + area + b"\r" + id + k + text + tail, **kw)


def nm(text=b"Text\r", k=b"", fn=b"John Smith", tn=b"Jane Doe", subj=b"Hello", **kw):
    return Msg(N(UP), N(US), tn, fn, subj, b"\1INTL 2:1/1 2:1/2\r\1MSGID: 2:1/2 1\r" + k + text, **kw)


# 1. the areas table
POOL = [Area("ECHO", "g.exact", "-a 2:1/1"), Area("echo", "g.lower", "-a 2:1/9"), Area("ECHO", "g.zone3", "-a 3:4/5 -z 3"), Area("ECHO", "g.none"),
        Area("ECHO", "g.no", "-a 2:1/1 -!"), Area("ECH", "g.ech", "-a 2:1/1 -H"), Area("ECHO.", "g.dot.", "-a 2:1/1 -H -z 3"), Area("", "all.", "-a 2:1/1 -H"),
        Area("", "all5.", "-a 2:1/9 -H"), Area("ECHO.SUB", "g.sub", "-a 2:1/1 -H -!"), Area("ECHO.SUB", "g.sub", "-a 2:1/1 -d local"), Area("A&B", "a.and.b", "-a 2:1/1"),
        Area("A", "a.", '-a 2:1/1 -H -X "X-One: 1" -X "X-Two: two words" -8'), Area("\x8f", "cyr.", "-a 2:1/1 -H")]
TAGS = [b"ECHO", b"echo", b"ECHO.SUB", b"Echo.Sub.Deep", b"ECHOES", b"ECH", b"A&B", b"a", b"A_C+D", b"OTHER", b" ECHO", b"ECHO  ", b"X" * 70, b"\x8f\x90"]
tables = [list(t) for n in (1, 2, 3) for t in itertools.permutations(POOL, n)]
if not T:
    tables = [t for i, t in enumerate(tables) if len(t) < 3 or i % 2]
cases = []
# every area through every address one after the other
PK = lambda: [Pkt(N("3:4/6") if a == "3:4/5" else N(UP), N(a), TA[i:i + 2]) for i in range(0, len(TA), 2) for a in ("2:1/1", "2:1/9", "2:1/1", "3:4/5")]
TA = [em(t) for t in TAGS]
for t in tables:
    for o in ([], ["AreasXlate &+_ ..."], ["FTNJunkGroup junk.all"]) if len(t) < 3 else ([["FTNJunkGroup junk.all"], ["AreasXlate &+_ pq-", "AreasXlate X y"]][len(cases) % 2],):
        cases.append(("areas %s %s" % ([a.line().strip() for a in t], o), Gate(conf=o, hosts=HOSTS, areas=t, akas=AK), PK()))
go("areas tables", cases)

# 2. messages and options
AR = [Area("ECHO", "echo.one", "-a 2:1/1"), Area("NOGATE", "echo.ng", "-a 2:1/1 -g"), Area("Z3", "echo.z3", "-a 2:1/1 -z 3 -d here")]
IDS = [b"", b"\1MSGID: 2:1/2 1\r", b"\1MSGID: 9:1/2 1\r", b"\1MSGID: <a@b> 1\r", b"\1MSGID: <NOMSGID_1@x> 1\r", b"\1RFC-Message-ID: <r@x>\r", b"\1MSGID: 2:1/2.3@fidonet 1\r\1REPLY: 2:1/3 2\r"]
KL = [b"", b"\1PID: GIGO+ 1\r", b"\1X-FZ-SPLIT: 1\r", b"\1SPLIT: x\r", b"\1REPLYADDR u@x.org\r", b"\1TZUTC: 0300\r", b"\1GATEWAY: gw x\r", b"\1PID: pp\r\1TID: tt\r",
      b"\1RFC-Organization: Orga\r\1RFC-References: <1@a> <2@b>\r", b"\1RFC-Reply-To: r@x.org\r\1RFC-User-Agent: Ag\r"]
RL = [b"", b"From: f@x.org\r", b"To: t@x.org\r", b"From: F <f@x.org>\rTo: t@x.org (T)\rSubject: Subj\rReply-To: r@x.org\r", b"Cc: c@x.org\rBcc: d@x.org\r"]
TL = [TAIL, b"", b"---\r", b"--- Ed\r", b" * Origin: only (2:1/2.7)\r", b"--- Ed\r * Origin: no address\rSEEN-BY: 1/1\rSEEN-BY: 2/3 4\r\1PATH: 1/2\r\1PATH: 3/4\r", b"--- Ed\r * Origin: (x) (5:6/7.8@fidonet)\r",
      b"... tag\r--- Ed\r * Origin:\r", b"--- Ed\r * Origin: bad (1/2)\r"]
OP = ["GateRfcKludge", "KillNoMSGID", "KillUnknownMSGIDZone", "KillSplit", "SingleArticles", "FTNJunkGroup junk.all", "UseOriginForOrganization", "Organization Some Org", "X-FTN TOVDSPK",
      "NewsPathTail x!y", "FallbackUsername fb", "CarbonNameGroup John_Smith g.to g.from"]
osets = [[]] + [[o] for o in OP] + [list(x) for x in itertools.combinations(OP, 2)]
if T:
    osets += [list(x) for x in itertools.combinations(OP, 3)]
cases = []
for o in osets:
    ms = [em(a, id=i, k=k) for a in (b"ECHO", b"NOGATE", b"Z3", b"NONE") for i in IDS for k in KL]
    ms += [em(a, k=k, text=r + b"\rText\r", tail=t) for a in (b"ECHO", b"NOGATE", b"NONE") for k in KL[:5] for r in RL for t in TL[:3]]
    ms += [em(a, tail=t, id=i) for a in (b"ECHO", b"Z3") for t in TL for i in IDS[:5]]
    ms += [nm(k=k) for k in KL]
    cases.append(("messages %s" % o, Gate(conf=o, hosts=HOSTS, areas=AR, akas=AK), [Pkt(N(UP), N(US), ms)]))
go("messages and options", cases)

# 3. copies by name
NM = [b"John Smith", b"john_smith", b"JOHN SMITH JR", b"John", b"Jane Doe", b"All", b"", b"Jane_Doe x"]
CG = [["CarbonNameGroup John_Smith g.to"], ["CarbonNameGroup John_Smith g.to g.from"], ["CarbonNameGroup John_Smith g.to g.from", "CarbonNameGroup Jane_Doe h.to h.from"],
      ["CarbonNameGroup Jane_Doe h.to h.from", "CarbonNameGroup John g.to"], ["CarbonNameGroup John_Smith a b", "CarbonNameGroup John_Smith c d"]]
CG += [["CarbonNameGroup " + x for x in y] for y in itertools.permutations(["John_Smith a", "John_Smith b c", "Jane_Doe d", "Jane_Doe e f", "Jane g h", "All i j"], 2)]
cases = []
for o in CG:
    for x in ([], ["FTNJunkGroup junk.all"]):
        ms = [em(a, fn=f, tn=t) for a in (b"ECHO", b"NONE") for f in NM for t in NM] + [nm(fn=f, tn=t) for f in NM for t in NM]
        cases.append(("copies %s" % (o + x), Gate(conf=o + x, hosts=HOSTS, areas=AR), [Pkt(N(UP), N(US), ms)]))
go("copies by name", cases)

# 4. batches: kinds of messages in every order, several packets
KIND = [em(b"ECHO"), em(b"NONE"), nm(), em(b"ECHO", text=b"#! rnews 10\r"), em(b"ECHO", text=b"\x8f\xa5" * 50 + b"\r"), nm(tn=b"UUCP"), em(b"NOGATE", k=b"\1PID: GIGO\r")]
cases = []
for a, o in (((), []), (("-1",), []), ((), ["SingleArticles"]), ((), ["FTNJunkGroup junk.all"])):
    for n in (1, 2, 3, 4):
        for seq in itertools.product(KIND, repeat=n) if n < (5 if T else 4) else ():
            cases.append(("batch", Gate(conf=o, hosts=HOSTS, areas=AR, args=a), [Pkt(N(UP), N(US), list(seq))]))
    for x in itertools.product([(), KIND[:1], KIND[1:2], KIND[2:3], KIND[:3]], repeat=3):
        cases.append(("packets", Gate(conf=o, hosts=HOSTS, areas=AR, args=a), [Pkt(N(UP), N(US), list(p)) for p in x]))
go("batches", cases)


# 5. history: every ordered pair (triple) of messages of the pool one after the other
def euler(n):
    """closed walk over all edges of the complete digraph with loops"""
    adj = [list(range(n)) for _ in range(n)]
    st, out = [0], []
    while st:
        if adj[st[-1]]:
            st.append(adj[st[-1]].pop())
        else:
            out.append(st.pop())
    return out


H = [nm(), nm(tn=b"UUCP"), nm(b"To: a@x.org\r\rText\r"), nm(b"From: F R <f@x.org>\rTo: a@x.org\rCc: c@x.org\rReply-To: r@x.org\rSubject: Su\r\rText\r"), nm(k=b"\1CHRS: KOI8-R 2\r", text=b"\xd4\xc5\xd3\xd4\r"), nm(text=b"\xe2\xa5\xe1\xe2\r"),
     nm(text=b"\1CHRS: KOI8-R 2\r\xd4\r"), nm(k=b"\1CODEPAGE: 1251\r", text=b"\xf2\r", subj=b"\xf2"), nm(k=b"\1RFC-Organization: O\r\1RFC-References: <a@b>\r\1REPLY: 2:1/3 1\r\1TZUTC: 0300\r"), nm(fn=b"MsgTrack 1"), nm(k=b"\1SPLIT: 1\r"),
     nm(k=b"\1Via 2:1/2 x\r\1FLAGS CFM\r", attr=0x1001), nm(tn=b"u@some.org"), nm(k=b"\1GATEWAY: gw\r\1REPLYADDR r@x.org\r"), nm(text=b""), nm(text=b"a\r" * 300), nm(tn=b"x" * 35, fn=b"y" * 35, subj=b"z" * 71),
     nm(fn=b"Al Ias"), nm(tn=b"Al Ias"), nm(k=b"\1ORIGID: <o@x.org>\r\1ORIGREF: <p@x.org>\r"), nm(subj=b""), em(b"ECHO"), em(b"ECHO", tail=b""), em(b"NONE"), em(b"NOGATE", text=b"From: f@x.org\r\rT\r"), em(b"Z3", id=b""), em(b"ECHO", fn=b"John Carbon"),
     em(b"HIER.SUB"), em(b"HIER.OTHER", tail=TL[5]), em(b"ECHO", tail=TL[6]), em(b"ECHO", id=b"\1MSGID: 9:1/2 1\r"), em(b"QP", text=b"\x8f" * 90 + b"\r"), em(b"ECHO", text=b"\x8f\r", k=b"\1CHRS: CP437 2\r"), em(b"X", k=b"\1RFC-X-NewsReader: R\r")]
HA = AR + [Area("HIER.", "hier.", "-a 2:1/1 -H"), Area("QP", "echo.qp", "-a 2:1/1 -Q -C koi8-r:koi8-r:koi8-r -nh"), Area("X", "echo.x", '-a 2:1/1 -8 -X "X-One: 1"')]
HO = [[], ["GateRfcKludge", "X-FTN fFtTOVDSPK", "TrackerMail t@x.org"], ["FTNJunkGroup junk.all", "KillUnknownMSGIDZone", "KillSplit", "UseOriginForOrganization", "CarbonNameGroup John_Carbon g.to g.from"],
      ["NetMail8bit", "NetMailHeadersPlain", "IgnoreCHRS", "SingleArticles", "FTNJunkGroup junk.all", "FTNJunkGroupKeys a b -Q -nh"], ["HostsRestricted", "NetMailQP", "UseFTNToAddress", "KillNoMSGID", "DotNames"]]
ALI = [Alias("ali", "2:1/2", "Al Ias"), Alias("ali@other.org", "2:1/1", "Al Ias")]
cases = []
for o in HO:
    for hs in (HOSTS, []):
        for a in ((), ("-i",), ("-t",)):
            g = Gate(conf=o, hosts=hs, areas=HA, aliases=ALI, args=a)
            cases.append(("pairs %s %s" % (o, a), g, [Pkt(N(UP), N(US), [H[i] for i in euler(len(H))])]))
            # the same over packets of one message
            if not a:
                cases.append(("pairs in packets %s" % o, g, [Pkt(N(UP), N(US), [H[i]]) for i in euler(len(H))]))
    H3 = H if T else [H[i] for i in (0, 1, 3, 4, 7, 8, 11, 13, 21, 24, 26, 27, 31)]
    for b in range(len(H3)):
        ms = []
        for x, y in itertools.product(H3, H3):
            ms += [x, H3[b], y]
        cases.append(("triples %s" % o, Gate(conf=o, hosts=HOSTS, areas=HA, aliases=ALI), [Pkt(N(UP), N(US), ms)]))
go("history", cases)


# 6. access rules: those for the other direction or kind of messages have no effect; a rule works for every message, not only for some
def acl(case):
    rules, i, ms = case
    g = Gate(hosts=HOSTS, areas=AR, acl=rules)
    er, exp, w = gate.run(ck, g, [Pkt(N(UP), N(US), ms)])
    mails, news = gate.outputs(g, w)
    return rules, i, len(ms), (len(mails), sum(map(len, news))), (sum(1 for e in exp[0] if e and e["kind"] != "news"), sum(1 for e in exp[0] if e and e["kind"] == "news"))


PAT = ["%s %s" % x for x in itertools.product(["2:1/2.0", "2:1/*", "*", "1:1/1"], ["2:1/1.0", "*", "ECHO", "x,2:1/1.0", "*,!2:1/1.0", "*,!ECHO"])]
SEC = [[d, k] for d in ("ftn2rfc", "rfc2ftn") for k in ("Netmail", "Echomail")]
MS = [[nm()] * 3, [em(b"ECHO")] * 3, [em(b"ECHO"), nm(), nm(), em(b"ECHO")]]
cases = [(s + [p], i, ms) for s in SEC for p in PAT for i, ms in enumerate(MS)]
cases += [(s + [p] + t + [q], i, ms) for s in SEC for t in SEC for p in PAT[:12:5] for q in PAT[::7] for i, ms in enumerate(MS)]
bad = n = blocked = 0
for rules, i, k, got, full in core.pmap(acl, cases, 8):
    n += k
    live = ["Netmail" if m == "Netmail" else "Echomail" for d, m, p in zip(rules[::3], rules[1::3], rules[2::3]) if d == "ftn2rfc"]
    e = None
    for j, kind in ((0, "Netmail"), (1, "Echomail")):
        if kind not in live and got[j] != full[j]:
            e = "%s of %s %s messages gated although no rule is for them" % (got[j], full[j], kind)
        if got[j] not in (0, full[j]):
            e = "%d of %d equal %s messages gated" % (got[j], full[j], kind)
    blocked += got != full
    if e:
        bad += 1
        if bad <= 6:
            ck.violation("access rules %s: %s" % (rules, e))
# the rules as documented: what isn't allowed is forbidden
for rules, ms, want in ((["ftn2rfc", "Netmail", "2:1/2* *,!2:1/1*"], [nm()], (0, 0)), (["ftn2rfc", "Echomail", "2:1/2* *,!ECHO"], [em(b"ECHO")], (0, 0)),
                        (["ftn2rfc", "Netmail", "2:1/2* 2:1/1.0"], [nm()], (1, 0)), (["ftn2rfc", "Echomail", "2:1/2* ECHO"], [em(b"ECHO")], (0, 1))):
    got = acl((rules, 0, ms))[3]
    n += 1
    if got != want:
        ck.violation("access rules %s: %s mails and articles gated, expected %s" % (rules, got, want), "acl " + " ".join(rules), None)
ck.count("states", n)
ck.count("transitions", n)
ck.count("evaluations", len(cases) + 4)
ck.part("access rules", runs=len(cases) + 4, messages=n, blocked=blocked, violating=bad)
ck.finish()
