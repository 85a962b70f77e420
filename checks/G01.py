import itertools
from fg import core, gate
from fg.gate import Gate, Host, Alias, Area
from fg.ftn import Node, N, A, Msg, Pkt
ck = core.Check("G01")
ck.rule = ("netmail of every combination of sender and recipient names, addresses, To:/From:/Cc: lines, kludges and "
           "attributes under every pair of gateway options, hosts and aliases tables, gated by the real ftn2rfc and compared "
           "with a reference model; non-trivial = one message under one configuration")
ck.build("plain")
T = ck.thorough


def net(frm="2:1/2", to="2:1/1", fn=b"John Smith", tn=b"Jane Doe", subj=b"Hello", text=b"Text line\r", k=b"", attr=0, **kw):
    f, t = N(frm), N(to)
    body = ("\1INTL %s %s\r" % (A(t._replace(point=0)), A(f._replace(point=0))) + ("\1FMPT %d\r" % f.point if f.point else "") +
            ("\1TOPT %d\r" % t.point if t.point else "")).encode() + b"\1MSGID: " + frm.encode() + b" 0123abcd\r" + k + text
    return Msg(f, t, tn, fn, subj, body, attr, **kw)


go = lambda name, cases: gate.go(ck, name, cases)


def pk(msgs, frm="2:1/2", to="2:1/1"):
    return [Pkt(N(frm), N(to), msgs)]


# 1. names
NAMES = [b"John Smith", b"john", b"J. R. Smith", b"A,B", b'"Q" U', b"a(b)c", b"<x@y.z>", b"u@some.org", b"u%some.org", b"host!user", b"some.org!u!v",
         b"UUCP", b"gateway", b"Uucp Admin", b"\x8f\xa5\xe2\xef", b"Ivan \x88", b"a:b;c", b"[br] back\\s", b"c\x03d", b"Tab\tX", b"x" * 35,
         b"trail  ", b"@", b"u@", b"@host", b"u@bad_dom", b"u@do.main extra", b"MsgTrack", b"ITrack 2.0", b"O/T-Track", b"postmaster", b"", b" lead"]
TOL = [None, b"To: a@b.org", b"To: A B <a@b.org>", b"To: a@b.org (Real)", b"to: c@b.org, d@e.net", b"To: local", b"To: u@n1.z2.test.org", b"To: f1.n1.z2.test.org!x", b"To: x%y.org",
       b"TO: u@XN1.z2.test.org", b"To:nospace@b.org"]
OPTS = ["UseFTNToAddress", "DotNames", "RFCAddrMode 1", "FallbackUsername fallback", "NoAddressInToField", "HostsRestricted",
        "TrackerMail track@home.org", "TrackerMail tracker", "NetMailHeadersPlain", "Errors-To err@home.org", "X-FTN ftF"]
HOSTS = [Host("2:1/2", "bbs"), Host("2:1/3", "down", "-d"), Host("2:1/4", "full.other.org."), Host("2:1/5", "-"), Host("2:1/6", "pt", "-p"), Host("2:1/6.7", "seven", "-p")]
AL = [Alias("js", "2:1/2", "John Smith"), Alias("jane@doe.org", "2:1/1", "Jane Doe"), Alias("jd", "2:1/1", "Postm*")]


def text(to, frm=None, more=()):
    l = [x for x in (frm, to) + tuple(more) if x]
    return b"".join(x + b"\r" for x in l) + (b"\r" if l else b"") + b"Body\r"


def kit(opts, hosts=HOSTS, aliases=AL, args=(), **kw):
    return Gate(conf=opts, hosts=hosts, aliases=aliases, args=args, **kw)


cases = []
sets = [[]] + [[o] for o in OPTS] + [list(x) for x in itertools.combinations(OPTS, 2)]
for o in sets:
    for a in ((), ("-t",), ("-i",)):
        if a and len(o) > 1:
            continue
        ms = [net(tn=n, text=text(t)) for n in NAMES for t in TOL]
        cases.append(("to names %s %s" % (o, a), kit(o, args=a), pk(ms)))
        ms = [net(fn=n, tn=m, text=text(t)) for n in NAMES for m in (b"Jane Doe", b"UUCP", b"u@some.org") for t in (None, b"To: a@b.org")]
        cases.append(("from names %s %s" % (o, a), kit(o, args=a), pk(ms)))
go("names", cases)

# 2. addresses
AD = ["2:1/2", "2:1/2.3", "2:1/3", "2:1/3.1", "2:1/4", "2:1/4.9", "2:1/5", "2:1/5.2", "2:1/6", "2:1/6.7", "2:1/6.8", "2:9/9", "2:9/9.1", "1:2/3", "7:8/9", "2:1/1", "2:1/1.5"]


def raw(frm, to, k, text=b"Body\r", fn=b"John Smith", tn=b"Jane Doe", attr=0, date=b"01 Jan 20  12:34:56"):
    f, t = N(frm), N(to)
    return Msg(f, t, tn, fn, b"Hello", k + text, attr, 0, date)


def intl(f, t):
    return b"\1INTL %s %s\r" % (t.encode(), f.encode())


cases = []
for o in [[], ["HostsRestricted"], ["HostsDomain .hosts.dom"], ["UseFTNToAddress"], ["HostsRestricted", "UseFTNToAddress"], ["HostsRestricted", "TrackerMail track@home.org"]]:
    for hs in (HOSTS, HOSTS[::-1], []):
        for a in ((), ("-i",), ("-t",)):
            ms = []
            for x in AD:
                for t in ("2:1/1", "2:1/1.5", "2:7/7", "3:4/5"):
                    k = net(frm=x, to=t).body.split(b"\1MSGID")[0]
                    for l in (None, b"To: a@b.org", b"To: loc", b"To: u@bbs.n1.z2.test.org", b"To: u@xbbs.n1.z2.test.orgx"):
                        for fn in (b"John Smith", b"msgtrack 2"):
                            ms.append(raw(x, t, k + b"\1MSGID: %s 1\r" % x.encode(), text(l), fn))
            cases.append(("addresses %s %s" % (o, a), kit(o, hosts=hs, args=a), pk(ms)))
KL = [b"", b"\1INTL 2:1/1 2:1/2\r", b"\1INTL 2:1/1 3:4/5\r", b"\1INTL 3:1/1 2:1/2\r", b"\1INTL 2:1/1\r", b"\1INTL\r", b"\1INTL x y\r", b"\1INTL: 2:1/1 5:6/7\r",
      b"\1INTL 2:1/1.5 2:1/2.6\r"]
PT = [b"", b"\1FMPT 3\r", b"\1TOPT 4\r", b"\1FMPT 3\r\1TOPT 4\r", b"\1TOPT 4\r\1FMPT 3\r", b"\1FMPT 0\r", b"\1FMPT: 3\r", b"\1fmpt 3\r"]
for o in ([], ["X-FTN fFtT"]):
    ms = []
    for a in KL:
        for b in PT:
            for x in ("2:1/2", "2:1/6"):
                for w in ((a, b), (b, a)):
                    ms.append(raw(x, "2:1/1", b"".join(w) + b"\1MSGID: 2:1/2 1\r"))
    for pf in ("2:1/2", "3:1/2", "2:9/9.1"):
        cases.append(("kludges %s from %s" % (o, pf), kit(o), pk(ms, pf)))
go("addresses", cases)

# 3. identification, RFC lines, kludges
ID = [b"", b"\1MSGID: 2:1/2 0123abcd\r", b"\1MSGID: 2:1/2.3@fidonet 1\r", b"\1MSGID: <a.b@c.org> 12345678\r", b"\1MSGID: u@h.org 00000001\r", b'\1MSGID: "a b" 2\r',
      b"\1MSGID: 9:1/2 1\r", b"\1MSGID: x\r", b"\1MSGID:\r", b"\1MSGID: 2:1/2=3 (x)\r", b"\1MSGID: <NOMSGID_x@y>\r",
      b"\1Message-ID: <m@id.org>\r", b"\1ORIGID: <o@id.org>\r", b"\1ORIGID: <o@id.org> x\r", b"\1ORIGID: bad\r", b"\1RFC-Message-ID: <r@id.org>\r",
      b"\1ORIGID: <o@id.org>\r\1MSGID: 2:1/2 1\r", b"\1Message-ID: <m@id.org>\r\1MSGID: 2:1/2 1\r", b"\1RFC-Message-ID: <r@id.org>\r\1MSGID: 2:1/2 1\r",
      b"\1ORIGID: <o@id.org>\r\1Message-ID: <m@id.org>\r"]
RE = [b"", b"\1REPLY: 2:1/2 fedcba98\r", b"\1REPLY: <a@b.c> 1\r", b"\1ORIGREF: <or@ef.org>\r", b"\1RFC-References: <r1@a> <r2@b>\r",
      b"\1REPLY: 2:1/2 fedcba98\r\1RFC-References: <r1@a>\r", b"\1ORIGREF: <or@ef.org>\r\1REPLY: 2:1/2 1\r"]
MISC = [b"", b"\1REPLYADDR user@some.org\r", b"\1REPLYADDR: user@some.org\r", b"\1REPLYTO 2:5/5 UUCP\r", b"\1PID: GIGO+ 1\r", b"\1SPLIT: 30 Mar 90 11:12:34 @9:8/7 1 02/03 ++++++\r",
        b"\1GATEWAY: RFC1036/822 x [y]\r", b"\1TZUTC: 0300\r", b"\1TZUTC: -0530\r", b"\1TZUTC: +0200\r", b"\1TZUTC: junk\r", b"\1RFC-Reply-To: r@e.org\r", b"\1RFC-User-Agent: Ag/1\r",
        b"\1RFC-Organization: Orga\r", b"\1RFC-X-NewsReader: Rd 2\r", b"\1RFC-Content-Transfer-Encoding: base64\r", b"\1Via 2:1/2 x\r", b"\1XYZ: \x8f\xa5\r", b"\1FLAGS DIR\r"]
O3 = [[], ["GateRfcKludge"], ["KillNoMSGID"], ["KillUnknownMSGIDZone"], ["KillSplit"], ["X-FTN K"], ["X-FTN fFtTOVDSPK"], ["GateRfcKludge", "NetMailHeadersPlain"],
      ["GateRfcKludge", "KillSplit", "X-FTN FK"]]
cases = []
for o in O3:
    for i in ID:
        cases.append(("ids %s" % o, kit(o), pk([raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + a + b + c) for a in [i] for b in RE for c in MISC])))
    cases.append(("kludges %s" % o, kit(o), pk([raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + ID[1] + a + b) for a in MISC for b in MISC if a != b or not a])))
go("identification", cases)

# 4. RFC lines of the text
FL = [None, b"From: f@from.org", b"From: F R <f@from.org>", b"From: f@from.org (F R)", b"UUCPFROM: uf@from.org", b"From: local", b"From: @"]
ML = [(), (b"Cc: c@c.org",), (b"Bcc: b@c.org",), (b"Cc: c@c.org", b"Bcc: b@c.org"), (b"Reply-To: rt@c.org",), (b"Subject: Other \x8f\xa5",), (b"Content-Transfer-Encoding: 8bit",),
      (b"Content-Transfer-Encoding: quoted-printable",), (b"X-Other: nothing",), (b"Sender: s@s.org",), (b"Newsgroups: a.b",), (b"Cc: \x8f\xa5 <c@c.org>",)]
cases = []
for o in [[], ["NoAddressInToField"], ["RFCAddrMode 1"], ["HostsRestricted"], ["UseFTNToAddress", "FallbackUsername fb"], ["DotNames", "NetMailHeadersPlain"]]:
    for al in ([], AL, [Alias("john@x.org", "2:1/2", "John Smith"), Alias("jd@y.org", "2:1/1", "Jane Doe")], [Alias("a", "2:1/1", "jane doe"), Alias("b", "2:1/1", "Jane Doe"), Alias("c", "2:1/2.1", "John Smith")],
               [Alias("a", "2:1/1", "Jane*"), Alias("b", "2:1/2", "*")]):
        ms = [raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + ID[1] + c, text(t, f, m), tn=tn) for f in FL for t in TOL[:5] for m in ML for tn in (b"Jane Doe", b"UUCP", b"u@some.org")
              for c in (b"", b"\1REPLYADDR u@1.org\r", b"\1REPLYADDR u%2@3\r")[:3 if T else 1]]
        cases.append(("rfc lines %s %d aliases" % (o, len(al)), kit(o, aliases=al), pk(ms)))
    ms = [raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + ID[1] + b"\1REPLYADDR " + ra + b"\r", text(t, f)) for f in FL for t in TOL[:3] for ra in
          (b"u@a.org", b"u%1:2/3", b"u@2.3", b"u", b"", b"u%a@2.3", b"1@a", b"u@a%2")]
    cases.append(("replyaddr %s" % o, kit(o), pk(ms)))
go("rfc lines", cases)

# 5. attributes and dates
cases = []
DATES = [b"01 Jan 20  12:34:56", b"31 Dec 99  23:59:59", b"29 Feb 20  00:00:00", b"01 Jan 70  00:00:01", b" 1 Jan 20  12:34:56", b"Mon  1 Jan 20 12:34", b"Wed 15 Jul 20 01:02", b"01 Jan 38  00:00:00", b"15 Jun 79  12:00:00", b"15 Jun 80  12:00:00"]
for o in ([], ["X-FTN F"], ["X-FTN fFtTOVDSPK"], ["Errors-To e@x.org", "X-FTN F"], ["ErrorsTo e@x.org"]):
    bits = [1 << i for i in range(16)]
    at = [0] + bits + [a | b for a in bits for b in bits if a < b] + [0xffff]
    cases.append(("attributes %s" % o, kit(o), pk([raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + ID[1], attr=a) for a in at])))
    cases.append(("dates %s" % o, kit(o), pk([raw("2:1/2", "2:1/1", intl("2:1/2", "2:1/1") + i + z, date=d) for d in DATES for i in ID[:2]
                                              for z in (b"", b"\1TZUTC: 0300\r", b"\1TZUTC: -0530\r", b"\1TZUTC: 1400\r", b"\1TZUTC: -1200\r")])))
go("attributes and dates", cases)
ck.finish()
