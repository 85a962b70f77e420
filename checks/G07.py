import itertools
from fg import core, rfcgate
from fg.rfcgate import R, RG, RA
ck = core.Check("G07")
ck.rule = ("every text, character set, transfer encoding, header encoding, multipart structure and splitting limit of the listed pools, given to the "
           "real rfc2ftn; the FTN text, fields, kludges and parts are compared with a reference model; non-trivial = one gated message")
ck.build("plain")
T = ck.thorough
go = lambda name, cases: rfcgate.go(ck, name, cases)
C = ["DefaultCharset cp866:cp866:utf-8", 'Origin "Test origin"']
H = [("From", "Jane Doe <jane@x.org>"), ("Subject", "Hi there"), ("Date", "Mon, 15 Jan 2001 10:11:12 +0300"), ("Message-ID", "<abc.1@x.org>")]
TO = "Max.Mueller@f3.n2.z2.fidonet.org"


def hs(**k):
    k = {a.replace("_", "-"): v for a, v in k.items()}
    o = [(n, k.pop(n, v)) for n, v in H]
    return [(n, v) for n, v in o + list(k.items()) if v is not None]


def mail(label, conf, **k):
    h = k.pop("h", {})
    return ("mail " + label, RG(conf), [R(hs(**h), **k)], "mail", [TO])


def news(label, conf, opts, **k):
    h = k.pop("h", {})
    return ("news " + label, RG(conf, areas=[RA("A.B", "a.b", opts)]), [R(hs(Newsgroups="a.b", **h), **k)], "news", ())


# 1. texts
CY = "\u041f\u0440\u0438\u0432\u0435\u0442"
L = ["", "plain", CY, "mixed " + CY + " = end", "--- tear", "---", " * Origin: x (1:2/3)", " * Origin", "SEEN-BY: 1/2", "SEEN-BYx", " lead", "trail  ", ".", "..", "From x", "=3D =", "tab\tx", "a" * 75, "b" * 77, "c" * 1000,
     CY * 20, "ctl\x03\x1b\x7f", "> quoted", "...", "\u0421", "--=20", "=", "x=", CY + "="]
CTE = [None, "8bit", "7bit", "base64", "quoted-printable"]
CS = ["utf-8", "koi8-r", "windows-1251", "cp866", "iso-8859-5"]
FC = [(C, ""), (["DefaultCharset koi8-r:koi8-r:utf-8"], ""), (C + ["NetMailCharset utf-8:utf-8:koi8-r"], "-C utf-8:utf-8:koi8-r"), (C + ["NetMailCharset cp1251:cp1251:cp866"], "-C cp1251:cp1251:cp866")]


def ascii_(t):
    return all(ord(c) < 128 for c in t)


def bodies(n, pool):
    for k in range(n + 1):
        for ls in itertools.product(pool, repeat=k):
            yield "".join(l + "\n" for l in ls)


cases = []
for b in list(bodies(2, L)) + [x[:-1] for x in bodies(2, L[1:]) if x][:len(L) * 4]:
    for cte in CTE:
        if cte == "7bit" and not ascii_(b):
            continue
        for cs in CS[:1] if b.count("\n") > 1 and not T else CS:
            for i, (c, a) in enumerate(FC if b.count("\n") < 2 or T else FC[:1]):
                lab = "%r %s %s %s" % (b[:60], cte, cs, c[0])
                cases.append(mail(lab, c, body=b, cs=cs, cte=cte))
                if b.count("\n") < 2 or cte in (None, "base64"):
                    cases.append(news(lab, c, a, body=b, cs=cs, cte=cte))
go("texts", cases)
S = ["", CY, "--- t", " * Origin: x", "long " * 30, " lead"]
go("longer texts", [mail("%r %s" % (b[:60], cte), C, body=b, cs="utf-8", cte=cte) for b in bodies(4 if T else 3, S) if b.count("\n") > 2 for cte in CTE if cte != "7bit"])

# character sets: default for messages without one, kludge, content type forms
cases = []
CTF = [None, "text/plain", "text/plain; format=flowed", "TEXT/PLAIN; format=flowed", "text/plain; x=y"]
KL = [None, "CHRS: KOI8-R 2", "CHRS: CP866 2", "CHRS: utf-8 4", "CHRS: cp1251"]
for b in (CY + "\n", "plain\n", "--- " + CY + "\n\n", CY + "\n" * 3):
    for cs in CS + ["us-ascii", None]:
        if cs == "us-ascii" and not ascii_(b):
            continue
        for ct in CTF:
            for k in KL:
                for c, a in FC:
                    for cte in (None, "base64", "quoted-printable"):
                        h = {"X_FTN_Kludge": k, "Subject": "T " + CY}
                        if cs is None and ct is None and cte is None:
                            continue
                        lab = "%r %s %s %s %s %s" % (b, cs, ct, k, cte, c)
                        d = c[-1].split(":")[-1] if len(c) > 2 or c is not C else "utf-8"
                        if cs is None:
                            continue
                        cases.append(mail(lab, c, body=b, cs=cs, ct=ct, cte=cte, h=h))
                        cases.append(news(lab, c, a, body=b, cs=cs, ct=ct, cte=cte, h=h))
go("character sets", cases)

# several areas and messages: each in its own character set, whatever came before
CA = [RA("A.%d" % i, "a.%d" % i, o) for i, o in enumerate(("", "-C koi8-r:koi8-r:utf-8", "-C utf-8:utf-8:utf-8", "-C cp1251:cp1251:utf-8"))]
XM = [dict(cs="utf-8", cte="base64"), dict(cs="koi8-r", cte="8bit", hcs="koi8-r"), dict(cs="cp866", cte="quoted-printable", henc="B"), dict(cs="utf-8", cte="8bit", henc="8"), dict(kl="CHRS: KOI8-R 2", cs="utf-8")]


def xm(d, **h):
    d = dict(d)
    k = d.pop("kl", None)
    return R(hs(Subject="S " + CY, From=CY + " <jane@x.org>", Organization=CY + " o", X_FTN_Kludge=k, **h), body=CY + "\n--- x\n", **d)


cases = []
for o in ([], ["UseOrganizationForOrigin"], ["RFCLevel 2"]):
    for n in (1, 2, 3, 4):
        for gs in itertools.permutations(range(4), n):
            for i, d in enumerate(XM):
                cases.append(("crosspost %s %d %s" % (gs, i, o), RG(C + o, areas=CA), [xm(d, Newsgroups=",".join("a.%d" % g for g in gs))], "news", ()))
    for n in (2, 3) if T or not o else (2,):
        for gs in itertools.product(range(4), range(len(XM)), repeat=n):
            if n == 3 and not T and (gs[0] + gs[2] + gs[4] + gs[1] * 2 + gs[3]) % 4:
                continue
            ms = [xm(XM[gs[j + 1]], Newsgroups="a.%d" % gs[j], Message_ID="<m%d@x.org>" % j) for j in range(0, 2 * n, 2)]
            cases.append(("batch %s %s" % (gs, o), RG(C + o, areas=CA), ms, "-b", ()))
go("crossposts and batches", cases)

# 2. headers
SB = ["Hi", CY, "Re: " + CY + " x", CY + " " + CY, "a " + CY + " b " + CY + " c", "x" * 30 + " " + CY, (CY + " ") * 9 + "e", "tab\tx", "two  blanks", "= ? =?", "=?x?y?z?=", "trail ", CY + ":" + CY]
FR = ["%s <jane@x.org>", "jane@x.org (%s)", '"%s" <jane@x.org>']
NA = ["Jane Doe", CY, CY + " " + CY, "Jane " + CY, CY + " D.", CY + " " + CY + " " + CY]
cases = []
for henc in ("Q", "B", "8"):
    for hcs in ("utf-8", "koi8-r", "windows-1251"):
        for fold in (False, True):
            for c, a in FC + [(C + ["NetMailCharset cp866:cp866:utf-8:koi8-r"], "-C cp866:cp866:utf-8:koi8-r")]:
                if henc == "8" and hcs not in ("utf-8", c[-1].split(":")[-1] if c[-1].count(":") == 3 else ""):
                    continue
                for s in SB:
                    # an undeclared 8-bit header is taken to be in the character set of the text
                    for k in ({}, {"cs": hcs if henc == "8" else "utf-8", "cte": "base64", "body": CY + "\n"}):
                        lab = "subject %r %s %s %s %s" % (s, henc, hcs, fold, c)
                        cases.append(mail(lab, c, h={"Subject": s.rstrip()}, henc=henc, hcs=hcs, fold=fold, **k))
                        cases.append(news(lab, c, a, h={"Subject": s.rstrip()}, henc=henc, hcs=hcs, fold=fold, **k))
                for f in FR:
                    for n in NA:
                        if f[0] == '"' and not ascii_(n):   # RFC 2047: no encoded words in quoted strings
                            continue
                        lab = "from %s %s %s %s %s" % (f % n, henc, hcs, fold, c)
                        cases.append(mail(lab, c, h={"From": f % n}, henc=henc, hcs=hcs, fold=fold))
                        cases.append(news(lab, c, a, h={"From": f % n}, henc=henc, hcs=hcs, fold=fold))
                        cases.append(news(lab, c, a, h={"X_Comment_To": f % n}, henc=henc, hcs=hcs, fold=fold))
go("headers", cases)
cases = []
for o in ([], ["RFCLevel 1"], ["RFCLevel 2"], ["UseXHeaderForTearline"], ["UseOrganizationForOrigin"], ["XFromKludge"], ["ReplyAddrIfmailTX"]):
    for hn in ("Organization", "X_Mailer", "Reply_To", "Sender", "X_FTN_Kludge", "Keywords", "Cc", "X_FTN_Tearline", "X_Gateway"):
        for v in (CY, "A " + CY + " b", CY + " " + CY, "plain"):
            v = v + " <other@z.org>" if hn in ("Reply_To", "Sender", "Cc") else "K: " + v if hn == "X_FTN_Kludge" else v
            for henc in ("Q", "B"):
                for c, a in FC:
                    lab = "%s %s %s %s" % (hn, v, henc, o + c)
                    cases.append(mail(lab, c + o, h={hn: v}, henc=henc))
                    cases.append(news(lab, c + o, a, h={hn: v}, henc=henc))
go("other headers", cases)

# 3. splitting
cases = []
P = ["", "a", "bb" * 3, "c" * 9]
for b in bodies(6 if T else 5, P):
    for mx in (4, 9, 20):
        for o in ([], ["NoFSC0047"]):
            if o and b.count("\n") > 4:
                continue
            lab = "split %r %d %s" % (b, mx, o)
            if (b.count("\n") + mx) % 2 or T:
                cases.append(mail(lab, C + o + ["MaxMsgSize %d" % mx], body=b))
            else:
                cases.append(news(lab, C + o, "-M %d" % mx, body=b))
go("splitting", cases)
cases = []
for b in bodies(3, ["a", CY, "--- x", "c" * 9]):
    for mx in (9, 20):
        for o in ([], ["NoFSC0047"], ["NoFromLine"], ["UseTZUTCKludge"]):
            for h in ({}, {"Subject": "x" * 69}, {"Subject": CY * 12}, {"Message_ID": "<1a2b3c4d@f3.n2.z2.fidonet.org>"}, {"Message_ID": "<MSGID_2=3A2=2F3_=31a2b@x.org>"}, {"Message_ID": None}, {"References": "<r@x.org>"},
                      {"X_Mailer": "M"}):
                lab = "split %r %d %s %s" % (b, mx, o, h)
                cases.append(mail(lab, C + o + ["MaxMsgSize %d" % mx], body=b, h=h, cs="utf-8", cte="base64"))
                cases.append(news(lab, C + o, "-M %d" % mx, body=b, h=h, cs="utf-8", cte="quoted-printable"))
go("parts", cases)
ck.finish()
