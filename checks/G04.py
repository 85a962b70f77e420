import itertools, os, re, zlib
from fg import core, gate, rfcgate, unit, world
from fg.ftn import N, A, Msg, Pkt, parse, BadPkt
from fg.gate import Host, Area, Mail, batch, BadMail
from fg.rfcgate import RG, R, RA
ck = core.Check("G04")
ck.rule = ("(1) every message id over the stated alphabet and of every length up to the bound put through the real conversions in both directions, "
           "compared with a model of doc/old/msgid.doc and with each other's inverse; (2) every discussion of up to the stated number of messages - each "
           "written by an FTN or an Internet user, each an answer to any earlier one or to none - run through the real ftn2rfc and rfc2ftn under every "
           "configuration of message ids; non-trivial = one id, one discussion")
ck.build("plain")
ck.build("asan", har=["h_unit"])
T = ck.thorough
w0 = world.World(ck.scratch + "/w").reset()
CONF = w0.p("etc/fidogate.conf")
US = "2:1/1"
SER = " 1234abcd"
ALPHA = "aZ09 \"=_/:.@<>\\(;,[+-'%\t\x7f\xe4\xff"


# ---- FTN -> RFC -> FTN -----------------------------------------------------------------
def fids():
    for n in range(1, 5 if T else 4):
        for t in itertools.product(ALPHA, repeat=n):
            s = "".join(t)
            if s[0] not in " \t":
                yield s + SER
    for t in itertools.product(("2:1/10", "1:1/10.5", "9:1/1", "1/10", "2:1/10@fidonet", "<x@y>", "x@y", "a b", ""), ("", " ", "\"", "\"\"", "@"), ("", "\"", " "), ("", " 1", SER, SER + " x", " =41=zz_")):
        if t[0] and t[0][0] != " ":
            yield "".join(t)
    for n in range(1, 700 if T else 420):
        for k in ("a", "/", "a/b ", "\xe4", "\"", "<"):
            b = (k * n)[:n]
            yield b[:-1] + "y" + SER
            yield b[:-1] + "z" + SER


def org(s):
    m = re.match(r'"((?:[^"]|"")*)"?', s)
    return m.group(1).replace('""', '"') if m else re.match(r"[^ \t]*", s).group(0)


def zone(s):
    return gate.Gate.msgid(None, s.encode("latin-1"), 2)[1]


def j1(c, r):
    s = c[1].decode("latin-1")
    o = org(s)
    if re.fullmatch(r"(?s)<.*@.*>", o):
        want = o
    else:
        want = gate.Gate.msgid(None, c[1], 2)[0]
    if r[0].decode("latin-1") != want:
        return "becomes %r, not %r" % (r[0], want), None
    if want != o and not re.fullmatch(rb"<[!-~]+@[a-z.]+>", r[0]):
        return "not a Message-ID: %r" % r[0], None


def enc(s):
    return s.encode("latin-1")


L = [x for x in fids() if not x.startswith("<NOMSGID_")]
unit.sweep(ck, CONF, "MSGID to Message-ID", (("m", enc(x)) for x in L), j1)
# and back, by the id the specification demands
GEN = [(x, gate.Gate.msgid(None, enc(x), 2)[0]) for x in L if not re.fullmatch(r"(?s)<.*@.*>", org(x))]
BACK = {enc(i): enc(x) for x, i in GEN}


def j2(c, r):
    if len(r) != 2 or r[0] != BACK[c[1]] or r[1] != b"0":
        return "becomes %r, not %r" % (r, BACK[c[1]]), None


unit.sweep(ck, CONF, "Message-ID of an FTN message to MSGID", (("M", i, "1", a, f) for i in BACK for a in ("", "AREA") for f in ("", "n", "r", "rn")[:4 if a else 2]), j2)


# ---- RFC -> FTN ------------------------------------------------------------------------
def rids():
    ids = ["".join(t) for n in range(1, 4 if T else 3) for t in itertools.product("aF09 \"%_=.+$/", repeat=n)]
    for i in ids:
        yield "<%s@x.org>" % i
    for i in ("MSGID", "MSGID-x", "NOMSGID_1", "NOMSGID-1", "funpack1", "fun", "1234abcd", "0234abcd", "123", "123456789", "12345%dom", "g234abcd", "1234abcd%fidonet", "0123%x", "%x", "a%"):
        for h in ("x.org", "f1.n1.z2.fidonet.org", "p3.f1.n1.z2.fidonet.org", "p3.f1.n1.z2", "f1.n1.z9.fidonet.org", "F1.N1.Z2.FIDONET.ORG"):
            yield "<%s@%s>" % (i, h)
    for t in itertools.product(("<a@b.c>", "<d@e.f>", "<x>", "<>", "text", "<g@h", "@", "<MSGID_2=3A1=2F5_1@fidonet.org>", "(c)"), repeat=3):
        yield " ".join(t)
    for n in range(1, 600 if T else 300):
        yield "<%s@x.org>" % ("ab\"" * n)[:n]
        yield "<%s@x.org>" % ("abc" * n)[:n]


def model(s, part, area, fl):
    i = s.rfind("<")
    m = re.match(r"<([^@]*)@([^>]*)>", s[i:]) if i >= 0 else None
    if not m:
        return None
    l, h = m.groups()
    if l.startswith(("funpack", "NOMSGID_")):
        return None
    if "s" not in fl:
        o = re.fullmatch(r"([1-9a-fA-F][0-9a-fA-F]{0,7})(%.*)?", l)
        f = re.fullmatch(r"(?:p(\d+)\.)?f(\d+)\.n(\d+)\.z(\d)(?:\.fidonet\.org)?", h.lower())
        if o and f:
            return "%s:%s/%s.%s%s %s" % (f.group(4), f.group(3), f.group(2), f.group(1) or "0", "@" + o.group(2)[1:] if o.group(2) and len(o.group(2)) > 1 else "", o.group(1).rjust(8, "0")), 0
        if l.startswith("MSGID_"):
            return rfcgate.unhex(l[6:]), 0
    mid = "<%s@%s>" % (l, h)
    c = zlib.crc32((mid + area).encode()) + (part - 1 if "s" in fl else 0)
    c = "%08x" % c
    if "n" in fl and "m" not in fl:
        if " " in mid or '"' in mid:
            mid = '"' + mid.replace('"', '""') + '"'
        return mid + " " + c, 1
    return (mid + " " if "r" in fl else "") + c, 1


def j3(c, r):
    want = model(c[1].decode("latin-1"), int(c[2]), c[3], c[4])
    if want is None:
        return (("becomes %r, not refused" % r, None)) if r[0] != b"-1" else None
    if r != [enc(want[0]), b"%d" % want[1]]:
        return "becomes %r, not %r" % (r, want), None


unit.sweep(ck, CONF, "Message-ID to MSGID", (("M", enc(i), p, a, f) for i in rids() for a in ("", "AREA.X") for f in ("", "n", "r", "rn", "nm") for p in "1") , j3)
unit.sweep(ck, CONF, "Message-ID to MSGID, parts", (("M", enc(i), str(p), a, f) for i in ("<a@b.c>", "<MSGID_2=3A1=2F5_00000001@fidonet.org>", "<1234abcd@f1.n1.z2.fidonet.org>") for p in range(1, 100) for a in ("", "AREA.X") for f in ("s", "sn")), j3)
# what the FTN side answers to leads back to the article
FTS = [i for i in rids() if model(i, 1, "AREA.X", "n") and model(i, 1, "AREA.X", "n")[1]]
FW = {enc(model(i, 1, "AREA.X", "n")[0]): enc(i[i.rfind("<"):]) for i in FTS}


def j4(c, r):
    w = FW[c[1]]
    w = w[:w.index(b">") + 1]
    if r[0] != w:
        return "becomes %r, not %r" % (r, w), None


unit.sweep(ck, CONF, "Message-ID to MSGID and back", (("m", x) for x in FW), j4)


# ---- discussions -------------------------------------------------------------------------
MODES = {"default": [], "no database": ["NoDBCHistory"], "id in MSGID": ["NoFidoStyleMsgid"], "FTN ids in the database": ["SaveFidoMsgid"], "not flushed": ["DontFlushDBCHistory"],
         "id in MSGID, no database": ["NoFidoStyleMsgid", "NoDBCHistory"]}
FS = ["2:1/10 %08x", "2:1/11.3@fidonet %08x", "\"2:1/10 a b\" %08x", "x.y-z_1@2:1/12 %08x", "<f%%d.%08x@other.gate>".replace("%%d", ""), "2:1/10  %08x"]
RS = ["<r%d@x.org>", "<CAL=%d_a+b/c@mail.example.com>", "<%d$x%%y@[1.2.3.4]>", "<%d.abcdef0@f9.n9.z2.fidonet.org>", "<aaaa%d.very.long.%s@news.example.net>" % (0, "x" * 150)]
RS[4] = "<aaaa%%d.very.long.%s@news.example.net>" % ("x" * 150)


def gw(conf, kind):
    return RG(conf=conf, hosts=[Host("2:1/10", "bbs")], areas=[RA("AREA.X", "x.area", "-a 2:1/1"), RA("AREA.Y", "y.area", "-a 2:1/1")], args=[])


def f_run(ck, w, msgs, errs):
    w.put("bt/pin/00000001.pkt", Pkt(N("2:1/10"), N(US), msgs).pack())
    r = w.run(ck.bin("gate/ftn2rfc"), "-1")
    out = []
    for d in ("news", "mail"):
        for f in w.ls("spool/outrfc/" + d):
            if f.endswith(".rfc"):
                try:
                    out.append(Mail(w.get("spool/outrfc/%s/%s" % (d, f))))
                except BadMail as e:
                    errs.append("bad message: %s" % e)
                os.unlink(w.p("spool/outrfc/%s/%s" % (d, f)))
    if r.returncode:
        errs.append("ftn2rfc: %d %r" % (r.returncode, r.stdout[-200:]))
    return out


def r_run(ck, w, raw, errs, mail):
    w.put("stdin", raw)
    with open(w.p("stdin"), "rb") as f:
        r = w.run(ck.bin("gate/rfc2ftn"), *(["--", "Some.One@f10.n1.z2.fidonet.org"] if mail else ["-n"]), stdin=f)
    out = []
    for d in ("news", "mail"):
        for f in w.ls("spool/outpkt/" + d):
            try:
                out += parse(w.get("spool/outpkt/%s/%s" % (d, f))).msgs
            except BadPkt as e:
                errs.append("packet: %s" % e)
            os.unlink(w.p("spool/outpkt/%s/%s" % (d, f)))
    if r.returncode:
        errs.append("rfc2ftn: %d %r" % (r.returncode, r.stdout[-200:]))
    return out


def kl(m, n):
    k = re.findall(rb"(?:\A|\r)\x01" + n.encode() + rb": ([^\r]*)", m.body)
    return k[0].decode("latin-1") if k else None


def one(c):
    name, conf, hist, fs, rs, mail, xp = c[:7]
    alt = c[7] if len(c) > 7 else ""
    g = gw(conf + (["MaxMsgSize 200"] if alt == "parts" else []), mail)
    w = g.world("%s/w%s" % (ck.scratch, core.worker_id())).reset()
    errs = []
    fid, rid, refs = [], [], []
    for n, (who, par) in enumerate(hist):
        if who == "F":
            mi = FS[0 if alt == "domain" else (fs + n) % len(FS)] % (0x5a5a0000 + n * 7)
            if mi[0] == "<":        # the number another gate of this kind computes
                mi = mi.split()[0]
                mi += " %08x" % zlib.crc32(enc(mi + ("" if mail else "AREA.X")))
            if alt == "same number":        # of messages of different systems
                mi = "2:1/1%d 5a5a1234" % n
            k = "\1MSGID: %s\r" % mi + ("\1REPLY: %s\r" % (fid[par][(n - par) % len(fid[par])] if alt == "parts" else fid[par][0].replace(" ", "@fidonet.org ", 1) if alt == "domain" else fid[par][0]) if par is not None else "")
            if mail:
                m = Msg(N("2:1/10"), N(US), b"UUCP", b"John Doe", b"Subject %d" % n, enc("\1INTL 2:1/1 2:1/10\r" + k + "To: user@example.org\r\rtext\r"))
            else:
                m = Msg(N("2:1/10"), N(US), b"All", b"John Doe", b"Subject %d" % n, enc("AREA:AREA.X\r" + k + "text\r--- t\r * Origin: o (2:1/10)\rSEEN-BY: 1/10\r\1PATH: 1/10\r"))
            o = f_run(ck, w, [m], errs)
            if len(o) != 1:
                errs.append("message %d: %d messages gated: %s" % (n, len(o), w.log()[-300:]))
                break
            i = o[0].get("Message-ID")
            rf = o[0].get("References")
            fid.append([mi])
            rid.append(i)
            refs.append((rf + " " if rf else "") + i)
            if i in rid[:-1]:
                errs.append("message %d has the Message-ID %r of another one" % (n, i))
            if (rf is None) != (par is None):
                errs.append("message %d: %r, an answer to %r" % (n, rf, rid[par] if par is not None else None))
            elif par is not None:
                keep = hist[par][0] == "F" or "NoFidoStyleMsgid" in conf or ("NoDBCHistory" not in conf and not mail)
                if keep and rf != rid[par]:
                    errs.append("message %d refers to %r, answers %r (%r)" % (n, rf, rid[par], fid[par]))
        else:
            i = RS[(rs + n) % len(RS)] % n
            h = [("From", "John Doe <john@example.org>"), ("Subject", "Subject %d" % n), ("Date", "Wed, 15 Mar 2000 12:34:56 +0000"), ("Message-ID", i)]
            h.append(("To", "Some.One@f10.n1.z2.fidonet.org") if mail else ("Newsgroups", "x.area,y.area" if xp else "x.area"))
            if par is not None:
                h.append(("In-Reply-To", rid[par]) if mail and n % 2 else ("References", refs[par]))
            o = r_run(ck, w, R(h, body="A line of the text\n" * (26 if alt == "parts" else 1)).raw(), errs, mail)
            if len(o) != (3 if alt == "parts" else 1 + xp):
                errs.append("article %d: %d messages: %s" % (n, len(o), w.log()[-300:]))
                break
            mi = [kl(x, "MSGID") for x in o]
            fid.append(mi)
            rid.append(i)
            refs.append((refs[par] + " " if par is not None else "") + i)
            if None in mi or len(set(mi)) != len(mi) or any(x in f for f in fid[:-1] for x in mi):
                errs.append("article %d: MSGID %r; others %r" % (n, mi, fid[:-1]))
            if "NoFidoStyleMsgid" in conf and any(not x.startswith(i + " ") for x in mi):
                errs.append("article %d: MSGID %r" % (n, mi))
            for j, x in enumerate(o):
                rp = kl(x, "REPLY")
                if (rp is None) != (par is None):
                    errs.append("article %d: REPLY %r, an answer to %r" % (n, rp, par))
                elif par is not None:
                    f = fid[par][0 if alt == "parts" else j if len(fid[par]) > 1 else 0]
                    if hist[par][0] == "F" or "NoFidoStyleMsgid" in conf:
                        if rp != f:
                            errs.append("article %d: REPLY %r, answers %r" % (n, rp, f))
                    elif rp.split()[-1] != f.split()[-1]:
                        errs.append("article %d: REPLY %r, answers %r" % (n, rp, f))
    return c, errs


def hists(n):
    for k in range(1, n + 1):
        for au in itertools.product("FR", repeat=k):
            for ps in itertools.product(*[[None] + list(range(i)) for i in range(k)]):
                if k == n or not n or True:
                    yield tuple(zip(au, ps))


def cases():
    for name, conf in MODES.items():
        n = 5 if T else 4
        H = [h for h in hists(n)]
        for h in H:
            for fs, rs in ((f, f) for f in range(len(FS))) if len(h) < 3 or (T and len(h) < 4) else ((len(h), 0), (2, 4))[:1 if len(h) > 3 else 2]:
                yield name, conf, h, fs, rs, False, 0
        for h in H:
            for fs in range(len(FS)) if len(h) < 3 else (0,):
                yield name + ", mail", conf, h, fs, fs, True, 0
        for h in H if T else [h for h in H if len(h) < 4]:
            if len(h) > 1:
                yield name, conf, h, 0, 1, False, 0, "same number"
                yield name, conf, h, 1, 2, False, 0, "parts"
                if "no database" not in name and "id in" not in name and not (name != "FTN ids in the database" and any(a == "F" and p is not None and h[p][0] == "F" for a, p in h)):
                    yield name, conf, h, 0, 0, False, 0, "domain"
        for h in H:
            if not any(a == "R" and p is not None and hist == "F" for a, p in h for hist in [h[p][0] if p is not None else ""]):
                yield name + ", crosspost", conf, h, 0, 1, False, 1


n = nm = bad = 0
per = {}
for c, errs in core.pmap(one, list(cases()), 8):
    n += 1
    nm += len(c[2])
    per[c[0]] = per.get(c[0], 0) + 1
    if errs:
        bad += 1
        if bad <= 8:
            ck.violation("discussion, %s: %s: %s" % (c[0], "".join("%s%s" % (a, "" if p is None else p) for a, p in c[2]), errs[0]), None, errs[:10])
ck.count("states", nm)
ck.count("transitions", nm)
ck.count("evaluations", n)
ck.part("discussions", runs=n, messages=nm, modes=per, violating=bad)
ck.finish()
