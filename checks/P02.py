import itertools, os, re, subprocess, time, zlib
from fg import core
from fg.world import World
from fg.ftn import N, Msg, Pkt
ck = core.Check("P02")
ck.rule = ("every truncation, every single octet deleted or replaced by any of the stated values, every line or token replaced by texts of the stated lengths, of packets, TICs, "
           "articles, mails and requests which use all that the programs understand, together with good ones run through the real programs, built with AddressSanitizer; "
           "non-trivial = one damaged input")
ck.build("addr")
T = ck.thorough
US, B, C, D = N("2:1/1"), N("2:1/2"), N("2:1/3"), N("1:5/6")
B_ = lambda n: ck.bin(n, "addr")
TXT = [0, 1, 10, 13, 34, 47, 60, 0x8d, 255]
HDR = [0, 0x7f, 255]
LENQ = [40, 80, 300, 1100, 4200, 33000, 66000]
FILL = [b"A", b"a ", b"\xff", b"1/", b"\""]
if T:
    TXT = [0, 1, 2, 9, 10, 13, 32, 33, 34, 37, 39, 40, 41, 44, 45, 46, 47, 48, 57, 58, 60, 61, 62, 63, 64, 65, 91, 92, 93, 95, 97, 127, 128, 0x8d, 255]
    HDR = list(range(256))
    LENQ = [8, 16, 20, 36, 40, 64, 72, 80, 128, 256, 257, 300, 512, 1024, 1100, 2048, 4096, 4097, 4200, 8192, 32767, 32768, 32769, 33000, 65537, 66000]
    FILL += [b"1", b"(", b"<a@", b"=", b"@", b":", b".", b"%", b"2:1/1 ", b"*"]


def octets(raw, vals, lo=0, hi=None):
    """every octet deleted or replaced, every truncation"""
    for i in range(lo, len(raw) if hi is None else hi):
        yield "cut at %d" % i, raw[:i]
        yield "without octet %d" % i, raw[:i] + raw[i + 1:]
        for v in vals:
            if raw[i] != v:
                yield "octet %d is %d" % (i, v), raw[:i] + bytes([v]) + raw[i + 1:]


def tokens(raw, seps, lo=0, words=True):
    """every token replaced by or prepended with long text, or doubled"""
    cuts = [lo] + [m.start() for m in re.finditer(seps, raw[lo:])]
    cuts = sorted(set([lo] + [lo + m.start() for m in re.finditer(seps, raw[lo:])] + [lo + m.end() for m in re.finditer(seps, raw[lo:])] + [len(raw)]))
    for a, b in zip(cuts, cuts[1:]):
        yield "%r removed" % raw[a:b], raw[:a] + raw[b:]
        yield "%r doubled" % raw[a:b], raw[:b] + raw[a:]
        for n in LENQ:
            for f in FILL:
                if f == b"a " and n > 5000 and not words:      # every word of a header is decoded on its own, with the whole Content-Type parsed for it
                    continue
                x = (f * n)[:n]
                yield "%r for %r" % (f + b"*%d" % n, raw[a:b][:20]), raw[:a] + x + raw[b:]


def subsets(lines, mk, empty=None):
    """every subset of the lines, every order of two of them with the others absent; empty(line): the line with nothing in it"""
    alts = [[b"", l] + ([empty(l)] if empty and empty(l) != l else []) for l in lines]
    for c in itertools.product(*alts):
        yield "lines %r" % (b"".join(c)[:300],), mk(b"".join(c))
    for a, b in itertools.permutations(lines, 2):
        yield "lines %r" % (a + b,), mk(a + b)


def crashed(r):
    o = r.stdout or b""
    if b"AddressSanitizer" in o or r.returncode < 0 or r.returncode == 99:
        m = re.search(rb"ERROR: AddressSanitizer:? (.*?)(?: on | \(|\n)", o)
        fr = re.findall(rb"#\d+ 0x\w+ in (\S+) (\S+)", o)
        fr = [(a, b) for a, b in fr if b"/src/" in b or b"/b/" in b or b".c:" in b]
        return "%s: %s" % (m.group(1).decode() if m else "signal %d" % -r.returncode, " < ".join("%s %s" % (a.decode(), b.decode().split("/")[-1]) for a, b in fr[:4]))


ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=8"}


def run(w, name, *a, exits=(0,), **k):
    try:
        r = w.run(B_(name), *a, env=ENV, **k)
    except subprocess.TimeoutExpired:
        return "%s hangs" % name
    c = crashed(r)
    if c:
        return "%s: %s" % (name, c)
    if r.returncode not in exits:
        return "%s: exit code %d: %s" % (name, r.returncode, (r.stdout[-200:].decode("latin-1") + w.log()[-300:]))


# ---- one batch: inputs, of which each may be damaged; the whole runs again in halves if anything is wrong
def judge(kind, items, wid):
    w, put, go = KINDS[kind]
    w = w("%s/w%d%s" % (ck.scratch, wid, kind))
    put(w, items)
    return go(w, items)


SIGS = {}


def bisect(kind, items, wid):
    e = judge(kind, items, wid)
    if not e:
        return []
    s = kind + re.sub(r"\d+", "0", e[:100])
    SIGS[s] = SIGS.get(s, 0) + 1
    if SIGS[s] > 12:        # known by now
        return [(items[0][0] + " ...", items[0][1], e)]
    if len(items) == 1:
        return [(items[0][0], items[0][1], e)]
    h = len(items) // 2
    out = bisect(kind, items[:h], wid) + bisect(kind, items[h:], wid)
    return out or [("%d together: %r ..." % (len(items), items[0][0]), b"", e)]


def one(c):
    kind, items = c
    w, put, go = KINDS[kind]
    return kind, len(items), bisect(kind, items, core.worker_id())[:20]


def sweep(name, kind, gen, n=40):
    seen = set()

    def chunks():
        b = []
        for x in gen:
            h = zlib.crc32(x[1]), len(x[1])
            if h in seen:
                continue
            seen.add(h)
            b.append(x)
            if len(b) >= n or sum(len(y[1]) for y in b) > 400000:
                yield kind, b
                b = []
        if b:
            yield kind, b
    k = runs = bad = 0
    sigs = {}
    for kd, m, errs in core.pmap(one, chunks(), 1):
        k += m
        runs += 1
        for what, raw, e in errs:
            bad += 1
            s = re.sub(r"\d+", "0", e[:160])
            if s not in sigs:
                sigs[s] = 0
                if len(sigs) <= 12:
                    ck.violation("%s, %s: %s" % (name, what[:200], e[:500]), None, [raw[:3000].decode("latin-1"), e])
            sigs[s] += 1
    ck.count("states", k)
    ck.count("transitions", k)
    ck.count("evaluations", runs)
    ck.part(name, inputs=k, runs=runs, violating=bad, kinds=len(sigs))


KINDS = {}
# ---- packets -----------------------------------------------------------------------------
AREAS = "Test System\n#- AREA.ONE -z 2 2:1/2 2:1/3\n#- AREA.TWO -z 2 2:1/2 1:5/6\n"
ACL = "* *\n"
PCONF = "HISTORY @/var/history\nDBC_HISTORY @/var/dbc\nTIC_HISTORY @/var/tic\nDupeCheck\nUplink 2:1/2\nGateRfcKludge\nXFlagsPolicy 2\nBounceMailWithCR\nPassthroughtBoxesDir @/fbox\n"


def pworld(root):
    f = {"var/areas.bbs": AREAS, "etc/acl": ACL, "etc/hosts": "2:1/2 bbs -\n1:5/6 far -\n", "etc/aliases": "user 2:1/1 Jane Doe\n", "etc/areas": "AREA.ONE one.area -a 2:1/1\nAREA.TWO two.area -a 2:1/1 -8\n",
         "etc/routing": "send normal 2:1/2 2:1/3\nroute normal 2:1/2 *\n", "etc/packing": "pack normal *\n", "etc/passwd": "packet 2:1/2 \naf 2:1/2 secret\nff 2:1/2 secret\n",
         "etc/uplinks": "", "var/fareas.bbs": "@/files\n@/files/one ONE -z 2 2:1/2 2:1/3\n"}
    for b in ("noto", "addrinto", "down", "insecure", "restricted", "acl", "acl_netmail"):
        f["etc/bounce." + b] = "From: postmaster\nTo: %F\nSubject: bounced\n\n%R %T %S\n"
    return World(root, conf=PCONF, files=f).reset()


def net(text, k=b"", frm=B, to=D, **h):
    return Msg(frm, to, body=b"\1INTL %d:%d/%d %d:%d/%d\r" % (to[:3] + frm[:3]) + k + text, **h)


def echo(text, k=b"", area=b"AREA.ONE", tail=b"--- Ed 1\r * Origin: Here (2:1/2)\rSEEN-BY: 1/2 5/6\r\1PATH: 1/2\r", **h):
    return Msg(B, US, body=b"AREA:%s\r" % area + k + text + tail, **h)


KN = (b"\1FMPT 3\r\1TOPT 4\r\1MSGID: 2:1/2.3@fidonet 12345678\r\1REPLY: 2:1/1 12345677\r\1PID: x 1\r\1CHRS: CP866 2\r\1REPLYADDR u@x.org\r\1REPLYTO 2:1/2 UUCP\r\1FLAGS KFS RRQ\r\1TZUTC: -0330\r"
      b"\1RFC-From: \"A B\" <a@b.org>\r\1RFC-X-Y: =?utf-8?Q?=41?=\r\1X-FTN-Sender: q\r\1ORIGID: <a@b.org> 1/2\r\1ORIGREF: <c@b.org>\r\1SPLIT: 30 Mar 90 11:12:34 @494/4       123   02/03 +++++++++++\r"
      b"\1GATEWAY: RFC1036/822 g [x]\r")
NET1 = net(b"From: Joe <joe@x.org>\rReply-To: r@x.org\rTo: Jane Doe <user@example.org>\rCc: c@x.org\rX-Z: 1\r\rText \xe0\xe1\xe2 of it\r=20 line\r\1Via 2:1/2 @20000315.123456 x\r--- tear\r", KN)
GATE1 = Msg(B, US, to=b"UUCP", frm=b"John \xe0 Doe", subj=b"Subj \xe1", attr=0x1001 | 0x10, body=NET1.body.replace(b"INTL 1:5/6", b"INTL 2:1/1").replace(b"\1TOPT 4\r", b""))
ECHO1 = echo(b"Newsgroups: a,b\r\rText \xe0\x8d\n of it\r> quote\r.\r", b"\1MSGID: 2:1/2 12345678\r\1REPLY: <a@b.org> 12345677\r\1PID: x 1\r\1CHRS: UTF-8 4\r\1TID: t\r\1RFC-From: a@b.org\r\1RFC-References: <x@y>\r\1ORIGID: <e@b.org>\r"
             b"\1SPLIT: 30 Mar 90 11:12:34 @494/4       123   02/03 +++++++++++\r\1TZUTC: 0300\r", to=b"All", frm=b"John Doe", subj=b"[8] Re: x", tail=b"--- Ed 1\r * Origin: Here (2:1/2.4@fidonet)\rSEEN-BY: 1/2 5 5/6 2:7/7\r\1PATH: 1/2 3\r")
LAST = echo(b"the last\r", b"\1MSGID: 2:1/2 000000ff\r", area=b"AREA.TWO")


def good(i):
    t = b"GOOD%d." % i
    return Pkt(B, US, [net(t + b"n\r", b"\1MSGID: 2:1/2 0000aa%02d\r" % i, to=D), echo(t + b"e\r", b"\1MSGID: 2:1/2 0000ab%02d\r" % i)]).pack()


def ggood(i):
    t = b"GOOD%d." % i
    return Pkt(B, US, [net(t + b"n\r", b"\1MSGID: 2:1/2 0000aa%02d\r" % i, to=US).__class__(B, US, to=b"user@example.org", frm=b"John Doe", subj=b"s", body=b"\1INTL 2:1/1 2:1/2\r\1MSGID: 2:1/2 0000aa%02d\r" % i + t + b"n\r"),
                       echo(t + b"e\r", b"\1MSGID: 2:1/2 0000ab%02d\r" % i)]).pack()


def pput(d, g):
    def put(w, items):
        L = [g(1)] + [x[1] for x in items] + [g(2)]
        for i, b in enumerate(L):
            f = "%s/%08x.pkt" % (d, i + 1)
            w.put(f, b)
            os.utime(w.p(f), (10 ** 9 + i,) * 2)
    return put


def blob(w, *dirs):
    t = w.tree()
    return b"\n".join(v for k, v in t.items() if k.startswith(dirs))


def goods(w, errs, when, n=2, *dirs):
    b = blob(w, *dirs)
    for i in (1, 2):
        for k in b"ne":
            c = b.count(b"GOOD%d.%c" % (i, k))
            if c != n[bytes([k]).decode()] if isinstance(n, dict) else c != n:
                return "%s: message GOOD%d.%c is there %d times" % (when, i, k, c)


def left(w, d):
    l = [f for f in w.ls(d) if f.endswith((".pkt", ".tmp")) or f.startswith("tmp")]
    return "%s: left %s" % (d, l) if l else None


def tossgo(w, items):
    e = run(w, "toss/ftntoss") or left(w, "bt/pin") or goods(w, [], "tossed", {"n": 1, "e": 1}, "spool/toss/")
    if e:
        return e
    e = run(w, "toss/ftnroute") or left(w, "spool/toss/toss")
    if e:
        return e
    return run(w, "toss/ftnpack")


def gatego(w, items):
    e = run(w, "gate/ftn2rfc") or left(w, "bt/pin") or goods(w, [], "gated", 1, "spool/outrfc/")
    return e


def fixgo(w, items):
    e = run(w, "areafix/ftnafpkt")
    if e:
        return e
    return left(w, "bt/pin")


KINDS["toss"] = (pworld, pput("bt/pin", good), tossgo)
KINDS["gate"] = (pworld, pput("bt/pin", ggood), gatego)


def only(*k):
    return not os.environ.get("PART") or os.environ["PART"] in k


def pkts(*ms):
    return Pkt(B, US, ms).pack()


P1 = pkts(NET1, ECHO1, LAST)
G1 = pkts(GATE1, ECHO1, LAST)
SEP = rb"[\r\0 \1:/.@<>]"


def dmg(raw):
    return itertools.chain(octets(raw, HDR, 0, 58 + 14), octets(raw, TXT, 58 + 14))


if only("toss"):
    sweep("packets for the tosser", "toss", dmg(P1))
    sweep("packets for the tosser, long texts", "toss", tokens(P1, rb"[\r\0 \1]", 58 + 14))
if only("gate"):
    sweep("packets for the gateway", "gate", dmg(G1))
    sweep("packets for the gateway, long texts", "gate", tokens(G1, rb"[\r\0 \1]", 58 + 14))

ELINES = [b"text\r", b"\r", b"--- Ed 1\r", b" * Origin: Here (2:1/2)\r", b"SEEN-BY: 1/2 5/6\r", b"\1PATH: 1/2\r", b"\1MSGID: 2:1/2 12345678\r"] + ([b"SEEN-BY: 1/3\r", b"\1PATH: 1/3\r", b"\1Via 2:1/2\r"] if T else [])
NLINES = [b"\1INTL 2:1/1 2:1/2\r", b"\1FMPT 3\r", b"\1TOPT 4\r", b"\1MSGID: 2:1/2 12345678\r", b"\1REPLY: 2:1/2 12345678\r", b"\1RFC-From: a@b.org\r", b"To: u@x.org\r", b"\r", b"text\r", b"\1Via 2:1/2\r"]
strip = lambda l: re.sub(rb"(?<=[: ]).*\r|(?<=INTL|FMPT|TOPT).*\r", b"\r", l) if len(l) > 3 else l
ebody = lambda b: pkts(Msg(B, US, body=b"AREA:AREA.ONE\r" + b), LAST)
nbody = lambda b: pkts(Msg(B, US, to=b"UUCP", frm=b"John Doe", body=b), LAST)
for k in ("toss", "gate"):
    if only(k):
        sweep("echomail of any of the lines, %s" % k, k, subsets(ELINES, ebody, strip if T else None))
        sweep("netmail of any of the lines, %s" % k, k, subsets(NLINES if T else NLINES[:8], nbody, strip if T else None))


# ---- areafix requests ----------------------------------------------------------------------
def fixput(w, items):
    L = [Pkt(B, US, [Msg(B, US, to=b"areafix", frm=b"Sysop", subj=b"secret", body=b"\1INTL 2:1/1 2:1/2\r+AREA.THREE\r")]).pack()] + [x[1] for x in items] + \
        [Pkt(B, US, [Msg(B, US, to=b"areafix", frm=b"Sysop", subj=b"secret", body=b"\1INTL 2:1/1 2:1/2\r+AREA.FOUR\r")]).pack()]
    for i, b in enumerate(L):
        f = "bt/pin/%08x.pkt" % (i + 1)
        w.put(f, b)
        os.utime(w.p(f), (10 ** 9 + i,) * 2)


def fworld(root):
    w = pworld(root)
    w.put("var/areas.bbs", AREAS + "#- AREA.THREE -z 2 2:1/3 1:5/6\n#- AREA.FOUR -z 2 2:1/3 1:5/6\n")
    return w


def fixgo(w, items):
    e = run(w, "areafix/ftnafpkt") or left(w, "bt/pin")
    if e:
        return e
    a = (w.get("var/areas.bbs") or b"").decode("latin-1").split("\n")
    for t in ("AREA.THREE", "AREA.FOUR"):
        l = [x for x in a if x.startswith("#- %s " % t)]
        if len(l) != 1 or "2:1/3" not in l[0] or "5/6" not in l[0] or "2:1/2" not in l[0] and not re.search(r"2:1/3 2\b|2:1/2 3| 1/2| 2 | 2$", l[0]):
            return "area %s: %r" % (t, l)


KINDS["fix"] = (fworld, fixput, fixgo)
F1 = Pkt(B, US, [Msg(B, US, to=b"areafix", frm=b"Sys Op", subj=b"secret", body=b"\1INTL 2:1/1 2:1/2\r\1MSGID: 2:1/2 12345678\r\1CHRS: CP866 2\r%LIST\r%QUERY\r-AREA.ONE\r+AREA.TWO\r+*.TWO\r%UNLINKED\r%HELP\r"
                 b"%PASSWD newpw\r%PASSIVE AREA.ONE\r%ACTIVE AREA.ONE\r%CREATE NEW.AREA\r%FORWARD A.B\r%LEVEL 1\r%FROM 2:1/3\r%NOTE text\r%BLIST\r+AREA.ONE /R=3\rjunk\r%QUIT\r---\r * Origin: x (2:1/2)\r")]).pack()
if only("fix"):
    sweep("areafix requests", "fix", octets(F1, TXT, 58))
    sweep("areafix requests, long texts", "fix", tokens(F1, rb"[\r\0 \1]", 58 + 14))

# ---- articles --------------------------------------------------------------------------------
def art(body, h=b"", mid=b"m@x.org", groups=b"one.area"):
    return b"From: John Doe <john@example.org>\nNewsgroups: %s\nSubject: s\nDate: Wed, 15 Mar 2000 12:34:56 +0000\nMessage-ID: <%s>\n%s\n%s" % (groups, mid, h, body)


def newsput(w, items):
    L = [art(b"GOOD1.n\n", mid=b"g1")] + [x[1] for x in items] + [art(b"GOOD2.n\n", mid=b"g2", groups=b"two.area")]
    w.put("stdin", b"".join(b"#! rnews %d\n" % len(b) + b for b in L))


def newsgo(w, items):
    with open(w.p("stdin"), "rb") as f:
        e = run(w, "gate/rfc2ftn", "-b", stdin=f, exits=(0, 65, 255))
    b = blob(w, "spool/outpkt/")
    return e or any(b.count(b"GOOD%d.n" % i) != 1 for i in (1, 2)) and "good articles: %s" % [b.count(b"GOOD%d.n" % i) for i in (1, 2)] or None


KINDS["news"] = (pworld, newsput, newsgo)
N1 = (b"Path: a!b!c\nFrom: =?koi8-r?B?+u/t8g==?= \"x\" <john@example.org> (c)\nReply-To: Real Name <r@x.org>, q@z\nNewsgroups: one.area,two.area , no.group\nSubject: =?utf-8?Q?=D0=9F=D1=80_x?= =?utf-8?B?0J8=?= text\n"
      b"Date: Wed, 15 Mar 2000 12:34:56 -0330 (X)\nMessage-ID: <ab.1@x.org>\nReferences: <a@b>\n <MSGID_2=3A1=2F2_12345678@fidonet.org>\nOrganization: Org (x)\nX-Comment-To: Jane Doe\nX-Flags: mfnr\nX-FTN-Tearline: tear\n"
      b"X-FTN-Origin: orig (2:1/2)\nX-FTN-Kludge: CHRS: CP866 2\nX-Mailer: m 1.0\nMIME-Version: 1.0\nContent-Type: text/plain; charset=\"utf-8\"; x=y\nContent-Transfer-Encoding: quoted-printable\nX-Gateway: g\nDistribution: d\n\n"
      b"Text =D0=9F and =\nsoft\n--- tear\n * Origin: x\n")
N2 = N1.replace(b"text/plain; charset=\"utf-8\"; x=y", b"multipart/mixed; boundary=\"b=1\"").replace(b"quoted-printable", b"7bit").partition(b"\n\n")[0] + \
    b"\n\n--b=1\nContent-Type: text/plain; charset=koi8-r\nContent-Transfer-Encoding: base64\n\n+u/t8voK\n\n--b=1\nContent-Type: image/png\n\nxx\n--b=1--\n"
if only("news"):
    sweep("articles", "news", octets(N1, TXT))
    sweep("articles, long texts", "news", tokens(N1, rb"[\n ]", words=False))
    i = N2.index(b"MIME-Version")
    sweep("articles in parts", "news", octets(N2, TXT, i))
    sweep("articles in parts, long texts", "news", tokens(N2, rb"[\n ;=\"]", i, words=False))

AL = [l + b"\n" for l in N1.partition(b"\n\n")[0].replace(b"\n ", b"\0 ").split(b"\n")]
AL = [l.replace(b"\0 ", b"\n ") for l in AL]
AH = [l for l in AL if l.split(b":")[0] in ((b"From", b"Subject", b"Date", b"Message-ID", b"Newsgroups", b"MIME-Version", b"Content-Type", b"Content-Transfer-Encoding") + ((b"Reply-To", b"References") if T else ()))]
if only("news"):
    sweep("articles of any of the headers", "news", subsets(AH, lambda h: h + b"\nText\n"))
    sweep("articles with one header empty", "news", [("empty %r" % l[:20], N1.replace(l, l.partition(b":")[0] + x + b"\n")) for l in AL for x in (b"", b":", b": ", b": \n ", b":\n\t", b": =?", b": =?utf-8?", b": =?utf-8?Q?", b": =?utf-8?B?", b": =?utf-8?B?==?=", b": =?utf-8?X?a?=", b": =?nosuch?Q?a?=", b": ()", b": <>", b": \"", b": \"\" <", b": @", b": (", b": ;", b": ,", b": ;=")])

# ---- mails -----------------------------------------------------------------------------------
def mailput(w, items):
    pass


def mailgo(w, items):
    for what, raw in items:
        w.put("stdin", raw)
        with open(w.p("stdin"), "rb") as f:
            try:
                r = w.run(B_("gate/rfc2ftn"), "--", "Some.One@f2.n1.z2.fidonet.org", env=ENV, stdin=f)
            except subprocess.TimeoutExpired:
                return "hangs"
        c = crashed(r)
        if c or r.returncode not in (0, 64, 65, 67, 68, 69, 75, 77):
            return c or "exit code %d: %s %s" % (r.returncode, r.stdout[-200:], w.log()[-300:])


KINDS["mail"] = (pworld, mailput, mailgo)
M1 = N1.replace(b"Newsgroups: one.area,two.area , no.group", b"To: \"Some One\" <some.one@f2.n1.z2.fidonet.org>\nCc: a@b.org\nReturn-Receipt-To: q@x.org\nReceived: from x by y; z")
if only("mail"):
    sweep("mails", "mail", octets(M1, [0, 34, 255] if not T else TXT), n=40)
    sweep("mails, long texts", "mail", ((a, b) for a, b in tokens(M1, rb"[\n]", words=False) if T or "a " not in a and "1/" not in a))

# ---- TICs ------------------------------------------------------------------------------------
def crc(b):
    return "%08X" % (zlib.crc32(b) & 0xffffffff)


def mktic(name, body, x=b""):
    return (b"Area ONE\r\nOrigin 2:5/5\r\nFrom 2:1/2\r\nTo 2:1/1\r\nFile %s\r\nDesc description \xe0 of\r\nLDesc long one\r\nLDesc two\r\nCreated by somebody\r\nMagic M\r\nReplaces old.zip\r\nCRC %s\r\nSize %d\r\n"
            b"Date 1000000000\r\nPath 2:5/5 999999999 Sun\r\nSeenby 2:5/5\r\nSeenby 2:7/7.1@fidonet\r\nApp a b\r\nPw secret\r\n" % (name, crc(body).encode(), len(body)))


def tworld(root):
    w = pworld(root)
    os.makedirs(w.p("files/one"), exist_ok=True)
    return w


def ticput(w, items):
    b = b"contents\n"
    for i, (n, raw) in enumerate([("", mktic(b"good1.zip", b))] + list(items) + [("", mktic(b"good2.zip", b))]):
        w.put("bt/pin/t%05d.tic" % i, raw)
        os.utime(w.p("bt/pin/t%05d.tic" % i), (10 ** 9 + i,) * 2)
    for n in ("good1.zip", "good2.zip", "file.zip"):
        w.put("bt/pin/" + n, b)


def ticgo(w, items):
    e = run(w, "tick/ftntick")
    if e:
        return e
    for i in (1, 2):
        if w.get("files/one/good%d.zip" % i) != b"contents\n":
            return "good%d.zip isn't in its area: %s" % (i, w.log()[-300:])
        n = sum(b"good%d.zip" % i in v for k, v in w.tree().items() if k.endswith(".tic") and not k.startswith("bt/pin/"))
        if n != 1:
            return "%d TICs for good%d.zip, %s" % (n, i, w.log()[-300:])


KINDS["tic"] = (tworld, ticput, ticgo)
T1 = mktic(b"file.zip", b"contents\n")
if only("tic"):
    sweep("TICs", "tic", octets(T1, TXT), n=20)
    sweep("TICs, long texts", "tic", tokens(T1, rb"[\r\n ]+"), n=20)
    TL = [l + b"\r\n" for l in T1.split(b"\r\n") if l]
    TH = [l for l in TL if l.split()[0] in ((b"Area", b"Origin", b"From", b"File", b"Desc", b"LDesc", b"CRC", b"Size", b"Path", b"Pw") if T else (b"Area", b"Origin", b"From", b"File", b"Desc", b"CRC", b"Pw"))]
    TH = [l for i, l in enumerate(TH) if l.split()[0] not in [x.split()[0] for x in TH[:i]]]
    sweep("TICs of any of the lines", "tic", subsets(TH, lambda b: b, lambda l: l.split()[0] + b"\r\n" if T or l[:1] in b"AFD" else l), n=20)
    sweep("TICs with one line empty", "tic", [("empty %r" % l[:20], T1.replace(l, l.split()[0] + x + b"\r\n")) for l in TL for x in (b"", b" ", b" x", b" 0", b" -1", b" 99999999999999999999", b" /", b" ..", b" \"", b" 2:", b" 2:1/2.3.4@")], n=20)
ck.finish()
