import itertools
from fg import core, gate
from fg.gate import Gate, Host, Area
from fg.ftn import N, Msg, Pkt
ck = core.Check("G02")
ck.rule = ("every sequence of text line kinds up to the stated length, as netmail and echomail, under every character set, encoding and "
           "character option, gated by the real ftn2rfc; header and text are decoded by an independent RFC 2045/2047 reader and compared "
           "with a reference model of the FTN text; non-trivial = one message under one configuration")
ck.build("plain")
T = ck.thorough
go = lambda name, cases: gate.go(ck, name, cases)
US, UP = "2:1/1", "2:1/2"
HOSTS = [Host(UP, "bbs")]


def nm(text, k=b"", fn=b"John Smith", tn=b"Jane Doe", subj=b"Hello"):
    return Msg(N(UP), N(US), tn, fn, subj, b"\1INTL 2:1/1 2:1/2\r\1MSGID: 2:1/2 1\r" + k + text)


def em(text, k=b"", fn=b"John Smith", tn=b"Jane Doe", subj=b"Hello", area=b"ECHO", tail=b"--- Ed 1\r * Origin: Here (2:1/2)\rSEEN-BY: 1/1 2\r\1PATH: 1/2\r"):
    return Msg(N(UP), N(US), tn, fn, subj, b"AREA:" + area + b"\r\1MSGID: 2:1/2 1\r" + k + text + tail)


def pk(ms):
    return [Pkt(N(UP), N(US), list(ms))]


def areas(opts):
    return [Area("ECHO", "echo.one", "-a %s %s" % (US, opts))]


CY = "\u041f\u0440\u0438\u0432\u0435\u0442".encode("cp866")
LINES = [b"\r", b"plain\r", CY + b"\r", b"mixed " + CY + b" = end\r", b"soft\x8dcr\r", b"\x8d\r", b"lf\nin\nside\r", b"\n\r", b"nul\x03ctl\x1b\x7f\r", b"ff\x0cht\tx\r", b" lead\r", b"trail  \r",
         b".\r", b"..\r", b"From x\r", b">From y\r", b"=3D =\r", b"--- tear\r", b" * Origin: o (2:1/2)\r", b"SEEN-BYx\r", b"\1CHRS: KOI8-R 2\r", b"\1inner 1\r", b"a" * 75 + b"\r", b"b" * 76 + b"\r", b"c" * 80 + b"\r",
         b"\xf0" * 24 + b"\r", b"\xf0" * 25 + b"\r", b"\xf0" * 26 + b"\r", b"To: late@x.org\r", b"...\xfe\r", b"\xff\x80\r"]
ELINES = [l for l in LINES if l[:5] != b"SEEN-"]
LAST = [b"", b"no end", CY]
NET = [[], ["NetMail8bit"], ["NetMailQuotedPrintable"], ["NetMailBase64"], ["NetMailQP"], ["NetMailQP", "NetMailCharset cp866:cp866:koi8-r"], ["NetMailBase64", "NetMailCharset koi8-r:koi8-r:cp1251"],
       ["NetMail8bit", "DefaultCharset cp866:cp866:koi8-r"], ["NetMail8bit", "IgnoreCHRS"], ["NetMail8bit", "IgnoreSoftCR"], ["NetMailBase64", "IgnoreSoftCR"], ["NetMail8bit", "DontIgnore0x8d"],
       ["NetMailQP", "IgnoreSoftCR", "DontIgnore0x8d"], ["NetMail8bit", "NetMailHeadersPlain"], ["NetMailBase64", "NetMailHeadersPlain", "DefaultCharset cp437:cp437:iso-8859-1"]]
ECH = [("", []), ("-8", []), ("-Q", []), ("-b", []), ("-8 -C cp866:cp866:koi8-r", []), ("-Q -C koi8-r:koi8-r:cp1251", []), ("-b", ["DefaultCharset cp437:cp437:iso-8859-1"]), ("-8 -nh", []), ("-Q", ["IgnoreSoftCR"]),
       ("-8", ["IgnoreCHRS"]), ("-b -C cp866:cp866:utf-8", ["GateRfcKludge"])]


def seqs(n, pool=LINES, last=True):
    for k in range(0, n + 1):
        for ls in itertools.product(pool, repeat=k):
            for e in LAST[:3 if k < 2 and last else 1]:
                yield b"".join(ls) + e


def chunk(it, n=4000):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


cases = []
for o in NET:
    for b in chunk(seqs(3 if T else 2)):
        cases.append(("netmail %s" % o, Gate(conf=o, hosts=HOSTS), pk(nm(t) for t in b)))
for a, o in ECH:
    for b in chunk(seqs(3 if T else 2, ELINES)):
        cases.append(("echomail %s %s" % (a, o), Gate(conf=o, hosts=HOSTS, areas=areas(a)), pk(em(t) for t in b)))
S = [LINES[i] for i in (0, 1, 3, 4, 6, 9, 16, 17, 18, 20, 21, 25)]
if not T:
    for o in NET[:4]:
        for b in chunk(seqs(3, S)):
            cases.append(("netmail, 3 lines %s" % o, Gate(conf=o, hosts=HOSTS), pk(nm(t) for t in b)))
    for a, o in ECH[:4]:
        for b in chunk(seqs(3, S)):
            cases.append(("echomail, 3 lines %s %s" % (a, o), Gate(conf=o, hosts=HOSTS, areas=areas(a)), pk(em(t) for t in b)))
go("lines", cases)

# character sets announced by the message
KL = [b""] + [b"\1%s %s\r" % (k, v) for k in (b"CHRS:", b"CHARSET:", b"chrs:") for v in (b"CP866 2", b"KOI8-R 2", b"UTF-8 4", b"IBMPC 2", b"LATIN-1 2", b"CP437 2", b"ASCII 1", b"IBMPC 1", b"FIDO 2", b"cp1251", b"", b"NOSUCH 2",
     b"CP866  2  ", b"+7_FIDO 2")] + [b"\1CODEPAGE: 866\r", b"\1CODEPAGE: 1251\r", b"\1CHRS: CP866 2\r\1CODEPAGE: 1251\r", b"\1CODEPAGE: 866\r\1CHRS: KOI8-R 2\r", b"\1CHRS: CP866 2\r\1CHARSET: KOI8-R\r", b"\1CHARSET: KOI8-R\r\1CHRS: CP866 2\r"]
AL = ["CharsetAliasesFSC cp866 IBMPC +7_FIDO FIDO", "CharsetAliasesFSC koi8-r LATIN-1"]
HD = [(b"John Smith", b"Jane Doe", b"Hello"), (CY, b"Jane Doe", b"Re: " + CY), (b"John " + CY, CY + b" Doe", CY + b" x " + CY), (b"a\x03b", b"c\x1bd", b"e\x01f\ng"), (b"\xfe\xff", b"x", b"\x80" * 60)]
TX = [b"", CY + b" text\r", b"plain\r", bytes(range(0x80, 0x100)).replace(b"\x8d", b"").replace(b"\x98", b"") + b"\r"]
U8 = lambda b: b.decode("cp866").encode("utf-8")
KHT = [(k, tuple(map(U8, h)) if b"UTF-8" in k else h, U8(t) if b"UTF-8" in k else t) for k in KL for h in HD for t in TX]
cases = []
for al in ([], AL):
    for o in NET:
        ms = [nm(t, k, *h) for k, h, t in KHT if b"UTF-8" not in k or "IgnoreSoftCR" not in o]
        cases.append(("netmail %s" % (o + al), Gate(conf=o + al, hosts=HOSTS), pk(ms)))
    for a, o in ECH:
        ms = [em(t, k, *h) for k, h, t in KHT if b"UTF-8" not in k or "IgnoreSoftCR" not in o]
        cases.append(("echomail %s %s" % (a, o + al), Gate(conf=o + al, hosts=HOSTS, areas=areas(a)), pk(ms)))
go("character sets", cases)

# lengths
cases = []
for o in NET[:6]:
    ms = [nm(c * n + b"\r" + e) for c in (b"x", b"\xf0", b"x\xf0", b"= ") for n in list(range(0, 200, 1 if T else 3)) + [1000, 4000, 4095, 4096, 4097, 16000, 32000] for e in (b"", b"end\r") if n * len(c) < 32100]
    ms += [nm(b"line\r" * n) for n in (1, 10, 100, 5000)]
    cases.append(("lengths %s" % o, Gate(conf=o, hosts=HOSTS), pk(ms)))
    hs = [nm(b"x\r", b"", (c * 40)[:f], (c * 40)[:t], (c * 80)[:s]) for c in (b"x", b"\xf0", b"x\xf0 ", b"ab \xf0") for f, t, s in itertools.product((1, 10, 35), (1, 20, 35), range(0, 72))]
    cases.append(("header lengths %s" % o, Gate(conf=o, hosts=HOSTS), pk(hs)))
go("lengths", cases)

# octets
OC = [bytes([c]) for c in range(1, 256) if c != 13]
SP = OC if T else [b"\x8f", b"a", b" ", b"=", b"?", b"\n", b"\x1b", b"\x8d", b"."]
PAIR = sorted({x + y for x in OC for y in SP} | {y + x for x in OC for y in SP})
PAIR = [p for p in PAIR if p[:1] != b"\1"]
cases = []
for o in NET[:6] + [["NetMailHeadersPlain"]]:
    for b in chunk(PAIR):
        cases.append(("octets of lines %s" % o, Gate(conf=o, hosts=HOSTS), pk(nm(b"x\r" * (len(t) % 2) + t + b"\r") for t in b)))
    for b in chunk([p for p in PAIR if p.strip(b" \t\n") == p]):
        cases.append(("octets of names %s" % o, Gate(conf=o, hosts=HOSTS), pk(nm(b"x\r", b"", b"J" + t, b"R" + t, b"S" + t) for t in b)))
go("octets", cases)
ck.finish()
