import base64, itertools, os, quopri, re
from fg import core, gate, unit, world
ck = core.Check("M01")
ck.rule = ("every combination of word kinds, word lengths and separators up to the stated bounds put through the real header and body "
           "encoders and decoders (ASan/UBSan build); encoder output is read by an independent strict RFC 2045/2047 reader and must "
           "give the input back, decoder input is written by an independent encoder; non-trivial = one text")
ck.build("asan", har=["h_unit"])
T = ck.thorough
w = world.World(ck.scratch + "/w").reset()
CONF = w.p("etc/fidogate.conf")
PLAIN = "X"


def u8(s):
    return s.encode()


# ---- header encoder -------------------------------------------------------------
def unfold(b):
    if not b.endswith(b"\n") or b"\n\n" in b:
        raise gate.BadMail("bad line ends %r" % b)
    l = b[:-1].split(b"\n")
    for x in l[1:]:
        if x[:1] not in (b" ", b"\t") or not x.strip():
            raise gate.BadMail("bad continuation line %r" % x)
    for x in l:
        if len(x) > 78 and b"=?" in x:
            raise gate.BadMail("line of %d characters" % len(x))
    return b"".join(l)


def je(c, r):
    src, cs = c[1], c[2]
    try:
        text = src.decode(cs)
    except UnicodeDecodeError:
        text = None
    try:
        d = unfold(r[0])
        if text is None:        # wrong text: octets only
            d = re.sub(rb"\?=[ \t]+=\?", b"?==?", d)
            if gate.EW.sub(lambda m: gate.ew(m)[0], d).strip() != src.strip():
                return "reads as %r" % d
            return None
        for m in gate.EW.finditer(d):
            b, k = gate.ew(m)
            if k != cs.lower():
                return "encoded word in %r" % k
            if not c[3].startswith("x"):
                b.decode(cs)
        if re.search(rb"[\x80-\xff]", d):
            return "8 bit header"
        if b"=?" in gate.EW.sub(b" ", d):
            return "broken encoded word"
        if any(d[m.start() - 1:m.start()] not in (b" ", b"\t") or d[m.end():m.end() + 1] not in (b" ", b"\t", b"") for m in gate.EW.finditer(d)):
            return "encoded word not separated"
        if gate.header_text(d).split() != text.split():
            return "reads as %r" % gate.header_text(d)
    except UnicodeDecodeError as x:
        return ("encoded word is not %s by itself: %s" % (cs, x), "word-split")
    except (gate.BadMail, IndexError) as x:
        return str(x)


ALPH = {"?": "?\u0436(_=,", "2": "\u0436\u044f", "3": "\u20ac\u2116", "4": "\U0001f600", "m": "a\u0436b", "1": "xyz"}


def word(kind, n):
    a = ALPH[kind]
    return "".join(a[i % len(a)] for i in range(n))


def encs():
    L = range(1, 46) if not T else range(1, 90)
    for enc in "bq":
        for t in ([b"\x8f" * n for n in range(1, 130)] + [b"\xd0" + b"\x8f" * n for n in range(1, 130)] + [b"\xff\xbf" * n for n in range(1, 60)] + [b"a" * n + b"\xbf" * m for n in range(30, 60) for m in (1, 4, 40)]):
            yield "E", b"Subject: " + t, "utf-8", enc
        for cs in ("utf-8", "koi8-r", "UTF-8"):
            ks = "2m?" if cs != "utf-8" else "2m34?"
            for p in range(0, 76, 1 if T else 2):
                for k in ks:
                    for n in (L if k == "2" or T else list(range(1, 10)) + [20, 30, 40]):
                        h = "Subject: " + ("a" * p + " " if p else "")
                        yield "E", (h + word(k, n)).encode(cs), cs, enc
            for a, b in itertools.product(ks, ks + "1"):
                for p in (0, 5, 20, 40, 55, 60):
                    for n, m in itertools.product(range(1, 26 if T else 13), range(1, 13)):
                        for s in (" ", "  "):
                            yield "E", ("Subject: " + ("a" * p + " " if p else "") + word(a, n) + s + word(b, m)).encode(cs), cs, enc
            for ws in itertools.product([("1", 3), ("1", 30), ("2", 2), ("m", 3), ("m", 17), ("2", 30), ("2", 31), ("1", 70)], repeat=5 if T else 4):
                yield "E", ("X: " + " ".join(word(k, n) for k, n in ws)).encode(cs), cs, enc
            for n in list(range(1, 260)):
                yield "E", ("X: " + "a" * n).encode(cs), cs, enc
                yield "E", ("X: " + "ab " * n).encode(cs), cs, enc
                yield "E", ("X: " + word("2", n)).encode(cs), cs, enc



def encs_lf():
    for c in itertools.islice(encs(), 0, None, 1 if T else 3):
        yield c[0], c[1] + b"\n", c[2], c[3]


unit.sweep(ck, CONF, "header encoder", encs(), je)
unit.sweep(ck, CONF, "header encoder, terminated lines", encs_lf(), je)


# ---- body encoders --------------------------------------------------------------
def jb(c, r):
    raw = b"".join(r)
    if not raw.endswith(b"\n"):
        return "no final line end"
    try:
        m = gate.Mail(b"Content-Type: text/plain; charset=latin-1\nContent-Transfer-Encoding: %s\n\n" %
                      (b"base64" if c[0] == "b" else b"quoted-printable") + raw)
    except gate.BadMail as x:
        return str(x)
    d = m.dec
    if d != c[1] and (c[0] != "q" or c[1].endswith(b"\n") or d != c[1] + b"\n"):
        return "reads as %r" % d[:300]
    if any(len(l) > 77 or b"\n" in l[:-1] for l in r):
        return "line of %d characters" % max(len(l) - 1 for l in r)


LN = [b"", b"a", b"ab", b"foo_bar = x", b"\xd6\xd1\xff", b"=3D", b" lead", b"trail ", b"tab\t", b".", b"From x", b"a\x0cb", b"x" * 73, b"x" * 74,
      b"x" * 75, b"x" * 76, b"x" * 77, b"\xd6" * 25, b"\xd6" * 26, b"y" * 200]


def bodies(n):
    for k in range(1, n + 1):
        for ls in itertools.product(LN, repeat=k):
            t = b"".join(l + b"\n" for l in ls)
            yield t
            if ls[-1]:
                yield t[:-1]
    for k in range(1, 400):
        yield b"z" * k + b"\n"
        yield b"\xd6" * k + b"\n"
        yield b"q\n" * k


def big():
    for n in (32767, 32768, 32769, 65537) + ((40000, 65536, 100000) if T else ()):
        for l in (2, 3, 57, 76, 5000) + ((7, 56, 58, 75, 77, 1000) if T else ()) + ((32766,) if n > 33000 else ()):
            yield (b"x" * (l - 1) + b"\n") * (n // l)


unit.sweep(ck, CONF, "body encoders", ((o, t) for t in itertools.chain(bodies(4 if T else 3), big()) for o in "bq"), jb)


# ---- body decoder ---------------------------------------------------------------
def b64(t, width=76, nl=b"\n"):
    e = base64.b64encode(t)
    return b"".join(e[i:i + width] + nl for i in range(0, len(e), width))


def qp(t, lit, nl=b"\n", low=False):
    """lit: octets written literally"""
    out = b""
    for l in t.split(b"\n")[:-1] if t.endswith(b"\n") else t.split(b"\n"):
        cur = b""
        for i, c in enumerate(l):
            x = bytes([c])
            if not (c in lit and not (c in b" \t" and i == len(l) - 1)):
                x = (b"=%02x" if low else b"=%02X") % c
            if len(cur) + len(x) > 75:
                out += cur + b"=" + nl
                cur = b""
            cur += x
        out += cur + nl
    if not t.endswith(b"\n"):
        out = out[:-len(nl)] + b"=" + nl
    return out


ALL = bytes(c for c in range(32, 127) if c != 61) + b"\t"
SAFE = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
HB = b"MIME-Version: 1.0\nContent-Type: text/plain; charset=%s\nContent-Transfer-Encoding: %s\n\n"


def decs():
    for t in itertools.chain(bodies(3 if T else 2), big()):
        for name, e in (("base64", b64(t)), ("base64", b64(t.replace(b"\n", b"\r\n"))), ("base64", b64(t, 60)), ("base64", b64(t, 4)),
                        ("quoted-printable", qp(t, ALL)), ("quoted-printable", qp(t, SAFE)), ("Quoted-Printable", qp(t, SAFE, low=True)),
                        ("8bit", t), ("BASE64", b64(t))):
            if name == "8bit" and not t.endswith(b"\n"):
                continue
            yield "B", HB % (b"koi8-r", name.encode()), e, b"koi8-r", b"koi8-r", t
    # base64: line ends and characters outside the alphabet may be anywhere, also inside a group of four
    for t in itertools.chain(bodies(2), (b"x" * k + b"\n" + b"\xd6\n" * (k % 5) for k in range(130))):
        for w in (1, 2, 3, 5, 7, 61, 75, 77, 78, 79, 80, 81, 83, 100, 1000):
            for nl in (b"\n", b" \r\n", b"\n\n", b"\n\t"):
                yield "B", HB % (b"koi8-r", b"base64"), b64(t, w, nl), b"koi8-r", b"koi8-r", t
            if base64.b64encode(t).endswith(b"="):
                yield "B", HB % (b"koi8-r", b"base64"), b64(t, w) + b"\n-- \nThe list, http://x.org/\n", b"koi8-r", b"koi8-r", t
    for t in ("\u0436\u0451 \u20ac\n", "\u0436" * 40 + "\n", "ab\n\u0436\n", "\u00ab\u2014\u00bb\n"):
        for src in ("utf-8", "koi8-r", "cp1251", "cp866"):
            for to in ("cp866", "koi8-r", "utf-8"):
                try:
                    b = t.encode(src)
                    x = t.encode(to)
                except UnicodeEncodeError:
                    continue
                for name, e in (("base64", b64(b)), ("quoted-printable", qp(b, SAFE)), ("8bit", b)):
                    for cs in (src, '"%s"' % src, src.upper()):
                        yield "B", HB % (cs.encode(), name.encode()), e, to.encode(), b"latin-1", x
                    yield "B", b"Subject: x\n" + b"Content-Transfer-Encoding: %s\n\n" % name.encode(), e, to.encode(), src.encode(), x


def jd(c, r):
    want = c[5]
    if not r:
        return "not decoded"
    got = b"".join(r[1:])
    if got != want and got != want + b"\n" * (not want.endswith(b"\n")):
        return "text %r, expected %r" % (got[:300], want[:300])
    for l in r[1:]:
        if b"\n" in l[:-1]:
            return "line end inside line %r" % l[:100]


unit.sweep(ck, CONF, "body decoder", decs(), jd)


# ---- multipart ------------------------------------------------------------------
def part(h, t, cte="8bit"):
    e = {"8bit": t, "base64": b64(t), "quoted-printable": qp(t, SAFE)}[cte]
    return h + (b"" if cte == "8bit" else b"Content-Transfer-Encoding: %s\n" % cte.encode()) + b"\n" + e


def multis():
    H = b"MIME-Version: 1.0\nContent-Type: multipart/%s; boundary=\"%s\"\n\n"
    PT = [(b"Content-Type: text/plain; charset=koi8-r\n", True), (b"", True), (b"Content-Type: text/html\n", False),
          (b"Content-Type: image/png\n", False), (b"Content-Type: text/plain;\n\tcharset=\"koi8-r\"\n", True)]
    TX = [b"one\n", b"\xd6_x\n\ntwo\n", b"--notb\n", b"--\n"]
    def body(bd, ps, pre, post, close=True):
        o = pre
        want = b""
        for (h, keep), t, cte in ps:
            o += b"--" + bd + b"\n" + part(h, t, cte)
            want += t if keep else b""
        return o + (b"--" + bd + b"--\n" if close else b"") + post, want
    for bd in (b"BB", b"=_x/y'1"):
        for n in (1, 2) + ((3,) if T else ()):
            for ps in itertools.product([(p, t, e) for p in PT for t in TX[:2 if n > 1 else 4] for e in ("8bit", "base64", "quoted-printable")], repeat=n):
                for pre, post in ((b"", b""), (b"pre\n", b"post\n")) if n < 2 else ((b"pre\n", b""),):
                    o, want = body(bd, ps, pre, post)
                    yield "B", H % (b"mixed", bd), o, b"koi8-r", b"koi8-r", want
                # cut off before the last boundary
                o, want = body(bd, ps, b"", b"", False)
                if o.endswith(b"\n"):
                    yield "B", H % (b"mixed", bd), o, b"koi8-r", b"koi8-r", want
    # nested
    for t in TX:
        inner, wi = body(b"IN", [(PT[0], t, "8bit"), (PT[2], b"<h>\n", "8bit")], b"", b"")
        for ib in (b"IN", b"BBX"):
            i2 = inner.replace(b"IN", ib)
            o = b"--BB\nContent-Type: multipart/alternative; boundary=\"%s\"\n\n%s--BB\n\nlast\n--BB--\n" % (ib, i2)
            yield "B", H % (b"mixed", b"BB"), o, b"koi8-r", b"koi8-r", wi + b"last\n"
    # damaged: must not crash, nothing of the text may be invented
    for o in (b"", b"no boundary\n", b"--BB\n--BB--\n", b"--BB--\n", b"--BB\n", b"--BB\ntext without header end\n--BB--\n", b"--BB\n\n--BB--\n",
              b"--BB\nContent-Type: multipart/mixed\n\nx\n--BB--\n", b"--BB\nContent-Type: multipart/mixed; boundary=\"\"\n\nx\n--BB--\n",
              b"--BB\nContent-Transfer-Encoding: base64\n\n\n--BB--\n", b"--BB\nContent-Transfer-Encoding: base64\n\n!!!!\n--BB--\n",
              b"--BB\nContent-Transfer-Encoding: quoted-printable\n\n=\n--BB--\n", b"--BB\nContent-Transfer-Encoding: quoted-printable\n\n=4\n--BB--\n"):
        yield "B", H % (b"mixed", b"BB"), o, b"koi8-r", b"koi8-r", None
        yield "B", b"MIME-Version: 1.0\nContent-Type: multipart/mixed\n\n", o, b"koi8-r", b"koi8-r", None


def jm(c, r):
    if c[5] is None:
        return None
    if not c[5]:
        return None if b"".join(r[1:]) == b"" else "text %r" % r
    return jd(c, r)


unit.sweep(ck, CONF, "multipart", multis(), jm)


# ---- header decoder -------------------------------------------------------------
def hdecs():
    W = [("p", "abc"), ("p", "(x)"), ("p", "a_b"), ("p", "=?"), ("u", "\u0436\u0451"), ("k", "\u0436\u044f"), ("u", "a b"), ("q", "\u0436_ \u044f?="), ("u", "\u0436"), ("c", "\u0444")]
    def enc(k, t):
        if k == "p":
            return t.encode()
        cs = {"u": "utf-8", "k": "KOI8-R", "q": "utf-8", "c": "windows-1251"}[k]
        b = t.encode(cs)
        if k in "kq":
            return b"=?%s?%s?%s?=" % (cs.encode(), b"Q" if k == "q" else b"q", b"".join(b"_" if x == 32 else bytes([x]) if x in SAFE else b"=%02X" % x for x in b))
        return b"=?%s?%s?%s?=" % (cs.encode(), b"B" if k == "u" else b"b", base64.b64encode(b))
    for n in (1, 2, 3) + ((4,) if T else ()):
        for ws in itertools.product(W, repeat=n):
            for sep in itertools.product((" ", "  ", "\t") if n < 3 else (" ",), repeat=n - 1):
                v = enc(*ws[0])
                t = ws[0][1]
                for a, b, s in zip(ws, ws[1:], sep):
                    v += s.encode() + enc(*b)
                    t += ("" if a[0] != "p" and b[0] != "p" else s) + b[1]
                for to in ("cp866", "utf-8"):
                    for full in ("", "Subject: "):
                        yield "D", full.encode() + v, to, "koi8-r", "Content-Type: text/plain\n", "4096", full + t
    for k, t in W[4:]:
        for to in ("cp866", "utf-8"):
            yield "D", b"u@x.org (" + enc(k, t) + b")", to, "koi8-r", "", "4096", "u@x.org (" + t + ")"
            yield "D", enc(k, t) + b" <u@x.org>", to, "koi8-r", "", "4096", t + " <u@x.org>"
    # no overrun of a small buffer
    for n in range(2, 40):
        for k, t in W:
            yield "D", enc(k, t * 3) + b" " + enc(k, t), "utf-8", "koi8-r", "", str(n), None
            yield "D", enc(k, t * 3) + b" x", "utf-8", "koi8-r", "", str(n), None


def jh(c, r):
    if c[6] is None:
        return None if len(r[0]) < int(c[5]) else "overrun"
    want = c[6].encode(c[2], "replace")
    if r[0].split() != want.split() or (b"  " not in want and b"\t" not in c[1] and r[0] != want and r[0].replace(b"  ", b" ") != want):
        return "reads as %r, expected %r" % (r[0], want)


unit.sweep(ck, CONF, "header decoder", hdecs(), jh)
ck.finish()
