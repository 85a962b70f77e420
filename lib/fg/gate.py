"""Reference model of ftn2rfc and a reader of the RFC messages it writes."""
import base64, binascii, calendar, email.utils, fnmatch, quopri, re, time, zlib
from . import toss
from .ftn import Node, N, A, parse
from .world import World

NOW = time.time()
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
ZD = {1: "fidonet.org", 2: "fidonet.org", 3: "fidonet.org"}
PY = {"cp866": "cp866", "cp437": "cp437", "koi8-r": "koi8-r", "cp1251": "cp1251", "latin-1": "latin-1", "iso-8859-1": "latin-1",
      "utf-8": "utf-8", "us-ascii": "ascii", "cp850": "cp850", "ascii": "ascii", "koi8-u": "koi8-u"}


# ---- reading what was written ------------------------------------------------
class BadMail(Exception):
    pass


def ew(m):
    cs, enc, s = m.group(1).decode().lower(), m.group(2).upper(), m.group(3)
    if len(m.group(0)) > 75:
        raise BadMail("encoded word of %d characters" % len(m.group(0)))
    if enc == b"B":
        try:
            b = base64.b64decode(s, validate=True)
        except binascii.Error as e:
            raise BadMail("bad base64 in a header: %r (%s)" % (s, e))
    else:
        b = re.sub(rb"=([0-9A-Fa-f]{2})", lambda x: bytes([int(x.group(1), 16)]), s.replace(b"_", b" "))
    return b, cs


EW = re.compile(rb"=\?([^?\s]+)\?([BbQq])\?([^?\s]*)\?=")


def header_text(v, cs="utf-8"):
    """text of an unfolded header value"""
    out = ""
    pend = b""
    pcs = None
    i = 0
    for m in EW.finditer(v):
        gap = v[i:m.start()]
        b, c = ew(m)
        if not (pcs and not gap.strip(b" \t\n")):
            out += pend.decode(PY.get(pcs, pcs)) if pcs else ""
            pend = b""
            out += gap.decode(cs)
        elif pcs != c:
            out += pend.decode(PY.get(pcs, pcs))
            pend = b""
        pend += b
        pcs = c
        i = m.end()
    if pcs:
        out += pend.decode(PY.get(pcs, pcs))
    return out + v[i:].decode(cs)


class Mail:
    """An RFC message (bytes with LF line ends)."""

    def __init__(self, raw, cs="utf-8", raw8=True):
        self.raw = raw
        head, sep, body = raw.partition(b"\n\n")
        if not sep:
            if raw.endswith(b"\n") and raw.count(b"\n\n") == 0:
                raise BadMail("no end of header: %r" % raw[-80:])
        L = []
        for l in head.split(b"\n"):
            if l[:1] in b" \t" and L:
                L[-1] += b"\n" + l
            else:
                L.append(l)
        self.env = None
        if L and L[0].startswith(b"From "):
            self.env = L.pop(0)
        self.h = []
        for l in L:
            m = re.match(rb"([!-9;-~]+):(?: |\n[ \t]|$)", l)
            if not m:
                raise BadMail("malformed header line %r" % l)
            v = l[len(m.group(1)) + 1:]
            if not raw8 and re.search(rb"[\x80-\xff]", l) and not re.match(rb"(Path|Message-ID|References):", l):
                raise BadMail("8 bit header line %r" % l)
            for x in l.split(b"\n")[1:]:
                if not x.strip():
                    raise BadMail("blank continuation line in %r" % l)
            v = v.replace(b"\n", b"")
            try:
                self.h.append((m.group(1).decode(), header_text(v, cs).lstrip(" ")))
            except (UnicodeDecodeError, LookupError) as e:
                raise BadMail("undecodable header %r: %s" % (l, e))
        self.cte = self.get("Content-Transfer-Encoding")
        ct = self.get("Content-Type") or ""
        m = re.search(r"charset=\"?([^\s;\"]+)", ct)
        self.cs = m.group(1).lower() if m else None
        self.bytes = body
        if self.cte == "base64":
            for l in body.split(b"\n"):
                if len(l) > 76 or re.search(rb"[^A-Za-z0-9+/=]", l):
                    raise BadMail("bad base64 line %r" % l)
            try:
                body = base64.b64decode(body.replace(b"\n", b""), validate=True)
            except binascii.Error as e:
                raise BadMail("bad base64 body: %s" % e)
            self.crlf = b"\r\n" in body
            body = body.replace(b"\r\n", b"\n")
        elif self.cte == "quoted-printable":
            for l in body.split(b"\n"):
                if len(l) > 76 + (l[76:] == b"=") or re.search(rb"[^\t -~]|=(?![0-9A-F]{2}|$)|[ \t]$", l):
                    raise BadMail("bad quoted-printable line %r" % l)
            body = quopri.decodestring(body).replace(b"\r\n", b"\n")
        elif self.cte == "7bit":
            if re.search(rb"[\x80-\xff]", body):
                raise BadMail("8 bit text declared as 7bit: %r" % body[:80])
        self.dec = body
        try:
            self.text = body.decode(PY.get(self.cs, self.cs or "latin-1"))
        except (UnicodeDecodeError, LookupError) as e:
            raise BadMail("text is not %s: %s %r" % (self.cs, e, body[:80]))

    def get(self, n, d=None):
        for k, v in self.h:
            if k.lower() == n.lower():
                return v
        return d


def batch(raw):
    """rnews batch -> list of articles"""
    out = []
    i = 0
    while i < len(raw):
        e = raw.find(b"\n", i)
        m = re.fullmatch(rb"#! rnews (\d+)", raw[i:e])
        if e < 0 or not m:
            raise BadMail("bad rnews header at %d: %r" % (i, raw[i:i + 60]))
        n = int(m.group(1))
        a = raw[e + 1:e + 1 + n]
        if len(a) != n:
            raise BadMail("rnews size %d, %d bytes left" % (n, len(a)))
        out.append(a)
        i = e + 1 + n
    return out


# ---- the model ---------------------------------------------------------------
def pfnz(n):
    return ("p%d." % n.point if n.point > 0 else "") + "f%d.n%d.z%d" % (n.node, n.net, n.zone)


class Host:
    def __init__(self, addr, name, opts=""):
        self.node, self.name, self.opts = N(addr), name, opts

    def line(self):
        return "%s %s %s\n" % (A(self.node), self.name, self.opts)


class Alias:
    def __init__(self, user, addr, full, kind=None):
        self.user, self.node, self.full, self.kind = user, N(addr), full, kind

    def line(self):
        return '%s %s "%s"\n' % (self.user, A(self.node), self.full)


class Area:
    def __init__(self, tag, group, opts=""):
        self.tag, self.group, self.opts = tag, group, opts
        o = opts.split()
        g = lambda f: o[o.index(f) + 1] if f in o else None
        self.addr = N(g("-a")) if g("-a") else None
        self.zone = int(g("-z")) if g("-z") else None
        self.enc = None
        for x in o:
            self.enc = {"-8": "8bit", "-Q": "quoted-printable", "-b": "base64"}.get(x, self.enc)
        self.enc = self.enc or "base64"
        self.dist = g("-d")
        self.o = o
        m = re.search(r'-C (\S+)', opts)
        c = (m.group(1) + ":::").split(":") if m else [None] * 4
        self.cdef, self.cout = c[0] or None, c[2] or None
        self.x = re.findall(r'-X "([^"]*)"', opts)

    def line(self):
        return '%s %s %s\n' % (self.tag or '""', self.group, self.opts)

    def maxsize(self, d):
        return int(self.o[self.o.index("-m") + 1]) if "-m" in self.o else d


BOUNCE = {r: "Subject: B\nX-Reason: %s\nX-R: %%R\nX-F: %%f\nX-T: %%t\nX-O: %%O\nX-S: %%s\n\n%%M" % r for r in
          ("insecure", "restricted", "down", "addrinto", "noto", "acl", "acl_netmail")}


class Gate:
    def __init__(self, conf=(), hosts=(), aliases=(), areas=(), args=(), us="2:1/1", akas=None, acl=()):
        self.conf = list(conf)
        self.c = {}
        for l in self.conf:
            k, _, v = l.partition(" ")
            self.c.setdefault(k, []).append(v.strip())
        self.hosts, self.aliases, self.areas, self.args = list(hosts), list(aliases), list(areas), list(args)
        self.akas = [N(x) for x in (akas or [us])]
        self.acl = list(acl)
        self.fqdn = "f1.n1.z2.test.org"
        self.domain = ".n1.z2.test.org"

    def world(self, root):
        al = ""
        k = None
        for a in self.aliases:
            if a.kind and a.kind != k:
                al += a.kind + "\n"
                k = a.kind
            al += a.line()
        f = {"etc/hosts": "".join(h.line() for h in self.hosts), "etc/aliases": al,
             "etc/areas": "".join(a.line() for a in self.areas)}
        if self.acl:
            f["etc/acl"] = "".join(l + "\n" for l in self.acl)
        for r, t in BOUNCE.items():
            f["etc/bounce." + r] = t
        return World(root, conf="".join(l + "\n" for l in self.conf), files=f, address=[A(a) for a in self.akas])

    def has(self, k):
        return k in self.c

    def opt(self, k):
        return self.c.get(k, [None])[0]

    # addresses
    def host(self, n):
        for h in self.hosts:
            if h.node[:3] == n[:3] and (h.node.point == n.point or h.node.point == 0):
                return h

    def inet(self, n, force=False):
        if n is None:
            return "INVALID_FTN_ADDRESS"
        h = self.host(n)
        if h:
            hd = self.opt("HostsDomain") or self.domain
            if h.name == "-":
                return pfnz(n) + hd
            name = h.name[:-1] if h.name.endswith(".") else h.name + hd
            if (force or "-p" in h.opts or h.opts == "y") and n.point > 0 and not h.node.point:
                return "p%d.%s" % (n.point, name)
            return name
        return "%s.%s" % (pfnz(n), ZD.get(n.zone, "fidonet.org"))

    def aka(self, zone):
        for a in self.akas:
            if a.zone == zone:
                return a
        return self.akas[0]

    def ftn_addr(self, name, node):
        """-> user, domain, real; name is text"""
        fb = self.opt("FallbackUsername")
        dom = self.inet(node)
        if fb and any(ord(c) > 127 for c in name):
            user = fb
        else:
            s = "".join("_" if c < " " else c for c in name)
            quote = any(c in '()<>@,;:\\"[]' for c in s)
            user = "".join(c for c in s if c not in '"\\').replace(" ", "." if self.has("DotNames") else "_")
            if quote:
                user = '"%s"' % user
        real = "".join(c for c in name if c not in "<>")
        return [user, dom, real]

    def addr_str(self, a, real=True):
        s = a[0] + ("@" + a[1] if a[1] else "")
        if real and a[2]:
            if (self.opt("RFCAddrMode") or "0")[0] in "<a1":
                return "%s <%s>" % (a[2], s)
            return "%s (%s)" % (s, a[2])
        return s

    @staticmethod
    def rfc_addr(s):
        real = ""
        m = re.match(r"([^<]*)<(.*)>", s)
        if m:
            real, ad = m.group(1), m.group(2)
        else:
            m = re.match(r"([^(]*)\((.*)\)", s)
            if m:
                ad, real = m.group(1), m.group(2)
            else:
                ad = s
        real = re.sub(r'^"? *', "", real.lstrip())
        real = re.sub(r' *"? *$', "", real)
        ad = ad.strip()
        if "@" in ad:
            u, _, d = ad.rpartition("@")
        elif "!" in ad:
            d, _, u = ad.partition("!")
        elif "%" in ad:
            u, _, d = ad.rpartition("%")
        else:
            u, d = ad, ""
        return [u, d, real]

    def in_domain(self, s):
        d = self.rfc_addr(s)[1].lower()
        return d == "" or d == self.domain[1:] or d.endswith(self.domain)

    def alias(self, node, real):
        for a in self.aliases:
            if a.kind != "rfc2ftn" and a.node == node and toss.wild(real.lower(), a.full.lower()):
                return a

    # areas
    def xlate(self, key, s, low):
        t = {}
        for l in self.c.get("AreasXlate", ()):
            a, b = l.split()
            for x, y in zip(a, b):
                t[x if low else y] = y if low else x
        return "".join(t.get(c, c.lower() if low else c.upper()) for c in s)

    def area(self, tag, to):
        for a in self.areas:
            if a.addr != to:
                continue
            if "-H" in a.o:
                if tag.lower().startswith(a.tag.lower()):
                    if "-!" in a.o:
                        return None
                    return a, a.group + self.xlate("AreasXlate", tag[len(a.tag):], True)
            elif tag.lower() == a.tag.lower():
                return None if "-!" in a.o else (a, a.group)

    # text
    def xl(self, l):
        out = bytearray()
        soft = self.has("IgnoreSoftCR") and not self.has("DontIgnore0x8d")
        for c in l:
            if c == 10 or (soft and c == 0x8d):
                continue
            if c == 13:
                c = 10
            elif c < 32 and c not in (9, 12):
                out.append(94)
                c += 64
            out.append(c)
        return bytes(out)

    def chrs(self, v):
        w = v.split()
        if not w:
            return None
        n = w[0].decode("latin-1")
        if len(w) > 1 and w[1][:1] == b"1":
            return {"ASCII": "ascii"}.get(n.upper())
        return n

    def canon(self, cs):
        for l in self.c.get("CharsetAliasesFSC", ()):
            w = l.split()
            if cs in w[1:]:
                return w[0]
        return cs

    def dec(self, b, cs):
        """text of FTN bytes"""
        p = PY.get(cs.lower(), cs)
        try:
            return b.decode(p)
        except UnicodeDecodeError:
            return "".join("?" if self._bad(bytes([x]), p) else bytes([x]).decode(p) for x in b)
        except LookupError:
            return None

    @staticmethod
    def _bad(b, p):
        try:
            b.decode(p)
            return False
        except UnicodeDecodeError:
            return True

    def msgid(self, s, zone0):
        """FTN MSGID (bytes) -> RFC Message-ID, zone (-2 RFC id, -1 unknown)"""
        t = s.decode("latin-1")
        m = re.match(r'"((?:[^"]|"")*)"?', t)
        org = m.group(1).replace('""', '"') if m else re.match(r"\S*", t).group(0)
        if re.fullmatch(r"<.*@.*>", org):
            return org, -2
        m = re.search(r"\d[\d:/.]*", org)
        z = None
        if m:
            k = re.fullmatch(r"(?:(\d+):)?(\d+)/(\d+)(?:\.(\d+))?", m.group(0))
            if k and k.group(1):
                z = int(k.group(1))
        q = "".join("_" if c == " " else "=%02X" % ord(c) if c in '()<>@,;:\\"[]/=_' or ord(c) >= 127 or ord(c) < 32 else c for c in t)
        return "<MSGID_%s@%s>" % (q, "fidonet.org"), (z if z is not None else -1)

    def origid(self, b):
        t = b.decode("latin-1")
        i = t.rfind(">")
        if i < 0:
            return None
        i += 1
        idt = t[:i] if t[i:i + 1].isspace() else t
        return None if re.search(r"[ \t]", idt) else idt

    def message(self, pkt, m):
        """-> dict of the expected message, or None if it isn't gated"""
        e = {}
        b = toss.Body(m.body, pkt.to)
        s_ = lambda x: re.sub(rb"[ \t\r\n]+\Z", b"", x)
        fname, tname, subj = s_(m.frm), s_(m.to), s_(m.subj) or b"(no subject)"
        kl = lambda n: (lambda v: None if v is None else v.rstrip(b"\r\n"))(b.kget(n))
        src = Node(pkt.frm.zone, m.onet, m.onode, 0)
        dst = Node(pkt.to.zone, m.dnet, m.dnode, 0)
        orig = None
        if b.area is None:
            v = (kl("INTL") or b"").decode("latin-1").split()
            if v and toss.addr(v[0]):
                dst = toss.addr(v[0])
            if v[1:] and toss.addr(v[1]):
                src = toss.addr(v[1])
            if kl("FMPT") is not None:
                src = src._replace(point=int(kl("FMPT")))
            if kl("TOPT") is not None:
                dst = dst._replace(point=int(kl("TOPT")))
            orig = src
            up = src
        else:
            up, dst = pkt.frm, pkt.to
            orig = toss.origin_addr(b.origin or None)
            if orig is None and kl("MSGID"):
                w = kl("MSGID").split(b" ")
                if len(w) > 1:
                    orig = toss.addr(w[0].decode("latin-1"))
        rfc = {}
        for l in b.rfc:
            k, _, v = l.rstrip(b"\r\n").partition(b":")
            rfc.setdefault(k.decode().lower(), v.strip(b" \t"))
        text = list(b.text)
        if b.rfc and text and text[0][:1] == b"\r":
            text.pop(0)
        if text and text[-1][:1] == b"\r":
            text.pop()
        # area
        ar = grp = None
        if b.area is not None:
            tag = b.area[5:].rstrip(b"\r\n").lstrip(b" \t").decode("latin-1")
            x = self.area(tag, dst)
            if x:
                ar, grp = x
                enc = ar.enc
                plain = "-nh" in ar.o
                dz = ar.zone or self.akas[0].zone
                us = self.aka(dz)
            else:
                if not self.has("FTNJunkGroup"):
                    return None
                enc, plain, us, dz = "base64", False, self.akas[0], 0
                ar = Area("", "", self.opt("FTNJunkGroupKeys").split(" ", 2)[2]) if self.has("FTNJunkGroupKeys") else Area("", "")
                enc, plain = ar.enc, "-nh" in ar.o
                grp = self.opt("FTNJunkGroup")
        else:
            enc = "7bit"
            for k, v in (("NetMail8bit", "8bit"), ("NetMailQuotedPrintable", "quoted-printable"), ("NetMailQP", "quoted-printable"),
                         ("NetMailBase64", "base64")):
                if self.has(k):
                    enc = v
            plain = self.has("NetMailHeadersPlain")
            us, dz = self.aka(orig.zone), orig.zone
        rk = lambda n: kl("RFC-" + n) if self.has("GateRfcKludge") else None
        cte = rfc.get("content-transfer-encoding", kl("RFC-Content-Transfer-Encoding"))
        if cte is not None and cte.lower().decode() in ("7bit", "8bit", "quoted-printable", "base64"):
            enc = cte.lower().decode()
        # character sets
        cdef = cout = None
        c3 = lambda s: (s.split(":") + [""] * 3)[:3] if s else ["", "", ""]
        if ar is not None:
            cdef, cout = ar.cdef, ar.cout
        else:
            cdef, _, cout = c3(self.opt("NetMailCharset"))
        d = c3(self.opt("DefaultCharset"))
        cdef, cout = cdef or d[0] or "cp866", cout or d[2] or "utf-8"
        cin = None
        if not self.has("IgnoreCHRS"):
            if kl("CODEPAGE") is not None:
                cin = self.chrs(b"CP" + kl("CODEPAGE")[:5])
            else:
                for n in ("CHRS", "CHARSET"):
                    if kl(n) is not None:
                        cin = self.chrs(kl(n))
                        break
        lines = []
        for l in text:
            if l[:1] == b"\1" and not self.has("IgnoreCHRS"):
                k = re.match(rb"\x01(?:CHRS|CHARSET): ", l, re.I)
                if k:
                    cin = self.chrs(l[k.end():].strip()) or cin
                continue
            lines.append(self.xl(l))
        cin = self.canon(cin or cdef)
        if PY.get(cin.lower()) is None:
            cin = self.canon(cdef)
        T = lambda x: self.dec(x, cin)
        fa = self.ftn_addr(T(fname), orig)
        ta = self.ftn_addr(T(tname), dst)
        uucp = ta[2].lower() in ("uucp", "gateway")
        R = {k: T(v) for k, v in rfc.items()}
        rfrom = R.get("from")
        if rfrom is None:
            ra = kl("REPLYADDR")
            skip = False
            if ra is not None:
                k = re.search(rb"[%@](.*)", ra) if b"%" not in ra else re.search(rb"%(.*)", ra)
                skip = bool(k and re.fullmatch(rb"\d.*", k.group(1)))
            if ra is None:
                rfrom = R.get("uucpfrom")
            elif not skip:
                rfrom = T(ra)
        rto = R.get("to")
        if self.has("KillSplit") and kl("SPLIT") is not None:
            return None
        if ar is not None and "-g" in ar.o:
            if rfrom is not None or (kl("PID") or b"").upper().startswith(b"GIGO") or kl("X-FZ-SPLIT") is not None:
                return None
        if rfrom is None:
            a = self.alias(orig, fa[2])
            if a:
                u, _, dm = a.user.partition("@")
                fa[0] = u
                if dm:
                    fa[1] = dm
        mail_to, alias_dom = "", False
        if rto is None:
            a = self.alias(dst, ta[2])
            if a and "@" not in T(tname):
                u, _, dm = a.user.partition("@")
                mail_to = "%s <%s@%s>" % (T(tname), u.replace(" ", "_"), dm) if dm else u
                alias_dom = bool(dm)
            else:
                mail_to = ta[0]
        net = ar is None
        bounce = lambda r, R_=None: dict(kind="bounce", bcs=PY.get(cin, cin), reason=r, to=self.addr_str(fa), R=R_ or "", lines=b"".join(lines),
                                         f=m.frm, t=m.to, O=A4(orig), S=subj)
        if net and "-t" in self.args and rto is not None:
            return bounce("insecure", rto)
        xo = None
        tr = self.opt("TrackerMail")
        if tr and re.match("MsgTrack|Reflex_Netmail_Policeman|TrackM|ITrack|FTrack|O/T-Track", fa[0], re.I):
            xo, mail_to, uucp = mail_to, tr, False
        if self.has("HostsRestricted") and "-i" not in self.args and net and rto is not None and not self.in_domain(rto):
            h = self.host(orig)
            if not h:
                return bounce("restricted", rto)
            if "-d" in h.opts:
                return bounce("down", rto)
        if net and re.search("[@%!]", mail_to):
            if self.has("NoAddressInToField"):
                return bounce("addrinto", mail_to)
            k = re.search("@(.*)", T(tname)) or re.search("%(.*)", T(tname))
            if k and re.fullmatch("[A-Za-z0-9.-]+", k.group(1)):
                mail_to = T(tname)
        elif net and rto is None:
            if uucp:
                return bounce("noto")
            mail_to += "@" + (ta[1] if self.has("UseFTNToAddress") else self.fqdn)
        if rfrom is not None:
            a = self.rfc_addr(rfrom)
            a[2] = a[2] or fa[2]
            fa = a
        to = rto
        if rto is not None:
            if not re.search("[(<]", rto) and ta[2] and not uucp:
                to = "%s (%s)" % (rto, ta[2])
        else:
            to = ta[2] if not net else mail_to
        # ids
        mid = None
        for n in ("ORIGID", "Message-ID"):
            if kl(n) is not None:
                mid = self.origid(kl(n))
                break
        if mid is None and rk("Message-ID") is not None:
            mid = self.origid(rk("Message-ID"))
        if mid is None:
            v = kl("MSGID")
            if v is not None:
                if v.startswith(b"<NOMSGID_"):
                    return None
                mid, z = self.msgid(v, dz)
                if self.has("KillUnknownMSGIDZone") and z >= -1 and z not in ZD:
                    return None
            elif self.has("KillNoMSGID"):
                return None
            else:
                crc = zlib.crc32(fname + tname + subj)
                on = orig or Node(-1, -1, -1, -1)
                mid = "<NOMSGID_%d=3A%d=2F%d.%d_%s_%08x@%s>" % (on.zone, on.net, on.node, on.point, self.date(m.date, kl("TZUTC"), "%y%m%d_%H%M%S"),
                                                              crc ^ self.crcfix, "fidonet.org")
        ref = None
        if kl("ORIGREF") is not None:
            ref = self.origid(kl("ORIGREF"))
        else:
            if rk("References") is not None:
                ref = rk("References").decode("latin-1")
            if kl("REPLY") is not None and not (ref is not None and not net and b" " in kl("REPLY")):
                ref = self.msgid(kl("REPLY"), dz)[0]
        H = []
        add = lambda k, v: H.append((k, v)) if v is not None else None
        D = lambda x: None if x is None else T(self.xl(x))
        e["env"] = self.addr_str(fa, False)
        wall = self.date(m.date, kl("TZUTC"), None)
        e["date"] = wall
        add("From", self.addr_str(fa))
        add("Reply-To", R.get("reply-to", D(rk("Reply-To"))))
        add("User-Agent", D(rk("User-Agent")))
        add("X-NewsReader", D(rk("X-NewsReader")))
        add("Subject", R["subject"] if "subject" in R else D(subj))
        add("Message-ID", mid)
        if net:
            e["kind"] = "mail"
            if kl("RFC-References") is not None and (ref is None or len(ref) != 8):
                ref = kl("RFC-References").decode("latin-1")
            add("References", ref)
            add("To", to)
            if rto is not None:
                add("Cc", R.get("cc"))
                add("Bcc", R.get("bcc"))
            if xo:
                add("X-Orig-To", xo)
            add("Errors-To", self.opt("Errors-To") or self.opt("ErrorsTo"))
            if m.attr & 0x1000:
                add("Return-Receipt-To", self.addr_str(fa, False))
        else:
            e["kind"] = "news"
            add("References", ref)
            path = [self.inet(us, True)]
            if self.inet(up, True) != path[0]:
                path.append(self.inet(up, True))
            path.append(self.inet(orig, True))
            add("Path", "!".join(path + [self.opt("NewsPathTail") or "fidogate!not-for-mail"]))
            cg = None
            for l in self.c.get("CarbonNameGroup", ()):
                w = l.split()
                n = w[0].encode()
                for n in (n, n.replace(b"_", b" ")):
                    pf, pt = (y.lower().startswith(n.lower()) for y in (fname, tname))
                    if pf or pt:
                        break
                else:
                    continue
                cg = w[2] if len(w) > 2 and pf else w[1] if len(w) > 1 and pt else None
                break
            grp = T(grp.encode("latin-1"))
            add("Newsgroups", grp + ("," + cg if cg else ""))
            if cg:
                add("Followup-To", grp)
            add("Distribution", ar.dist)
            add("X-Comment-To", to)
        if b.origin is not None:
            o = D(b.origin.rstrip(b"\r\n"))
            o2 = o[10:] if o.startswith(" * Origin:") else o
            org = self.opt("Organization") or "FIDOGATE"
            if rk("Organization") is not None:
                org = D(rk("Organization"))
            elif self.has("UseOriginForOrganization"):
                k = o2.rfind("(")
                org = (o2[:k] if k >= 0 else o2).strip(" \t") or org
            add("Organization", org)
        add("Lines", str(len(lines)))
        gw = kl("GATEWAY")
        e["gw"] = ", " + gw.decode("latin-1") if gw is not None else ""
        x = self.opt("X-FTN") or ""
        if "f" in x:
            add("X-FTN-From", "%s @ %s" % (T(fname), A4(orig)))
        if net and "t" in x:
            add("X-FTN-To", "%s @ %s" % (T(tname), A4(dst)))
        if 1:
            if "F" in x:
                fl = "".join(n + " " for v, n in ((2, "Cra"), (1, "Prv"), (0x200, "Hld"), (0x10, "Att"), (0x1000, "Req"), (0x4000, "Aud")) if m.attr & v)
                add("X-FTN-Flags", fl or None)
        if "T" in x and b.tear is not None:
            add("X-FTN-Tearline", D(b.tear.rstrip(b"\r\n"))[4:] if b.tear.startswith(b"--- ") else "(none)")
        if "O" in x and b.origin is not None:
            add("X-FTN-Origin", o2.lstrip(" \t"))
        if "V" in x:
            for l in b.via:
                l = D(l[1:].rstrip(b"\r\n"))
                if l.startswith("Via "):
                    add("X-FTN-Via", l[4:])
                elif l.startswith("Recd "):
                    add("X-FTN-Recd", l[5:])
                else:
                    add("X-FTN-Kludge", l[1:])
        if "D" in x:
            add("X-FTN-Domain", "Z%d@fidonet" % dz)
        if "S" in x:
            for l in b.seenby:
                add("X-FTN-Seen-By", T(l.rstrip(b"\r\n"))[9:])
        if "P" in x:
            for l in b.path:
                add("X-FTN-Path", T(l.rstrip(b"\r\n"))[7:])
        if "K" in x:
            for l in b.kl:
                add("X-FTN-Kludge", T(l.rstrip(b"\r\n"))[1:])
        if kl("SPLIT") is not None:
            add("X-SPLIT", T(kl("SPLIT")))
        if ar is not None:
            for l in ar.x:
                k, _, v = l.partition(": ")
                add(k, v)
        body = b"".join(lines)
        if not re.search(rb"[\x80-\xff]", body):
            enc, cs = "7bit", "us-ascii"
        else:
            cs = cout
            if enc == "7bit":
                enc = "8bit"
        e.update(h=H, text=T(body), cte=enc, cs=cs, plain=plain, cout=cout)
        return e

    crcfix = 0

    def date(self, d, tz, fmt):
        """FTN date -> (wall clock as struct, offset minutes)"""
        t = toss.tm(d)
        off = 0
        k = re.fullmatch(rb"([+-]?)(\d\d)(\d\d)", tz or b"")
        if k:
            off = (int(k.group(2)) * 60 + int(k.group(3))) * (-1 if k.group(1) == b"-" else 1)
        if fmt:
            return time.strftime(fmt, time.gmtime(t - off * 60))
        return t - off * 60, off


def A4(n):
    return "INVALID" if n is None else "%d:%d/%d.%d" % n


def same(exp, got, cs):
    """equal, but for characters which the character set hasn't (replaced by any short string)"""
    if exp == got:
        return True
    p = PY.get(cs.lower(), cs)
    try:
        exp.encode(p)
        return False
    except UnicodeEncodeError:
        pass
    P = {0}
    for c in exp:
        try:
            c.encode(p)
            P = {i + 1 for i in P if got[i:i + 1] == c}
        except UnicodeEncodeError:
            P = {i + k for i in P for k in range(1, 7) if i + k <= len(got)}
        if not P:
            return False
    return len(got) in P


VAR = {"received", "date", "x-gateway", "mime-version", "content-type", "content-transfer-encoding", "x-original-date"}


def judge1(e, raw, known=None):
    """compare one expected message with the file written -> list of errors"""
    try:
        m = Mail(raw, PY.get(e.get("cout", "utf-8"), "utf-8") if e.get("plain") else e.get("bcs", "utf-8"),
                 e.get("plain") or e["kind"] == "bounce")
    except BadMail as x:
        return ["malformed: %s in %r" % (x, raw[:600])]
    er = []
    if e["kind"] == "bounce":
        if m.get("X-Reason") != e["reason"]:
            return ["bounce for %r expected, written: %r" % (e["reason"], raw[:300])]
        if m.get("To") != e["to"].lstrip(" ") or m.get("X-R", "") != e["R"]:
            er.append("bounce to %r about %r, expected %r about %r" % (m.get("To"), m.get("X-R"), e["to"], e["R"]))
        if m.bytes != e["lines"]:
            er.append("bounced text %r, expected %r" % (m.bytes[:200], e["lines"][:200]))
        return er
    if m.get("X-Reason"):
        return ["unexpected bounce %r" % raw[:400]]
    if (e["kind"] == "mail") != (m.env is not None):
        er.append("%s expected, written: %r" % (e["kind"], raw[:200]))
    if m.env is not None:
        w = m.env.decode("utf-8", "replace").split(" ")
        if not m.env.decode("utf-8", "replace").startswith("From %s " % e["env"]) and not re.search(rb"[\x80-\xff]", m.env):
            er.append("envelope sender %r, expected %r" % (m.env, e["env"]))
    got = {}
    for k, v in m.h:
        if k.lower() not in VAR:
            got.setdefault(k.lower(), []).append(v)
    exp = {}
    for k, v in e["h"]:
        exp.setdefault(k.lower(), []).append(re.sub("[\r\n]", " ", v))
    sq = lambda l: [x.lstrip(" ").rstrip("\n") for x in l]
    for k in sorted(set(exp) | set(got)):
        a, b = sq(exp.get(k, [])), sq(got.get(k, []))
        if k == "x-ftn-from":
            # with or without the origin line's domain
            b = [re.sub(r"( @ [0-9:/.]+)@[\w.]+$", r"\1", x) for x in b]
        if a != b and not (len(a) == len(b) and all(same(x, y, e.get("cout", "utf-8")) for x, y in zip(a, b))):
            er.append("header %s: %r, expected %r" % (k, got.get(k), exp.get(k)))
    d = m.get("Date")
    p = email.utils.parsedate_tz(d or "")
    if not p:
        er.append("no valid Date header: %r" % d)
    else:
        t, off = e["date"]
        if t > NOW + 86400:
            q = email.utils.parsedate_tz(m.get("X-Original-Date") or "")
            if not q or email.utils.mktime_tz(q) != t:
                er.append("X-Original-Date %r, expected %s" % (m.get("X-Original-Date"), time.ctime(t)))
            if abs(email.utils.mktime_tz(p) - time.time()) > 600:
                er.append("Date %r of a message from the future" % d)
        elif email.utils.mktime_tz(p) != t or p[9] != off * 60:
            er.append("Date %r, expected %s offset %d" % (d, time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(t)), off))
    if m.cte != e["cte"]:
        er.append("Content-Transfer-Encoding %r, expected %r" % (m.cte, e["cte"]))
    if (m.cs or "").lower() != e["cs"].lower():
        er.append("charset %r, expected %r" % (m.cs, e["cs"]))
    if e["text"] is not None and not same(e["text"], m.text, e["cs"]):
        er.append("text %r, expected %r" % (m.text[:300], e["text"][:300]))
    g = m.get("X-Gateway") or ""
    if not (g.startswith("FIDO ") and g.endswith("]" + e["gw"])):
        er.append("X-Gateway %r" % g)
    return er


def run(ck, g, pkts, wid=None, extra=None):
    """run ftn2rfc over packets -> errors, expectations, world"""
    from . import core
    w = g.world(core.worker_id() and "%s/w%s" % (ck.scratch, core.worker_id()) or ck.scratch + "/w0").reset(extra)
    exp = []
    for i, p in enumerate(pkts):
        w.put("bt/pin/%08d.pkt" % (i + 1), p.pack())
        exp.append([g.message(p, m) for m in p.msgs])
    r = w.run(ck.bin("gate/ftn2rfc"), *g.args)
    er = []
    if r.returncode:
        er.append("exit code %d: %s" % (r.returncode, r.stdout[-500:].decode("latin-1")))
    left = [f for f in w.ls("bt/pin")]
    if left:
        er.append("packets left: %s" % left)
    er += compare(g, w, exp)
    return er, exp, w


def outputs(g, w):
    mails = [w.get("spool/outrfc/mail/" + f) for f in w.ls("spool/outrfc/mail")]
    news = []
    for f in w.ls("spool/outrfc/news"):
        d = w.get("spool/outrfc/news/" + f)
        if "-1" in g.args or g.has("SingleArticles"):
            news.append([d])
        else:
            news.append(batch(d))
    return mails, news


def compare(g, w, exp):
    er = []
    tmp = [f for d in ("mail", "news") for f in w.ls("spool/outrfc/" + d) if not f.endswith(".rfc")]
    if tmp:
        er.append("unfinished files: %s" % tmp)
    try:
        mails, news = outputs(g, w)
    except BadMail as x:
        return er + ["news batch: %s" % x]
    em = [e for p in exp for e in p if e and e["kind"] != "news"]
    en = [[e for e in p if e and e["kind"] == "news"] for p in exp]
    en = [p for p in en if p]
    if "-1" in g.args or g.has("SingleArticles"):
        en = [[e] for p in en for e in p]
    if len(em) != len(mails):
        er.append("%d mails written, %d expected; %r" % (len(mails), len(em), [x[:300] for x in mails[:3]]))
    if [len(x) for x in en] != [len(x) for x in news]:
        er.append("news batches of %s articles, expected %s" % ([len(x) for x in news], [len(x) for x in en]))
    if er:
        return er
    for n, (e, d) in enumerate(zip(em, mails)):
        er += ["mail %d: %s" % (n, x) for x in judge1(e, d)]
    for e, d in zip([x for p in en for x in p], [x for p in news for x in p]):
        er += ["news: %s (%r)" % (x, d[-1500:]) for x in judge1(e, d)]
    return er


def go(ck, name, cases):
    """cases: list of (label, Gate, packets)"""
    from . import core

    def one(c):
        label, g, pkts = c
        errs, exp, w = run(ck, g, pkts)
        ev = {}
        for e in (e for p in exp for e in p):
            k = e["kind"] if e else "dropped"
            if e and "reason" in e:
                k += " " + e["reason"]
            ev[k] = ev.get(k, 0) + 1
        return label, errs, sum(len(p.msgs) for p in pkts), ev
    n = k = bad = 0
    ev = {}
    for label, errs, a, b in core.pmap(one, cases, 1 if len(cases) < 64 else 4):
        n, k = n + 1, k + a
        for x, y in b.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 6:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.count("states", k)
    ck.count("transitions", k)
    ck.count("evaluations", n)
    ck.part(name, runs=n, messages=k, outcomes=ev, violating=bad)


