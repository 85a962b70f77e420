"""Reference model of rfc2ftn: what an RFC message has to become in FTN."""
import base64, calendar, email.utils, os, quopri, re, time, zlib
from . import toss, gate
from .ftn import Node, N, A, parse, BadPkt
from .gate import Host, Alias, PY
from .world import World

DOM = {1: ".fidonet.org", 2: ".fidonet.org", 3: ".fidonet.org"}
RFC1 = ("reply-to", "message-id", "references")


def enc_word(s, cs, how):
    b = s.encode(PY.get(cs, cs))
    if how == "B":
        return "=?%s?B?%s?=" % (cs, base64.b64encode(b).decode())
    return "=?%s?Q?%s?=" % (cs, "".join(chr(c) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123) else "_" if c == 32
                                        else "=%02X" % c for c in b))


class R:
    """RFC message: headers [(name, text)], body text; how it is encoded on the wire"""

    def __init__(self, h, body="Text\n", cs=None, cte=None, henc="Q", hcs="utf-8", fold=False, ct=None, eol="\n"):
        self.h, self.body, self.cs, self.cte, self.henc, self.hcs, self.fold = list(h), body, cs, cte, henc, hcs, fold
        self.ct, self.eol = ct, eol

    def all(self):
        h = list(self.h)
        if self.cs or self.cte or self.ct:
            h.append(("MIME-Version", "1.0"))
            if self.cs or self.ct:
                h.append(("Content-Type", (self.ct or "text/plain") + ("; charset=" + self.cs if self.cs else "")))
            if self.cte:
                h.append(("Content-Transfer-Encoding", self.cte))
        return h

    def get(self, n):
        for k, v in self.all():
            if k.lower() == n.lower():
                return v

    def gets(self, n):
        return [v for k, v in self.all() if k.lower() == n.lower()]

    def raw(self):
        o = b""
        for k, v in self.all():
            if any(ord(c) > 126 for c in v):
                if self.henc == "8":
                    v = v.encode(PY.get(self.hcs, self.hcs))
                else:
                    # words with other characters become encoded words, a comment's parentheses and addresses stay
                    L = re.split(r"( |\(|\)|<[^>]*>|,|\")", v)
                    out = ""
                    for i, w in enumerate(L):
                        if any(ord(c) > 126 for c in w):
                            w = enc_word(w, self.hcs, self.henc)
                            # the blank between two encoded words is not text: put it into the second
                            m = re.search(r"\?= $", out)
                            if m and L[i - 1] == " ":
                                w = enc_word(" " + L[i], self.hcs, self.henc)
                        out += w
                    v = out.encode("ascii")
            else:
                v = v.encode("ascii")
            l = k.encode() + b": " + v
            if self.fold:
                l = l.replace(b" ", b"\n ", 2).replace(b"\n ", b" ", 1)
            o += l + b"\n"
        b = self.body.encode(PY.get(self.cs, self.cs or "utf-8"))
        if self.cte == "base64":
            b = base64.encodebytes(b.replace(b"\n", b"\r\n"))
        elif self.cte == "quoted-printable":
            b = quopri.encodestring(b)
        return (o + b"\n" + b).replace(b"\n", self.eol.encode())


class RA(gate.Area):
    def __init__(self, tag, group, opts=""):
        super().__init__(tag, group, opts)
        m = re.search(r"-C (\S+)", opts)
        self.charset = m.group(1) if m else None
        m = re.search(r'-o (?:"([^"]*)"|(\S+))', opts)
        self.origin = (m.group(1) or m.group(2)) if m else None


class RG(gate.Gate):
    """rfc2ftn under a configuration"""

    def __init__(self, conf=(), hosts=(), aliases=(), areas=(), args=(), akas=("2:1/1",), uplinks=("2:1/10",), acl=("* *", "netmail", "* *"),
                 areasbbs=None, rargs=()):
        conf = list(conf) + ["Uplink " + u for u in uplinks]
        super().__init__(conf=conf, hosts=hosts, aliases=aliases, areas=areas, args=args, akas=akas, acl=acl)
        self.uplinks = [N(u) for u in uplinks]
        self.areasbbs = areasbbs
        self.gw = N(self.opt("Gateway")) if self.has("Gateway") else None
        self.rargs = list(rargs)

    def world(self, root):
        w = super().world(root)
        if self.areasbbs is not None:
            w.files["var/areas.bbs"] = "Test System\n" + "".join(l + "\n" for l in self.areasbbs)
        return w

    # ---- charsets
    def charset(self, m, area):
        """-> name for the FTN side, kludge text"""
        ks = [k for k in m.gets("X-FTN-Kludge") if k.startswith("CHRS:")]
        ftn = None
        if ks:
            p = ks[0].split()
            ftn = p[1] if len(p) > 1 else None
        if not ftn:
            s = None
            if area is not None:
                s = area.charset
            elif self.has("NetMailCharset"):
                s = self.opt("NetMailCharset")
            for c in (s, self.opt("DefaultCharset")):
                p = (c or "").split(":")
                if len(p) > 1 and p[1]:
                    ftn = p[1]
                    break
        ftn = ftn or "us-ascii"
        name = ftn
        for l in self.c.get("CharsetNameMap", ()):
            a, b = l.split()
            if a == ftn:
                name = b
        return ftn, "%s %d" % (name.upper(), 4 if ftn.lower() == "utf-8" else 2)

    # ---- addresses
    def pick(self, zone):
        for i, a in enumerate(self.akas):
            if a.zone == zone:
                return a, self.uplinks[i] if i < len(self.uplinks) else Node(0, 0, 0, 0)
        return self.akas[0], self.uplinks[0]

    def pfnz(self, s):
        v = {}
        p = s.split(".")
        if p and p[-1] == "":
            p.pop()
        for x in p:
            m = re.fullmatch(r"([pfnzPFNZ])(\d+)", x)
            if not m:
                return None
            v[m.group(1).lower()] = int(m.group(2))
        if "n" not in v or "f" not in v:
            return None
        return Node(v.get("z", self.akas[0].zone), v["n"], v["f"], v.get("p", 0))

    def from_inet(self, d):
        """Internet domain -> FTN address"""
        hd = self.opt("HostsDomain") or self.domain
        m = re.match(r"[pP](\d*)\.", d)
        point, rest = (int(m.group(1) or 0), d[m.end():]) if m else (None, d)
        for cand in (rest, rest + self.domain, rest + hd):
            for h in self.hosts:
                name = None if h.name == "-" else h.name[:-1] if h.name.endswith(".") else h.name + hd
                if name and name.lower() == cand.lower():
                    n = h.node
                    return n._replace(point=point) if not n.point and point is not None else n
        for suf in ["", ".f1", "." + self.fqdn, self.domain, hd] + [".fidonet.org"]:
            if suf == "" or (d.lower().endswith(suf.lower()) and len(d) > len(suf)):
                n = self.pfnz(d[:len(d) - len(suf)])
                if n and d:
                    return n
        return None

    @staticmethod
    def ftn(s):
        m = re.fullmatch(r"(\d+):(\d+)/(\d+)(?:\.(\d+))?", s)
        return Node(int(m.group(1)), int(m.group(2)), int(m.group(3)), int(m.group(4) or 0)) if m else None

    def node_of(self, dom):
        return self.from_inet(dom) or self.ftn(dom)

    @staticmethod
    def cvt(s):
        """user name -> FTN name"""
        if "%" in s:
            i = s.rindex("%")
            return s[:i] + "@" + s[i + 1:]
        keep = s[:1].isupper()                  # starts with a capital: the case of all words is left alone
        us = any(c in "_ @" for c in s)
        out = ""
        up = True
        for c in s:
            if c in "_.":
                out += "." if c == "." and us else " "
                up = True
            else:
                out += c.upper() if up and not keep and c.isascii() else c
                up = False
        return out

    def name_of(self, a):
        n = a[2] or a[0]
        if n.startswith('"'):
            n = n[1:]
            if n.endswith('"'):
                n = n[:-1]
        return n if a[2] else self.cvt(n)

    # ---- sender and recipient
    def sender(self, m):
        f, r = m.get("From"), m.get("Reply-To")
        a = self.rfc_addr(f) if f else None
        if r:
            b = self.rfc_addr(r)
            if not a:
                a = b
            elif not self.has("DontUseReplyTo"):
                if b[2] or (b[0].lower(), b[1].lower()) != (a[0].lower(), a[1].lower()):
                    a = b
        return a

    def find_alias(self, node, user):
        for a in self.aliases:
            if a.kind != "ftn2rfc" and a.user.split("@")[0].lower() == user.lower() and a.node == node:
                return a

    def from_(self, a, addr):
        """-> name, node, alias?"""
        al = self.find_alias(addr, a[0])
        if al and "@" in al.user:
            al = None
        if not al:
            for x in self.aliases:
                if x.kind != "ftn2rfc" and x.user.lower() == "%s@%s" % (a[0].lower(), a[1].lower()):
                    al = x
                    break
        if al:
            return (a[2] if al.full == "*" else al.full), al.node, al
        if self.has("ForceRFCAddrInFrom"):
            return "%s@%s" % (a[0], a[1]), addr, None
        return self.name_of(a), addr, None

    def to(self, m, a):
        """netmail recipient -> (name, node, is_ftn) or error text"""
        node = self.node_of(a[1])
        if node:
            err = None
            h = self.host(node)
            if h:
                if "-d" in h.opts.split() and not self.in_domain(m.get("From") or ""):
                    err = "down"
            elif self.has("HostsRestricted") and "-i" not in self.args:
                err = "not registered"
            if node.zone not in DOM:
                err = "zone"
            if err:
                return err
            name = self.name_of(a)
            isf = True
        elif self.gw:
            node, name, isf = self.gw, "UUCP", False
        else:
            return "unknown"
        al = self.find_alias(node, name)
        if al and "@" not in al.user:
            return al.full, al.node, isf
        if name.lower() == "postmaster":
            name = "Sysop"
        return name, node, isf

    def news_to(self, m):
        t = m.get("X-Comment-To")
        if not t:
            L = m.body.split("\n")
            i = 0
            while i < len(L) and not L[i].strip():
                i += 1
            if i < len(L):
                one = L[i].strip()
                if i + 1 < len(L) and L[i + 1].strip() and L[i + 1].lstrip()[:1] not in (">", "|", ":"):
                    one += " " + L[i + 1].strip()
                for rx in self.c.get("Regex1stLine", ()):
                    x = re.search(rx, one)
                    if x:
                        t = x.group(1)
                        break
        if not t:
            return "All"
        a = self.rfc_addr(t)
        if not a[2] and a[0] and not a[1]:
            a[2] = a[0]
        return self.name_of(a)

    # ---- dates
    @staticmethod
    def date(m):
        d = m.get("Date")
        p = email.utils.parsedate_tz(d) if d else None
        if not p:
            return None, None
        off = p[9]
        t = calendar.timegm(p[:6] + (0, 0, 0)) - (off or 0)
        z = re.search(r" ([+-]\d{4})( \([^)]*\))?$", d)
        tz = z.group(1) if z else "+0000" if re.search(r" (GMT|UTC)$", d) else None
        loc = t + (off if tz else 0)
        g = time.gmtime(loc)
        return "%02d %s %02d  %02d:%02d:%02d" % (g.tm_mday, gate.MON[g.tm_mon - 1], g.tm_year % 100, g.tm_hour, g.tm_min, g.tm_sec), tz

    # ---- X-Flags
    def flags(self, m, news):
        f = (m.get("X-Flags") or "").lower()
        if news:
            return f
        pol = (self.opt("XFlagsPolicy") or "n")[0].lower()
        if pol in "n0":
            return ""
        if pol in "s1":
            d = self.rfc_addr(m.get("From") or "")[1].lower()
            if not m.get("From") or d not in ("", self.fqdn) or len(m.gets("Received")) > 1:
                return ""
        return f

    # ---- access rules
    def allowed(self, a, kind, what):
        email = "%s@%s" % (a[0], a[1]) if a[1] else a[0]
        pats = None
        k, g = "echomail", "rfc2ftn"
        for l in self.acl:
            w = l.split()
            if w[0] == "PostingNotAllowedNotify":
                continue
            if w[0].lower() in ("netmail", "echomail"):
                k = w[0].lower()
            elif w[0].lower() in ("rfc2ftn", "ftn2rfc"):
                g = w[0].lower()
            elif g == "rfc2ftn" and k == kind and toss.wild(email, w[0]):
                pats = w[1].split(",")
        r = False
        for p in pats or ():
            if p.startswith("!"):
                if toss.wild(what, p[1:]):
                    r = False
            elif toss.wild(what, p):
                r = True
        return r

    def notify(self, a):
        email = "%s@%s" % (a[0], a[1]) if a[1] else a[0]
        r = False
        for l in [l.split(None, 1)[1] for l in self.acl if l.startswith("PostingNotAllowedNotify")][-1:]:
            for p in l.split(","):
                if p.startswith("!"):
                    if toss.wild(email, p[1:]):
                        r = False
                elif toss.wild(email, p):
                    r = True
        return r

    # ---- areas
    def area_of(self, group):
        for a in self.areas:
            if "-H" in a.o:
                if group.lower().startswith(a.group.lower()) and group[:1] == a.group[:1]:
                    tag = a.tag + self.xlate("AreasXlate", group[len(a.group):], False)
                    return None if "-!" in a.o else (a, tag)
            elif a.group.lower() == group.lower() and group[:1] == a.group[:1]:
                return None if "-!" in a.o else (a, a.tag)
        return None

    # ---- the text lines in front of the body
    def head_lines(self, m, news, isf, toaddr, alias, fl):
        L = []
        if self.gw and not news and not isf:
            L.append("To: " + self.addr_str(toaddr))
        if "n" not in fl and not self.has("NoFromLine") and not (alias and self.has("NoFSC0035ifAlias")):
            if m.get("From"):
                L.append("From: " + m.get("From"))
            if m.get("Reply-To"):
                L.append("Reply-To: " + m.get("Reply-To"))
            if not news:
                s = m.get("Sender") or m.get("Resent-From")
                if s:
                    L.append("Sender: " + s)
                    if m.get("To"):
                        L.append("Header-To: " + m.get("To"))
                    if m.get("Cc"):
                        L.append("Header-Cc: " + m.get("Cc"))
            L.append("")
        elif L:
            L.append("")
        return L

    def body_lines(self, m):
        b = m.body
        if not b:
            return []
        if b.endswith("\n"):
            b = b[:-1]
        out = []
        for l in b.split("\n"):
            if l.startswith("--- "):
                l = "-+- " + l[4:]
            elif l.startswith(" * Origin:"):
                l = " + Origin:" + l[10:]
            elif l.startswith("SEEN-BY"):
                l = "SEEN+BY" + l[7:]
            out.append(l)
        return out

    def one(self, m, rcpt=None, area=None, tag=None, addr=None, uplink=None):
        """expected FTN message(s) for one destination"""
        e = {"split": None}
        news = area is not None
        fl = self.flags(m, news)
        a = self.sender(m)
        if news:
            name_to, isf = self.news_to(m), False
            toaddr = None
            prep = None
        else:
            toaddr = self.rfc_addr(rcpt)
            name_to, node_to, isf = self.to(m, toaddr)
            addr, uplink = self.pick(node_to.zone)
        name_from, node_from, al = self.from_(a, addr if not news else self.prep_addr)
        e["alias"] = al
        cs, chrs = self.charset(m, area)
        e["cs"] = cs
        e["kind"] = "news" if news else "mail"
        e["name_to"], e["name_from"] = name_to, name_from
        e["from"], e["to"] = (addr, uplink) if news else (node_from, node_to)
        e["subj"] = m.get("Subject") if m.get("Subject") is not None else "(no subject)"
        e["date"], tz = self.date(m)
        attr = 0
        if not news:
            attr = 1
            for c in fl:
                attr |= {"c": 2, "p": 1, "h": 0x200, "f": 0x10, "r": 0x1000, "d": 0x400, "a": 0x4000}.get(c, 0)
            if m.get("Return-Receipt-To") and not self.has("DontProcessReturnReceiptTo"):
                attr |= 0x1000
        e["attr"] = attr
        k = []
        if news:
            e["area"] = tag
        else:
            e["area"] = None
            f0, t0 = e["from"]._replace(point=0), e["to"]._replace(point=0)
            k.append("\1INTL %s %s" % (A(t0), A(f0)))
            if e["from"].point:
                k.append("\1FMPT %d" % e["from"].point)
            if e["to"].point:
                k.append("\1TOPT %d" % e["to"].point)
        e["idnode"] = node_from if self.has("EchogateAlias") or not news else addr
        e["fl"] = fl
        e["mid"] = m.get("Message-ID")
        e["refs"] = m.get("References") or m.get("In-Reply-To")
        quiet = "n" in fl
        if not self.has("NoFSC0035") and not quiet and not (al and self.has("NoFSC0035ifAlias")):
            if self.has("ReplyAddrIfmailTX"):
                nf = cut(name_from, 35, cs).decode(PY.get(cs.lower(), cs), "surrogateescape")
                k.append("\1REPLYADDR: %s <%s>" % (nf, self.addr_str(a, False)))
                k.append("\1REPLYTO: %s UUCP" % A(addr))
            else:
                k.append("\1REPLYADDR %s" % self.addr_str(a))
                nf = cut(name_from, 35, cs).decode(PY.get(cs.lower(), cs), "surrogateescape")
                k.append("\1REPLYTO %s %s" % (A(addr), nf))
        if "f" in fl:
            k.append("\1FLAGS KFS")
        if not self.has("NoChrsKludge"):
            k.append("\1CHRS: " + chrs)
        lvl = int(self.opt("RFCLevel") or 0)
        if news and "-R" in area.o:
            lvl = int(area.o[area.o.index("-R") + 1])
        if not quiet:
            if not self.has("NoRfcKludge"):
                k.append("\1RFC: %d 0" % lvl)
            for n, v in m.all():
                if (lvl == 1 and n.lower() in RFC1) or lvl == 2:
                    k.append("\1RFC-%s: %s" % (n, v))
            if m.ct and lvl > 0 and not m.ct.lower().startswith("text/plain"):
                k += ["\1RFC-MIME-Version: 1.0", "\1RFC-Content-Type: " + m.get("Content-Type"), "\1RFC-Content-Transfer-Encoding: 8bit"]
            if not self.has("NoGatewayKludge"):
                k.append("\1GATEWAY: RFC1036/822 %s [FIDOGATE @VER@]%s" % (self.fqdn, ", " + m.get("X-Gateway") if m.get("X-Gateway") else ""))
        if self.has("XFromKludge"):
            k.append("\1X-From: " + self.addr_str(a))
        for x in m.gets("X-FTN-Kludge"):
            if not x.startswith("CHRS:"):
                k.append("\1" + x)
        if self.has("UseTZUTCKludge"):
            k.append("\1TZUTC: " + (tz or "+0000").lstrip("+"))
        e["kludges"] = k
        e["head"] = self.head_lines(m, news, isf, toaddr, al, fl)
        e["body"] = self.body_lines(m)
        tear = None
        if self.has("UseXHeaderForTearline"):
            for n in ("X-FTN-Tearline", "X-Mailer", "User-Agent", "X-Newsreader", "X-GateSoftware", "X-HTTP-USER-AGENT"):
                if m.get(n) is not None:
                    tear = "--- " + m.get(n)
                    break
        t = [tear or "--- FIDOGATE @VER@"]
        if news:
            org = area.origin or self.opt("Origin") or None
            if org:
                org = org.strip('"')
            if self.has("UseOrganizationForOrigin") and m.get("Organization"):
                org = m.get("Organization")
            oa = A(node_from if self.has("EchogateAlias") else addr)
            e["origin"] = (org, oa)
            t.append(None)
            fourd = self.has("EchoMail4D") and addr.point
            me = "%d/%d" % (addr.net, addr.node) + (".%d" % addr.point if fourd else "")
            sb = "SEEN-BY: " + me
            if not addr.point and uplink.zone:
                if uplink.net != addr.net:
                    sb += " %d/%d" % (uplink.net, uplink.node)
                elif uplink.node != addr.node:
                    sb += " %d" % uplink.node
            t += [sb, "\1PATH: " + me]
        else:
            t.append("\1Via %s @@DATE@ FIDOGATE/rfc2ftn" % A(addr))
        e["tail"] = t
        e["max"] = (area.maxsize(self.maxmsg()) if news else self.maxmsg())
        e["pkt"] = (addr, uplink)
        return e

    def maxmsg(self):
        v = self.opt("MaxMsgSize")
        return int(v) if v and int(v) > 0 else 14 * 1024

    def limit(self, area):
        v = int(self.opt("LimitMsgSize") or 0)
        if area is not None and "-L" in area.o:
            v = int(area.o[area.o.index("-L") + 1])
        return max(v, 0)

    def mail(self, m, rcpt):
        a = self.rfc_addr(rcpt)
        if not a[0]:
            return None
        r = self.to(m, a)
        if isinstance(r, str):
            return {"kind": "bounce", "why": r}
        s = self.sender(m)
        lim = self.limit(None)
        if lim and self.size(m) > lim:
            return {"kind": "bounce", "why": "size"}
        if not self.allowed(s, "netmail", A(r[1])):
            return {"kind": "refused", "notify": self.notify(s), "to": s}
        return self.one(m, rcpt)

    def size(self, m):
        b = m.raw().partition(b"\n\n")[2]
        return len(b) + b.count(b"\n") + (0 if b.endswith(b"\n") or not b else 1)

    def news(self, m):
        """-> list of expectations"""
        if m.get("Control"):
            return []
        if m.get("Newsgroups") is None:
            return [{"kind": "bounce", "why": "no newsgroups"}]
        out = []
        gs = [x.strip() for x in m.get("Newsgroups").split(",")]
        x = len(gs) > 1
        s = self.sender(m)
        for g in gs:
            r = self.area_of(g)
            if not r:
                continue
            a, tag = r
            zone = a.zone or self.akas[0].zone
            addr = a.addr
            # address of the area: AREAS.BBS, then AREAS
            bb = None
            for l in self.areasbbs or ():
                w = l.split()
                if w[1].lower() == tag.lower() and not bb:
                    bb = l
            if bb:
                zone, ba, links = self.bbs(bb)
                addr = ba or addr
                if not ba and links:
                    addr = self.pick(links[0].zone)[0]
            if addr:
                up = self.pick(addr.zone)[1]
            else:
                addr, up = self.pick(zone)
            self.prep_addr = addr
            if self.has("CheckAreasBBS"):
                if not bb:
                    continue
                links = self.bbs(bb)[2]
                if len(links) - (1 if links[:1] == [addr] else 0) <= 0:
                    continue
            if x and "-x" in a.o:
                continue
            if x and "-l" in a.o and not self.local_x(s):
                continue
            if not self.allowed(s, "echomail", self.group(a, g)):
                out.append({"kind": "refused", "notify": self.notify(s), "to": s})
                continue
            lim = self.limit(a)
            if lim and self.size(m) > lim:
                continue
            out.append(self.one(m, area=a, tag=tag, addr=addr, uplink=up))
        return out

    @staticmethod
    def group(a, g):
        return g if "-H" in a.o else a.group

    def bbs(self, l):
        w = l.split()[2:]
        zone = addr = None
        links = []
        i = 0
        while i < len(w):
            if w[i] == "-a":
                addr = N(w[i + 1])
                i += 2
            elif w[i] == "-z":
                zone = int(w[i + 1])
                i += 2
            elif w[i].startswith("-"):
                i += 1
            else:
                x = w[i]
                if ":" not in x:
                    p = links[-1]
                    x = "%d:%s" % (p.zone, x) if "/" in x else "%d:%d/%s" % (p.zone, p.net, x)
                links.append(N(x))
                i += 1
        return zone or (links[0].zone if links else self.akas[0].zone), addr, links

    def local_x(self, s):
        if s[1] == "" or s[1].lower() == self.fqdn:
            return True
        r = False
        for p in (self.opt("AddressIsLocalForXPost") or "").replace(",", " ").split():
            if p.startswith("!"):
                if toss.wild("%s@%s" % (s[0], s[1]), p[1:]):
                    r = False
            elif toss.wild("%s@%s" % (s[0], s[1]), p):
                r = True
        return r


# ---- judging ------------------------------------------------------------------
def enc(s, cs):
    return s.encode(PY.get(cs.lower(), cs), "surrogateescape")


def cut(s, n, cs):
    """FTN field of at most n octets"""
    return enc(s, cs)[:n]


def judge(g, e, msgs):
    """e: expectation of one message, msgs: its parts in order -> errors"""
    er = []
    cs = e["cs"]
    n = len(msgs)
    got = []
    mids = []
    seqs = set()
    for i, m in enumerate(msgs):
        L = m.body.split(b"\r")
        if L[-1] != b"":
            er.append("last line without CR: %r" % L[-1])
        else:
            L.pop()
        if e["area"] is not None:
            if not L or L[0] != b"AREA:" + enc(e["area"], cs):
                er.append("first line %r, not AREA:%s" % (L[:1], e["area"]))
            L = L[1:]
        # the LF of a header line is no line of its own
        L = [x[1:] if x[:1] == b"\n" and j and L[j - 1].lstrip(b"\n").startswith(b"\1RFC-") else x for j, x in enumerate(L)]
        # kludges in front of the text
        k = []
        while L and L[0][:1] == b"\1" and not L[0].startswith(b"\1Via"):
            k.append(L.pop(0).rstrip(b"\n"))
        if any(b"\n" in x for x in L):
            er.append("LF in the text: %r" % [x for x in L if b"\n" in x][:2])
        mid = [x for x in k if x.startswith(b"\1MSGID:")]
        rep = [x for x in k if x.startswith(b"\1REPLY:")]
        k = [x for x in k if x not in mid and x not in rep]
        spl = [x for x in k if x.startswith(b"\1SPLIT:")]
        k = [x for x in k if x not in spl]
        want = [enc(x, cs) for x in e["kludges"]]
        k = [re.sub(rb"\[FIDOGATE [^\]]*\]", b"[FIDOGATE @VER@]", x) for x in k]
        if sorted(k) != sorted(want):
            er.append("kludges %r, not %r" % ([x for x in k if x not in want], [x for x in want if x not in k]))
        er += ids(g, e, mid, rep)
        mids += mid
        # header fields
        subj = e["subj"] if i == 0 else "%02d: %s" % (i + 1, e["subj"])
        exp = (e["from"].net, e["from"].node, e["to"].net, e["to"].node, e["attr"], cut(e["name_to"], 35, cs),
               cut(e["name_from"], 35, cs), cut(subj, 71, cs))
        g0 = (m.onet, m.onode, m.dnet, m.dnode, m.attr, m.to, m.frm, m.subj)
        if g0 != exp:
            er.append("message fields %r, not %r" % (g0, exp))
        if e["date"] is not None and m.date != e["date"].encode():
            er.append("date %r, not %r" % (m.date, e["date"]))
        # lines in front of the body
        h = [enc(x, cs) for x in e["head"]]
        if L[:len(h)] != h:
            er.append("text starts %r, not %r" % (L[:len(h)], h))
        L = L[len(h):]
        if n > 1 and not g.has("NoFSC0047"):
            # the kludge stands after the head lines if there are any
            if not spl and L and L[0].startswith(b"\1SPLIT:"):
                spl = [L.pop(0)]
            x = re.fullmatch(rb"\x01SPLIT: (\d\d \w{3} \d\d \d\d:\d\d:\d\d) *@@?(\d+/\d+) +(\d+) +(\d\d)/(\d\d) \+{11}", spl[0] if spl else b"")
            a = e["pkt"][0]
            if not x or x.group(2) != b"%d/%d" % (a.net, a.node) or int(x.group(4)) != i + 1 or int(x.group(5)) != n:
                er.append("part %d of %d: SPLIT %r" % (i + 1, n, spl))
            else:
                seqs.add((x.group(1), x.group(3)))
        elif n > 1:
            if L[:2] != [b" * Large message split by FIDOGATE: part %02d/%02d" % (i + 1, n), b""]:
                er.append("part %d of %d starts with %r" % (i + 1, n, L[:2]))
            L = L[2:]
        elif spl:
            er.append("SPLIT in an unsplit message: %r" % spl)
        # the end
        t = e["tail"]
        T = L[len(L) - len(t):]
        L = L[:len(L) - len(t)]
        for w, x in zip(t, T):
            if w is None:
                org, oa = e["origin"]
                want = b" * Origin: " + (enc(org, cs) if org is not None else b"")
                end = b" (" + oa.encode() + b")"
                if len(want + end) > 79:
                    want = want[:79 - len(end)]
                if org is not None and x != want + end:
                    er.append("origin %r, not %r" % (x, want + end))
                elif org is None and not (x.startswith(want) and x.endswith(end)):
                    er.append("origin %r" % x)
                continue
            x = re.sub(rb"^--- FIDOGATE .*", b"--- FIDOGATE @VER@", x)
            x = re.sub(rb"^\x01Via (\S+) @\d{8}\.\d{6}(\.UTC|\.\d{4})? ", lambda m: b"\1Via " + m.group(1) + b" @@DATE@ ", x)
            if x != enc(w, cs):
                er.append("ends with %r, not %r" % (x, w))
        got.append(L)
    body = [enc(x, cs) for x in e["body"]]
    flat = [x for L in got for x in L]
    if flat != body:
        d = next((j for j in range(min(len(flat), len(body))) if flat[j] != body[j]), min(len(flat), len(body)))
        er.append("text differs at line %d of %d: %r, not %r" % (d, len(body), flat[d:d + 3], body[d:d + 3]))
    mx = e["max"]
    if mx:
        size = lambda L: sum(len(x) + 2 for x in L)
        for i, L in enumerate(got):
            if n > 1 and not L:
                er.append("part %d of %d is empty" % (i + 1, n))
            if n > 1 and i < n - 1 and size(L) <= mx:
                er.append("part %d of %d has %d octets only (%d allowed)" % (i + 1, n, size(L), mx))
            if L and size(L[:-1]) > mx:
                er.append("part %d of %d has %d octets without its last line (%d allowed)" % (i + 1, n, size(L[:-1]), mx))
    elif n > 1:
        er.append("split without a limit")
    if n > 1 and len(set(mids)) != len(mids):
        er.append("parts with the same MSGID: %r" % mids)
    if n > 1 and not g.has("NoFSC0047") and len(seqs) > 1:
        er.append("SPLIT of the parts differs: %r" % seqs)
    return er


def unhex(s):
    return re.sub(r"=([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), s.replace("_", " "))


def ids(g, e, mid, rep):
    """^AMSGID and ^AREPLY lines"""
    er = []
    if len(mid) > 1 or len(rep) > 1:
        er.append("several MSGID or REPLY lines: %r %r" % (mid, rep))
    a = A(e["idnode"]).encode()
    M = e["mid"]
    parts = re.search(r"<([^<@]*)@([^>]*)>[^<>]*$", M or "")
    old = None
    if parts and re.fullmatch(r"[0-9a-fA-F]{8}", parts.group(1)) and g.from_inet(parts.group(2)) and parts.group(2)[:1] in "fp":
        old = g.from_inet(parts.group(2)), parts.group(1)
    if M and (not parts or parts.group(1).startswith(("funpack", "NOMSGID_"))):
        if mid:
            er.append("MSGID %r for %r" % (mid, M))
    elif not mid:
        er.append("no MSGID for %r" % M)
    elif M and parts.group(1).startswith("MSGID_"):
        if e["nparts"] == 1 and mid[0] != b"\1MSGID: " + unhex(parts.group(1)[6:]).encode("latin-1"):
            er.append("MSGID %r for %r" % (mid, M))
    elif M and old:
        if e["nparts"] == 1 and mid[0] != b"\1MSGID: %s %s" % (A(old[0]._replace(point=0)).encode() + b".%d" % old[0].point, old[1].lower().encode()):
            er.append("MSGID %r for %r" % (mid, M))
    elif M and g.has("NoFidoStyleMsgid") and "m" not in e["fl"]:
        if not mid[0].startswith(b"\1MSGID: <%s@%s> " % (parts.group(1).encode(), parts.group(2).encode())):
            er.append("MSGID %r for %r" % (mid, M))
    elif not re.fullmatch(rb"\x01MSGID: " + re.escape(a) + (b"" if e["idnode"].point else rb"(\.0)?") + rb" [0-9a-f]{8}", mid[0]):
        er.append("MSGID %r, not %s ..." % (mid, a))
    return er


def run(ck, g, msgs, mode, rcpts=(), wid=None, extra=None):
    """mode: "mail" (stdin, rcpts as arguments), "-t", "news" (stdin with -n), "-b", "-f" -> errors, world"""
    from . import core
    w = g.world(core.worker_id() and "%s/w%s" % (ck.scratch, core.worker_id()) or ck.scratch + "/w0").reset(extra)
    exp = []            # expectations in order
    args = list(g.args)
    data = b""
    if mode in ("mail", "-t"):
        m = msgs[0]
        data = m.raw()
        if mode == "-t":
            args.append("-t")
            R_ = [x for n in ("To", "Cc", "Bcc") for v in m.gets(n)[:1] for x in addrs(v)]
        else:
            R_ = list(rcpts)
            args += ["--"] + R_
        exp = [g.mail(m, r) for r in R_]
        exp = [x for x in exp if x]
    else:
        for m in msgs:
            exp += g.news(m)
        if mode == "news":
            args.append("-n")
            data = msgs[0].raw()
        elif mode == "-b":
            args.append("-b")
            for m in msgs:
                r = m.raw()
                data += b"#! rnews %d\n" % len(r) + r
        elif mode == "-f":
            lst = ""
            for i, m in enumerate(msgs):
                w.put("news/art/%d" % i, m.raw())
                lst += ("art/%d" % i if i % 2 else w.p("news/art/%d" % i)) + (" <id>\n" if i % 3 else "\n")
            w.put("news/list", lst)
            args += ["-f", w.p("news/list")]
    w.put("stdin", data)
    with open(w.p("stdin"), "rb") as f:
        r = w.run(ck.bin("gate/rfc2ftn"), *args, stdin=f)
    return check(g, w, r, exp, mode), exp, w


def addrs(v):
    """addresses of a To line"""
    out = []
    cur = ""
    q = lv = 0
    for c in v:
        if c == '"':
            q = not q
        elif c == "(" and not q:
            lv += 1
        elif c == ")" and not q:
            lv -= 1
        if c == "," and not q and lv <= 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def check(g, w, r, exp, mode):
    er = []
    if r.returncode < 0:
        return ["rfc2ftn died with signal %d" % -r.returncode]
    bad = [e for e in exp if e["kind"] == "bounce"]
    if bool(r.returncode) != bool(bad):
        er.append("exit code %d, expected %s: %r" % (r.returncode, [e["why"] for e in bad] or "success", r.stdout[-300:]))
    tmp = [f for f in w.tree() if f.endswith(".tmp")]
    if tmp:
        er.append("unfinished files: %s" % tmp)
    d = "spool/outpkt/" + ("mail" if mode in ("mail", "-t") else "news")
    od = "spool/outpkt/" + ("news" if mode in ("mail", "-t") else "mail")
    if w.ls(od):
        er.append("packets in %s" % od)
    pk = []
    for f in w.ls(d):
        try:
            pk.append(parse(w.get(d + "/" + f)))
        except BadPkt as x:
            er.append("packet %s: %s" % (f, x))
    if mode == "-f" and (w.get("news/list") is not None or w.get("news/list.pos") is not None):
        er.append("list file not removed")
    want = [e for e in exp if e["kind"] in ("mail", "news")]
    ref = [e for e in exp if e["kind"] == "refused"]
    bm = [w.get("spool/outrfc/mail/" + f) for f in w.ls("spool/outrfc/mail")]
    if len(bm) != sum(1 for e in ref if e["notify"]):
        er.append("%d notifications, %d expected" % (len(bm), sum(1 for e in ref if e["notify"])))
    for b, e in zip(bm, [e for e in ref if e["notify"]]):
        if b"\nTo: " + g.addr_str(e["to"]).encode("utf-8", "replace") not in b and all(ord(c) < 127 for c in g.addr_str(e["to"])):
            er.append("notification not to %r: %r" % (e["to"], b))
    msgs = [(p, m) for p in pk for m in p.msgs]
    # group the parts
    i = 0
    own = {}
    for n, e in enumerate(want):
        parts = []
        while i < len(msgs):
            p, m = msgs[i]
            s = re.match(rb"(\d\d): ", m.subj)
            if parts and not (s and int(s.group(1)) == len(parts) + 1 and m.subj[4:] == cut(e["subj"], 71, e["cs"])[:67]):
                break
            i += 1
            parts.append(m)
            if (p.frm[:3] != e["pkt"][0][:3] or p.to != e["pkt"][1]) and not g.outfile():
                if p.to != e["pkt"][1] or p.frm != g.pktfrom(e):
                    er.append("in a packet %s -> %s, not %s -> %s" % (A(p.frm), A(p.to), A(g.pktfrom(e)), A(e["pkt"][1])))
            own.setdefault(id(p), set()).add(n)
        if not parts:
            er.append("message %d of %d missing; %s" % (n + 1, len(want), w.log()[-300:]))
            return er
        e["nparts"] = len(parts)
        er += ["message %d: %s" % (n + 1, x) for x in judge(g, e, parts)]
        e["npkt"] = None
    lim = 1 if g.has("SinglePKTs") else int(g.args[g.args.index("-m") + 1]) if g.maxm() else 0
    if lim and any(len(x) > lim for x in own.values()):
        er.append("%s messages in packets, at most %d allowed" % ([len(x) for x in own.values()], lim))
    if i != len(msgs):
        er.append("%d messages more than expected: %r" % (len(msgs) - i, msgs[i][1]))
    return er


RG.maxm = lambda s: "-m" in s.args
RG.outfile = lambda s: "-o" in s.args
RG.pktfrom = lambda s, e: s.pick(e["pkt"][1].zone)[0]


def go(ck, name, cases):
    """cases [(label, RG, messages, mode, recipients)]"""
    from . import core
    if os.environ.get("PARTS") and not re.search(os.environ["PARTS"], name):
        return

    def one(c):
        label, g, msgs, mode, rc = c
        try:
            er, exp, w = run(ck, g, msgs, mode, rc)
        except Exception as x:
            er, exp = ["no result: %s: %s" % (type(x).__name__, x)], []
        return label, er, sum(1 for e in exp), sum(1 for e in exp if e["kind"] in ("mail", "news"))

    n = ok = bad = runs = 0
    ev = {}
    for label, er, k, m in core.pmap(one, cases, 1 if len(cases) < 64 else 4):
        runs, n, ok = runs + 1, n + k, ok + m
        if er:
            bad += 1
            s = re.sub(r"[^A-Za-z]+", " ", er[0])[:40]
            ev[s] = ev.get(s, 0) + 1
            if ev[s] <= 3 and len(ck.violations) < 40:
                ck.violation("%s: %s: %s" % (name, label, er[0]), None, er[:10])
    ck.count("states", n)
    ck.count("transitions", n)
    ck.count("evaluations", runs)
    ck.part(name, runs=runs, destinations=n, gated=ok, violating=bad, kinds=ev)
