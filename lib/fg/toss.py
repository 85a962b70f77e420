"""Reference model of mail tossing (independent of the code under test),
and the comparison of a run of the real ftntoss with it."""
import binascii, calendar, re, time
from .ftn import Node, N, A, Msg, Pkt, parse, BadPkt

INV = Node(-1, -1, -1, -1)
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
CRASH, HOLD = 0x0002, 0x0200


def pnum(s):
    if s in ("*",) or s.lower() == "all":
        return -2
    return int(s)


def ppart(s):
    """partial address with wildcards: None for missing parts"""
    if s in ("*",) or s.lower() in ("all", "world"):
        return [-2, -2, -2, -2]
    m = re.fullmatch(r"(?:([^:/.]+):)?(?:([^:/.]+)/)?([^:/.]*)(?:\.([^:/.]+))?", s)
    z, n, f, p = m.groups()
    return [None if x in (None, "") else pnum(x) for x in (z, n, f, p)]


def pdiff(s, old):
    z, n, f, p = ppart(s)
    if z is None:
        z = old[0]
        if n is None:
            n = old[1]
            if f is None:
                f = old[2]
    return Node(z, n, f, 0 if p is None else p)


def plist(s, zone):
    old = Node(zone, -1, -1, -1)
    out = []
    for t in s.split():
        try:
            n = pdiff(t, old)
        except Exception:
            break
        out.append(n)
        old = n
    return out


def match(node, pat):
    return all(p is None or p == -2 or p == v for v, p in zip(node, pat))


def wild(text, pat):
    return re.fullmatch(re.escape(pat).replace(r"\*", ".*").replace(r"\?", "."), text, re.I | re.S) is not None


def diff(n, old, fmt=None):
    """shortest unambiguous form of n after old"""
    p = ".%d" % n.point if n.point else ""
    if n.net != old[1]:
        return "%d/%d%s" % (n.net, n.node, p)
    if n.node != old[2]:
        return "%d%s" % (n.node, p)
    return p or ("" if not old[3] else "%d" % n.node)


def to_kludge(text, nodes, d4):
    """lines of at most 76 characters, each starting with a complete address"""
    out, cur, old = [], text, INV
    for n in nodes:
        if n.point and not d4:
            continue
        s = diff(n, old)
        if len(cur) + len(s) + 1 > 76:
            out.append(cur)
            s = diff(n, INV)
            cur = text + " " + s
        else:
            cur += " " + s
        old = n
    out.append(cur)
    return [(x + "\r\n").encode() for x in out]


def from_kludge(lines, zone):
    out = []
    for l in lines:
        l = l.decode("latin-1")
        m = re.match(r"[^\s:]*:?\s*", l)
        old = Node(zone, -1, -1, -1)
        for t in l[m.end():].strip("\r\n").split():
            try:
                n = pdiff(t, old)
            except Exception:
                continue
            out.append(n)
            old = n
    return out


def eq2(a, b):
    return a[1:] == b[1:]


def lines(body):
    """CR-terminated lines, LFs after a CR belong to the line"""
    r = re.findall(rb"[^\r]*\r\n*|[^\r]+\Z", body)
    if r and not re.search(rb"\r\n*\Z", r[-1]):
        r[-1] += b"\r"
    return r


class Body:
    """Structure of a message text, control lines at its start and end."""

    def __init__(self, raw, to):
        self.area = None
        self.kl, self.rfc, self.text, self.seenby, self.path, self.via = [], [], [], [], [], []
        self.tear = self.origin = None
        L = lines(raw)
        i = 0
        while i < len(L):
            if L[i][:1] == b"\1":
                self.kl.append(L[i])
            elif L[i].startswith(b"AREA:") and self.area is None:
                self.area = L[i]
            else:
                break
            i += 1
        j = i
        while j < len(L) and j < i + 2 and not L[j].strip():
            j += 1
        k = j
        while k < len(L) and any(L[k].lower().startswith(h.lower().encode()) for h in RFCH):
            self.rfc.append(L[k])
            k += 1
        if k > j:
            i = k
        rest = L[i:]
        # trailing control information
        ctl = (lambda l: l[:5] == b"\1PATH" or l[:7] == b"SEEN-BY") if self.area else \
            (lambda l: l[:4] == b"\1Via" or l[:5] == b"\1Recd")
        first = next((n for n, l in enumerate(rest) if ctl(l)), len(rest))
        tail = rest[first:]
        rest = rest[:first]
        for l in tail:
            if l[:5] == b"\1PATH":
                self.path.append(l)
            elif l[:7] == b"SEEN-BY":
                self.seenby.append(l)
            elif ctl(l):
                self.via.append(l)
        # tear line and origin, in this order, at the end of the text
        tear = lambda l: l[:3] == b"---" and l[3:4] in (b" ", b"\r")
        if len(rest) > 1 and rest[-2].startswith(b" * Origin:") and tear(rest[-1]) and not (len(rest) > 2 and tear(rest[-3])):
            rest[-2:] = rest[:-3:-1]        # wrong order, put right
        if rest and rest[-1].startswith(b" * Origin:"):
            self.origin = rest.pop()
        if rest and rest[-1][:3] == b"---" and rest[-1][3:4] in (b" ", b"\r"):
            self.tear = rest.pop()
        self.text = rest
        if self.area:
            if self.tear is None:
                self.tear = b"---\r"
            if self.origin is None:
                self.origin = b""
            d = b"%d/%d\r" % (to.net, to.node)
            if not self.seenby:
                self.seenby = [b"SEEN-BY: " + d]
            if not self.path:
                self.path = [b"\1PATH: " + d]

    def kget(self, name, rm=False):
        for i, l in enumerate(self.kl):
            m = re.match(rb"\x01" + name.encode() + rb"[ :]:?[ \t\r\n]*", l, re.I)
            if m:
                if rm:
                    del self.kl[i]
                return l[m.end():]
        return None

    def bytes(self, head=b""):
        return (self.area or b"") + b"".join(self.kl + self.rfc + self.text) + (self.tear or b"") + \
            (self.origin or b"") + b"".join(self.seenby + self.path + self.via)


RFCH = ("From:", "Reply-To:", "UUCPFROM:", "To:", "Cc:", "Bcc:", "Newsgroups:", "Sender:", "Content-Transfer-Encoding:",
        "Header-To:", "Header-Cc:", "Subject:", "User-Agent:", "X-Mailer:", "X-Newsreader:", "In-Reply-To:", "References:")


def origin_addr(l):
    if l is None:
        return None
    l = l.decode("latin-1")
    r = l.rfind(")")
    if r < 0:
        return None
    s = l[:r]
    k = s.rfind("(")
    if k < 0:
        return None
    s = s[k + 1:]
    # last word of the text in parentheses
    m = re.search(r"(\S+)\s*$", s)
    return addr(m.group(1)) if m else None


def addr(s, defzone=None):
    m = re.fullmatch(r"(?:(\d+):)?(\d+)/(\d+)(?:\.(\d+))?(?:@.*)?", s)
    if not m:
        return None
    z = int(m.group(1)) if m.group(1) else (defzone or DEFZONE)
    return Node(z, int(m.group(2)), int(m.group(3)), int(m.group(4) or 0))


DEFZONE = 2


def tm(date):
    m = re.fullmatch(rb"(?:\w\w\w )?(\d\d| \d) (\w\w\w) (\d\d)  ?(\d\d):(\d\d)(?::(\d\d))?", date)
    y = int(m.group(3))
    y += 1900 if y >= 70 else 2000
    return calendar.timegm((y, MON.index(m.group(2).decode()) + 1, int(m.group(1)), int(m.group(4)), int(m.group(5)), int(m.group(6) or 0)))


def dbkey(k):
    """history key: the part after the first @ is case-insensitive (RFC 822)"""
    k = re.sub(rb"[\t\r\n]", b"_", k)
    i = k.find(b"@")
    return k if i < 0 else k[:i] + k[i:].lower()


class Area:
    def __init__(self, tag, links, dir="#-", opts="", passive=(), state="", uplinks=1, zone=None, addr=None):
        self.tag, self.links, self.passive, self.state = tag, list(links), list(passive), state
        self.dir, self.opts, self.uplinks, self.addr = dir, opts, uplinks, addr
        self.zone = zone if zone is not None else (self.links[0].zone if self.links else 0)
        self.zopt = zone
        self.passthru = dir.startswith("#")
        self.touched = False

    def line(self):
        o = ""
        if self.zopt is not None:
            o += "-z %d " % self.zopt
        if self.addr:
            o += "-a %s " % A(self.addr)
        if self.passive:
            o += "-p %s " % ",".join(A(p) for p in self.passive)
        if self.state:
            o += "-s %s " % self.state
        if self.uplinks != 1:
            o += "-u %d " % self.uplinks
        return "%s %s %s%s%s" % (self.dir, self.tag, o, self.opts + " " if self.opts else "", " ".join(A(l) for l in self.links))


class Toss:
    """conf: dict of config keywords; rules: list of routing lines (as tuples)"""

    def __init__(self, akas, areas=(), conf=None, passwd=None, rules=(), spyes=(), args=(), exp=0, now=0):
        self.akas = [N(a) for a in akas]
        self.areas = {}
        for a in areas:
            self.areas.setdefault(a.tag.lower(), a)
        self.alist = list(areas)
        self.c = dict(conf or {})
        self.pw = dict(passwd or {})
        self.rules, self.spyes = rules, spyes
        self.args = list(args)
        self.exp, self.now = exp, now
        self.cur = self.akas[0]
        self.zone = self.akas[0].zone
        self.hist = {}           # key -> time
        self.out = []           # (key, tuple)
        self.events = {}

    def has(self, k):
        return k in self.c

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # our address for a zone
    def best(self, zone):
        self.cur = next((a for a in self.akas if a.zone == zone), self.akas[0])
        self.zone = zone

    def put(self, bad, name, frm, to, m, fa, ta, body, via=None):
        self.out.append(((bad, name, frm, to, self.pw.get(to, "")),
                         (m.attr, m.cost, fa[1:3], ta[1:3], m.date, m.to, m.frm, m.subj, body, via)))

    def bad(self, m, f, t, b):
        self.put(True, "bad", f, t, m, f, t, b.bytes())

    def packet(self, pkt):
        for m in pkt.msgs:
            b = Body(m.body, Node(0, m.dnet, m.dnode, 0))
            if b.area is None:
                self.netmail(pkt, m, b)
            else:
                self.echo(pkt, m, b)

    # ---- netmail ---------------------------------------------------------
    def netmail(self, pkt, m, b):
        f = Node(pkt.frm.zone, m.onet, m.onode, 0)
        t = Node(pkt.to.zone, m.dnet, m.dnode, 0)
        k = b.kget("INTL", True)
        if k is not None:
            w = k.split()
            if len(w) > 0 and addr(w[0].decode()):
                t = addr(w[0].decode())
            if len(w) > 1 and addr(w[1].decode()):
                f = addr(w[1].decode())
        for name in ("FMPT", "TOPT"):
            k = b.kget(name, True)
            if k is not None:
                d = re.match(rb"\d*", k).group()
                p = int(d or 0)
                if name == "FMPT":
                    f = f._replace(point=p)
                else:
                    t = t._replace(point=p)
        spy = next((s[1] for n in (f, t) for s in self.spyes if s[0][:3] == n[:3]), None)
        r = self.net1(m, b, f, t)
        if spy is not None:
            f, t = r
            subj = ("[FWD] from %s to %s: " % (A4(f), A4(t))).encode() + m.subj
            m2 = Msg(f, spy, m.to, m.frm, subj[:71], m.body, m.attr, m.cost, m.date)
            self.net1(m2, b, f, spy)

    def net1(self, m, b, f, t):
        ping = m.to.lower() == b"ping"
        if not ping and ("KillEmpty" in self.c or "KillBlank" in self.c) and \
                not (b.rfc or b.tear or b.origin or b.seenby) and \
                all(l[:1] in (b"\r", b"") for l in b.text) and t in self.akas:
            self.ev("empty")
            return f, t
        for cmd, a, z, name in self.rules:
            if not cmd.startswith("rewrite"):
                continue
            hit = False
            if match(f, a) and (cmd == "rewrite" or cmd == "rewritefrom" and wild(m.frm.decode("latin-1"), name)):
                hit = True
            elif match(t, a) and (cmd == "rewrite" or cmd == "rewriteto" and wild(m.to.decode("latin-1"), name)):
                hit = True
            if hit:
                f = change(f, z)
                self.ev("rewrite")
                break
        for cmd, a, z, name in self.rules:
            if cmd == "remapto" and match(t, a) and wild(m.to.decode("latin-1"), name) or \
                    cmd == "remapfrom" and match(f, a) and wild(m.frm.decode("latin-1"), name):
                t = change(t, z)
                if t == (0, 0, 0, 0):
                    self.ev("killed")
                    return f, t
                self.ev("remap")
                break
        self.best(t.zone)
        fl = "n"
        if "-s" not in self.args:
            if m.attr & HOLD:
                fl = "h"
            if m.attr & CRASH:
                fl = "c"
        h = "\1INTL %s %s\r" % (A(t._replace(point=0)), A(f._replace(point=0)))
        if f.point > 0:
            h += "\1FMPT %d\r" % f.point
        if t.point > 0:
            h += "\1TOPT %d\r" % t.point
        b.via.append(b"\1Via " + A(self.cur).encode() + b" @" + b"<DATE>" + b" FIDOGATE/ftntoss\r")
        g = self.grade()
        self.put(False, g + "n" + fl, self.cur, t, m, f, t, h.encode() + b.bytes())
        self.ev("netmail")
        return f, t

    def grade(self):
        return self.args[self.args.index("-g") + 1][0] if "-g" in self.args else "n"

    # ---- echomail --------------------------------------------------------
    def echo(self, pkt, m, b):
        f, t = pkt.frm, pkt.to
        tag = b.area[5:].strip(b"\r\n").decode("latin-1")
        orig = origin_addr(b.origin)
        if orig is None:
            k = b.kget("MSGID")
            orig = addr(k.split()[0].decode("latin-1")) if k is not None and k.split() else None

        def reject(kind, kill):
            self.ev(kind)
            if kill not in self.c:
                self.bad(m, f, t, b)

        if orig is None:
            return reject("noorigin", "KillInsecure")
        if "CheckPointOriginAddr" in self.c and f.point and orig != f:
            return reject("forged", "KillInsecure")
        if f in self.pw and self.pw[f].lower() != pkt.passwd.decode("latin-1").lower():
            return reject("passwd", "KillInsecure")
        a = self.areas.get(tag.lower())
        if a is None:
            return reject("unknown", "KillUnknown")
        self.best(a.zone)
        if a.addr:
            self.best(a.addr.zone)
            self.cur = a.addr
        us = self.cur
        trusted = f == us or f in a.links
        if "DupeCheck" in self.c and "-d" not in self.args:
            k = next((l for l in b.kl if re.match(rb"\x01MSGID[ :]", l, re.I)), None)
            if k is not None:
                key = dbkey(a.tag.encode() + b" " + k[1:].rstrip(b"\r\n"))
            else:
                o = origin_addr(b.origin)
                if "KillNoMSGID" in self.c or o is None:
                    return reject("nomsgid", "KillDupe")
                crc = binascii.crc32(m.frm + m.to + m.subj) & 0xffffffff
                key = (a.tag, o, tm(m.date), crc)
            if "KillOld" in self.c and tm(m.date) < self.exp:
                return reject("old", "KillDupe")
            if key in self.hist:
                return reject("dupe", "KillDupe")
            if trusted:
                self.hist[key] = self.now
        if "-n" not in self.args and t != us and t not in self.akas:
            return reject("routed", "KillRouted")
        if "-t" not in self.args and not trusted:
            return reject("insecure", "KillInsecure")
        z = self.zone
        sb, pa = from_kludge(b.seenby, z), from_kludge(b.path, z)
        pe = lambda x, y: x[1:3] == y[1:3] and (x[3] == 0 or x[3] == y[3])
        has = lambda l, n: any(eq2(x, n) for x in l)
        if len(sb) == 1 and pe(sb[0], f):
            sb[0] = f
        if len(pa) == 1 and pe(pa[0], f):
            pa[0] = f
        for n in (us, f, t):
            if not has(sb, n):
                sb.append(n)
        if not pa or not eq2(pa[-1], f):
            pa.append(f)
        new = []
        for j, l in enumerate(a.links):
            if has(sb, l) or j + 1 < a.uplinks or l == f or l in a.passive:
                continue
            sb.append(l)
            new.append(l)
        for pat, nodes in self.c.get("AddToSeenBy", []):
            if wild(a.tag, pat):
                for n in plist(nodes, self.akas[0].zone):
                    if not has(sb, n) and n != f:
                        sb.append(n)
                break
        if "AddOtherAKA" in self.c:
            for n in self.akas:
                if n.zone == z and not has(sb, n):
                    sb.append(n)
        for s in self.c.get("DeleteSeenBy", []):
            for n in plist(s, self.akas[0].zone):
                if n in sb:
                    sb.remove(n)
        if "-p" not in self.args and f != us and (not a.passthru or us in a.links):
            new.append(us)
        if not (pa and eq2(pa[-1], us)):
            pa.append(us)
        for s in self.c.get("DeletePath", []):
            for n in plist(s, self.akas[0].zone):
                if n in pa:
                    pa.remove(n)
        if "CheckPath" in self.c and any(eq2(x, y) for x in pa[:-1] for y in self.akas):
            return reject("circular", "KillCircular")
        up = f in a.links[:a.uplinks]
        if not up and "W" in a.state:
            return reject("passive area", "KillCircular")
        if a.state:
            if any(c in a.state for c in "UWF"):
                a.state = a.state if "S" in a.state else "".join(c for c in a.state if c not in "UWF") + "S"
            elif "P" in a.state:
                self.ev("paused")
                return self.bad(m, f, t, b)
        a.touched = True
        d4 = "TossEchoMail4D" in self.c
        b.seenby = to_kludge("SEEN-BY:", sorted(sb), d4)
        b.path = to_kludge("\1PATH:", pa, d4)
        if "NoEmptyPath" in self.c and not any(d4 or not n.point for n in pa):
            b.path = []
        for n in new:
            if n in a.passive:
                continue
            save = b.seenby
            for s in self.c.get("ZoneGate", []):
                l = plist(s, self.akas[0].zone)
                if l and l[0] == n:
                    b.seenby = to_kludge("SEEN-BY:", sorted(l[1:]), d4)
                    break
            self.put(False, self.grade() + "en", us, n, m, us, n, b.bytes())
            b.seenby = save
            self.ev("echomail")

    # ---- installation ----------------------------------------------------
    def files(self):
        conf = "".join("Address %s\n" % A(a) for a in self.akas) + \
            ("Zone default .fidonet.org fidonet out\nZone 1 .fidonet.org fidonet out.001\n"
             "Zone 2 .fidonet.org fidonet out\nZone 3 .fidonet.org fidonet out.003\n")
        for k, v in self.c.items():
            for x in (v if isinstance(v, list) else [v]):
                conf += "%s %s\n" % (k, " ".join(x) if isinstance(x, tuple) else x)
        return conf, {
            "var/areas.bbs": "System\n" + "".join(a.line() + "\n" for a in self.alist),
            "etc/passwd": "".join("packet %s %s\n" % (A(n), p) for n, p in self.pw.items()),
            "etc/routing": "".join("%s %s %s %s\n" % (c, PS(a), PS(z), n or "") for c, a, z, n in self.rules),
            "etc/spyes": "".join("%s %s\n" % (A(n), A(p)) for n, p in self.spyes)}


def PS(p):
    w = lambda x: "*" if x == -2 else str(x)
    if all(x == -2 for x in p):
        return "*"
    s = ""
    if p[0] is not None:
        s += w(p[0]) + ":"
    s += w(p[1]) + "/" + w(p[2])
    if p[3] is not None:
        s += "." + w(p[3])
    return s


def A4(n):
    return "%d:%d/%d.%d" % tuple(n)


def change(n, pat):
    return Node(*[v if p in (None, -2) else p for v, p in zip(n, pat)])


VIA = re.compile(rb"(\x01Via [0-9:/.]+ @)(\d{8}\.\d{6}(?:\.[0-9A-Z+-]+)?)( FIDOGATE/ftntoss)")


def observed(w, errors):
    """packets written by ftntoss -> {key: [messages]}"""
    out = {}
    for bad, d in ((False, "spool/toss/toss"), (True, "spool/toss/bad")):
        for f in w.ls(d):
            if not re.fullmatch(r"[a-z0-9]{3}[0-9a-f]{5}\.pkt", f):
                errors.append("unexpected file %s/%s" % (d, f))
                continue
            try:
                p = parse(w.get(d + "/" + f))
            except BadPkt as e:
                errors.append("malformed packet %s/%s: %s" % (d, f, e))
                continue
            key = (bad, f[:3], p.frm, p.to, p.passwd.decode("latin-1"))
            for m in p.msgs:
                out.setdefault(key, []).append(
                    (m.attr, m.cost, (m.onet, m.onode), (m.dnet, m.dnode), m.date, m.to, m.frm, m.subj,
                     VIA.sub(rb"\1<DATE>\3", m.body), None))
            if not p.msgs:
                errors.append("empty packet %s/%s" % (d, f))
    return out


def compare(model, obs):
    """differences, as text; the order within a link and class is kept"""
    want = {}
    for k, v in model.out:
        want.setdefault(k, []).append(v)
    errs = []
    for k in sorted(set(want) | set(obs), key=repr):
        a, b = want.get(k, []), obs.get(k, [])
        if a == b:
            continue
        sa, sb = [x[7] for x in a], [x[7] for x in b]
        d = None
        for x, y in zip(a, b):
            if x != y:
                d = (x, y)
                break
        if d and d[0][7] == d[1][7]:
            names = ("attr", "cost", "from", "to", "date", "name to", "name from", "subject", "text", "")
            i = [x == y for x, y in zip(*d)].index(False)
            errs.append("%r: message %r: %s is %r, expected %r" % (k, d[0][7], names[i], d[1][i], d[0][i]))
        else:
            n = next((i for i, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
            miss = [x for x in sa if x not in sb][:3]
            extra = [x for x in sb if x not in sa][:3]
            errs.append("%r: %d messages, expected %d; missing %r, unexpected %r (first difference at %d)" % (
                k, len(b), len(a), miss, extra, n))
    return errs
