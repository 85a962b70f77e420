"""Reference model of the areafix robot and of areas.bbs."""
import re, shlex
from .ftn import N, A, Node


def A0(n):
    return "%d:%d/%d.%d" % tuple(n[:4])


def tokens(s):
    """xstrtok: blanks separate, "..." quotes at the start of a token, \\" inside"""
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in " \t\r\n":
            i += 1
        if i >= n:
            return out
        if s[i] == '"':
            i += 1
            t = ""
            while i < n and s[i] != '"':
                if s[i] == "\\" and i + 1 < n and s[i + 1] == '"':
                    i += 1
                t += s[i]
                i += 1
            i += 1
            out.append(t)
        else:
            j = i
            while j < n and s[j] not in " \t\r\n":
                j += 1
            out.append(s[i:j])
            i = j + 1


def node_diff(s, old):
    m = re.match(r"^(?:(?:(\d+):)?(?:(\d+)/))?(\d+)?(?:\.(\d+))?$", s)
    if not m or not s:
        return None
    z, n, f, p = [None if x is None else int(x) for x in m.groups()]
    if z is None:
        z = old[0]
        if n is None:
            n = old[1]
            if f is None:
                f = old[2]
    if None in (z, n, f) or -1 in (z, n, f):
        return None
    return Node(z, n, f, p or 0)


class Area:
    def __init__(self, tag, links=(), dir="-", passthru=False, zone=None, aka=None, lvl=None, key=None, desc=None, state=None,
                 passive=(), time=0, e=0, n=0, u=1, ro=False):
        self.tag, self.dir, self.passthru, self.aka, self.lvl, self.key, self.desc, self.state = tag, dir, passthru, aka, lvl, key, desc, state
        self.links, self.passive, self.time, self.e, self.n, self.u, self.ro = list(links), list(passive), time, e, n, u, ro
        self.zone = zone if zone is not None else (self.links[0].zone if self.links else 0)

    def line(self):
        """as a sysop might write it"""
        o = ("#" if self.passthru else "") + self.dir + " " + self.tag
        o += " -z %d" % self.zone
        if self.aka:
            o += " -a " + A(self.aka)
        if self.lvl is not None:
            o += " -l %d" % self.lvl
        if self.key is not None:
            o += " -k " + self.key
        if self.desc is not None:
            o += ' -d "%s"' % self.desc.replace('"', '\\"')
        if self.ro:
            o += " -r"
        if self.passive:
            o += " -p " + ",".join(A(x) for x in self.passive)
        if self.time:
            o += " -t %s" % self.time
        if self.e:
            o += " -e %d" % self.e
        if self.n:
            o += " -n %d" % self.n
        if self.state:
            o += " -s " + self.state
        if self.u != 1:
            o += " -u %d" % self.u
        return o + "".join(" " + A(x) for x in self.links)

    def key_tuple(self):
        return (self.tag, self.dir, self.passthru, self.zone, self.aka, self.lvl, self.key, self.desc, "".join(sorted(self.state or "")), self.ro,
                tuple(self.links[:self.u]), tuple(sorted(set(self.links[self.u:]))), tuple(sorted(self.passive)), self.e, self.n, self.u)

    def copy(self):
        a = Area(self.tag)
        a.__dict__.update(self.__dict__)
        a.links, a.passive = list(self.links), list(self.passive)
        return a


def parse_areas(text):
    """-> first line, [Area]; the documented format"""
    ls = text.split("\n")
    out = []
    for l in ls[1:]:
        t = tokens(l)
        if len(t) < 2:
            continue
        a = Area(t[1], dir=t[0])
        a.zone = -1
        if t[0][:1] == "#":
            a.dir, a.passthru = t[0][1:], True
        i = 2
        while i < len(t) and t[i].startswith("-"):
            o = t[i]
            i += 1
            v = t[i] if i < len(t) else ""
            if o == "-#":
                a.passthru = True
                continue
            if o == "-r":
                a.ro = True
                continue
            i += 1
            if o == "-a":
                a.aka = N(v)
            elif o == "-z":
                a.zone = int(v)
            elif o == "-l":
                a.lvl = int(v)
            elif o == "-k":
                a.key = v
            elif o == "-d":
                a.desc = v
            elif o == "-s":
                a.state = v
            elif o == "-t":
                a.time = int(v)
            elif o == "-e":
                a.e = int(v)
            elif o == "-n":
                a.n = int(v)
            elif o == "-u":
                a.u = int(v)
            elif o == "-p":
                old = (2, -1, -1, -1)
                for x in v.split(","):
                    nd = node_diff(x, old)
                    if nd is None:
                        raise ValueError("bad passive list %r in %r" % (v, l))
                    a.passive.append(nd)
                    old = nd
            else:
                raise ValueError("unknown option %r in %r" % (o, l))
        old = (2, -1, -1, -1)
        for x in t[i:]:
            nd = node_diff(x, old)
            if nd is None:
                raise ValueError("bad node %r in %r" % (x, l))
            a.links.append(nd)
            old = nd
        if a.zone == -1:
            a.zone = a.links[0].zone if a.links else 0
        out.append(a)
    return ls[0], out


def wild(s, p, ic=True):
    if ic:
        s, p = s.upper(), p.upper()
    return _wild(s, p)


def _wild(s, p):
    if not p:
        return not s
    c = p[0]
    if c == "*":
        return any(_wild(s[i:], p[1:]) for i in range(len(s) + 1))
    if not s:
        return False
    if c == "?":
        return _wild(s[1:], p[1:])
    if c == "[":
        i, inv = 1, False
        if p[1:2] == "^":
            i, inv = 2, True
        ok, last = False, None
        if "]" not in p[i:]:
            return False
        while p[i] != "]":
            if p[i] == "-" and last is not None and p[i + 1] != "]":
                i += 1
                if last <= s[0] <= p[i]:
                    ok = True
            elif p[i] == s[0]:
                ok = True
            last = p[i]
            i += 1
        return ok != inv and _wild(s[1:], p[i + 1:])
    if c == "\\" and len(p) > 1:
        p = p[1:]
        c = p[0]
    return s[0] == c and _wild(s[1:], p[1:])


def iswc(s):
    return any(c in s for c in "*?[")


def line(tag, text):
    return "%-41s: %s" % (tag, text)


class Pw:
    def __init__(self, pw, lvl=None, key=None, name=None, lim=None):
        self.pw, self.lvl, self.key, self.name, self.lim = pw, lvl, key, name, lim

    def args(self):
        a = ""
        if self.lvl is not None:
            a += " %d" % self.lvl
            if self.key is not None:
                a += " " + self.key
                if self.name is not None:
                    a += ' "%s"' % self.name
                    if self.lim is not None:
                        a += " " + self.lim
        return a


class Fix:
    """areas: [Area]; passwd: {Node: Pw}; uplinks: [(patterns, Node, robot, password, options)]"""

    def __init__(self, areas, passwd, uplinks=(), conf=None, name="Areafix Daemon", context="af"):
        self.areas = [a.copy() for a in areas]
        self.passwd, self.uplinks, self.conf, self.name, self.context = passwd, list(uplinks), conf or {}, name, context
        self.requests = []      # (node, robot, password, line)
        self.changed = False
        self.created = []

    # --- sessions ---
    def auth(self, node, pw, check=True):
        self.node = node
        e = self.passwd.get(node)
        self.ok = (not check) or (e is not None and pw is not None and e.pw.lower() == pw.lower())
        self.lvl, self.key, self.lim = 1, "", None
        self.new = self.fwd = self.dele = self.la = False
        if e is not None:
            if e.lvl is not None:
                self.lvl = e.lvl
                if e.key is not None:
                    self.key = e.key
                    if e.name is not None and e.lim is not None:
                        self.lim = e.lim
            k = self.key
            self.new, self.fwd, self.dele, self.la = "$" in k, "&" in k, "~" in k, "%" in k

    def message(self, node, subj, lines):
        """-> (node the reply goes to, reply lines)"""
        self.out = []
        s = subj.split()
        self.cmdline = False
        self.auth(node, s[0] if s else None)
        if "-q" in [x.lower() for x in s[1:]]:
            self.query()
        if "-l" in [x.lower() for x in s[1:]]:
            self.list(True)
        for l in lines:
            if l.startswith(" * "):
                continue
            l = l.strip(" \t")
            if l.startswith("--"):
                break
            if l:
                self.command(l)
        return self.node, self.out

    def commandline(self, node, cmd):
        self.out = []
        self.cmdline = False        # authorization comes from the passwd entry again, without a password
        self.auth(node, None, False)
        self.command(cmd)
        return self.out

    def p(self, s):
        self.out.append(s)

    def command(self, l):
        pc = l[:1] == "%"
        if pc:
            l = l[1:]
        C = {"+": self.sub, "-": self.unsub, "&": self.create, "~": self.delete}
        W = dict(list=lambda a: self.list(True), query=lambda a: self.query(), unlinked=lambda a: self.unlinked(), subscribe=self.sub,
                 sub=self.sub, unsubscribe=self.unsub, unsub=self.unsub, password=self.password, passwd=self.password,
                 new=self.create, create=self.create, delete=self.delete, passive=self.pause, pause=self.pause,
                 active=self.resume, resume=self.resume, avail=lambda a: self.list(False), help=None, listall=None)
        W["from"] = self.password
        if l[:1] in C:
            return C[l[0]](l[1:].lstrip(" \t"))
        w = re.split(r"[ \t]", l, 1)
        f = w[0][:31].lower()
        if f in W:
            return W[f]((w[1] if len(w) > 1 else "").strip(" \t"))
        if pc:
            return self.p("Unknown command %" + w[0])
        if "AreaFixSubscribeOnlyIfPlus" in self.conf:
            return self.p("Unknown command " + w[0])
        self.sub(l)

    def password(self, arg):
        t = arg.split()
        self.ok = False
        if not t:
            return self.p("Command PASSWORD: missing Z:N/F.P address.")
        try:
            n = N(t[0])
        except ValueError:
            return self.p("Command PASSWORD: illegal address %s." % t[0])
        self.node = n
        if len(t) < 2:
            return self.p("Command PASSWORD: no password given!")
        self.auth(n, t[1])
        if not self.ok:
            self.p("Command PASSWORD: authorization for %s failed." % A0(n))

    # --- listings ---
    def mayuse(self, a):
        return not (a.lvl is not None and a.lvl > self.lvl) and not (a.key is not None and any(c not in self.key for c in a.key))

    def query(self):
        if not self.ok:
            return self.p("Command QUERY: not authorized.")
        self.out += ["", "%s is linked to the following areas:" % A(self.node), ""]
        for a in self.areas:
            if self.node in a.links:
                self.p("%s %s" % ("P" if self.node in a.passive else " ", a.tag))
        self.out += ["", "P = passive mode (write only)", ""]

    def unlinked(self):
        if not self.ok:
            return self.p("Command UNLINKED: not authorized.")
        self.out += ["", "%s is not linked to the following available areas:" % A(self.node), ""]
        for a in self.areas:
            if self.mayuse(a) and (self.context == "ff" or a.zone == self.node.zone) and self.node not in a.links:
                self.p("  " + a.tag)
        self.out += ["", ""]

    def list(self, lst):
        if not self.ok:
            return self.p("Command LIST: not authorized.")
        pa, lf = "AreafixAvailPrintsAllAreas" in self.conf, "FStatusAreaFixList" in self.conf
        self.out += ["", "Areas available to %s:" % A(self.node)]
        if lst:
            self.p("(currently subscribed from uplinks)")
        elif not pa:
            self.p("(currently not subscribed from uplinks)")
        self.p("")
        for a in self.areas:
            s = a.state
            linked = self.node in a.links
            if not linked:
                if not self.mayuse(a) or (a.zone != self.node.zone and (a.zone > 6 or self.node.zone > 6)):
                    continue
                if s is None or "U" in s:
                    continue
                if lst:
                    if "W" in s or ("F" in s and not lf):
                        continue
                elif not pa and ("W" in s or "F" in s):
                    continue
            mark = ("P" if self.node in a.passive else "*") if linked else " "
            self.p("%s %-39s: %s" % (mark, a.tag, a.desc) if a.desc is not None else "%s %s" % (mark, a.tag))
        self.out += ["", "* = linked to this area", "P = passive mode (write only)", ""]

    # --- changes ---
    def up(self, node):
        for u in self.uplinks:
            if u[1] == node:
                return u
        return None

    def request(self, u, l):
        self.requests.append((u[1], u[2], u[3], l))

    def drop(self, a):
        self.areas.remove(a)
        self.changed = True

    def used(self, first=None):
        return sum(1 for a in self.areas if len(a.links) > 1 and (self.node in a.links or self.node in a.passive) and
                   (first is None or first in a.links))

    def sub(self, tag):
        if not self.ok:
            return self.p("Command SUBSCRIBE: not authorized.")
        n = sum(self.sub1(a) for a in list(self.areas) if wild(a.tag, tag) and self.first(tag, a))
        w = iswc(tag)
        if n and not w:
            return
        if not self.fwd:
            return self.p("%-41s: forward request not authorized" % tag)
        if w or not n:
            n += self.forward(tag)
        if n:
            if w:
                self.p("* %d areas requested from pattern %s" % (n, tag))
        else:
            self.p("%s: no such area, or no area matching pattern\r\n    No uplink found to forward this request" % tag)

    def first(self, tag, a):
        """without wildcards only the first matching area counts"""
        return iswc(tag) or next(x for x in self.areas if wild(x.tag, tag)) is a

    def denied(self, a, text):
        self.p(line(a.tag, text))

    def sub1(self, a, fwd=False):
        nd = self.node
        if a.lvl is not None and a.lvl > self.lvl:
            self.denied(a, "access denied (level)")
            return 2 if fwd else 1
        if a.key is not None and not any(c in self.key for c in a.key):
            self.denied(a, "access denied (key)")
            return 2 if fwd else 1
        if nd in a.links:
            if nd in a.passive:
                a.passive.remove(nd)
                self.changed = True
                self.p(line(a.tag, "set active"))
            else:
                self.p(line(a.tag, "already active"))
            return 1
        if self.lim:
            g, _, la = self.lim.partition("/")
            g = int(g)
            u = self.used()
            if g > 0 and g <= u:
                self.denied(a, "access denied (general limit %d)" % u)
                return 2 if fwd else 1
            if la and int(la) > 0 and a.links:
                x = self.used(a.links[0])
                if int(la) <= x:
                    self.p("%-41s: access denied\r\n%-41s  (limit for uplink %s = %d)" % (a.tag, " ", A0(a.links[0]), x))
                    return 2 if fwd else 1
        if self.context == "af" and a.zone != nd.zone:
            if not a.zone:
                self.p(line(a.tag, "no uplink, dead area"))
                self.drop(a)
                return 1
            if a.zone > 6 or nd.zone > 6:
                self.p(line(a.tag, "different zone (Z%d), not added" % a.zone))
                return 1
        if not a.links:
            self.p(line(a.tag, "no uplink, dead area"))
            self.drop(a)
            return 1
        a.links.append(nd)
        if nd in a.passive:
            a.passive.remove(nd)
        self.changed = True
        self.p(line(a.tag, "subscribed"))
        s = a.state or ""
        u0 = a.links[0]
        if "U" in s or "P" in s:
            u = self.up(u0)
            if u:
                self.request(u, "+" + a.tag.upper())
                a.state = "".join(c for c in s if c not in "UP") + "W"
                a.time = "now"
                self.p("        (this area is currently not subscribed at uplink %s)" % A(u0))
            else:
                self.p("        Please forward this message to sysop:\r\n        no entry for uplink %s in uplink config file" % A(u0))
        elif "W" in s:
            self.p("        (this area subscribed at uplink %s, but no traffic yet)" % A(u0))
        elif "F" in s and not fwd:
            self.p("        (this area requested from uplink %s, but no traffic yet)" % A(u0))
        return 1

    def forward(self, tag):
        n = 0
        hits = []
        for u in self.uplinks:
            for pat in u[0]:
                if pat.startswith("!"):
                    if not iswc(tag) and wild(tag, pat[1:]):
                        break
                    continue
                if wild(pat, tag) if iswc(tag) else wild(tag, pat):
                    hits.append((pat, u))
                    if not iswc(tag):
                        break
            if hits and not iswc(tag):
                break
        for pat, u in hits:
            if any(a.tag.upper() == pat.upper() for a in self.areas) or iswc(pat):
                continue
            n += 1
            r = self.make(u[1], pat, tokens(u[4] or ""), True)
            if r is None:
                self.p("%s: internal areafix error (can't create area)\r\nPlease forward this message to sysop" % pat)
                continue
            if not r:
                self.p("%s: internal areafix error (can't create area)\r\nPlease forward this message to sysop" % pat)
                continue
            a = self.areas[-1]
            a.state = "".join(c for c in a.state if c != "S") + ("F" if "F" not in a.state else "")
            if self.sub1(a, True) == 2:
                self.drop(a)
                continue
            self.request(u, "+" + pat.upper())
            self.p("    Request forwarded to uplink: %s" % A0(u[1]))
        return n

    def make(self, node, name, opts, inter):
        """create an area; None: refused for its name, False: refused otherwise"""
        fb = self.conf.get("ForbiddenChar", "")
        if any(c in name for c in fb):
            return None
        if any(wild(name, f) for f in self.conf.get("AreaFixCreateForbiddenAreas", [])):
            return False
        a = Area(name.upper(), [node], zone=node.zone, time="now", state="S")
        ign = "IgnorePRLKey" in self.conf
        i = 0
        while i < len(opts):
            o = opts[i]
            i += 1
            prl = not ign or inter
            if o in ("-#", "-p") and prl:
                a.passthru = True
            elif o == "-r" and prl:
                a.ro = True
            elif o in ("-k", "-d", "-z", "-a", "-s", "-e", "-n") or (o == "-l" and prl):
                if i >= len(opts):
                    break
                v = opts[i]
                i += 1
                if o == "-l":
                    a.lvl = int(v)
                elif o == "-k":
                    a.key = v
                elif o == "-d":
                    a.desc = v
                elif o == "-z":
                    a.zone = int(v)
                elif o == "-a":
                    a.aka = N(v)
                elif o == "-s":
                    a.state = v
                elif o == "-e":
                    a.e = int(v)
                elif o == "-n":
                    a.n = int(v)
        for x in self.conf.get("AutoCreateSubscribeNodes", []):
            if x not in a.links:
                a.links.append(x)
        self.areas.append(a)
        self.changed = True
        return True

    def create(self, arg):
        if not (self.ok and self.new):
            return self.p("Command not authorized.")
        t = tokens(arg)
        if not t:
            return self.p("Command NEW: missing area name.")
        name = t[0]
        if any(a.tag.upper() == name.upper() for a in self.areas):
            return self.p("%-41s: area already exists,\r\n%-41s  can't create new one." % (name, " "))
        r = self.make(self.node, name, t[1:], False)
        if r is None:
            self.p(line(name, "have forbidden char, can't create."))
        elif not r:
            self.p(line(name, "forbidden area, can't create."))
        else:
            self.p(line(name.upper(), "created"))

    def delete(self, tag):
        if not (self.ok and self.dele):
            return self.p("Command DELETE: not authorized.")
        n = 0
        for a in list(self.areas):
            if wild(a.tag, tag):
                n += 1
                self.p(line(tag, "delete"))
                self.drop(a)
        if not n:
            self.p(line(tag, "area does not exist, can't delete"))

    def unsub(self, tag):
        if not self.ok:
            return self.p("Command UNSUBSCRIBE: not authorized.")
        nd = self.node
        n = 0
        wc = "*" in tag or "?" in tag
        for a in list(self.areas):
            if not wild(a.tag, tag):
                continue
            n += 1
            if not a.links:
                self.p(line(a.tag, "no uplink, dead area"))
                self.drop(a)
                continue
            if nd not in a.links:
                if (self.context == "ff" or a.zone == nd.zone) and not wc:
                    self.p(line(a.tag, "not subscribed"))
                continue
            a.links.remove(nd)
            if nd in a.passive:
                a.passive.remove(nd)
            self.changed = True
            self.p(line(a.tag, "unsubscribed"))
            if len(a.links) == 1 and a.passthru:
                u = self.up(a.links[0])
                if u:
                    if "U" not in (a.state or ""):
                        a.state = "".join(c for c in a.state or "" if c not in "SWF") + "U"
                    self.request(u, "-" + a.tag.upper())
                else:
                    self.drop(a)
            elif not a.links and a.passthru:
                self.drop(a)
        if not n:
            self.p(line(tag, "no area matching pattern" if wc else "no such area"))

    def pause(self, tag):
        if not self.ok:
            return self.p("Command PASSIVE: not authorized.")
        nd = self.node
        for a in self.areas:
            if tag and not wild(a.tag, tag):
                continue
            if nd in a.links and len(a.links) > 1 and nd not in a.passive:
                if len(a.links) <= 2:
                    u = self.up(a.links[0])
                    if not u:
                        self.p(line(a.tag, "no uplink entry, can't set passive"))
                        continue
                    self.request(u, "-" + a.tag.upper())
                    a.time = "now"
                    s = a.state or ""
                    if any(c in s for c in "WFS") and "P" not in s:
                        a.state = "".join(c for c in s if c not in "WFS") + "P"
                a.links.remove(nd)
                a.passive.append(nd)
                self.changed = True
                self.p(line(a.tag, "set passive"))

    def resume(self, tag):
        if not self.ok:
            return self.p("Command ACTIVE: not authorized.")
        nd = self.node
        for a in self.areas:
            if tag and not wild(a.tag, tag):
                continue
            if nd in a.passive:
                if nd not in a.links:
                    if len(a.links) == 1:
                        u = self.up(a.links[0])
                        if not u:
                            self.p(line(a.tag, "no uplink entry, can't set active"))
                            continue
                        self.request(u, "+" + a.tag.upper())
                        s = a.state or ""
                        if ("P" in s or "U" in s) and "W" not in s:
                            a.state = "".join(c for c in s if c != "P") + "W"
                    a.passive.remove(nd)
                    a.links.append(nd)
                    self.changed = True
                    self.p(line(a.tag, "set active"))
            elif nd in a.links:
                self.p(line(a.tag, "already active"))
