"""Reference model of ftnroute (routing rules, merging of packets)."""
import os, re
from . import core, world, toss
from .ftn import Node, N, A, Msg, Pkt, parse, BadPkt
from .toss import Toss, Body, ppart, pdiff, match

FL = dict(normal="n", out="n", hold="h", hut="h", crash="c", cut="c", direct="d", dut="d")
DIRECT = 0x0400


def pat(s, old):
    """address pattern, missing parts from the one before; missing point = any, None"""
    z, n, f, p = ppart(s)
    if z is None:
        z = old[0]
        if n is None:
            n = old[1]
            if f is None:
                f = old[2]
    return (z, n, f, p)


def zero(a):
    return Node(*[0 if x in (None, -1, -2) else x for x in a])


class Route:
    """rules: lines of the routing file"""

    def __init__(self, akas, rules=(), pw=None, conf="", args=()):
        self.akas, self.text, self.pw, self.conf, self.args = akas, list(rules), pw or {}, conf, list(args)
        self.mk, self.rules = [], []
        ty = "n"
        dz = N(akas[0]).zone
        for l in self.text:
            w = l.split()
            if w[0].lower() in ("netmail", "echomail", "tick"):
                ty = w[0][0].lower()
                continue
            c = w[0].lower()
            fl = FL[w[1]]
            if c in ("hostroute", "bossroute", "xroute"):
                a = w[2:]
                dest = None
                if c == "xroute":
                    dest = pat(a.pop(0), (dz, -1, -1, -1))
                old = (dz, -1, -1, -1)
                l2 = []
                for x in a:             # no point here means point 0
                    old = pat(x, old)
                    l2.append(old[:3] + (0 if old[3] is None else old[3],))
                self.mk.append((c, fl, dest, l2))
                continue
            new = None
            a = w[2:]
            if c == "change":
                new = FL[a.pop(0)]
            old = (dz, -1, -1, -1)
            l2 = []
            for x in a:
                old = pat(x, old)
                l2.append(old)
            self.rules.append((ty, c, fl, new, l2))
        self.out = []           # (key, message)
        self.moved = {}         # key -> list of packet bytes
        self.events = {}

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def route(self, name, frm, to):
        """-> grade+type+flav, destination, moved"""
        g, ty, fl = name[:3]
        if ty not in "net" or fl not in "nhcd":
            g, ty, fl = "--n"
        move = False
        if ty == "n":
            for c, f, dest, l in self.mk:
                if c == "xroute":
                    if match(frm, l[0]) and match(to, l[1]):
                        self.ev(c)
                        return g + ty + f, zero(dest), False
                elif c == "hostroute":
                    if any(match(to, x) for x in l):
                        self.ev(c)
                        return g + ty + f, to._replace(node=0, point=0), False
                elif c == "bossroute":
                    if f == fl and any(match(to, x) for x in l):
                        self.ev(c)
                        return g + ty + fl, to._replace(point=0), False
        for t, c, f, new, l in self.rules:
            if t != ty:
                continue
            hit = next((x for x in l if match(to, x)), None)
            if hit is None:
                continue
            if c == "change":
                if fl == f:
                    self.ev(c)
                    return g + ty + new, to, False
            elif fl == "n":
                self.ev(c)
                if c == "send":
                    return g + ty + f, to._replace(point=0) if hit[3] is None else to, False
                if c == "sendmove":
                    return g + ty + f, to, True
                if c == "route":
                    return g + ty + f, zero(l[0]), False
        return g + ty + fl, to, False

    def packet(self, name, pkt):
        key, to, move = self.route(name, pkt.frm, pkt.to)
        if move:
            self.moved.setdefault(key, []).append(pkt.pack())
            return
        for m in pkt.msgs:
            dst = to
            if m.attr & DIRECT:
                dst = pkt.to
            b = Body(m.body, Node(0, m.dnet, m.dnode, 0))
            head = ""
            f, t = Node(pkt.frm.zone, m.onet, m.onode, pkt.frm.point), Node(pkt.to.zone, m.dnet, m.dnode, pkt.to.point)
            if b.area is None:
                k = b.kget("INTL", True)
                if k is not None:
                    x = [toss.addr(s.decode()) for s in k.split()]
                    t, f = x[0], x[1]
                for nm in ("FMPT", "TOPT"):
                    k = b.kget(nm, True)
                    if k is not None:
                        p = int(re.match(rb"\d*", k).group() or 0)
                        if nm == "FMPT":
                            f = f._replace(point=p)
                        else:
                            t = t._replace(point=p)
                head = "\1INTL %s %s\r" % (A(t._replace(point=0)), A(f._replace(point=0)))
                if f.point > 0:
                    head += "\1FMPT %d\r" % f.point
                if t.point > 0:
                    head += "\1TOPT %d\r" % t.point
            self.out.append(((key, pkt.frm, dst, self.pw.get(dst, "")),
                             (m.attr, m.cost, f[1:3], t[1:3], m.date, m.to, m.frm, m.subj, head.encode() + b.bytes())))


def run(ck, m, pkts, dir="w", binary=None):
    """pkts: [(name, Pkt)] in the order of their age"""
    w = world.World("%s/%s%d" % (ck.scratch, dir, core.worker_id()), conf=m.conf, address=m.akas)
    w.files["etc/routing"] = "".join(l + "\n" for l in m.text).encode()
    w.files["etc/passwd"] = "".join("packet %s %s\n" % (A(n), p) for n, p in m.pw.items()).encode()
    w.reset()
    for i, (n, p) in enumerate(pkts):
        f = "spool/toss/toss/" + n
        w.put(f, p.pack())
        os.utime(w.p(f), (10 ** 9 + i, 10 ** 9 + i))
    r = w.run(binary or ck.bin("toss/ftnroute"), *m.args) if binary is not False else None
    return w, r


def judge(w, m, r, errs=None):
    errs = [] if errs is None else errs
    if r is not None and r.returncode != 0:
        errs.append("ftnroute exit %d: %r" % (r.returncode, r.stdout[-300:]))
    if w.ls("spool/toss/toss"):
        errs.append("input left: %s" % w.ls("spool/toss/toss")[:5])
    obs = {}
    moved = {}
    want = {k: sorted(v) for k, v in m.moved.items()}
    for f in w.ls("spool/toss/route"):
        if not re.fullmatch(r"[-a-z0-9]{3}[0-9a-f]{5}\.pkt", f):
            errs.append("unexpected file " + f)
            continue
        d = w.get("spool/toss/route/" + f)
        if d in m.moved.get(f[:3], []):
            moved.setdefault(f[:3], []).append(d)
            continue
        try:
            p = parse(d)
        except BadPkt as e:
            errs.append("malformed packet %s: %s" % (f, e))
            continue
        k = (f[:3], p.frm, p.to, p.passwd.decode("latin-1"))
        if not p.msgs:
            errs.append("empty packet %s" % f)
        for x in p.msgs:
            obs.setdefault(k, []).append((x.attr, x.cost, (x.onet, x.onode), (x.dnet, x.dnode), x.date, x.to, x.frm, x.subj, x.body))
    moved = {k: sorted(v) for k, v in moved.items()}
    if moved != want:
        errs.append("moved packets %r, expected %r" % ({k: len(v) for k, v in moved.items()}, {k: len(v) for k, v in want.items()}))
    errs += toss.compare(m, obs)
    for f in w.ls("lock") + [x for x in w.ls("var") if x.endswith(".lock")]:
        errs.append("lock left: %s" % f)
    return errs
