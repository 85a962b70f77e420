"""Reference model of ftnpack (outbound packets, archives, flow files)."""
import os, re, shlex, time
from . import core, world, toss
from .ftn import Node, N, A, Msg, Pkt, parse, BadPkt
from .toss import match
from .route import pat, zero

FLAV = dict(n="n", h="h", c="c", d="d")
ORDER = "hndc"
OUT = dict(h="hut", n="out", d="dut", c="cut")
FLO = dict(h="hlo", n="flo", d="dlo", c="clo")
ATTR_FILE = 0x0010


NOW = None


def week():
    return time.strftime("%a", time.gmtime(NOW)).lower()[:2]


def records(d):
    """contents of an archive of the stand-in archiver: [(name, bytes)]"""
    out = []
    i = 0
    while i < len(d):
        m = re.compile(rb"FILE (\S+) (\d+)\n").match(d, i)
        if not m:
            raise ValueError("bad archive at %d" % i)
        n = int(m.group(2))
        x = d[m.end():m.end() + n]
        if len(x) != n or d[m.end() + n:m.end() + n + 1] != b"\n":
            raise ValueError("truncated archive")
        out.append((m.group(1).decode(), x))
        i = m.end() + n + 1
    return out


def msgkey(x):
    return (x.attr, x.cost, (x.onet, x.onode), (x.dnet, x.dnode), x.date, x.to, x.frm, x.subj, x.body)


class Pack:
    """rules: lines of the packing file; zones: {zone: outbound dir}"""

    def __init__(self, akas, rules=(), pw=None, conf="", args=(), aso=False, disp=0, fa=None, faa=0, last=35,
                 zones={0: "out", 1: "out.001", 2: "out", 3: "out.003"}, busy=(), stale=(), pre=None, files=()):
        self.akas = [N(a) for a in akas]
        self.text, self.pw, self.args = list(rules), pw or {}, list(args)
        self.aso, self.disp, self.fa, self.faa, self.zones, self.last = aso, disp, fa, faa, zones, last
        self.conf = conf + ("AmigaStyleOutbound\n" if aso else "") + ("BundleDisp %d\n" % disp if disp else "") + \
            ("IgnoreFileAttach %d\n" % faa if faa else "")
        self.busy, self.stale, self.pre, self.files = set(busy), set(stale), pre or {}, files
        self.rules = []
        self.arcs = dict(noarc=("arc", None))
        ty = "n"
        for l in self.text:
            w = shlex.split(l)
            c = w[0].lower()
            if c in ("netmail", "echomail"):
                ty = c[0]
            elif c in ("arc", "prog", "progn"):
                self.arcs[w[1]] = (c, w[2])
            elif c == "lastarcmailchars":
                self.last = {0: 9, 1: 15, 2: 35}.get(int(w[1]), int(w[1]))
            else:
                a = w[1:]
                d = a.pop(0) if c.startswith("dir") else None
                arc = a.pop(0) if c != "dirmove" else None
                if a[0].startswith("size="):
                    a.pop(0)
                old = (self.akas[0].zone, -1, -1, -1)
                l2 = []
                for x in a:
                    old = pat(x, old)
                    l2.append(old)
                self.rules.append((ty, c, d, arc, l2))
        self.events = {}

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def us(self, zone):
        return next((a for a in self.akas if a.zone == zone), self.akas[0])

    def odir(self, n):
        o = self.zones.get(0 if self.aso else n.zone)
        return None if o is None else "bt/" + o

    def base(self, n):
        d = self.odir(n)
        if self.aso:
            return "%s/%d.%d.%d.%d" % ((d,) + n)
        if n.point:
            return "%s/%04x%04x.pnt/%08x" % (d, n.net, n.node, n.point)
        return "%s/%04x%04x" % (d, n.net, n.node)

    def arcbase(self, n, d):
        m = self.akas[0]
        if self.aso:
            f = "%d.%d.%d.%d." % n
            pd = ""
        elif n.point:
            f = "%04x%04x." % (0, (m.point - n.point) & 0xffff)
            pd = "%04x%04x.pnt/" % (n.net, n.node)
        else:
            f = "%04x%04x." % ((m.net - n.net) & 0xffff, (m.node - n.node) & 0xffff)
            pd = ""
        return (d.rstrip("/") + "/" if d else self.odir(n) + "/" + pd) + f + week()

    # ---- simulation after the run: where[(archive base, packet)] = archive
    def start(self, tree, where, root):
        self.tree, self.where, self.root = tree, where, root
        self.outs, self.flos, self.added, self.newd, self.prog, self.left, self.gone = {}, {}, {}, {}, {}, {}, set()
        self.errs = []

    def put(self, n, fl, msgs):
        b = self.base(n)
        p = next((b + "." + OUT[f] for f in ORDER if b + "." + OUT[f] in self.tree or b + "." + OUT[f] in self.outs), None)
        if p is None:
            p = b + "." + OUT[fl]
        if p not in self.outs:
            if p in self.tree and self.tree[p]:
                k = parse(self.tree[p])
                self.outs[p] = ((k.frm, k.to, k.passwd), [msgkey(x) for x in k.msgs])
            else:
                self.outs[p] = ((self.us(n.zone), n, self.pw.get(n, "").encode()), [])
        self.outs[p][1].extend(msgs)

    def attach(self, n, fl, mode, name):
        b = self.base(n)
        p = next((b + "." + FLO[f] for f in ORDER if b + "." + FLO[f] in self.tree or b + "." + FLO[f] in self.flos), None)
        if p is None:
            p = b + "." + FLO[fl]
        if p not in self.flos:
            self.flos[p] = (self.tree.get(p) or b"").decode("latin-1").split("\n")[:-1]
        for l in self.flos[p]:
            if l[:1] != "~" and (l[1:] if l[:1] in "^#@" else l) == name:
                return
        self.flos[p].append(mode + name)

    def msgs(self, pkt, n, fl, ty, attach=True):
        out = []
        for m in pkt.msgs:
            subj = m.subj
            if ty == "n" and m.attr & ATTR_FILE:
                if self.fa == "/":
                    f = subj.decode("latin-1")
                    if self.faa == 0:
                        self.attach(n, fl, "", f)
                    elif self.faa == 1:
                        self.gone.add(os.path.relpath(f, self.root))
                    self.ev("fa")
                elif self.fa:
                    f = next((x for x in self.files if x.lower() == subj.decode("latin-1").lower() and "fadir/" + x not in self.gone), None)
                    if f is not None:
                        subj = f.encode("latin-1")
                        if self.faa == 0:
                            self.attach(n, fl, "^", self.fa + "/" + f)
                        elif self.faa == 1:
                            self.gone.add(os.path.relpath(self.fa + "/" + f, self.root))
                        self.ev("fa")
            x = msgkey(m)
            b = m.body
            if b and not re.search(rb"\r\n*\Z", b):
                b += b"\r\n"          # an incomplete line is completed
            out.append(x[:7] + (subj, b))
        return out

    def packet(self, name, pkt):
        g, ty, fl = name[:3]
        if ty not in "net" or fl not in "nhcd":
            g, ty, fl = "--n"
        to = pkt.to
        r = next((r for r in self.rules if r[0] == ty and any(match(to, p) for p in r[4])), None)
        if r is None:
            self.ev("no rule")
            self.left[name] = pkt
            return
        t, c, d, arc, l = r
        an = fn = to
        if c in ("rpack", "fpack"):
            fn = zero(l[0])
            if c == "rpack":
                an = fn
        need = [to] if d else [an, fn, to]
        if any(x in self.busy for x in need) or any(self.odir(x) is None for x in need):
            self.ev("busy")
            self.left[name] = pkt
            return
        kind, prog = self.arcs[arc] if arc else (None, None)
        if c == "dirmove":
            self.newd[d.rstrip("/") + "/" + name] = ((self.us(to.zone), to, self.pw.get(to, "").encode()), self.msgs(pkt, to, fl, ty))
            self.ev(c)
        elif d and not prog:
            self.left[name] = pkt
        elif d or (kind == "arc" and prog and fl != "c"):
            if prog in ("false", "kill"):
                self.left[name] = pkt
                if ty == "n":
                    self.msgs(pkt, fn, fl, ty)
                self.ev("failed")
                return
            b = self.arcbase(an, d)
            if ty == "e":
                data = pkt.pack()
            else:
                data = ((self.us(to.zone), to, self.pw.get(to, "").encode()), self.msgs(pkt, fn, fl, ty))
            self.added.setdefault(b, []).append((name, data))
            w = self.where.get((b, name))
            if w is None:
                self.errs.append("packet %s is not in archive %s?" % (name, b))
                return
            if not d:
                self.attach(fn, fl, "#^@"[self.disp], self.root + "/" + w)
            self.ev(c + " " + ty)
        elif kind == "arc":
            self.put(to, fl, self.msgs(pkt, to, fl, ty))
            self.ev("noarc")
        else:
            self.prog.setdefault(arc, []).append(pkt.pack())
            if kind == "progn" or "false" in prog or "kill" in prog:
                self.left[name] = pkt
            self.ev(kind)


def setup(ck, m, pkts, dir="w"):
    root = "%s/%s%d" % (ck.scratch, dir, core.worker_id())
    progs = dict(ARC="%s %%s %%s" % ck.har("h_arc"), LOG1="cat %%s >>%s/log1" % root, LOG2="cat %%s >>%s/log2" % root)
    w = world.World(root, conf=m.conf, address=[A(a) for a in m.akas])
    t = []
    for l in m.text:
        x = shlex.split(l)
        if x[0] in ("arc", "prog", "progn"):
            l = '%s %s "%s"' % (x[0], x[1], {"false": "false %s %s", "kill": "kill -9 $$; : %s %s"}.get(x[2], progs.get(x[2], x[2])))
        t.append(l.replace("@/", root + "/"))
    w.files["etc/packing"] = "".join(l + "\n" for l in t).encode()
    w.files["etc/passwd"] = "".join("packet %s %s\n" % (A(n), p) for n, p in m.pw.items()).encode()
    w.reset()
    for d in ("spool/dir1", "spool/dir2", "fadir"):
        os.makedirs(w.p(d), exist_ok=True)
    for f in m.files:
        w.put("fadir/" + f, b"data")
    for k, v in m.pre.items():
        old = None
        if isinstance(v, tuple):
            v, old = v
        k = k.replace("DAY", week())
        w.put(k, v.replace(b"@/", root.encode() + b"/").replace(b"DAY", week().encode()) if k.endswith("lo") else v)
        if old:
            os.utime(w.p(k), (time.time() - old,) * 2)
    for n in m.busy:
        w.put(m.base(n) + ".bsy", b"%d\n" % os.getpid())
    for n in m.stale:
        w.put(m.base(n) + ".bsy", b"999999\n")
    for i, (n, p) in enumerate(pkts):
        f = "spool/toss/route/" + n
        w.put(f, p if isinstance(p, bytes) else p.pack())
        os.utime(w.p(f), (10 ** 9 + i, 10 ** 9 + i))
    m.rules = [(a, b, c.replace("@/", "") if c else c, d, e) for a, b, c, d, e in m.rules]
    if m.fa:
        m.fa = m.fa.replace("@/", root + "/")
    return w


def outbound(w):
    return {k: v for k, v in w.tree().items() if k.startswith(("bt/", "spool/dir"))}


def run(ck, m, pkts, dir="w", binary=None):
    while True:
        day = week()
        w = setup(ck, m, pkts, dir)
        before = outbound(w)
        a = ["-F", m.fa] if m.fa else []
        r = w.run(binary or ck.bin("toss/ftnpack"), *(a + m.args))
        if week() == day:
            return w, before, r


def judge(w, m, pkts, before, r, malformed=()):
    errs = []
    if r is not None and r.returncode != 0:
        errs.append("ftnpack exit %d: %r" % (r.returncode, r.stdout[-300:]))
    after = outbound(w)
    # archives: what was there stays, new packets behind it
    where, got = {}, {}
    ar = re.compile(r"(.*\.(?:su|mo|tu|we|th|fr|sa))([0-9a-z])$")
    chars = "0123456789abcdefghijklmnopqrstuvwxyz"
    for k in sorted(set(before) | set(after)):
        x = ar.match(k)
        if not x:
            continue
        b = before.get(k, b"")
        if k not in after:
            if b:
                errs.append("archive %s vanished" % k)
            continue
        d = after[k]
        if d[:len(b)] != b:
            errs.append("archive %s damaged" % k)
            continue
        try:
            new = records(d[len(b):])
        except ValueError as e:
            errs.append("archive %s: %s" % (k, e))
            continue
        if new and chars.index(x.group(2)) > m.last:
            errs.append("archive %s beyond LastArcmailChars" % k)
        for n, data in new:
            if (x.group(1), n) in where:
                errs.append("packet %s archived twice" % n)
            where[(x.group(1), n)] = k
            got.setdefault(x.group(1), {})[n] = data
    m.start(before, where, w.root)
    for n, p in pkts:
        if not isinstance(p, bytes):
            m.packet(n, p)
        else:
            m.left[n] = p
    errs += m.errs
    for b in sorted(set(got) | set(m.added)):
        g = got.get(b, {})
        e = dict(m.added.get(b, []))
        for n in sorted(set(g) | set(e)):
            if n not in e:
                errs.append("unexpected packet %s in archive %s" % (n, b))
            elif n in g:
                check_pkt(errs, "%s in %s" % (n, b), g[n], e[n])
    exp = set(before)
    for k, v in m.outs.items():
        exp.add(k)
        if k not in after:
            errs.append("packet %s missing" % k)
        else:
            check_pkt(errs, k, after[k], v)
    for k, v in m.newd.items():
        exp.add(k)
        if k not in after:
            errs.append("packet %s missing" % k)
        else:
            check_pkt(errs, k, after[k], v)
    for k, v in m.flos.items():
        exp.add(k)
        l = (after.get(k) or b"").decode("latin-1").split("\n")
        if l[-1] != "" or l[:-1] != v:
            errs.append("flow file %s is %r, expected %r" % (k, l, v))
    for k, v in after.items():
        if ar.match(k) or k in m.outs or k in m.flos or k in m.newd:
            continue
        if k in m.gone:
            errs.append("file %s was not removed" % k)
        elif k not in before:
            errs.append("unexpected file %s" % k)
        elif v != before[k]:
            errs.append("file %s changed" % k)
    for k in before:
        if k not in after and k not in m.gone and not ar.match(k) and not (k.endswith(".bsy")):
            errs.append("file %s vanished" % k)
    for n in m.busy:
        if after.get(m.base(n) + ".bsy") != b"%d\n" % os.getpid():
            errs.append("BSY file of %s: %r" % (A(n), after.get(m.base(n) + ".bsy")))
    fa = set(w.ls("fadir"))
    want = set(f for f in m.files if "fadir/" + f not in m.gone)
    if fa != want:
        errs.append("attached files: %s, expected %s" % (sorted(fa), sorted(want)))
    left = set(w.ls("spool/toss/route"))
    if left != set(m.left):
        errs.append("packets left: %s, expected %s" % (sorted(left), sorted(m.left)))
    for k, p in m.left.items():
        if k in left and w.get("spool/toss/route/" + k) != (p if isinstance(p, bytes) else p.pack()):
            errs.append("packet %s changed" % k)
    if w.ls("spool/toss/pack"):
        errs.append("left in the pack directory: %s" % w.ls("spool/toss/pack"))
    for p, f in (("log1", "p1"), ("log2", "p2")):
        if (w.get(p) or b"") != b"".join(m.prog.get(f, [])):
            errs.append("program %s got other packets than expected" % f)
    for f in w.ls("lock") + [x for x in w.ls("var") if x.endswith(".lock")]:
        errs.append("lock left: %s" % f)
    return errs


def check_pkt(errs, what, data, want):
    if isinstance(want, bytes):
        if data != want:
            errs.append("%s: contents changed" % what)
        return
    try:
        p = parse(data)
    except BadPkt as e:
        errs.append("%s: malformed packet: %s" % (what, e))
        return
    if (p.frm, p.to, p.passwd) != want[0]:
        errs.append("%s: header %r, expected %r" % (what, (p.frm, p.to, p.passwd), want[0]))
    got = [msgkey(x) for x in p.msgs]
    if got != want[1]:
        n = next((i for i, (x, y) in enumerate(zip(got, want[1])) if x != y), min(len(got), len(want[1])))
        errs.append("%s: %d messages, expected %d; first difference at %d: %r, expected %r" % (
            what, len(got), len(want[1]), n, got[n:n + 1], want[1][n:n + 1]))
