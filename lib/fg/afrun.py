"""Run the real areafix programs, compare with the model."""
import os, re, time
from . import core, world, areafix
from .ftn import N, A, Node, Msg, Pkt, parse
from .areafix import Fix, parse_areas, A0

US = N("2:1/1")


def conftext(conf):
    o = ""
    for k, v in conf.items():
        if k == "AutoCreateSubscribeNodes":
            # each address as far as it differs from the one before
            old, l = Node(2, -1, -1, -1), []
            for x in v:
                t = A(x)
                if x[:3] == old[:3] and x.point:
                    t = ".%d" % x.point
                elif x[:2] == old[:2]:
                    t = t.split("/")[1]
                elif x[0] == old[0]:
                    t = t.split(":")[1]
                l.append(t)
                old = x
            o += k + " " + " ".join(l) + "\n"
        elif isinstance(v, list):
            o += "".join("%s %s\n" % (k, x) for x in v)
        else:
            o += "%s %s\n" % (k, v)
    return o


def setup(ck, m, first="Test System", d="w", conf=""):
    w = world.World("%s/%s%d" % (ck.scratch, d, core.worker_id()), conf=conftext(m.conf) + conf, address=["2:1/1", "9:1/1"])
    w.conf += "Zone 9 .fidonet.org fidonet out.009\n"
    w.files["etc/passwd"] = "".join("%s %s %s%s\n" % (m.context, A(n), p.pw, p.args()) for n, p in m.passwd.items()).encode()
    w.files["etc/uplinks"] = "".join("%s %s %s %s %s %s\n" % (m.context, ",".join(u[0]), A(u[1]), u[2], u[3], u[4] or "") for u in m.uplinks).encode()
    t = first + "\n" + "".join(a.line() + "\n" for a in m.areas)
    w.files["var/areas.bbs" if m.context == "af" else "var/fareas.bbs"] = t.encode("latin-1")
    w.reset()
    return w


def kludges(frm, to):
    b = b"\1INTL %d:%d/%d %d:%d/%d\r" % (tuple(to[:3]) + tuple(frm[:3]))
    if frm.point:
        b += b"\1FMPT %d\r" % frm.point
    if to.point:
        b += b"\1TOPT %d\r" % to.point
    return b


def request(frm, subj, lines, name="User", robot="areafix"):
    return Msg(frm, US, to=robot.encode(), frm=name.encode(), subj=subj.encode("latin-1"),
               body=kludges(frm, US) + "".join(l + "\r" for l in lines).encode("latin-1"))


def netmail(m):
    """-> (from, to, lines) of a netmail with its address kludges"""
    f, t = [0, m.onet, m.onode, 0], [0, m.dnet, m.dnode, 0]
    out = []
    for l in m.body.replace(b"\r\n", b"\r").replace(b"\n", b"\r").split(b"\r"):
        if l.startswith(b"\1"):
            k = l[1:].split()
            if k[0] in (b"INTL", b"INTL:"):
                t[:3], f[:3] = N(k[1].decode())[:3], N(k[2].decode())[:3]
            elif k[0] == b"FMPT":
                f[3] = int(k[1])
            elif k[0] == b"TOPT":
                t[3] = int(k[1])
            continue
        if l.startswith(b"---"):
            continue
        out.append(l.decode("latin-1"))
    return Node(*f), Node(*t), out


def packets(w, errs, d="spool/outpkt"):
    out = []
    for f in w.ls(d):
        if not os.path.isfile(w.p(d + "/" + f)):
            continue
        try:
            out.append((f, parse(w.get(d + "/" + f))))
        except Exception as e:
            errs.append("packet %s: %r" % (f, e))
    return out


def flat(lines):
    o = []
    for l in lines:
        o += l.replace("\r\n", "\r").split("\r")
    return [x.rstrip(" ") for x in o]


def mail(w, m, replies, errs):
    """judge everything in outpkt: replies [(node, name, lines)] and m.requests"""
    got_rep, got_req = {}, {}
    for f, k in packets(w, errs):
        for x in k.msgs:
            fr, to, lines = netmail(x)
            if x.subj == ("Your %s Request" % m.name).encode():
                got_rep.setdefault((to, x.to.decode("latin-1"), x.frm.decode()), []).append(lines)
                continue
            if k.to != to:
                errs.append("request for %s in a packet for %s" % (to, k.to))
            for l in lines:
                if l:
                    got_req.setdefault((to, x.to.decode("latin-1"), x.subj.decode("latin-1")), []).append(l)
    want = {}
    for n, r, p, l in m.requests:
        want.setdefault((n, r, p), []).append(l)
    if want != got_req:
        errs.append("requests to uplinks: %r, expected %r" % (got_req, want))
    want = {}
    for n, name, lines in replies:
        if lines:
            want.setdefault((n, name, m.name), []).append(flat(lines))
    for k in sorted(set(want) | set(got_rep), key=repr):
        a = sorted(want.get(k, []))
        g = got_rep.get(k, [])
        # a long reply is split; an empty line comes first, one or more last
        gl = sorted([x for l in g for x in l if x.strip()])
        al = sorted([x for l in a for x in l if x.strip()])
        if [x.rstrip() for x in gl] != [x.rstrip() for x in al]:
            d = [x for x in al if al.count(x) != gl.count(x)], [x for x in gl if gl.count(x) != al.count(x)]
            errs.append("reply to %s: missing %r, not expected %r" % (k, d[0][:4], d[1][:4]))
        elif len(g) == 1 == len(a) and [x.rstrip() for x in g[0] if x.strip()] != [x.rstrip() for x in a[0] if x.strip()]:
            errs.append("reply to %s out of order: %r" % (k, g[0][:8]))


def bbs(w, m, orig, errs, t0, first="Test System"):
    name = "var/areas.bbs" if m.context == "af" else "var/fareas.bbs"
    text = w.get(name)
    if text is None:
        errs.append("no " + name)
        return
    text = text.decode("latin-1")
    if not m.changed:
        if text != orig:
            errs.append("%s rewritten without a change: %r" % (name, text[:300]))
        return
    try:
        f, got = parse_areas(text)
    except ValueError as e:
        errs.append("%s: %s" % (name, e))
        return
    if f != first:
        errs.append("first line of %s is %r" % (name, f))
    if [a.tag for a in got] != [a.tag for a in m.areas]:
        errs.append("areas are %s, expected %s" % ([a.tag for a in got], [a.tag for a in m.areas]))
        return
    for g, a in zip(got, m.areas):
        if g.key_tuple() != a.key_tuple():
            errs.append("area %s is %s, expected %s" % (a.tag, g.line(), a.line()))
        if a.time == "now":
            if not t0 - 1 <= g.time <= time.time() + 1:
                errs.append("area %s: time %s" % (a.tag, g.time))
        elif g.time != a.time:
            errs.append("area %s: time %s, expected %s" % (a.tag, g.time, a.time))
    if orig not in [(w.get(name[:-3] + "o%02d" % i) or b"").decode("latin-1") for i in range(1, 6)]:
        errs.append("old %s not kept" % name)


def litter(w, errs):
    for d in ("lock", "bt/pin", "spool/outpkt/mail"):
        if w.ls(d):
            errs.append("%s left in %s" % (w.ls(d), d))
    for f in w.ls("var") + w.ls("spool/outpkt"):
        if f.endswith((".lock", ".new", ".tmp")):
            errs.append("%s left" % f)


def batch(ck, FT, m, msgs, how="packet", args=(), first="Test System", conf="", d="w"):
    """msgs: [(node, subject, lines)]; how: packet (all in one), packets, runs; -> errors"""
    w = setup(ck, m, first, d, conf)
    name = "var/areas.bbs" if m.context == "af" else "var/fareas.bbs"
    orig = w.get(name).decode("latin-1")
    errs, replies = [], []
    t0 = int(time.time())
    ctx = ["-F"] if m.context == "ff" else []

    def go():
        r = w.run(FT, *(ctx + list(args)))
        if r.returncode:
            errs.append("exit %d: %s" % (r.returncode, r.stdout[-300:]))

    def put(i, ms):
        w.put("bt/pin/%02d.pkt" % i, Pkt(ms[0][0], US, [request(n, s, l) for n, s, l in ms]).pack())
        os.utime(w.p("bt/pin/%02d.pkt" % i), (10 ** 9 + i,) * 2)

    if how == "packet":
        put(0, msgs)
        go()
    elif how == "packets":
        for i, x in enumerate(msgs):
            put(i, [x])
        go()
    base = None
    for i, (n, s, l) in enumerate(msgs):
        if how == "runs":
            base = w.get(name).decode("latin-1")
            m.changed = False
            put(i, [(n, s, l)])
            go()
        to, lines = m.message(n, s, l)
        replies.append((to, "User", list(lines)))
        if how == "runs":
            bbs(w, m, base, errs, t0, first)
    if how != "runs":
        bbs(w, m, orig, errs, t0, first)
    mail(w, m, replies, errs)
    litter(w, errs)
    if errs:
        errs.append(w.log()[-1500:])
    return errs
