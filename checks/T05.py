import os, re
from fg import core, mcx, world, toss, tossrun, crash
from fg.ftn import N, Msg, Pkt
from fg.toss import Toss, Area
ck = core.Check("T05")
ck.rule = ("every crash point, torn write and failing file operation of a real ftntoss run, followed by a recovery run "
           "(thorough: crash of the recovery, too); non-trivial = distinct fault")
ck.build("plain")
FT = ck.bin("toss/ftntoss")
T = ck.thorough
US, B, C, D = N("2:1/1"), N("2:1/2"), N("2:1/3"), N("1:5/6")


def net(i, to=D, frm=B, **kw):
    return Msg(frm, to, subj=b"net%d" % i, body=b"\1INTL %d:%d/%d %d:%d/%d\r\1MSGID: 2:1/2 %08x\rtext %d\r" % (
        to[:3] + frm[:3] + (i, i)), **kw)


def echo(i, f=B, area=b"A"):
    return Msg(f, US, subj=b"echo%d" % i, body=b"AREA:%s\r\1MSGID: 2:5/5 %08x\rtext %d\r--- x\r * Origin: o (2:77/8)\rSEEN-BY: %d/%d\r\1PATH: %d/%d\r" % (
        area, i, i, f.net, f.node, f.net, f.node))


def scen(name, conf, args=(), hist=False, pkts=None, state="", **k):
    kw = dict(akas=["2:1/1"], areas=[Area("A", [B, C, D], state=state), Area("B", [B, C])], conf=conf, args=list(args))
    pkts = pkts or [Pkt(B, US, [net(1), echo(1), net(2, C), echo(2)]), Pkt(C, US, [echo(3, C), echo(4, C, b"X"), net(3, D, C)])]
    m = Toss(**kw)
    for p in pkts:
        m.packet(p)
    want = {}
    for key, v in m.out:
        want.setdefault(key, []).append(v)
    pre = {}
    if hist:
        w = tossrun.setup(ck, Toss(**kw), [Pkt(B, US, [echo(i) for i in range(100, 104)])], dir="p")
        w.run(FT, *m.args)
        pre = {"var/" + f: w.get("var/" + f) for f in ("history", "history.dir", "history.pag")}
    ign = ("/log/", "/etc/", ".dir", ".pag") if not hist and "DupeCheck" in conf else ("/log/", "/etc/")
    arg = m.args

    def job(w, vpid):
        # the first process is 1001; a recovery is another process
        return mcx.Job(w.root, [dict(args=w.args(FT, *arg), vpid=vpid)], ignore=("/log/", "/etc/"))

    def setup(wid):
        w = tossrun.setup(ck, Toss(**kw), pkts, pre)
        w.areas0 = w.get("var/areas.bbs")
        return w, job(w, 1001)

    final = []

    def areas(w, when, errs):
        a = w.get("var/areas.bbs")
        if a is None:
            errs.append("no areas.bbs %s" % when)
            return
        l = a.split(b"\n")
        ok = l[-1] == b"" and len(l) == 4
        for x, tag, nodes in zip(l[1:3], ("A", "B"), ([B, C, D], [B, C])):
            t = x.decode().split()
            while len(t) > 2 and t[2].startswith("-"):
                del t[2:4]
            ok = ok and t[1:2] == [tag] and sorted(toss.plist(" ".join(t[2:]), 2)) == sorted(nodes)
        if not ok:
            errs.append("areas.bbs damaged %s: %r" % (when, a))

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        areas(w, "after the fault", errs)
        seen = {}
        tmp = 0
        errs += collect(w, seen)
        rec = None
        for rnd in range(3):
            for f in w.ls("bt/pin"):
                if f.endswith(".bad"):
                    os.rename(w.p("bt/pin/" + f), w.p("bt/pin/" + f[:-3] + "pkt"))
            tossrun.order(w, 0)
            r2 = job(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0):
                if r2.exits[0] != "0":
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        seen = {}
        errs += collect(w, seen)
        if w.ls("bt/pin"):
            errs.append("input left after recovery: %s" % w.ls("bt/pin"))
        # (a crash while a lock is being created may leave its unused temporary file)
        lk = [x for x in w.ls("lock") + [x for x in w.ls("var") if ".lock" in x] if not re.search(r"\.L\d+$", x)]
        if lk:
            errs.append("locks left: %s" % lk)
        for key, v in want.items():
            got = seen.get(key, [])
            for x in v:
                if x not in got:
                    errs.append("message lost: %r for %r" % (x[7], key))
        for key, v in seen.items():
            for x in v:
                if x not in want.get(key, []) and not (key[0] and fault):
                    errs.append("unexpected message %r for %r" % (x, key))
        areas(w, "after recovery", errs)
        return errs, rec

    def collect(w, seen):
        errs = []
        for d in ("toss", "bad"):
            for f in w.ls("spool/toss/" + d):
                if f.endswith(".tmp"):
                    os.rename(w.p("spool/toss/%s/%s" % (d, f)), w.p("log/" + f))
        for key, v in toss.observed(w, errs).items():
            seen.setdefault(key, []).extend(v)
        return errs
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=seqtorn, **k)


def seqtorn(steps, f):
    """a number of a few bytes, rewritten in place, is not torn"""
    return f[1] in ("torn", "shorterr") and "/seq/" in steps[f[0]].p1


scen("plain", {})
scen("-l, files closed after each message, one open file", {"MaxOpenFiles": "1"}, ["-l", "-m", "1"])
scen("areas.bbs rewritten", {}, state="W", pkts=[Pkt(B, US, [echo(1), echo(2)])])
scen("DupeCheck, new history", {"DupeCheck": ""})
scen("DupeCheck, old history, -m 2", {"DupeCheck": ""}, ["-m", "2"], hist=True)
big = [Msg(B, D, subj=b"big%d" % i, body=b"\1INTL 1:5/6 2:1/2\r\1MSGID: 2:1/2 %08x\r" % i + b"text line %d\r" % i * 300) for i in range(3)]
scen("large packets", {}, pkts=[Pkt(B, US, big[:2] + [echo(1)] + big[2:])])
def edge():
    """a packet where a message ends right at the end of a block"""
    m = net(1)
    m.body += b"x" * 72 + b"\r"
    n = 4096 - 58 - 2 - len(m.pack())
    assert n > 0
    m.body += b"y" * (n % 73) + b"\r" + (b"z" * 72 + b"\r") * (n // 73)
    m.body = m.body[:-2] + b"\r" if n else m.body
    return m
e = edge()
while 58 + len(e.pack()) + 2 != 4096:
    e.body = e.body[:-2] + b"\r" if 58 + len(e.pack()) + 2 > 4096 else e.body + b"\r"
scen("message ends at a block boundary", {}, pkts=[Pkt(B, US, [e, net(2), echo(2)])])
ck.sample("crash at each file operation: open of packet.tmp, write, close, rename to .pkt, unlink of the input, history")
ck.assumptions += ["a crash keeps the operations done before it, in order (no reordering of unsynced writes)",
                   "a sequence file (one line) is rewritten by one write which is not torn"]
ck.finish()
