import os, re
from fg import core, mcx, world, toss, crash, route, pack
from fg.ftn import N, A, Msg, Pkt, parse, BadPkt
ck = core.Check("R03")
ck.rule = ("every crash point, torn write and failing file operation of real ftnroute and ftnpack runs, followed by a recovery run "
           "(thorough: crash of the recovery, too); non-trivial = distinct fault")
ck.build("plain", har=["h_arc"])
T = ck.thorough
RT, PK = ck.bin("toss/ftnroute"), ck.bin("toss/ftnpack")
US, B, C, D = N("2:1/1"), N("2:1/2"), N("2:5/6.7"), N("1:5/6")
AK = ["2:1/1", "1:9/1"]


def net(i, to, frm=US, n=1):
    return Msg(frm, to, subj=b"net%d" % i, body=b"\1INTL %d:%d/%d %d:%d/%d\r\1MSGID: 2:1/2 %08x\r" % (to[:3] + frm[:3] + (i,)) + b"text line\r" * n)


def echo(i, to, n=1):
    return Msg(US, to, subj=b"echo%d" % i, body=b"AREA:A\r\1MSGID: 2:5/5 %08x\r" % i + b"text line\r" * n + b"--- x\r * Origin: o (2:77/8)\rSEEN-BY: 1/1\r\1PATH: 1/1\r")


def locks(w, errs):
    lk = [x for x in w.ls("lock") + [x for x in w.ls("var") if ".lock" in x] if not re.search(r"\.L\d+$", x)]
    if lk:
        errs.append("locks left: %s" % lk)


def seqtorn(steps, f):
    """a number of a few bytes, rewritten in place, is not torn"""
    return f[1] in ("torn", "shorterr") and "/seq/" in steps[f[0]].p1


def unbad(w, d):
    for f in w.ls(d):
        if f.endswith(".bad"):
            os.rename(w.p(d + "/" + f), w.p(d + "/" + f[:-3] + "pkt"))


# ---- ftnroute
def routing(name, rules, pkts, args=(), conf=""):
    m = route.Route(AK, rules, args=args, conf=conf)
    for n, p in pkts:
        m.packet(n, p)
    want = {}
    for k, v in m.out:
        want.setdefault(k, []).append(v)

    def job(w, vpid):
        return mcx.Job(w.root, [dict(args=w.args(RT, *args), vpid=vpid)], ignore=("/log/", "/etc/"))

    def setup(wid):
        w, r = route.run(ck, route.Route(AK, rules, args=args, conf=conf), pkts, binary=False)
        return w, job(w, 1001)

    def collect(w, errs):
        seen = {}
        moved = {}
        for f in w.ls("spool/toss/route"):
            if not f.endswith(".pkt"):
                continue
            d = w.get("spool/toss/route/" + f)
            if d in m.moved.get(f[:3], []):
                moved.setdefault(f[:3], []).append(d)
                continue
            try:
                p = parse(d)
            except BadPkt as e:
                errs.append("malformed packet %s: %s" % (f, e))
                continue
            k = (f[:3], p.frm, p.to, p.passwd.decode("latin-1"))
            for x in p.msgs:
                seen.setdefault(k, []).append((x.attr, x.cost, (x.onet, x.onode), (x.dnet, x.dnode), x.date, x.to, x.frm, x.subj, x.body))
        return seen, moved

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        collect(w, errs)
        rec = None
        for rnd in range(3):
            unbad(w, "spool/toss/toss")
            for f in w.ls("spool/toss/route"):
                if f.endswith(".tmp"):
                    os.unlink(w.p("spool/toss/route/" + f))
            r2 = job(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0):
                if r2.exits[0] != "0":
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        seen, moved = collect(w, errs)
        if w.ls("spool/toss/toss"):
            errs.append("input left after recovery: %s" % w.ls("spool/toss/toss"))
        locks(w, errs)
        for k, v in want.items():
            for x in v:
                if x not in seen.get(k, []):
                    errs.append("message lost: %r for %r" % (x[7], k))
        for k, v in seen.items():
            for x in v:
                if x not in want.get(k, []):
                    errs.append("unexpected message %r for %r" % (x, k))
        for k, v in m.moved.items():
            if sorted(set(moved.get(k, []))) != sorted(v):
                errs.append("moved packets lost: %r" % k)
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=seqtorn)


PR = [("mnn00001.pkt", Pkt(US, B, [net(1, B), net(2, B)])), ("mnn00002.pkt", Pkt(US, C, [net(3, C)])),
      ("men00003.pkt", Pkt(US, B, [echo(4, B)])), ("mnc00004.pkt", Pkt(US, D, [net(5, D)]))]
routing("ftnroute", ["route hold 2:1/2 2:5/6.*", "change crash direct *"], PR)
routing("ftnroute -l, one open file, sendmove", ["sendmove hold 2:5/6.*", "route normal 2:1/2 *"], PR, ["-l", "-M", "1"])
routing("ftnroute, large packets", ["route normal 2:1/9 *"], [("mnn%05d.pkt" % i, Pkt(US, x, [net(10 * i + j, x, n=260) for j in range(2)])) for i, x in enumerate((B, C))])


# ---- ftnpack
pack.NOW = 10 ** 9          # the engine's clock


def packing(name, rules, pkts, pre=None, args=(), pw=None, **kw):
    mk = lambda: pack.Pack(AK, rules, args=args, pw=pw, pre=pre, **kw)

    def job(w, vpid):
        a = ["-F", w.p("fadir")] if kw.get("fa") else []
        return mcx.Job(w.root, [dict(args=w.args(PK, *(a + list(args))), vpid=vpid)], ignore=("/log/", "/etc/", "/h_arc"))

    def setup(wid):
        m = mk()
        w = pack.setup(ck, m, pkts)
        w.m = m
        w.before = pack.outbound(w)
        w.taken = {}
        return w, job(w, 1001)

    def deliver(w, soft, errs):
        """what a mailer would find: {(what, name): [message keys or packet bytes]}"""
        out = pack.outbound(w)
        att = {}
        for k, v in out.items():
            if k.endswith("lo"):
                for l in v.decode("latin-1").split("\n"):
                    att.setdefault(l.lstrip("#^@"), set()).add(k.rsplit(".", 1)[0])
        got = dict(w.taken)
        for k, v in out.items():
            if k.endswith(tuple(pack.OUT.values())):
                if not v:
                    continue
                try:
                    p = parse(v)
                except BadPkt as e:
                    if not soft:
                        errs.append("malformed outbound packet %s: %s" % (k, e))
                        continue
                    p = lenient(v)
                    # the mailer takes it away
                    os.unlink(w.p(k))
                    w.taken.setdefault(("out", k.rsplit(".", 1)[0]), []).extend(map(pack.msgkey, p.msgs))
                got.setdefault(("out", k.rsplit(".", 1)[0]), []).extend(map(pack.msgkey, p.msgs))
            elif re.search(r"\.(su|mo|tu|we|th|fr|sa).$", k):
                try:
                    rec = pack.records(v)
                except ValueError as e:
                    errs.append("archive %s: %s" % (k, e))
                    continue
                for flo in att.get(w.p(k), ()) if k.startswith("bt/") else ("",):
                    for n, d in rec:
                        try:
                            x = parse(d)
                        except BadPkt as e:
                            errs.append("malformed packet %s in archive %s: %s" % (n, k, e))
                            continue
                        got.setdefault(("arc", k[:-1], flo), []).extend(map(pack.msgkey, x.msgs))
            elif k.startswith("spool/dir2") and not soft:
                try:
                    got.setdefault(("move", k), []).extend(map(pack.msgkey, parse(v).msgs))
                except BadPkt as e:
                    errs.append("malformed packet %s: %s" % (k, e))
            elif k.endswith("lo"):
                got.setdefault(("flo", k), []).extend(l.lstrip("#^@") for l in v.decode("latin-1").split("\n") if l)
        for i in (1, 2):
            if w.get("log%d" % i):
                got[("prog", i)] = [w.get("log%d" % i)]
        return got

    def lenient(v):
        p = Pkt(US, B)
        for n in range(len(v), 57, -1):
            try:
                return parse(v[:n] + b"\0\0")
            except BadPkt:
                pass
        return p
    # expected: an undisturbed run
    w = setup(0)[0]
    job(w, 1001).run()
    e0 = []
    want = deliver(w, False, e0)
    root0 = w.root
    assert not e0 and want, e0
    old = set(w.before) & set(k for k in w.before if k.endswith("lo"))

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        soft = fault is not None and fault[1] in ("kill", "torn", "stick", "shorterr") or second is not None
        if not soft:
            deliver(w, False, errs)
        if not soft:
            b = [k for k in pack.outbound(w) if k.endswith(".bsy")]
            if b and not (fault and "unlink" in repr(res.steps[-1:]) or fault and fault[1] == "errno"):
                errs.append("BSY left: %s" % b)
        for k, v in w.before.items():
            if k.endswith("lo") and not (w.get(k) or b"").startswith(v):
                errs.append("flow file %s damaged: %r" % (k, w.get(k)))
            if re.search(r"\.(su|mo|tu|we|th|fr|sa).$", k) and not (w.get(k) or b"").startswith(v):
                errs.append("archive %s damaged" % k)
        mine = [s for s in res.steps if s.proc == 0]
        kill = fault is not None and (fault[1] in ("kill", "torn") or "bsy)" in repr(mine[fault[0]])) or second is not None
        rec = None
        for rnd in range(2):
            # the first run still finds a truncated outbound packet, the second one after the mailer doesn't
            r2 = job(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0) and r2.exits[0] != "0":
                errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
            if not soft:
                break
            deliver(w, True, errs)
        got = deliver(w, False, errs)
        progn = any(k[0] == "prog" for k in want)
        left = w.ls("spool/toss/route")
        if left and not progn:
            errs.append("input left after recovery: %s" % left)
        b = [k for k in pack.outbound(w) if k.endswith(".bsy")]
        if [x for x in b if not re.fullmatch(rb"[12]00\d\n?", w.get(x))] or b and not kill:
            # (a stale one of a killed process is taken over by the next user)
            errs.append("BSY left after recovery: %s" % b)
        locks(w, errs)
        for k, v in want.items():
            g = got.get(k, [])
            if k[0] == "prog":
                for x in v:
                    for n, p in pkts:
                        if p.pack() in x and p.pack() not in b"".join(g):
                            errs.append("packet %s not given to the program" % n)
                continue
            if k[0] == "flo":
                g = [x.replace(w.root, root0) for x in g]
            for x in v:
                if x not in g:
                    errs.append("lost: %r for %r" % (x if k[0] == "flo" else x[7], k))
        for k, v in got.items():
            if k[0] == "flo":
                v = [x.replace(w.root, root0) for x in v]
            if k[0] == "prog":
                continue
            for x in v:
                if x not in want.get(k, []) and not (k[0] == "flo" and soft):
                    errs.append("unexpected %r for %r" % (x, k))
        return errs, rec
    # (a directory of attached files which can't be read looks like one without the file)
    crash.sweep(ck, name, setup, judge, full=T, double=T,
                skip=lambda steps, f: seqtorn(steps, f) or
                f[1] == "torn" and steps[f[0]].p1.endswith("ut") and f[2] == steps[f[0]].arg - 1 or f[1] == "errno" and steps[f[0]].p1.endswith("/fadir"))


def outp(n, size=1):
    return Pkt(US, B, [net(900 + i, B, n=size) for i in range(n)]).pack()


HEAD = ["arc z ARC", "prog p1 LOG1"]
PP = [("mnn00001.pkt", Pkt(US, B, [net(1, B), net(2, B)])), ("men00002.pkt", Pkt(US, B, [echo(3, B), echo(4, B)])),
      ("mnc00003.pkt", Pkt(US, C, [net(5, C)])), ("men00004.pkt", Pkt(US, D, [echo(6, D)]))]
ALLZ = HEAD + ["netmail", "pack z *", "echomail", "pack z *"]
NO = HEAD + ["netmail", "pack noarc *", "echomail", "pack noarc *"]
packing("noarc, new outbound", NO, PP)
packing("noarc, existing outbound packets", NO, PP, {"bt/out/00010002.cut": outp(2)})
BIG = [("mnn%05d.pkt" % i, Pkt(US, B, [net(10 * i + j, B, n=300) for j in range(2)])) for i in range(2)]
packing("noarc, large packets appended", NO, BIG, {"bt/out/00010002.out": outp(1, 420)})
packing("archives, new outbound", ALLZ, PP)
packing("archives, existing archives and flow files", ALLZ, PP, {"bt/out/0000ffff.DAY0": b"FILE old.pkt %d\n" % len(outp(1)) + outp(1) + b"\n",
                                                                "bt/out/00010002.flo": b"^@/x/y\n#@/bt/out/0000ffff.DAY0\n"}, args=["-l"])
packing("fpack, rpack", HEAD + ["netmail", "rpack z 2:1/9 2:1/2 *", "echomail", "fpack z 2:1/9 *"], PP, {"bt/out/00010009.hlo": b"^@/x/y\n"})
packing("dirpack, dirmove", HEAD + ["netmail", "dirmove @/spool/dir2 *", "echomail", "dirpack @/spool/dir1 z *"], PP)
packing("prog", HEAD + ["netmail", "pack p1 *", "echomail", "pack p1 *"], PP)
FA = [("mnn00001.pkt", Pkt(US, B, [Msg(US, B, subj=b"file.zip", attr=0x10, body=b"x\r"), net(2, B)])), ("mnh00002.pkt", Pkt(US, D, [Msg(US, D, subj=b"b.zip", attr=0x10, body=b"x\r")]))]
packing("file attaches", HEAD + ["netmail", "pack noarc 2:*/*.*", "pack z *"], FA, fa="@/fadir", files=("file.zip", "b.zip"))
ck.sample("crash at each file operation: open, lock, write of the .OUT packet, its restoring, archive, flow file, unlink of the input, BSY files")
ck.assumptions += ["a crash keeps the operations done before it, in order (no reordering of unsynced writes)",
                   "a sequence file (one line) is rewritten by one write which is not torn",
                   "the two bytes of the end marker of an outbound packet are not torn",
                   "the archiver replaces archives atomically, as real ones do",
                   "after a crash the mailer takes away a truncated outbound packet"]
ck.finish()
