import itertools, os, re
from fg import core, mcx, world, crash, afrun
from fg.ftn import N, A, Msg, Pkt
from fg.areafix import Fix, Area, Pw, parse_areas
ck = core.Check("A03")
ck.rule = ("every crash point, torn write and failing file operation of a real run which changes areas.bbs, followed by a recovery run, and every "
           "preemption bounded schedule of 2-3 such programs; non-trivial = distinct fault or schedule")
ck.build("plain")
AF, PKT, UT, TOSS = [ck.bin(x) for x in ("areafix/ftnaf", "areafix/ftnafpkt", "areafix/ftnafutil", "toss/ftntoss")]
T = ck.thorough
B, C, D, U1 = N("2:1/2"), N("2:1/3"), N("2:1/4"), N("12:1/2")
UP = [(["NEW1", "NEW2"], B, "AreaFix", "uppw", "-k K"), (["Q1"], U1, "Robot", "pw2", None)]
PW = {C: Pw("secret", 10, "X&~$"), D: Pw("dpw", 10, "X&~$")}
DAY = 86400
NOW = 10 ** 9


def areas(**x):
    return [Area("A", [B, D], state="S", time=1000, desc="An \"A\" area"), Area("AB", [B], state="U", passthru=True),
            Area("L", [B, C, D], state="S", passthru=True, passive=[D]), Area("OTHER", [D, C], key="X", lvl=5)]


def model(ar=None, **k):
    return Fix(passwd=dict(PW), areas=ar or areas(), uplinks=UP, **k)


IGN = ("/log/", "/etc/", "version")


def job(w, progs, vpid=1001, stdin=None):
    return mcx.Job(w.root, [dict(args=w.args(p[0], *p[1:]), vpid=vpid + i, **(dict(stdin=w.p(stdin)) if stdin else {})) for i, p in enumerate(progs)],
                   ignore=IGN, time=NOW)


def tup(a):
    return a.key_tuple()


def lock_ok(w, errs, when):
    lk = [x for x in w.ls("lock") + [x for x in w.ls("var") if ".lock" in x] if not re.search(r"\.L\d+$", x)]
    if lk:
        errs.append("locks left %s: %s" % (when, lk))


def bbs_state(w, errs, when, allowed):
    """areas.bbs is one of the allowed lists of areas, complete; -> index"""
    a = w.get("var/areas.bbs")
    if a is None:
        errs.append("no areas.bbs %s" % when)
        return
    try:
        f, got = parse_areas(a.decode("latin-1"))
    except ValueError as e:
        errs.append("areas.bbs damaged %s: %s" % (when, e))
        return
    g = [tup(x) for x in got]
    for i, al in enumerate(allowed):
        if g == [tup(x) for x in al]:
            if a[-1:] != b"\n" or f != "Test System":
                errs.append("areas.bbs incomplete %s: %r" % (when, a[-80:]))
            return i
    errs.append("areas.bbs is neither the old nor the new one %s: %s" % (when, [x.line() for x in got]))


def mails(w):
    """-> replies {to: n}, requests {key: lines}"""
    rep, req, errs = {}, {}, []
    for f, k in afrun.packets(w, errs):
        for x in k.msgs:
            fr, to, lines = afrun.netmail(x)
            if x.subj.startswith(b"Your "):
                rep[to] = rep.get(to, 0) + 1
            else:
                req.setdefault((to, x.to.decode("latin-1"), x.subj.decode("latin-1")), []).extend([l for l in lines if l])
    return rep, req, errs


def torn_seq(steps, f):
    """a lock which can't be removed stays; the number in a sequence file isn't torn"""
    if steps[f[0]].name == "unlink" and ("/lock/" in steps[f[0]].p1 or ".lock" in steps[f[0]].p1) and f[1] == "errno":
        return True
    return f[1] in ("torn", "shorterr") and "/seq/" in steps[f[0]].p1


# ---- ftnafpkt: a packet with requests ------------------------------------------------
def pktscen(name, pkts, args=(), ar=None, **k):
    # a packet which could not be read is put aside, the others are handled
    versions, last = [], []
    for r in range(len(pkts) + 1):
        for o in itertools.permutations(pkts, r):
            m = model(ar)
            for frm, msgs in o:
                for subj, lines in msgs:
                    m.message(frm, subj, lines)
            versions.append([a.copy() for a in m.areas])
            if r == len(pkts):
                last.append(versions[-1])
    m = model(ar)
    for frm, msgs in pkts:
        for subj, lines in msgs:
            m.message(frm, subj, lines)
    want = {}
    for n, r, p, l in m.requests:
        want.setdefault((n, r, p), []).append(l)
    who = {frm for frm, _ in pkts}

    def setup(wid):
        w = afrun.setup(ck, model(ar))
        for i, (frm, msgs) in enumerate(pkts):
            w.put("bt/pin/%02d.pkt" % i, Pkt(frm, afrun.US, [afrun.request(frm, s, l) for s, l in msgs]).pack())
            os.utime(w.p("bt/pin/%02d.pkt" % i), (NOW + i,) * 2)
        return w, job(w, [(PKT,) + tuple(args)])

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        bbs_state(w, errs, "after the fault", versions)
        # whatever is in areas.bbs is confirmed or will be
        rec = None
        for rnd in range(3):
            for f in w.ls("bt/pin"):
                if f.endswith(".bad"):
                    os.rename(w.p("bt/pin/" + f), w.p("bt/pin/" + f[:-3] + "pkt"))
            for i in range(len(pkts)):
                if os.path.exists(w.p("bt/pin/%02d.pkt" % i)):
                    os.utime(w.p("bt/pin/%02d.pkt" % i), (NOW + i,) * 2)
            r2 = job(w, [(PKT,) + tuple(args)], 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0):
                if r2.exits[0] != "0":
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        if w.ls("bt/pin"):
            errs.append("input left after recovery: %s" % w.ls("bt/pin"))
        lock_ok(w, errs, "after recovery")
        bbs_state(w, errs, "after recovery", last)
        for f in w.ls("spool/outpkt"):
            if f.endswith(".tmp"):
                os.unlink(w.p("spool/outpkt/" + f))
        rep, req, e = mails(w)
        errs += e
        for n in who:
            if not rep.get(n):
                errs.append("no reply to %s" % A(n))
        for key, ls in want.items():
            for l in ls:
                if l not in req.get(key, []):
                    errs.append("request %r to %s lost" % (l, A(key[0])))
        for key, ls in req.items():
            for l in ls:
                if l not in want.get(key, []):
                    errs.append("request %r to %s never made" % (l, A(key[0])))
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=torn_seq, **k)


pktscen("ftnafpkt", [(C, [("secret", ["+A", "+NEW1", "-L", "+AB"])])])
pktscen("ftnafpkt, two packets", [(C, [("secret", ["+Q1"])]), (D, [("dpw", ["-L", "+AB", "query"])])], ["-l"])
pktscen("ftnafpkt, three messages", [(C, [("secret", ["+Q1", "+A"]), ("secret", ["-L", "+NEW2"]), ("secret", ["list"])])])
pktscen("ftnafpkt, nothing changes", [(C, [("secret", ["list", "+L"])])])
big = [Area("BIG%d" % i, [B, D] + [N("2:%d/%d" % (2 + j % 3, j)) for j in range(60)], state="S", desc="x" * 60) for i in range(40)]
if T:
    pktscen("ftnafpkt, large areas.bbs", [(C, [("secret", ["+BIG1", "+A"])])], ar=areas() + big)


# ---- ftnaf and ftnafutil: done when the exit code says so ------------------------------
def cmdscen(name, prog, args, change, ar=None, conf="", stdin=None, **k):
    """stdin: a mail; the reply is given to the mailer, a shell command"""
    reply = stdin and "-r" not in args
    m = model(ar)
    old = [a.copy() for a in m.areas]
    change(m)
    new = [a.copy() for a in m.areas]
    want = {}
    for n, r, p, l in m.requests:
        want.setdefault((n, r, p), []).append(l)

    def setup(wid):
        w = afrun.setup(ck, model(ar), conf=conf)
        if stdin:
            w.conf += "AreaFixMailer cat >>%s\n" % w.p("var/reply")
            w.reset()
            w.put("var/request", stdin)
        return w, run(w)

    def run(w, vpid=1001):
        return job(w, [(prog,) + tuple(args)], vpid, "var/request" if stdin else None)

    def requests(w, errs, when):
        for f in w.ls("spool/outpkt"):
            if f.endswith(".tmp"):
                os.unlink(w.p("spool/outpkt/" + f))
        _, req, e = mails(w)
        errs += e
        for key, ls in want.items():
            for l in ls:
                if l not in req.get(key, []):
                    errs.append("request %r to %s lost %s" % (l, A(key[0]), when))
        for key, ls in req.items():
            for l in ls:
                if l not in want.get(key, []):
                    errs.append("request %r to %s never made" % (l, A(key[0])))

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        i = bbs_state(w, errs, "after the fault", [new, old])
        if i == 0:
            requests(w, errs, "though areas.bbs is changed")
        if res.exits[0] == "0" and i != 0:
            errs.append("exit 0 though nothing was changed")
        if res.exits[0] == "0" and reply and b"Subject: Your " not in (w.get("var/reply") or b""):
            errs.append("exit 0 though no reply was sent")
        if res.exits[0] == "0":
            lock_ok(w, errs, "after exit 0")
            return errs, None
        rec = None
        for rnd in range(3):
            r2 = run(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0):
                if r2.exits[0] != "0" and i != 0:
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        lock_ok(w, errs, "after recovery")
        if bbs_state(w, errs, "after recovery", [new]) == 0:
            requests(w, errs, "after recovery")
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=torn_seq, **k)


def cmd(line, node=C):
    def f(m):
        m.message(node, PW[node].pw, [line])
    return f


cmdscen("ftnaf sub", AF, ["2:1/3", "sub", "A"], cmd("sub A"))
cmdscen("ftnaf sub of a new area", AF, ["2:1/3", "sub", "NEW1"], cmd("sub NEW1"))
cmdscen("ftnaf unsub", AF, ["2:1/3", "unsub", "L"], cmd("unsub L"))


def expired():
    return [Area("A", [B, D], state="S", time=NOW - 20 * DAY), Area("F", [B, C], state="F", time=NOW - 40 * DAY), Area("P", [U1], state="S", passthru=True, time=NOW)]


def expire(m):
    m.areas[0].links, m.areas[0].state, m.areas[0].time = [B], "U", "now"
    m.areas[2].state = "U"
    del m.areas[1]
    m.requests = [(B, "AreaFix", "uppw", "-A"), (D, "Sysop", "Notify", "You are unsubscribed from area A"), (D, "Sysop", "Notify", "    Reason: no traffic for 20 day(s)"),
                  (B, "AreaFix", "uppw", "-F"), (C, "Sysop", "Notify", "You are unsubscribed from area F"), (C, "Sysop", "Notify", "    Reason: request is timed out in 40 day(s)"),
                  (U1, "Robot", "pw2", "-P")]


cmdscen("ftnafutil expire", UT, ["expire"], expire, ar=expired(), conf="AreaFixNoTrafficTimeout 10\nAreaFixRequestTimeout 30\n")


def delete(m):
    del m.areas[1]


cmdscen("ftnafutil delete", UT, ["delete"], delete)
MAIL = b"From: user@p0.f3.n1.z2.fidonet.org\nX-FTN-From: User @ 2:1/3\nTo: areafix\nSubject: secret\n\n"
cmdscen("ftnaf -m", AF, ["-m"], cmd("+NEW1"), stdin=MAIL + b"+NEW1\n")
cmdscen("ftnaf -m, several commands", AF, ["-m"], lambda m: m.message(C, "secret", ["-L", "+AB", "list"]), stdin=MAIL + b"-L\n+AB\nlist\n")
cmdscen("ftnaf -m -r", AF, ["-m", "-r"], cmd("+A"), stdin=MAIL + b"+A\n")


# ---- schedules: no change is lost -------------------------------------------------------
def race(name, progs, orders, pb, pkts=(), extra=None, limit=None, ar=None, toss=None):
    """orders: allowed final areas (lists of functions applied to the model in some order)"""
    finals = []
    for o in orders:
        m = model(ar)
        for f in o:
            f(m)
        finals.append([a.copy() for a in m.areas])
    ws = {}

    def setup(wid):
        w = ws.get(wid)
        if w is None:
            w = ws[wid] = afrun.setup(ck, model(ar), d="r")
            w.conf += "AutoCreateSubscribeNodes 2:1/3\n"
        w.reset()
        for i, p in enumerate(pkts):
            w.put("bt/pin/%02d.pkt" % i, p)
        if toss:
            w.put("bt/tin/t.pkt", toss)
        return job(w, [[x.replace("%T", w.p("bt/tin")) for x in p] for p in progs])

    def judge(wid, res):
        w = ws[wid]
        errs = []
        if res.dead:
            return ("deadlock", None)
        fail = {i for i, x in res.exits.items() if x != "0"}
        if fail and not (extra and extra(fail, res)):
            return ("exit %r: %s" % (res.exits, w.log()[-300:]), None)
        lock_ok(w, errs, "at the end")
        bbs_state(w, errs, "at the end", finals)
        if w.ls("bt/pin"):
            errs.append("input left")
        if [x for x in w.ls("var") if x.endswith(".new")]:
            errs.append("areas.new left")
        return (errs[0], None) if errs else None
    mcx.explore(ck, name, setup, judge, pb, limit)


def orders(*f):
    return list(itertools.permutations(f))


def rq(frm, pw, *lines):
    return Pkt(frm, afrun.US, [afrun.request(frm, pw, lines)]).pack()


P = 3 if T else 2
race("ftnaf and ftnaf", [(AF, "2:1/3", "sub", "A"), (AF, "2:1/4", "sub", "AB")], orders(cmd("sub A"), cmd("sub AB", D)), P)
race("ftnaf and ftnaf, same area", [(AF, "2:1/3", "unsub", "L"), (AF, "2:1/4", "unsub", "L")], orders(cmd("unsub L"), cmd("unsub L", D)), P)
race("ftnafpkt and ftnaf", [(PKT,), (AF, "2:1/4", "sub", "AB")], orders(cmd("+A"), cmd("sub AB", D)), P, [rq(C, "secret", "+A")])
race("ftnafutil and ftnaf", [(UT, "-w", "100", "delete"), (AF, "2:1/3", "sub", "A")], orders(delete, cmd("sub A")), P)
if T:
    race("three ftnaf", [(AF, "2:1/3", "sub", "A"), (AF, "2:1/4", "sub", "AB"), (AF, "2:1/3", "unsub", "L")],
         orders(cmd("sub A"), cmd("sub AB", D), cmd("unsub L")), 2)


# ftntoss changes areas.bbs, too
def traffic(m):
    for a in m.areas:
        if a.tag == "A":
            a.state = "S"


def created(m):
    m.areas.append(Area("NEW9", [C], state="S"))


def busy(fail, res):
    return False


def em(area, frm):
    return Pkt(frm, afrun.US, [Msg(frm, afrun.US, subj=b"e", body=b"AREA:%s\r\1MSGID: %s 00000001\rx\r--- x\r * Origin: o (%s)\rSEEN-BY: 1/3\r\1PATH: 1/3\r" % (
        area, A(frm).encode(), A(frm).encode()))]).pack()


def waiting():
    a = areas()
    a[0].state = "F"
    return a


race("ftntoss (first message of an area) and ftnaf", [(TOSS, "-w", "100"), (AF, "2:1/3", "sub", "AB")], orders(traffic, cmd("sub AB")), P, [em(b"A", B)], ar=waiting())
race("ftntoss (new area) and ftnafpkt", [(TOSS, "-w", "100", "-I", "%T"), (PKT,)], orders(created, cmd("+A")), 1 if not T else 2, [rq(C, "secret", "+A")], toss=em(b"NEW9", C))
ck.assumptions += ["a crash keeps the operations done before it, in order (no reordering of unsynced writes)",
                   "a sequence file (one line) is rewritten by one write which is not torn",
                   "schedules: every shared file operation is a scheduling point, preemptions bounded"]
ck.finish()
