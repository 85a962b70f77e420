import itertools, os, re, time
from fg import core, mcx, world, toss, tossrun
from fg.ftn import Node, N, A, Msg, Pkt
from fg.toss import Toss, Area
ck = core.Check("T03")
ck.rule = ("every history of messages (all pairs / triples of message variants, in one packet, several packets, several runs, "
           "with ageing and expiry in between) tossed by the real ftntoss against a model of the history; every "
           "preemption-bounded schedule of two tossers on one history; non-trivial = distinct history / schedule")
ck.build("plain")
FT, FX = ck.bin("toss/ftntoss"), ck.bin("toss/ftnexpire")
T = ck.thorough
US = N("2:1/1")
B, C, X = N("2:1/2"), N("2:1/3"), N("2:7/7")
DAY = 86400


def mid(s, tag=b"A", org=b"2:77/8", pre=b"\1MSGID: ", **kw):
    """message with this MSGID (None: without)"""
    k = b"" if s is None else pre + s + b"\r"
    m = lambda f: Msg(f, US, body=b"AREA:" + tag + b"\r" + k + b"text\r--- x\r * Origin: o (" + org + b")\rSEEN-BY: %d/%d\r\1PATH: %d/%d\r" % (f.net, f.node, f.net, f.node), **kw)
    return m


L = b"2:5/5 " + b"x" * 236
V = dict(
    a=mid(b"2:5/5 00000001"), b=mid(b"2:5/5 00000002"), A=mid(b"2:5/5 0000000A"), A2=mid(b"2:5/5 0000000a"),
    d=mid(b"2:5/5@fidonet 0000000A"), d2=mid(b"2:5/5@FIDONET 0000000a"), d3=mid(b"2:5/5@fidonet 1000000A"),
    sp=mid(b"2:5/5  00000001"), tab=mid(b"2:5/5\t00000001"), us=mid(b"2:5/5_00000001"), pre=mid(b"2:5/5 0000000"),
    long=mid(b"2:5/5 000000011"), areaB=mid(b"2:5/5 00000001", b"B"), areaa=mid(b"2:5/5 00000001", b"a"), noc=mid(b"2:5/5 00000001", pre=b"\1MSGID "),
    lower=mid(b"2:5/5 00000001", pre=b"\1msgid: "), org=mid(b"2:5/5 00000001", org=b"2:77/9"), subj=mid(b"2:5/5 00000001", subj=b"other"),
    empty=mid(b""), l1=mid(L + b"1"), l2=mid(L + b"2"), l1b=mid(L + b"1" + b"y" * 200), l2b=mid(L + b"1" + b"y" * 199 + b"z"),
    n=mid(None), nto=mid(None, to=b"x"), nfr=mid(None, frm=b"x"), nsu=mid(None, subj=b"x"), nda=mid(None, date=b"09 Sep 01  01:40:01"),
    nday=mid(None, date=b"10 Sep 01  01:40:00"), nor=mid(None, org=b"2:77/9"), nB=mid(None, b"B"), nswap=mid(None, frm=b"Sysop", to=b"User"),
    hi=mid(b"\xe0\xff 1"), hi2=mid(b"\xe0\x7f 1"))
def stamp(d):
    return time.strftime("%d %b %y  %H:%M:%S", time.gmtime(NOW - d * DAY)).encode()
NOW = int(time.time())
OLD = dict(o1=mid(b"2:5/5 0000000d", date=stamp(13.9)), o2=mid(b"2:5/5 0000000e", date=stamp(14.1)), o3=mid(None, date=stamp(14.1)),
           o4=mid(b"2:5/5 0000000d", date=stamp(-2)), o5=mid(b"2:5/5 0000000f", date=stamp(14 - 900 / DAY)), o6=mid(None, date=stamp(14 + 900 / DAY)), o7=mid(b"2:5/5 00000010", date=stamp(14 + 3 / 24)))
V.update(OLD)
SND = dict(B=B, C=C, X=X)


def kw(conf, args=()):
    return dict(akas=["2:1/1"], areas=[Area("A", [B, C]), Area("B", [B, C])], conf=conf, args=list(args), exp=NOW - 14 * DAY, now=NOW)


def age(w, secs):
    h = w.get("var/history")
    if h:
        f = lambda m: b"\t%010d\n" % (int(m.group(1)) - secs)
        w.put("var/history", re.sub(rb"\t(\d{10})\n", f, h))


def run(case):
    """steps: list of packets = one run of the tosser; number = days passing; ("x", days) = expiry"""
    label, k, steps = case
    m = Toss(**k)
    errs, n, o = [], 0, 0
    w = None
    for st in steps:
        if isinstance(st, int):
            age(w, st * DAY)
            m.hist = {a: t - st * DAY for a, t in m.hist.items()}
        elif isinstance(st, tuple):
            r = w.run(FX, "-m", str(st[1]))
            if r.returncode:
                errs.append("ftnexpire exit %d %r" % (r.returncode, r.stdout[-300:]))
            m.hist = {a: t for a, t in m.hist.items() if t >= NOW - st[1] * DAY}
        else:
            if w is None:
                w = tossrun.setup(ck, m, st)
            else:
                for i, p in enumerate(st):
                    w.put("bt/pin/%02d.pkt" % i, p.pack())
                tossrun.order(w, len(st))
                for d in ("toss", "bad"):
                    for f in w.ls("spool/toss/" + d):
                        os.unlink(w.p("spool/toss/%s/%s" % (d, f)))
                m.out = []
            r = w.run(FT, *m.args)
            for p in st:
                m.packet(p)
                n += len(p.msgs)
            o += len(m.out)
            tossrun.judge(w, m, r, errs)
            if "DupeCheck" in m.c and not errs:
                got = [l for l in (w.get("var/history") or b"").split(b"\n")[:-1]]
                if len(got) != len(m.hist):
                    errs.append("history has %d entries, expected %d: %r" % (len(got), len(m.hist), got[-5:]))
        if errs:
            break
    return label, errs, n, o, m.events


def go(name, cases):
    n = k = o = bad = 0
    ev = {}
    for label, errs, a, b, e in core.pmap(run, cases, 8):
        n += 1
        k += a
        o += b
        for x, y in e.items():
            ev[x] = ev.get(x, 0) + y
        if errs:
            bad += 1
            if bad <= 5:
                ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
    ck.count("states", n)
    ck.count("transitions", k)
    ck.count("evaluations", n)
    ck.part(name, histories=n, messages=k, outputs=o, events=ev, violating=bad)


def pk(*ms):
    """messages (variant, sender) -> packets, one per run of equal senders"""
    out = []
    for v, f in ms:
        f = SND[f]
        if not out or out[-1].frm != f:
            out.append(Pkt(f, US, []))
        out[-1].msgs.append(V[v](f))
    return out


CONF = [dict(DupeCheck=""), dict(DupeCheck="", KillDupe=""), dict(DupeCheck="", KillNoMSGID="", KillDupes=""),
        dict(DupeCheck="", KillOld="", MaxHistory="14"), dict(DupeCheck="", KillOld="", MaxHistory="14", KillDupe="")]
for c in CONF:
    if "KillDupes" in c:
        c["KillDupe"] = c.pop("KillDupes")

# 1. all ordered pairs of variants
cases = []
for a, b in itertools.product(V, repeat=2):
    for f, g in (("B", "B"), ("X", "B"), ("B", "C")):
        if f == g or T or a in "anA":
            cases.append(("%s/%s then %s/%s, one run" % (a, f, b, g), kw(CONF[0]), [pk((a, f), (b, g))]))
    cases.append(("%s then %s, two runs" % (a, b), kw(CONF[0]), [pk((a, "B")), pk((b, "B"))]))
go("pairs of messages", cases)
cases = []
for c in CONF[1:] + [{}]:
    for a, b in itertools.product(V, repeat=2):
        if a == b or a in OLD or T or a[0] == b[0]:
            cases.append(("%s: %s then %s" % (c, a, b), kw(c), [pk((a, "B"), (b, "B"))]))
cases += [("-d: %s twice" % a, kw(CONF[0], ["-d"]), [pk((a, "B"), (a, "B"))]) for a in V]
go("configurations", cases)

# 2. histories with several runs, ageing and expiry
OPS = [[("a", "B")], [("a", "C")], [("b", "B")], [("a", "X")], [("n", "B")], [("d", "B"), ("a", "B")], 5, ("x", 7), ("x", 3)]
cases = []
for k in range(2, 6 if T else 5):
    for s in itertools.product(range(len(OPS)), repeat=k):
        o = [OPS[i] for i in s]
        if not isinstance(o[0], list) or not isinstance(o[-1], list) or any(x == y and not isinstance(x, list) for x, y in zip(o, o[1:])):
            continue
        cases.append((repr(o), kw(CONF[0]), [pk(*x) if isinstance(x, list) else x for x in o]))
go("histories with ageing and expiry", cases)

# 3. many entries: index chains, expiry of part of them
def many(n, e):
    ms = lambda lo, hi: [Pkt(B, US, [mid(b"2:5/5 %08x" % i)(B) for i in range(lo, hi)])]
    return ("%d entries, expire %s" % (n, e), kw(CONF[0]), [ms(0, n), 5, ms(n, 2 * n), ms(0, 2 * n)] + ([e, ms(0, 2 * n)] if e else []))
go("many entries", [many(n, e) for n in (1, 10, 1000) + ((10000,) if T else ()) for e in (None, ("x", 3), ("x", 9))])

# 4. two tossers (different areas.bbs) on one history, every schedule
worlds = {}
def setup(wi):
    w = worlds.get(wi)
    m = Toss(**kw(CONF[0]))
    w = worlds[wi] = tossrun.setup(ck, m, [], dir="s")
    w.put("var/areas2.bbs", w.get("var/areas.bbs"))
    w.put("bt/in1/00.pkt", pk(("a", "B"))[0].pack())
    w.put("bt/in2/00.pkt", pk(("b", "B"))[0].pack())
    for f in ("history", "history.dir", "history.pag"):
        w.put("var/" + f, b"")
    cf = w.p("etc/fidogate.conf")
    return mcx.Job(w.root, [dict(args=[FT, "-c", cf, "-w", "1000", "-x", "-I", w.p("bt/in%d" % i), "-b", w.p("var/areas%s.bbs" % ("2" if i == 2 else ""))]) for i in (1, 2)],
                   ignore=("/log/", "/etc/", "/spool", "/bt", "/seq", "areas"))
def judge(wi, res):
    w = worlds[wi]
    if res.dead:
        return ("deadlock", None)
    if any(v != "0" for v in res.exits.values()):
        return ("ftntoss failed %s: %s" % (res.exits, w.log()[-400:]), None)
    ids = sorted(l.split(b"\t")[0] for l in w.get("var/history").split(b"\n")[:-1])
    if ids != [b"A MSGID: 2:5/5 00000001", b"A MSGID: 2:5/5 00000002"]:
        return ("history is %r" % ids, None)
    for d in ("toss", "bad"):
        for f in w.ls("spool/toss/" + d):
            os.unlink(w.p("spool/toss/%s/%s" % (d, f)))
    w.put("bt/pin/00.pkt", pk(("a", "B"), ("b", "B"))[0].pack())
    w.run(FT)
    n = sum(len(v) for k, v in toss.observed(w, []).items() if k[0])
    if n != 2:
        return ("%d of 2 messages tossed before are recognised as dupes afterwards" % n, None)
    return None
mcx.explore(ck, "two tossers on one history", setup, judge, 3 if T else 2)
ck.finish()
