import os, re
from fg import core, mcx, crash, gate, rfcgate
from fg.ftn import N, A, Msg, Pkt, parse, BadPkt
from fg.gate import Gate, Host, Area, batch, BadMail
from fg.rfcgate import RG, R, RA
ck = core.Check("G08")
ck.rule = ("every crash point, torn write and failing file operation of real runs of ftn2rfc, rfc2ftn and ftninpost, each followed by the recovery a "
           "site does (bad files renamed back, the command repeated); non-trivial = distinct fault")
ck.build("plain")
F2R, R2F, POST = [ck.bin("gate/" + x) for x in ("ftn2rfc", "rfc2ftn", "ftninpost")]
T = ck.thorough
IGN = ("/log/", "/etc/", "version")
ME, B, C = N("2:1/1"), N("2:1/10"), N("2:1/3")


def job(w, args, vpid=1001, **k):
    return mcx.Job(w.root, [dict(args=args, vpid=vpid, **k)], ignore=IGN)


def skip(steps, f):
    s = steps[f[0]]
    # the number in a sequence file isn't torn; a lock which can't be removed stays
    if s.name == "open" and f[1] == "errno" and re.search(r"(^|/)art/\d+$", s.p1):
        return True         # an article not there any more
    return (f[1] in ("torn", "shorterr") and "/seq/" in s.p1) or (s.name == "unlink" and (".lock" in s.p1 or "/lock/" in s.p1) and f[1] == "errno")


# ---- ftn2rfc --------------------------------------------------------------------------
def rfcs(w, errs, when, single):
    """-> {text of a mail or article: copies}"""
    out = {}
    for d in ("mail", "news"):
        for f in w.ls("spool/outrfc/" + d):
            if not f.endswith(".rfc"):
                continue
            x = w.get("spool/outrfc/%s/%s" % (d, f))
            try:
                for m in ([x] if d == "mail" or single else batch(x)):
                    m = re.sub(rb"(?m)^From \S+@.*\nReceived: .*\n.*\n", b"", m)
                    out[m] = out.get(m, 0) + 1
            except BadMail as e:
                errs.append("%s/%s %s: %s" % (d, f, when, e))
    return out


def net(frm, to, toname, subj, body, fr="John Doe"):
    return Msg(frm, to, frm=fr.encode(), to=toname.encode(), subj=subj.encode(), attr=1,
               body=("\x01INTL %s %s\r\x01MSGID: %s %08x\r%s" % (A(to), A(frm), A(frm), len(subj) * 7919, body)).encode())


def echo(area, subj, body, frm=B):
    return Msg(frm, ME, frm=b"John Doe", to=b"All", subj=subj.encode(), attr=0,
               body=("AREA:%s\r\x01MSGID: %s %08x\r%s\r--- t\r * Origin: o (%s)\rSEEN-BY: 1/1 10\r\x01PATH: 1/10\r" % (area, A(frm), len(subj) * 104729 + len(area), body, A(frm))).encode())


def f2r(name, pkts, n, args=(), conf=(), acl=("* *",), double=False, **k):
    """n: mails and articles to come"""
    g = Gate(conf=list(conf), hosts=[Host("2:1/10", "h10"), Host("2:1/3", "h3")], aliases=[], areas=[Area("AREA.ONE", "fido.one", "-a 2:1/1"), Area("AREA.TWO", "fido.two", "-a 2:1/1")],
             args=list(args))
    single = "-1" in args
    base = {}

    def setup(wid):
        w = g.world("%s/w%s" % (ck.scratch, wid)).reset()
        for i, p in enumerate(pkts):
            w.put("bt/pin/%08d.pkt" % (i + 1), p.pack())
        return w, job(w, w.args(F2R, *args))

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        got = rfcs(w, errs, "after the fault", single)
        if fault is None:
            base.update(got)
            if res.exits[0] != "0":
                errs.append("exit %s: %s" % (res.exits, w.log()[-300:]))
            if sum(got.values()) != n or len(got) != n:
                errs.append("%d messages gated, %d expected: %s" % (sum(got.values()), n, w.log()[-900:]))
            if w.ls("bt/pin"):
                errs.append("packets left: %s" % w.ls("bt/pin"))
            return errs, None
        for m in got:
            if m not in base:
                errs.append("incomplete message visible: %r" % m[-200:])
        rec = None
        for rnd in range(3):
            for f in w.ls("bt/pin"):
                if f.endswith(".bad"):
                    os.rename(w.p("bt/pin/" + f), w.p("bt/pin/" + f[:-3] + "pkt"))
            r2 = job(w, w.args(F2R, *args), 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            rec = rec or r2.steps
            if not (second and not rnd):
                if r2.exits[0] != "0":
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        if w.ls("bt/pin"):
            errs.append("packets left after recovery: %s" % w.ls("bt/pin"))
        got = rfcs(w, errs, "after recovery", single)
        for m in base:
            if m not in got:
                errs.append("lost: %r; there: %r" % (m, [x for x in got if x[-20:] == m[-20:]]))
        for m in got:
            if m not in base:
                errs.append("not a message: %r" % m[-200:])
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T and double, skip=skip, **k)


P1 = Pkt(B, ME, [net(B, ME, "user@example.org", "first", "text 1\r"), echo("AREA.ONE", "e one", "echo 1"), net(B, ME, "Nobody", "no address", "To: nobody@nowhere.example.com\r\rtext 2\r"),
                 echo("AREA.TWO", "e two 2", "echo 2")])
P2 = Pkt(B, ME, [echo("AREA.TWO", "e three three", "echo 3\r" + "line\r" * 40), net(C, ME, "other@example.com", "second", "text 3\r")])
LONG = Pkt(B, ME, [echo("AREA.ONE", "long one", "".join("This is line %d of the long one\r" % i for i in range(400))), net(B, ME, "user@example.org", "long mail", "".join("mail line %d\r" % i for i in range(500)))])
f2r("ftn2rfc", [P1, P2], 6, double=True)
f2r("ftn2rfc, single articles", [P1, P2], 6, ["-1"])
f2r("ftn2rfc, with lock", [P2], 2, ["-l"], double=True)
f2r("ftn2rfc, more than a buffer", [LONG], 2)
f2r("ftn2rfc, refused mail", [Pkt(B, ME, [net(B, ME, "user@example.org", "refused", "text 1\r"), net(B, ME, "Some One", "fine", "To: user@example.org\r\rtext 2\r")])], 2,
    conf=["NoAddressInToField"], double=True)
f2r("ftn2rfc, no history", [P2], 2, conf=["NoDBCHistory"])
# ---- rfc2ftn --------------------------------------------------------------------------
def hs(**k):
    d = dict(From="John Doe <john@example.org>", Subject="Subject", Date="Sun, 9 Sep 2001 01:40:00 +0000")
    d.update(k)
    return [(a.replace("_", "-"), v) for a, v in d.items() if v is not None]


def art(n, groups="a.one", lines=1):
    return R(hs(Newsgroups=groups, Subject="article %d" % n, Message_ID="<a%d@example.org>" % n), "".join("text %d\n" % n for i in range(lines)))


def mailm(n, lines=1, **k):
    return R(hs(Subject="mail %d" % n, Message_ID="<m%d@example.org>" % n, **k), "".join("text %d\n" % n for i in range(lines)))


AR = [RA("A.ONE", "a.one", "-a 2:1/1"), RA("A.TWO", "a.two", "-a 2:1/1"), RA("A.THREE", "a.three", "-a 2:1/1 -z 2")]
OUTS = "bt/out/0001000a.out"


def pkts_of(w, errs, when, out):
    """-> {(area or '', addressee, subject, text): copies}"""
    o = {}
    fs = ["spool/outpkt/%s/%s" % (d, f) for d in ("mail", "news") for f in w.ls("spool/outpkt/" + d) if f.endswith(".pkt")]
    if out:
        fs += ["bt/out/" + f for f in w.ls("bt/out") if f[-3:] in ("out", "cut", "hut", "dut")]
    for f in fs:
        try:
            p = parse(w.get(f))
        except BadPkt as e:
            errs.append("packet %s %s: %s" % (f, when, e))
            continue
        for m in p.msgs:
            ls = m.body.split(b"\r")
            area = ls[0][5:] if ls[0].startswith(b"AREA:") else b""
            # the sequence number of SPLIT differs
            txt = [l for l in ls[1 if area else 0:] if not l.startswith((b"\x01SPLIT", b"\x01Via", b"\x01MSGID"))]
            k = (p.to, area, m.to, m.subj, b"\r".join(txt))
            o[k] = o.get(k, 0) + 1
    return o


def r2f(name, msgs, mode, n, args=(), conf=(), rcpt=(), areas=AR, old=False, double=False, missing=(), dull=(), **k):
    """n: messages in packets; old: the .OUT packet already has one"""
    g = RG(conf, areas=areas)
    out = "-w" in args or "-W" in args
    base = {}
    keep = Pkt(ME, B, [Msg(ME, B, b"Old", b"John", b"old message", b"old text\r")])

    def cmd(w):
        a = ["-i"] + list(args)
        if mode == "news":
            a.append("-n")
        elif mode == "-b":
            a.append("-b")
        elif mode == "-f":
            a += ["-f", w.p("news/list")]
        elif mode == "-t":
            a.append("-t")
        else:
            a += list(rcpt)
        return w.args(R2F, *a)

    def run(w, vpid, faults=()):
        return job(w, cmd(w), vpid, stdin=w.p("news/stdin"))

    def setup(wid):
        w = g.world("%s/w%s" % (ck.scratch, wid)).reset()
        data = b""
        lst = ""
        for i, m in enumerate(msgs):
            r = m.raw()
            if mode == "-f":
                if i not in missing:
                    w.put("news/art/%d" % i, r)
                lst += "art/%d <id>\n" % i
            else:
                data += (b"#! rnews %d\n" % len(r) if mode == "-b" else b"") + r
        if mode == "-f":
            w.put("news/list", lst)
        w.put("news/stdin", data)
        if old:
            w.put(OUTS, keep.pack())
        return w, run(w, 1001)

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        killed = res.exits[0] not in ("0",)
        if fault is None:
            got = pkts_of(w, errs, "after the run", out)
            base.update(got)
            if res.exits[0] != "0":
                errs.append("exit %s: %s" % (res.exits, w.log()[-300:]))
            if sum(got.values()) != n + bool(old):
                errs.append("%d messages gated, %d expected: %s" % (sum(got.values()), n + bool(old), w.log()[-900:]))
            if mode == "-f" and (w.get("news/list") is not None or w.get("news/list.pos") is not None):
                errs.append("list not removed")
            return errs, None
        # an article which can't be read is reported, with the others done
        x = [s for s in res.steps if s.proc == 0]
        x = x[fault[0]]
        cut = mode == "-f" and x.name == "read" and re.fullmatch(r"\d+", x.p1.split("/")[-1]) and \
            dict(msgs[int(x.p1.split("/")[-1])].h)["Subject"].encode()
        if not out:
            for m in pkts_of(w, errs, "after the fault", out):
                if m not in base:
                    errs.append("incomplete message in a packet: %r" % (m,))
        if out and killed and not res.exits[0].isdigit():
            # a packet in the outbound is written in place: what was in it stays
            d = w.get(OUTS)
            if old and (d is None or keep.pack()[:-2] != d[:len(keep.pack()) - 2]):
                errs.append("the packet in the outbound lost what it had")
            return errs, None
        rec = None
        again = w.get("news/list") is not None if mode == "-f" else killed
        if mode == "-f" and killed and not again:
            again = "gone"
        rnd = 0
        while again is True:
            # a crashed program's lock is removed by the operator
            for f in w.ls("bt/out"):
                if f.endswith(".bsy"):
                    os.unlink(w.p("bt/out/" + f))
            r2 = run(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            rec = rec or r2.steps
            if r2.exits[0] != "0" and not (second and not rnd):
                errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-400:]))
            rnd += 1
            again = bool(second and rnd == 1 and (w.get("news/list") is not None if mode == "-f" else r2.exits[0] != "0"))
        got = pkts_of(w, errs, "after recovery", out)
        for m in base:
            if m not in got and not (cut and m[3] == cut and res.exits[0] != "0"):
                errs.append("lost: %r; exit %s, packets have %s; %s" % (m, res.exits, [x[3] for x in got], w.log()[-300:]))
        for m in got:
            if m not in base:
                errs.append("not a message: %r" % (m,))
        if mode == "-f" and again is not True and w.get("news/list") is not None:
            errs.append("list left after recovery")
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T and double, skip=(lambda st, f: skip(st, f) or any(d in st[f[0]].p1 for d in dull)), **k)


TO = "Jane_Roe@f3.n1.z2.fidonet.org"
TO2 = "Max@f10.n1.z2.fidonet.org"
r2f("rfc2ftn, mail", [mailm(1)], "mail", 2, rcpt=[TO, TO2], double=True)
r2f("rfc2ftn, mail, packet for each", [mailm(1)], "mail", 3, rcpt=[TO, TO2, TO], conf=["SinglePKTs"])
r2f("rfc2ftn, mail -t", [mailm(2, To=TO + ", " + TO2, Cc=TO2)], "-t", 3)
r2f("rfc2ftn, long mail", [mailm(3, 3000)], "mail", 2, rcpt=[TO], conf=["MaxMsgSize 14000"])
r2f("rfc2ftn, news", [art(1, "a.one,a.two")], "news", 2, double=True)
r2f("rfc2ftn, batch", [art(1), art(2, "a.two,a.three"), art(3)], "-b", 4)
r2f("rfc2ftn, batch, packet for each", [art(1), art(2, "a.two,a.three"), art(3)], "-b", 4, ["-m", "1"])
r2f("rfc2ftn, list", [art(1), art(2, "a.two,a.one"), art(3), art(4)], "-f", 4, double=True, missing=(2,))
r2f("rfc2ftn, list, packet for each", [art(1), art(2, "a.two,a.three"), art(3)], "-f", 4, ["-m", "1"])
r2f("rfc2ftn, list with a position", [art(i) for i in range(53 if not T else 103)], "-f", 53 if not T else 103,
    dull=() if T else ("/seq/", "history", "/bdc.", "/art/"))
r2f("rfc2ftn, outbound", [mailm(1)], "mail", 2, ["-w", "Normal"], rcpt=[TO, TO2])
r2f("rfc2ftn, outbound with a packet", [mailm(1)], "mail", 2, ["-w", "Normal"], rcpt=[TO, TO2], old=True, double=True)
r2f("rfc2ftn, outbound with a packet, news", [art(1), art(2, "a.two,a.one", 700)], "-b", 3, ["-w", "Normal"], old=True)
# ---- ftninpost ------------------------------------------------------------------------
MAILS = [b"From John_Doe@h10.n1.z2.test.org Sun Sep 09 01:46:40 2001\nFrom: John_Doe@h10.n1.z2.test.org (John Doe)\nTo: user@example.org\nSubject: %d\n\ntext %d\n" % (i, i)
         for i in (1, 2)]
BATCH = b"#! rnews 30\nNewsgroups: a.one\n\ntext 3\n.\n"
STORE = "#!/bin/sh\ncat > @/var/sent/%s.$$.tmp && mv @/var/sent/%s.$$.tmp @/var/sent/%s.$$ || exit 75\n"


def post(name, mails, news, conf, **k):
    g = Gate(conf=conf)

    def setup(wid):
        w = g.world("%s/w%s" % (ck.scratch, wid))
        w.dirs.append("var/sent")
        for n in ("sendmail", "rnews"):
            w.files["bin/" + n] = STORE % (n, n, n)
        w.reset()
        for n in ("sendmail", "rnews"):
            os.chmod(w.p("bin/" + n), 0o755)
        for d, l in (("mail", mails), ("news", news)):
            for i, m in enumerate(l):
                w.put("spool/outrfc/%s/%08d.rfc" % (d, i), m)
        return w, job(w, w.args(POST))

    def left(w):
        return [d + f for d in ("mail/", "news/") for f in w.ls("spool/outrfc/" + d)]

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            errs.append("exit %s" % res.exits)
        rec = None
        for rnd in range(3):
            if fault is None:
                break
            for f in left(w):
                if f.endswith(".bad"):
                    os.rename(w.p("spool/outrfc/" + f), w.p("spool/outrfc/" + f[:-3] + "rfc"))
            r2 = job(w, w.args(POST), 2001 + 1000 * rnd).run(faults=[(0,) + second] if second and not rnd else ())
            rec = rec or r2.steps
            if not (second and not rnd):
                break
        if left(w):
            errs.append("messages left: %s; %s" % (left(w), w.log()[-300:]))
        sent = {}
        for f in w.ls("var/sent"):
            if not f.endswith(".tmp"):
                sent.setdefault(f.split(".")[0], []).append(w.get("var/sent/" + f))
        for n, l in (("sendmail", mails), ("rnews", news)):
            for m in l:
                c = sent.get(n, []).count(m)
                if not c or (fault is None and c != 1):
                    errs.append("given %d times to %s: %r; %s" % (c, n, m[-60:], w.log()[-300:]))
            for m in sent.get(n, []):
                if m not in l:
                    errs.append("given to %s, but not a whole message: %r" % (n, m[-60:]))
        return errs, rec
    # the stand-ins themselves work
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=lambda st, f: skip(st, f) or "/bin/" in st[f[0]].p1, **k)


PC = ["FTNInSendmail @/bin/sendmail -f%s -t", "FTNInRnews @/bin/rnews"]
post("ftninpost", MAILS, [BATCH], PC)
post("ftninpost, sender not given", MAILS[:1], [BATCH, BATCH.replace(b"3", b"4")], ["FTNInSendmail @/bin/sendmail -t", "FTNInRnews @/bin/rnews"])

# ---- every way a mailer can end ---------------------------------------------------------
ENDS = ["exit 0", "exit 1", "exit 75", "exit 127", "exit 128", "exit 255", "kill -9 $$", "kill -6 $$", "kill -11 $$", "kill -8 $$"]


def ends(case):
    """every message is with a mailer which succeeded or in the spool"""
    wid, (a, b, c), sender = case
    g = Gate(conf=["FTNInSendmail @/bin/sendmail %s-t" % ("-f%s " if sender else ""), "FTNInRnews @/bin/rnews"])
    w = g.world("%s/e%d" % (ck.scratch, os.getpid()))
    w.dirs.append("var/sent")
    store = "#!/bin/sh\nread x < @/var/n || x=0\necho $((x+1)) > @/var/n\ncat > @/var/sent/%s.$x\n%s\n"
    w.files["bin/sendmail"] = store % ("sendmail", 'if [ $x = 0 ]; then %s; else %s; fi' % (a, b))
    w.files["bin/rnews"] = store % ("rnews", c)
    w.files["var/n"] = "0\n"
    w.reset()
    for n in ("sendmail", "rnews"):
        os.chmod(w.p("bin/" + n), 0o755)
    for i, m in enumerate(MAILS):
        w.put("spool/outrfc/mail/%08d.rfc" % i, m)
    w.put("spool/outrfc/news/00000000.rfc", BATCH)
    w.run(POST)
    for d, l in (("mail", MAILS), ("news", [BATCH])):
        files = {f[:8]: w.get("spool/outrfc/%s/%s" % (d, f)) for f in w.ls("spool/outrfc/" + d)}
        for i, m in enumerate(l):
            e = (c if d == "news" else [a, b][order(w, m)])
            if e == "exit 0" and "%08d" % i in files:
                return "%s %d is still there after %s" % (d, i, e), (a, b, c)
            if e != "exit 0" and files.get("%08d" % i) != m:
                return "%s %d was lost: mailer's end was %s; left %s" % (d, i, e, sorted(files)), (a, b, c)
    return None


def order(w, m):
    """which call got message m"""
    for f in w.ls("var/sent"):
        if f.startswith("sendmail.") and w.get("var/sent/" + f) == m:
            return int(f.split(".")[1])
    return 0


if not os.environ.get("PARTS") or re.search(os.environ["PARTS"], "mailer ends"):
    cases = [(0, (a, b, c), s) for s in (True, False) for a in ENDS for b in ENDS for c in ENDS if T or c == a or "exit 0" in (a, b)]
    for r in core.pmap(ends, cases, 8):
        ck.count("states"), ck.count("evaluations")
        if r:
            ck.violation("ftninpost: " + r[0], "ends %s" % (r[1],), "mailers end by %s" % (r[1],))
    ck.part("every way a mailer ends", cases=len(cases))
ck.finish()
