import itertools, os, subprocess
from fg import core, mcx, crash
from fg.ftn import Node, N, A, Msg, Pkt, parse
from fg.world import World
ck = core.Check("H02")
ck.rule = ("every crash point, torn write and failing operation of ftnexpire and of a program writing the history, followed by another expire; every schedule up to the preemption bound of "
           "ftnexpire with the tosser; non-trivial = run")
ck.build("plain", har=["h_hist"])
T = ck.thorough
NOW, DAY, S = 1000000000, 86400, "\1"
HC = "HISTORY @/var/history\nDBC_HISTORY @/var/dbc\nTIC_HISTORY @/var/tic\nMaxHistory 10\n"
DBS = {(): "var/history", ("-d",): "var/dbc", ("-t",): "var/tic"}
only = os.environ.get("PARTS")


def harness(w, ops):
    p = subprocess.run([ck.har("h_hist"), w.p("etc/fidogate.conf")], input="".join(x + "\n" for x in ops).encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={"PATH": "/usr/bin:/bin", "TZ": "UTC"}, cwd=w.root, timeout=60)
    o = p.stdout.decode("latin-1").split("\n")[:-1]
    return o if p.returncode == 0 and len(o) == len(ops) else o + ["exit %d" % p.returncode]


def wr(db, k, t):
    return "a" + k + S + "<r-%s@h>\t%d" % (k, t) if db == "var/dbc" else "w" + k + S + str(t)


def text(db, l):
    return "".join("%s%s\t%d\n" % (k, "\t<r-%s@h>" % k if db == "var/dbc" else "", t) for k, t in l).encode("latin-1")


def known(w, db, keys):
    o = harness(w, ["o" + w.p(db)] + ["t" + k for k in keys] + ["c"])
    if len(o) != len(keys) + 2 or o[0] != "0":
        return None
    return {k for k, x in zip(keys, o[1:]) if x == "1"}


def exp_job(w, args, vpid=1001):
    return mcx.Job(w.root, [dict(args=w.args(ck.bin("toss/ftnexpire"), *args), vpid=vpid, stdout=w.p("log/o"))], ignore=("/log", "/etc"), time=NOW)


def after(w, db, errs, live, maybe, dead, second=None, synced=False):
    """live: ids which must be known; maybe: may be (from the next ftnexpire on, too, if the database was being written); then one more id, one more ftnexpire"""
    keys = live + maybe + dead
    k1 = known(w, db, keys)
    rec = None
    if k1 is None:
        errs.append("history can't be opened any more")
        return None
    if set(live) - k1:
        errs.append("ids %r aren't known any more" % sorted(set(live) - k1))
    o = harness(w, ["o" + w.p(db), wr(db, "another", NOW), "c"])
    if o[:2] != ["0", "0"]:
        errs.append("can't be written any more: %r" % o)
    args = [a for a, d in DBS.items() if d == db][0]
    r = exp_job(w, args, 2001).run(faults=[(0,) + second] if second else ())
    rec = r.steps
    if second:
        r = exp_job(w, args, 3001).run()
    if r.exits[0] != "0":
        errs.append("next ftnexpire fails: %s: %s" % (r.exits, w.log()[-200:]))
    k2 = known(w, db, keys + ["another"])
    if k2 is None:
        errs.append("history can't be opened after the next ftnexpire")
        return rec
    want = (k1 - set(dead)) | {"another"}
    if not want <= k2 <= want | (set(maybe) if synced else set()):
        errs.append("ids known after the next ftnexpire are %r, before it they were %r" % (sorted(k2), sorted(k1)))
    t = (w.get(db) or b"").decode("latin-1")
    # every line is one entry, and the ones which must be there are
    for l in t.splitlines():
        f = l.split("\t")
        if len(f) != (3 if db == "var/dbc" else 2) or f[0] not in keys + ["another"]:
            errs.append("text has the line %r" % l)
    if set(os.listdir(w.p("var"))) & {os.path.basename(db) + x for x in (".n", ".n.dir", ".n.pag")}:
        errs.append("files of the new history left behind: %r" % sorted(os.listdir(w.p("var"))))
    return rec


LIVE = [("k%d" % i, NOW - i * DAY) for i in range(4)] + [("x@Y z", NOW)]
OLD = [("o%d" % i, NOW - (11 + i) * DAY) for i in range(3)]


def mixed():
    out = []
    for i in range(5):
        out.append(LIVE[i])
        if i < 3:
            out.insert(0 if i == 1 else len(out), OLD[i])
    return out


# 1. ftnexpire dies or has errors
def expire(args, ent, name, size=11, double=True):
    db = DBS[args]
    w0 = World("%s/init" % ck.scratch, conf=HC).reset()
    harness(w0, ["s" + w0.p(db) + S + str(size)] * (size > 0) + ["o" + w0.p(db)] + [wr(db, k, t) for k, t in ent] + ["c"])
    tree = w0.tree()
    live = [k for k, t in ent if t >= NOW - 10 * DAY]
    dead = [k for k, t in ent if t < NOW - 10 * DAY]

    def setup(wid):
        w = World("%s/w%d" % (ck.scratch, wid), conf=HC)
        w.restore(dict(tree))
        w.put("etc/fidogate.conf", w.x(w.conf))
        return w, exp_job(w, args)

    def judge(w, res, fault, second):
        errs = []
        if not fault and res.exits[0] != "0":
            errs.append("exit %s: %s" % (res.exits, w.log()))
        if fault and fault[1] != "kill" and fault[1] != "torn" and res.exits[0] == "0":
            # success: everything is to be done
            if w.get(db) != text(db, [(k, t) for k, t in ent if k in live]):
                errs.append("exit code 0, but the text is %r" % w.get(db))
        rec = after(w, db, errs, live, [], dead, second)
        return errs, rec

    crash.sweep(ck, "ftnexpire %s" % name, setup, judge, full=T, double=double or T, dfull=T)


expire((), mixed(), "messages")
expire((), mixed(), "messages, default table", 0, False)
expire(("-d",), mixed(), "dbc", 11, False)
expire(("-t",), mixed() if T else LIVE[:2] + OLD[:2], "tic", 2, False)
expire((), LIVE[:2], "nothing old", 2, False)
expire((), OLD, "everything old", 11, False)


# 2. a program which writes the history dies or has errors
def writer(name, first, then, cancel=False):
    db = "var/history"
    w0 = World("%s/init" % ck.scratch, conf=HC).reset()
    if first:
        harness(w0, ["s" + w0.p(db) + S + "5"] + ["o" + w0.p(db)] + [wr(db, k, t) for k, t in first] + ["c"])
    tree = w0.tree()

    def setup(wid):
        w = World("%s/w%d" % (ck.scratch, wid), conf=HC)
        w.restore(dict(tree))
        w.put("etc/fidogate.conf", w.x(w.conf))
        w.put("etc/ops", "\n".join(["o" + w.p(db)] + [wr(db, k, t) for k, t in then] + ["x" if cancel else "c", ""]))
        return w, mcx.Job(w.root, [dict(args=[ck.har("h_hist"), w.p("etc/fidogate.conf")], stdin=w.p("etc/ops"), stdout=w.p("log/o"))], ignore=("/log", "/etc"), time=NOW)

    def judge(w, res, fault, second):
        errs = []
        new = [k for k, t in then if k not in dict(first)]
        out = (w.get("log/o") or b"").decode("latin-1").splitlines()
        live = [k for k, t in first]
        if not fault:
            if out != ["0"] * (len(then) + 1) + [""]:
                errs.append("output %r" % out)
            if not cancel:
                live, new = live + new, []
        sync = [i for i, s in enumerate(res.steps) if s.name in ("write", "lseek", "close") and s.p1.endswith((".pag", ".dir"))]
        ks = [i for i, s in enumerate(res.steps) if s.name == "write" and s.p1.endswith("history")]
        sync = [i for i in sync if ks and i > ks[-1]]
        rec = after(w, db, errs, live, new, [], second, bool(sync))
        return errs, rec

    crash.sweep(ck, "writer, %s" % name, setup, judge, full=T, double=T)


writer("first ids", [], LIVE[:2])
writer("more ids", LIVE[:3], LIVE[3:])
writer("same ids", LIVE[:3], LIVE[1:4])
writer("cancelled", LIVE[:2], LIVE[2:4], True)

# 3. end to end: tosser dies, expire, tosser again: no message is lost
US, B, C = N("2:1/1"), N("2:1/2"), N("2:1/3")
IDS = ["aaaaaaaa", "bbbbbbbb", "cccccccc"]


def pkt(ids):
    return Pkt(B, US, [Msg(B, US, subj=("S%s" % i).encode(), body=b"AREA:ECHO\r\1MSGID: 2:1/2 %s\rtext\r--- x\r * Origin: o (2:1/2)\rSEEN-BY: 1/2\r\1PATH: 1/2\r" % i.encode()) for i in ids])


def toss_job(w, vpid, faults=()):
    return mcx.Job(w.root, [dict(args=w.args(ck.bin("toss/ftntoss"), "-I", w.p("bt/pin")), vpid=vpid, stdout=w.p("log/o"))], ignore=("/log", "/etc"), time=NOW)


def tworld(root, hist):
    w = World(root, conf=HC + "DupeCheck\nKillDupe\n", files={"var/areas.bbs": "Test System\n#- ECHO -z 2 2:1/2 2:1/3\n"}).reset()
    if hist:
        harness(w, ["s" + w.p("var/history") + S + "11", "o" + w.p("var/history")] + [wr("var/history", k, t) for k, t in mixed()] + ["c"])
    w.put("bt/pin/01.pkt", pkt(IDS[:2]).pack())
    w.put("bt/pin/02.pkt", pkt(IDS[2:]).pack())
    return w


def delivered(w):
    out = b""
    for f, b in w.tree().items():
        if f.startswith("spool/toss/") and not f.endswith(".tmp"):
            out += b
    return [i for i in IDS if b"S" + i.encode() in out]


for hist in (0, 1):
    def setup(wid):
        w = tworld("%s/w%d" % (ck.scratch, wid), hist)
        return w, toss_job(w, 1001)

    def judge(w, res, fault, second):
        errs = []
        if fault:
            r = exp_job(w, (), 3001).run()
            for k in range(2):
                for f in w.ls("bt/pin"):
                    if f.endswith(".bad"):
                        os.rename(w.p("bt/pin/" + f), w.p("bt/pin/" + f[:-3] + "pkt"))
                r = toss_job(w, 2001 + k).run()
            if r.exits[0] != "0":
                errs.append("next ftntoss: %s %s" % (r.exits, w.log()[-300:]))
        d = delivered(w)
        if d != IDS:
            errs.append("message lost: only %s delivered; %s" % (d, w.log()[-300:]))
        return errs, None

    crash.sweep(ck, "tosser, expire, tosser%s" % (", with a history" if hist else ""), setup, judge, full=T, errs=True)

# 4. schedules of the tosser and ftnexpire
worlds = {}


def ssetup(wid):
    w = worlds[wid] = tworld("%s/w%d" % (ck.scratch, wid), 1)
    return mcx.Job(w.root, [dict(args=w.args(ck.bin("toss/ftntoss"), "-I", w.p("bt/pin")), stdout=w.p("log/o0")),
                            dict(args=w.args(ck.bin("toss/ftnexpire")), stdout=w.p("log/o1"))], ignore=("/log", "/etc", "/bt", "/spool"), time=NOW)


def sjudge(wid, res):
    w = worlds[wid]
    errs = []
    if res.dead:
        errs.append("hangs")
    if res.exits.get(1) != "0" or res.exits.get(0) not in ("0", "2"):
        errs.append("exits %r %s" % (res.exits, w.log()[-300:]))
    live = [k for k, t in LIVE]
    if res.exits.get(0) == "0":
        if delivered(w) != IDS:
            errs.append("delivered %r" % delivered(w))
        live = live + ["ECHO MSGID: 2:1/2 " + i for i in IDS]
    keys = live + [k for k, t in OLD]
    k = known(w, "var/history", keys)
    # the tosser keeps old ids
    if k is None or set(live) - k or k - set(live):
        errs.append("known ids: %r of %r" % (k, keys))
    return (errs[0], None) if errs else None


def tsetup(wid):
    w = worlds[wid] = World("%s/w%d" % (ck.scratch, wid), conf=HC + "PassthroughtBoxesDir @/fbox\n", dirs=["fbox", "files/area"],
                            files={"etc/passwd": "ff 2:1/2 secret\n", "var/fareas.bbs": "@/files\n@/files/area AREA -z 2 2:1/2\n"}).reset()
    harness(w, ["s" + w.p("var/tic") + S + "5", "o" + w.p("var/tic")] + [wr("var/tic", k, t) for k, t in mixed()] + ["c"])
    w.put("bt/pin/file.zip", b"contents")
    w.put("bt/pin/x.tic", b"Area AREA\r\nOrigin 2:5/5\r\nFrom 2:1/2\r\nFile file.zip\r\nDesc x\r\nCRC 0D5FAF64\r\nDate %d\r\nPw secret\r\nSize 8\r\n" % NOW)
    for f in ("file.zip", "x.tic"):
        os.utime(w.p("bt/pin/" + f), (NOW - 5000, NOW - 5000))
    return mcx.Job(w.root, [dict(args=w.args(ck.bin("tick/ftntick")), stdout=w.p("log/o0")),
                            dict(args=w.args(ck.bin("toss/ftnexpire"), "-t"), stdout=w.p("log/o1"))], ignore=("/log", "/etc", "/bt", "/fbox", "/files"), time=NOW)


def tjudge(wid, res):
    w = worlds[wid]
    if res.dead or res.exits.get(1) != "0" or res.exits.get(0) not in ("0", "2"):
        return "hangs or exits %r %s" % (res.exits, w.log()[-300:]), None
    keys = [k for k, t in LIVE + OLD] + [l.split("\t")[0] for l in (w.get("var/tic") or b"").decode().splitlines() if "file.zip" in l]
    if res.exits[0] == "0" and (w.get("files/area/file.zip") is None or len(keys) != len(LIVE + OLD) + 1):
        return "file processed, text %r, %r" % (w.get("var/tic"), w.log()[-300:]), None
    k = known(w, "var/tic", keys)
    want = {k for k in keys if k not in [o for o, t in OLD]}
    if k is None or k != want:
        return "known ids: %r instead of %r" % (k, want), None


if not only or only in "schedules":
    mcx.explore(ck, "schedules: ftntoss, ftnexpire", ssetup, sjudge, 2 if not T else 3)
    mcx.explore(ck, "schedules: ftntick, ftnexpire", tsetup, tjudge, 2 if not T else 3)
ck.finish()
