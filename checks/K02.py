import errno, os, re, zlib
from fg import core, mcx, crash
from fg.world import World
ck = core.Check("K02")
ck.rule = ("every crash point, torn write and failing file operation (thorough: every errno, and a crash of the recovery, too) of ftntick in 8 scenarios, followed by a recovery run; "
           "non-trivial = distinct fault")
ck.build("plain")
T = ck.thorough
FT = ck.bin("tick/ftntick")


def crc(b):
    return b"%08X" % (zlib.crc32(b) & 0xffffffff)


def tic(area, f, body, frm=b"2:1/2", pw=b"secret", **k):
    return b"".join(b"%s %s\r\n" % x for x in [(b"Area", area), (b"Origin", b"2:5/5"), (b"From", frm), (b"File", f), (b"Desc", b"description of " + f), (b"Created", b"x")] +
                    [(n.encode(), v) for n, v in k.items()] + [(b"CRC", crc(body)), (b"Size", b"%d" % len(body)), (b"Date", b"900000000"), (b"Path", b"2:5/5 1"), (b"Seenby", b"2:5/5"), (b"Pw", pw)])


BOX = {"2:1/3": "2.1.3.0", "2:1/4": "2.1.4.0"}
F1, F2 = b"first file\n" * 10, b"second file, large\n" * 3000


def scen(name, conf, areas, tics, files=(), links=(), **kw):
    """tics: (area, file, body, recipients, dir or None, fields)"""
    def setup(wid):
        w = World("%s/k%d" % (ck.scratch, wid), conf="PassthroughtBoxesDir @/fbox\n" + conf,
                  files={"etc/passwd": "ff 2:1/2 secret\nff 2:1/3 pw3\n", "var/fareas.bbs": "@/files\n" + "".join(areas)}, dirs=["fbox", "replaced", "files"]).reset()
        for p, b in files:
            w.put(p, b)
        for a, b in links:
            os.makedirs(os.path.dirname(w.p(b)), exist_ok=True)
            os.link(w.p(a), w.p(b))
        for i, (area, f, body, to, d, k) in enumerate(tics):
            w.put("bt/pin/" + f, body)
            w.put("bt/pin/t%d.tic" % i, tic(area, f.encode(), body, **k))
            for x, t in ((f, 100), ("t%d.tic" % i, 200)):
                os.utime(w.p("bt/pin/" + x), (999990000 + t + i, 999990000 + t + i))
        w.f0 = w.get("var/fareas.bbs")
        return w, job(w, 1001)

    def job(w, vpid):
        return mcx.Job(w.root, [dict(args=w.args(FT), vpid=vpid)], ignore=("/log/", "/etc/"))

    def boxes(w, errs, when):
        """complete TICs of each box"""
        o = {}
        for l, b in BOX.items():
            for f in w.ls("fbox/" + b):
                if not f.endswith(".tic"):
                    continue
                d = w.get("fbox/%s/%s" % (b, f))
                m = dict(x.split(b" ", 1) for x in d.split(b"\r\n") if b" " in x)
                if not re.search(rb"\r\nPw [^\r\n]*\r\n\Z", d):
                    if when == "recovery":
                        continue
                    if when == "fault":
                        continue
                    errs.append("incomplete TIC for %s: %r" % (l, d[-60:]))
                    continue
                body = w.get("fbox/%s/%s" % (b, m.get(b"File", b"").decode("latin-1")))
                if body is None or crc(body) != m.get(b"CRC"):
                    errs.append("TIC for %s announces %r which is %s (%s)" % (l, m.get(b"File"), "missing" if body is None else "damaged", when))
                o.setdefault(l, []).append((m.get(b"Area"), m.get(b"File"), m.get(b"CRC")))
        return o

    def common(w, errs, when):
        a = w.get("var/fareas.bbs")
        got = [l.split()[1] for l in (a or b"").split(b"\n")[1:-1]]
        if a is None or got != [l.split()[1] for l in w.f0.split(b"\n")[1:-1]]:
            errs.append("fareas.bbs damaged after %s: %r" % (when, a))
        for a, b in links:
            if w.get(b) != dict(files)[a]:
                errs.append("%s, queued before, was changed (%s)" % (b, when))
        for area, f, body, to, d, k in tics:
            rep = k.get("Replaces")
            if rep and d:
                old = [b for p, b in files if p == "%s/%s" % (d, rep.decode())]
                keep = [w.get("%s/%s" % (x, rep.decode())) for x in (d, "replaced")]
                if old and "TickReplacedDir" in conf and old[0] not in keep:
                    errs.append("replaced file lost (%s)" % when)

    def judge(w, res, fault, second):
        errs = []
        if res.dead:
            return ["hangs"], None
        if fault is None and res.exits[0] != "0":
            return ["exit %r" % res.exits], None
        common(w, errs, "fault")
        b1 = boxes(w, errs, "fault" if fault and fault[1] in ("kill", "torn") else "run")
        for i, (area, f, body, to, d, k) in enumerate(tics):
            here = [x for x in w.ls("bt/pin") if x.startswith("t%d." % i)]
            alls = all((area, f.encode(), crc(body)) in b1.get(l, []) for l in to)
            if not here and not alls:
                errs.append("TIC %d removed, not sent to all of %r: %r" % (i, to, b1))
            if not alls and w.get("bt/pin/" + f) != body and f not in [x[1] for x in tics[i + 1:]]:
                errs.append("%s no longer inbound, not sent to all" % f)
        rec = None
        for rnd in range(2):
            for f in w.ls("bt/pin"):
                if f.endswith(".bad"):
                    os.rename(w.p("bt/pin/" + f), w.p("bt/pin/" + f[:-3] + "tic"))
            r2 = job(w, 2001 + rnd).run(faults=[(0,) + second] if second and not rnd else ())
            if rnd == 0:
                rec = r2.steps
            if not (second and rnd == 0):
                if r2.exits[0] != "0":
                    errs.append("recovery run: exit %s: %s" % (r2.exits, w.log()[-300:]))
                break
        b = boxes(w, errs, "recovery")
        common(w, errs, "recovery")
        for area, f, body, to, d, k in tics:
            for l in to:
                if (area, f.encode(), crc(body)) not in b.get(l, []):
                    errs.append("%s not sent to %s after recovery: %s" % (f, l, w.log()[-300:]))
            if d:
                if w.get("%s/%s" % (d, f)) != body:
                    errs.append("%s/%s is %r after recovery" % (d, f, (w.get("%s/%s" % (d, f)) or b"-none-")[:40]))
                if w.get("%s/.desc/%s.desc" % (d, f)) != b"description of " + f.encode() + b"\n":
                    errs.append("description of %s is %r after recovery" % (f, w.get("%s/.desc/%s.desc" % (d, f))))
        for l, v in b.items():
            for x in v:
                if x[:2] not in [(t[0], t[1].encode()) for t in tics]:
                    errs.append("unexpected TIC %r for %s" % (x, l))
        lk = [x for x in w.ls("lock") + [x for x in w.ls("var") if ".lock" in x] if not re.search(r"\.L\d+$", x)]
        if lk and not second and (not fault or fault[1] not in ("kill", "torn")):
            errs.append("locks left: %s" % lk)
        return errs, rec
    crash.sweep(ck, name, setup, judge, full=T, double=T, skip=seqtorn, **kw)


def seqtorn(steps, f):
    """a number of a few bytes, rewritten in place, is not torn"""
    x = steps[f[0]]
    return f[1] in ("torn", "shorterr") and ("/seq/" in x.p1 or x.p1.endswith(".dir")) or x.name == "unlink" and ("/lock/" in x.p1 or ".lock" in x.p1)


A = "@/files/area AREA -z 2 2:1/2 2:1/3 2:1/4\n"
P = "#@/files/pass PASS -z 2 2:1/2 2:1/3 2:1/4\n"
L = ["2:1/3", "2:1/4"]
scen("one file, two links", "", [A, P], [(b"AREA", "f.zip", F1, L, "files/area", {})])
scen("one file, no history", "NoTicHistory\n", [A, P], [(b"AREA", "f.zip", F1, L, "files/area", {})])
scen("passthru", "", [A, P], [(b"PASS", "f.zip", F1, L, None, {})])
scen("large files, two areas", "", [A, P], [(b"AREA", "g.zip", F2, L, "files/area", {}), (b"PASS", "f.zip", F1, L, None, {})])
scen("new version, old one still queued for others", "", [A], [(b"AREA", "f.zip", F1, L, "files/area", {})], files=[("files/area/f.zip", b"old version, which is longer " * 20)],
     links=[("files/area/f.zip", "fbox/2.1.9.0/f.zip")])
scen("replaces, old file kept", "TickReplacedDir @/replaced\n", [A], [(b"AREA", "f2.zip", F1, L, "files/area", {"Replaces": b"f1.zip"})], files=[("files/area/f1.zip", b"old version " * 20)],
     links=[("files/area/f1.zip", "fbox/2.1.9.0/f1.zip")])
scen("replaces itself", "KillTickDupe\n", [A], [(b"AREA", "f.zip", F1, L, "files/area", {"Replaces": b"f.zip"})], files=[("files/area/f.zip", b"old version " * 20), ("fbox/2.1.3.0/f.zip", b"queued")])
scen("leftover of a crash in the box directory", "", ["@/files/area AREA -z 2 -s U 2:1/2 2:1/3 2:1/4\n"], [(b"AREA", "f.zip", F1, L, "files/area", {})], files=[("fbox/f.zip", b"leftover")],
     links=[("fbox/f.zip", "fbox/2.1.9.0/f.zip")])
ck.sample("crash at each operation: copy to the area, description, link to each box, TIC, history, fareas.bbs, unlink of the file and the TIC")
ck.assumptions += ["a crash keeps the operations done before it, in order (no reordering of unsynced writes)", "a sequence file (one line) is rewritten by one write which is not torn",
                   "the operator renames .bad TICs back and runs ftntick again"]
ck.finish()
