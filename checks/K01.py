import itertools, os, re, shutil, time, zlib
from fg import core, world
from fg.world import World
ck = core.Check("K01")
ck.rule = ("every TIC with up to 2 (some: 3) fields changed under every option, every area of 3 links (absent, linked, passive) x senders x seen-by x uplinks x kinds, every history "
           "of up to 3 TICs in one or several runs, upper and lower case of names, all run through ftntick and compared with a reference model; non-trivial = case")
ck.build("plain")
T = ck.thorough
US = "2:1/1"
NOW = int(time.time())
OLD = NOW - 40 * 3600


def crc(b):
    return "%08X" % (zlib.crc32(b) & 0xffffffff)


def node(s):
    """z:n/f[.p] as numbers"""
    z, r = s.split(":")
    n, f = r.split("/")
    f, _, p = f.partition(".")
    return int(z), int(n), int(f), int(p or 0)


def box(s):
    return "%d.%d.%d.%d" % node(s)


low = lambda b: bytes(c + 32 if 65 <= c <= 90 else c for c in b)
upp = lambda b: bytes(c - 32 if 97 <= c <= 122 else c for c in b)
PASS = {"2:1/2": b"secret", "2:1/3": b"pw3", "2:1/4.5": b"pw45", "2:1/9": b"pw9"}
TICPASS = {"2:1/2": b"ticpw", "2:1/3": b"tic3"}


class Area:
    def __init__(self, tag, links, dir=None, passthru=False, uplinks=1, zone=2, addr=None, state=None, passive=()):
        self.tag, self.links, self.dir, self.passthru, self.uplinks, self.zone, self.addr, self.state, self.passive = tag, links, dir or "files/" + tag.lower(), passthru, uplinks, zone, addr, state, passive

    def line(self, state=None):
        o = "%s@/%s %s -z %d" % ("#" if self.passthru else "", self.dir, self.tag, self.zone)
        if self.addr:
            o += " -a " + self.addr
        if self.uplinks != 1:
            o += " -u %d" % self.uplinks
        if state or self.state:
            o += " -s " + (state or self.state)
        return o + "".join(" %s%s" % ("P" if l in self.passive else "", l) for l in self.links) + "\n"


class Model:
    """what ftntick is to do, from the documentation and FSC-0087"""

    def __init__(self, areas, opt=()):
        self.areas = areas
        self.opt = dict(opt)
        self.hist = set()
        self.inb = {}           # file -> (contents, mtime)
        self.files = {}         # path -> contents
        self.mtime = {}
        self.tics = {}          # box -> list of TICs
        self.state = {}
        self.pw = TICPASS if "EnableTickPassword" in self.opt else PASS

    def run(self):
        tics = sorted((m, f) for f, (b, m) in self.inb.items() if f.lower().endswith(b".tic"))
        for m, f in tics:
            if f not in self.inb:
                continue
            r = self.tic(f, self.inb[f][0], m)
            if r == "wait":
                continue
            b = self.inb.pop(f, None)
            if r == "bad" and b:
                self.inb[f[:-4] + b".bad"] = b

    def tic(self, name, data, tmtime):
        h = {"desc": [], "ldesc": [], "path": [], "seenby": []}
        for l in data.split(b"\n"):
            l = l.rstrip(b"\r")
            k = re.split(rb"[ \t]", l.lstrip(b" \t"), maxsplit=1)
            key = k[0].lower().decode("latin-1")
            v = k[1].lstrip(b" \t") if len(k) > 1 else b""
            if key in ("desc", "ldesc", "path", "seenby"):
                h[key].append(v or (b"--no description--" if key == "desc" else b""))
            else:
                h[key] = v
        if "file" not in h:
            return "bad"
        want = low(h["file"])
        real = want if want in self.inb else next((f for f in self.inb if low(f) == want), None)
        if real is None:
            hours = int(self.opt.get("TickWaitHour", -1))
            if hours and hours > 0 and tmtime > NOW - 3600 * hours:
                return "wait"
            a = self.opt.get("TickWaitAction")
            return {None: "wait", "bad": "bad", "delete": "delete"}[a]
        if real != want:
            self.inb[want] = self.inb.pop(real)
        body, mtime = self.inb[want]
        if int(h.get("size", b"0") or 0) not in (0, len(body)):
            return "bad"
        c = h.get("crc", b"").upper().decode() or crc(body)
        if int(c, 16) == 0:
            c = crc(body)
        date = int(h["date"]) if "date" in h else mtime
        area = upp(h["area"]).decode("latin-1") if "area" in h else None
        key = (area, h.get("origin"), want, c)
        rep = low(h["replaces"]) if "replaces" in h else None
        if key in self.hist and rep != want and "NoTicHistory" not in self.opt:
            if "KillTickDupe" not in self.opt:
                return "bad"
            self.inb.pop(want)
            return "delete"
        if area is None:
            return "bad"
        a = next((x for x in self.areas if x.tag == area), None)
        frm = h["from"].decode() if "from" in h else None
        unknown = False
        if a is None:
            u = self.opt.get("UnknownTickArea")
            a = next((x for x in self.areas if x.tag == u), None)
            if not a:
                return "bad"
            unknown = True
        else:
            p = self.pw.get(frm)
            if p is None and "-t" not in self.opt or p is not None and low(h.get("pw", b"")) != low(p) or p is not None and "pw" not in h:
                return "bad"
            if frm not in a.links:
                return "bad"
            if a.state or a.tag in self.state:
                s = self.state.get(a.tag, a.state)
                if set(s) & set("UWF") and "S" not in s:
                    self.state[a.tag] = "".join(x for x in s if x not in "UWF") + "S"
            if rep is not None and b"/" not in rep and "TickReplacedIgnore" not in self.opt and not a.passthru:
                f = a.dir + "/" + rep.decode("latin-1")
                if f in self.files:
                    b = self.files.pop(f)
                    if "TickReplacedDir" in self.opt:
                        self.files["replaced/" + rep.decode("latin-1")] = b
        fname = want.decode("latin-1")
        if not a.passthru:
            self.files[a.dir + "/" + fname] = body
            self.mtime[a.dir + "/" + fname] = None if "TickDontSetTime" in self.opt else date
            d = h["desc"][0] if h["desc"] else b"--no description--"
            d = re.sub(rb"[\x01-\x08\x0b\x0e-\x1f]", lambda m: b"^" + bytes([m[0][0] + 64]), d.replace(b"\x8d", b"") if "DontIgnoreSoftCR" in self.opt else d)
            if "DefaultCharset" in self.opt:
                d = d.decode("cp866").encode("utf-8")
            self.files[a.dir + "/.desc/" + fname + ".desc"] = d + b"\n"
        self.inb.pop(want)
        self.hist.add(key)
        if unknown:
            return "delete"
        us = {1: "1:1/1", 2: US}.get(a.zone, US)
        us = a.addr or us
        seen = [s.decode() for s in h["seenby"]]
        seen = [s for i, l in enumerate(seen) for s in [l]]
        for x in (frm, us):
            if x not in seen:
                seen.append(x)
        new = []
        for i, l in enumerate(a.links):
            if i + 1 <= a.uplinks or l in a.passive:
                continue
            if l not in seen:
                seen.append(l)
                new.append(l)
        for l in new:
            hold = l in self.opt.get("hold", ())
            d = "fbox/" + box(l) + (".H" if hold and "PassthroughtBoxesFlavours" in self.opt else "")
            self.files[d + "/" + fname] = body
            o = [("Area", area), ("Origin", h["origin"].decode()), ("From", us), ("File", fname)]
            if rep is not None:
                o.append(("Replaces", rep.decode("latin-1")))
            o.append(("Desc", h["desc"][0].decode("latin-1") if h["desc"] else ""))
            o += [("LDesc", x.decode("latin-1")) for x in h["ldesc"]]
            o.append(("CRC", c))
            if "created" in h:
                o.append(("Created", h["created"].decode("latin-1")))
            o += [("Size", str(len(body))), ("Date", str(date))] + [("Path", x.decode("latin-1")) for x in h["path"]] + [("Path", us)]
            o += [("Seenby", x) for x in seen] + [("Pw", self.pw.get(l, b"").decode())]
            self.tics.setdefault(d, []).append(o)
        return "delete"


def readtic(b):
    o = []
    ls = b.split(b"\r\n")
    if ls[-1] != b"":
        return [("unterminated", repr(b[-40:]))]
    for l in ls[:-1]:
        k, _, v = l.decode("latin-1").partition(" ")
        o.append((k, v))
    p = [i for i, x in enumerate(o) if x[0] == "Path"]
    if p:
        i = p[-1]
        m = re.match(r"(\S+) (\d+) \S.*$", o[i][1])
        if not m or abs(int(m[2]) - time.time()) > 300:
            return [("bad own Path", o[i][1])]
        o[i] = ("Path", m[1])
    return o


def world_for(model, wid):
    conf = "PassthroughtBoxesDir @/fbox\n"
    for k, v in model.opt.items():
        if k == "hold" or k.startswith("-"):
            continue
        conf += "%s %s\n" % (k, "@/replaced" if k == "TickReplacedDir" else v)
    pw = "".join("ff %s %s\n" % (k, v.decode()) for k, v in PASS.items()) + "".join("tic %s %s\n" % (k, v.decode()) for k, v in TICPASS.items())
    rt = ""
    if "hold" in model.opt:
        rt = "tick\nsend hold %s\n" % " ".join(model.opt["hold"])
    w = World("%s/w%d" % (ck.scratch, os.getpid()), conf=conf, address=["2:1/1", "1:1/1"], files={"etc/passwd": pw, "etc/routing": rt, "var/fareas.bbs": "@/files\n" + "".join(a.line() for a in model.areas)},
              dirs=["fbox", "replaced"])
    w.reset()
    return w


def fs(b):
    return os.fsdecode(b)


def put(w, model, name, data, mtime):
    if isinstance(name, str):
        name = name.encode("latin-1")
    p = os.path.join(w.p("bt/pin"), fs(name))
    open(p, "wb").write(data)
    os.utime(p, (mtime, mtime))
    model.inb[name] = (data, mtime)


def compare(w, model):
    errs = []
    got = {}
    tics = {}
    for d in ("files", "fbox", "replaced"):
        for b, dn, fn in os.walk(w.p(d)):
            for f in fn:
                r = os.path.relpath(os.path.join(b, f), w.root)
                data = w.get(r)
                if d == "fbox" and re.fullmatch(r"tk\d{6}\.tic", f):
                    tics.setdefault(os.path.dirname(r), []).append((f, readtic(data)))
                else:
                    got[r.encode("utf-8", "surrogateescape").decode("latin-1")] = data
    for f in sorted(set(got) | set(model.files)):
        if got.get(f) != model.files.get(f):
            errs.append("%s is %r instead of %r" % (f, (got.get(f) or b"-none-")[:60], (model.files.get(f) or b"-none-")[:60]))
    for d in sorted(set(tics) | set(model.tics)):
        a, b = [x for _, x in sorted(tics.get(d, []))], model.tics.get(d, [])
        if a != b:
            for x, y in zip(a, b):
                if x != y:
                    errs.append("TIC for %s: %r instead of %r" % (d, [i for i in x if i not in y] or x, [i for i in y if i not in x] or y))
            if len(a) != len(b):
                errs.append("%d TICs for %s instead of %d" % (len(a), d, len(b)))
    inb = {}
    for f in os.listdir(os.fsencode(w.p("bt/pin"))):
        p = os.path.join(os.fsencode(w.p("bt/pin")), f)
        if os.path.isfile(p):
            inb[f] = open(p, "rb").read()
    ref = {k: v[0] for k, v in model.inb.items()}
    for f in sorted(set(inb) | set(ref)):
        if inb.get(f) != ref.get(f):
            errs.append("inbound %r is %r instead of %r" % (f, (inb.get(f) or b"-none-")[:50], (ref.get(f) or b"-none-")[:50]))
    for f, m in model.mtime.items():
        if f in model.files and f in got and m is not None and int(os.stat(w.p(fs(f.encode("latin-1")))).st_mtime) != m:
            errs.append("time of %s is %d instead of %d" % (f, os.stat(w.p(fs(f.encode("latin-1")))).st_mtime, m))
    ls = (w.get("var/fareas.bbs") or b"").decode("latin-1").split("\n")[1:-1]
    tags = [l.split()[1] for l in ls]
    if tags != [a.tag for a in model.areas]:
        errs.append("fareas.bbs has %r" % tags)
    for a, l in zip(model.areas, ls):
        m = re.search(r" -s (\S+)", l)
        s = model.state.get(a.tag, a.state)
        if (m[1] if m else None) != s:
            errs.append("state of %s is %s instead of %s" % (a.tag, m and m[1], s))
    lk = [f for f in w.ls("lock")] + [f for f in w.ls("var") if f.endswith(".lock")]
    if lk:
        errs.append("left %s" % lk)
    return errs


BASE = [("Area", b"AREA"), ("Origin", b"2:5/5"), ("From", b"2:1/2"), ("File", b"file.zip"), ("Desc", b"description"), ("Created", b"by somebody"), ("CRC", None), ("Size", None), ("Date", b"1000000000"),
        ("Path", b"2:5/5 999999999 Sun"), ("Seenby", b"2:5/5"), ("Pw", b"secret")]


def tic(body, **ch):
    """a TIC with fields replaced (a list: several lines, None: left out)"""
    o = []
    names = [k for k, _ in BASE]
    eol = ch.pop("eol", b"\r\n")
    case = ch.pop("case", None)
    noend = ch.pop("noend", None)
    for k, v in BASE + [(k, None) for k in ch if k not in names]:
        if k in ch:
            v = ch[k]
            if v is None:
                continue
        elif k == "CRC":
            v = crc(body).encode()
        elif k == "Size":
            v = b"%d" % len(body)
        for x in v if isinstance(v, list) else [v]:
            kk = getattr(k, case)() if case else k
            o.append(kk.encode() + b" " + x)
    r = eol.join(o)
    return r if noend else r + eol


AREAS = lambda: [Area("AREA", ["2:1/2", "2:1/3", "2:1/4.5", "2:1/6"], passive=["2:1/6"]), Area("PASS", ["2:1/2", "2:1/3"], passthru=True), Area("STATE", ["2:1/2", "2:1/3"], state="UX"),
                 Area("ALONE", ["2:1/2"]), Area("APASS", ["2:1/2"], passthru=True), Area("ADDR", ["2:1/2", "2:1/3"], addr="2:1/10"), Area("ZONE", ["1:5/5", "2:1/2", "2:1/3"], zone=1, uplinks=2),
                 Area("UNK", ["2:1/2", "2:1/3"])]
VAR = {
    "Area": [b"area", b"PASS", b"STATE", b"ALONE", b"APASS", b"ADDR", b"ZONE", b"NONE", None, b"", b"UNK"],
    "Origin": [b"2:1/2", b"3:4/5.6"],
    "From": [b"2:1/3", b"2:1/4.5", b"2:1/6", b"2:1/9", b"2:1/1", None, b"2:1/2.1", b"bad"],
    "File": [b"FILE.ZIP", b"File.Zip", b"missing", None, b"a file.zip", b"\xe1x.zip", b"big.zip", b"empty.zip", b"../etc/passwd", b"x.tic"],
    "Desc": [None, b"", [b"one", b"two"], bytes(range(0x80, 0xb0)), b"tab\there \x01\x1f", b"x" * 300, b" led "],
    "Created": [None, b"", b"\xe0 x"],
    "CRC": [None, b"00000000", b"12345678", "lower"],
    "Size": [None, b"0", b"1", b"99999"],
    "Date": [None, b"0", b"1700000000"],
    "Path": [None, [b"2:5/5 1", b"2:6/6 2 x y"]],
    "Seenby": [None, [b"2:1/3"], [b"2:5/5", b"2:1/4.5", b"2:1/3"], [b"2:1/2", b"2:1/1", b"2:7/7"]],
    "Pw": [None, b"", b"SECRET", b"wrong", b"secretx", b"pw3", b"ticpw", b"pw45"],
    "Replaces": [b"old.zip", b"OLD.ZIP", b"none.zip", b"file.zip", b"../pass/keep.zip", b"../../etc/passwd", b"/etc/x", b"", b".desc/old.zip.desc", b"*.zip"],
    "LDesc": [b"long", [b"one", b"", b"  three"]],
    "App": [b"prog x"], "Release": [b"1"], "To": [b"Sysop, 2:1/1"], "Magic": [b"M"], "Foo": [b"bar baz"],
    "eol": [b"\n", b"\r\n\r\n"], "case": ["upper", "lower"], "noend": [True],
}
VARS = [(k, v) for k, l in VAR.items() for v in l]
FILES = {"a file.zip": b"blank", "\xe1x.zip": b"8bit", "big.zip": bytes(range(256)) * 500, "empty.zip": b"", "old.zip": b"old in inbound"}
CONFS = [{}, {"TickReplacedDir": ""}, {"TickReplacedIgnore": ""}, {"KillTickDupe": ""}, {"NoTicHistory": ""}, {"TickWaitHour": 24, "TickWaitAction": "delete"}, {"TickWaitHour": 24, "TickWaitAction": "bad"},
         {"TickWaitHour": 0, "TickWaitAction": "delete"}, {"hold": ["2:1/3"], "PassthroughtBoxesFlavours": ""}, {"hold": ["2:1/3"]}, {"TickDontSetTime": ""}, {"EnableTickPassword": ""}, {"UnknownTickArea": "UNK"}, {"-t": 1},
         {"DefaultCharset": "cp866:cp866:utf-8"}, {"DontIgnoreSoftCR": ""}]


def fix(k, v, body):
    return crc(body).lower().encode() if k == "CRC" and v == "lower" else v


def one(conf, ch, old=False):
    m = Model(AREAS(), conf)
    w = world_for(m, 0)
    ch = dict(ch)
    name = ch.get("File", b"file.zip") or b"file.zip"
    body = FILES.get(low(name).decode("latin-1"), b"contents of the file\n")
    for n, b in FILES.items():
        if n != "old.zip":
            put(w, m, n, b, NOW - 1000)
    put(w, m, "FILE.ZIP" if name == b"FILE.ZIP" else "file.zip", b"contents of the file\n", NOW - 1000)
    for p, b in (("files/area/old.zip", b"old one"), ("files/area/file.zip", b"old file, somewhat longer than the new one"), ("files/pass/keep.zip", b"keep")):
        w.put(p, b)
        m.files[p] = b
    put(w, m, "x.tic", tic(body, **{k: fix(k, v, body) for k, v in ch.items()}), NOW - 40 * 3600 if old else NOW - 10)
    m.run()
    r = w.run(ck.bin("tick/ftntick"), *[k for k in m.opt if k.startswith("-")])
    errs = compare(w, m)
    if r.returncode:
        errs.append("exit %d %s" % (r.returncode, r.stdout[-300:]))
    return errs and "%r %r: %s" % (conf, ch, "; ".join(errs[:3])) or None


def links(case):
    """who gets a file"""
    st, seen, upl, frm, passthru, zone = case
    names = ["2:1/2", "2:1/3", "2:1/4.5"]
    a = Area("AREA", [n for n, s in zip(names, st) if s], passive=[n for n, s in zip(names, st) if s == 2], uplinks=upl, passthru=passthru, zone=zone)
    m = Model([a])
    w = world_for(m, 0)
    put(w, m, "file.zip", b"data", NOW - 100)
    sb = [n.encode() for n, s in zip(names, seen) if s] + [b"2:5/5"]
    put(w, m, "x.tic", tic(b"data", From=frm.encode(), Pw=PASS[frm], Seenby=sb), NOW - 10)
    m.run()
    r = w.run(ck.bin("tick/ftntick"))
    errs = compare(w, m)
    if r.returncode:
        errs.append("exit %d %s" % (r.returncode, r.stdout[-300:]))
    return errs and "%s %r: %s" % (a.line().strip(), case, "; ".join(errs[:3])) or None


EV = [dict(), dict(b=b"new contents"), dict(b=b"new contents", Replaces=b"file.zip"), dict(File=b"two.zip", b=b"2"), dict(File=b"two.zip", b=b"2", Replaces=b"file.zip"), dict(Pw=b"wrong"), dict(File=b"nofile.zip", nofile=1),
      dict(Area=b"PASS"), dict(From=b"2:1/3", Pw=b"pw3"), dict(From=b"2:1/4.5", Pw=b"pw45", Origin=b"2:1/4.5"), dict(Area=b"NONE"), dict(Area=b"ZONE", File=b"two.zip", b=b"2"), dict(Area=b"ADDR"),
      dict(CRC=None, b=b"no crc"), dict(CRC=None, b=b"no crc either"), dict(Size=b"1"), dict(b=b"x" * 70000), dict(Desc=None, Created=None, Date=None)]
HC = [{}, {"KillTickDupe": ""}, {"NoTicHistory": ""}, {"TickReplacedDir": "", "UnknownTickArea": "UNK"}]


def history(case):
    conf, evs, together = case
    m = Model(AREAS(), conf)
    w = world_for(m, 0)
    for i, e in enumerate(evs):
        e = dict(EV[e])
        b = e.pop("b", b"contents")
        nofile = e.pop("nofile", False)
        name = e.get("File", b"file.zip")
        if not nofile:
            # what a failed TIC left is overwritten by the mailer
            put(w, m, name, b, NOW - 1000 + i)
        put(w, m, "t%d.tic" % i, tic(b, **e), NOW - 500 + i)
        if not together or i == len(evs) - 1:
            m.run()
            r = w.run(ck.bin("tick/ftntick"))
            errs = compare(w, m)
            if r.returncode:
                errs.append("exit %d %s" % (r.returncode, r.stdout[-300:]))
            if errs:
                return "%r %r %s, after event %d: %s" % (conf, [EV[x] for x in evs[:i + 1]], "in one run" if together else "", i, "; ".join(errs[:3]))
    return None


def cases(case):
    """upper and lower case of names, both in inbound"""
    names, t, conf = case
    m = Model(AREAS(), conf)
    w = world_for(m, 0)
    for i, n in enumerate(names):
        put(w, m, n, b"contents %d" % i, NOW - 1000)
    pick = next((i for i, n in enumerate(names) if n == t.lower()), None)
    if pick is None and len(names) > 1:
        return None
    put(w, m, "X.TIC", tic(b"contents %d" % (pick or 0), File=t.encode()), NOW - 10)
    m.run()
    r = w.run(ck.bin("tick/ftntick"))
    errs = compare(w, m)
    return errs and "%r: %s" % (case, "; ".join(errs[:3])) or None


def hatch(case):
    """ftnhatch announces a file of an area to its links"""
    st, passthru, rep, desc, conf, addr, size = case
    names = ["2:1/2", "2:1/3", "2:1/4.5", "2:1/1"]
    a = Area("AREA", [n for n, s in zip(names, st) if s], passive=[n for n, s in zip(names, st) if s == 2], passthru=passthru, addr=addr)
    m = Model([a], conf)
    w = world_for(m, 0)
    us = addr or US
    body = b"x" * size
    w.put("files/area/f.zip", body)
    os.utime(w.p("files/area/f.zip"), (1600000000, 1600000000))
    r = w.run(ck.bin("tick/ftnhatch"), *(["-r", rep] if rep else []), "AREA", "f.zip", desc)
    errs = []
    if r.returncode:
        errs.append("exit %d %s" % (r.returncode, r.stdout[-200:]))
    want = {}
    tics = {}
    for l in a.links:
        if l in a.passive or l == us:
            continue
        z, n, f, p = node(l)
        fl = "hlo" if l in m.opt.get("hold", ()) else "flo"
        want["bt/out/%04x%04x." % (n, f) + ("pnt/%08x.%s" % (p, fl) if p else fl)] = (w.p("files/area/f.zip") + "\n").encode()
        d = "fbox/" + box(l) + (".H" if fl == "hlo" and "PassthroughtBoxesFlavours" in m.opt else "")
        o = [("Area", "AREA"), ("Origin", us), ("From", us), ("File", "f.zip")] + ([("Replaces", rep)] if rep else [])
        o += [("Desc", (desc if "DefaultCharset" not in m.opt else desc.decode("utf-8").encode("cp866")).decode("latin-1")), ("CRC", crc(body)), ("Created", "by FIDOGATE/ftnhatch"), ("Size", str(size)),
              ("Date", "1600000000"), ("Path", us)] + sorted({("Seenby", x) for x in [us] + a.links}) + [("Pw", m.pw.get(l, b"").decode())]
        tics[d] = [o]
    got = {}
    gt = {}
    for k, v in w.tree().items():
        if k.startswith("bt/"):
            got[k] = v
        elif re.search(r"/tk\d{6}\.tic$", k):
            t = readtic(v)
            i = [x[0] for x in t].index("Seenby") if ("Seenby" in [x[0] for x in t]) else 0
            t = [x for x in t[:i]] + sorted(set(x for x in t if x[0] == "Seenby")) + [x for x in t[i:] if x[0] != "Seenby"]
            gt.setdefault(os.path.dirname(k), []).append(t)
        elif k.startswith(("fbox/", "replaced/")):
            errs.append("made %s" % k)
    if w.get("files/area/f.zip") != body:
        errs.append("file changed")
    if got != want:
        errs.append("outbound %r instead of %r" % (got, want))
    for d in sorted(set(gt) | set(tics)):
        if gt.get(d) != tics.get(d):
            errs.append("TIC for %s: %r instead of %r" % (d, gt.get(d), tics.get(d)))
    return errs and "ftnhatch %r: %s" % (case, "; ".join(errs[:3])) or None


def run(c):
    f, a = c
    return c, globals()[f](*a) if f == "one" else globals()[f](a)


todo = []
n1 = [dict([v]) for v in VARS] + [{}]
n2 = [dict([a, b]) for a, b in itertools.combinations(VARS, 2) if a[0] != b[0]]
for c in CONFS:
    todo += [("one", (c, x)) for x in n1]
    todo += [("one", (c, x, True)) for x in n1 if x.get("File") == b"missing" or not x]
for c in CONFS if T else CONFS[:2]:
    todo += [("one", (c, x)) for x in n2]
if T:
    V3 = [v for v in VARS if v[0] in ("Area", "From", "File", "Pw", "Replaces", "Seenby", "CRC")]
    todo += [("one", ({"UnknownTickArea": "UNK"}, dict([a, b, c]))) for a, b, c in itertools.combinations(V3, 3) if len({a[0], b[0], c[0]}) == 3]
todo += [("links", x) for x in itertools.product(itertools.product((0, 1, 2), repeat=3), itertools.product((0, 1), repeat=3), (0, 1, 2, 3), ("2:1/2", "2:1/3", "2:1/4.5"), (False, True), (2, 1) if T else (2,))]
todo += [("history", (c, h, t)) for c in HC for n in (1, 2) for h in itertools.product(range(len(EV)), repeat=n) for t in (0, 1)]
H3 = range(len(EV)) if T else (0, 1, 2, 4, 5, 7, 9, 13)
todo += [("history", (c, h, t)) for c in (HC if T else HC[:2]) for h in itertools.product(H3, repeat=3) for t in (0, 1)]
NM = ["file.zip", "FILE.ZIP", "File.Zip"]
todo += [("cases", (x, t, c)) for k in (1, 2, 3) for x in itertools.permutations(NM, k) for t in NM for c in ({}, {"NoTicHistory": ""})]
todo += [("hatch", (st, pt, rep, d, c, ad, sz)) for st in itertools.product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1)) for pt in (False, True) for rep in (None, "old.zip") for d, c in
         ((b"text", {}), ("\u043f\u0440 x".encode(), {"DefaultCharset": "cp866:cp866:utf-8"}), (b"", {"hold": ["2:1/3"], "PassthroughtBoxesFlavours": ""}), (b"x y", {"hold": ["2:1/3", "2:1/4.5"]}), (b"z", {"EnableTickPassword": ""}))
         for ad in (None, "2:1/10") for sz in ((4,) if not T else (0, 4, 100000))]
n = {}
bad = 0
for (f, a), r in core.pmap(run, todo, 16):
    ck.count("states")
    ck.count("evaluations")
    n[f] = n.get(f, 0) + 1
    if r:
        bad += 1
        ck.violation(r, f, None)
for f in sorted(n):
    ck.part({"one": "TICs with changed fields", "links": "areas, links and seen-by", "history": "histories of TICs", "cases": "case of file names", "hatch": "ftnhatch"}[f], cases=n[f])
ck.finish()
