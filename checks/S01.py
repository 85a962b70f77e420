import itertools, os, re, struct
from fg import core, world, gate
from fg.world import World
from fg.ftn import N, A, Msg, Pkt
ck = core.Check("S01")
ck.rule = ("every character alone, at the start, inside and at the end of every piece of received data which reaches a configured command, every ordered pair of "
           "shell metacharacters and every classic injection, in every such place; non-trivial = value")
ck.build("plain")
T = ck.thorough
META = list("|&;<>()$`\\\"' \t*?[]#~=%!{}^-")
ONE = [c for c in map(chr, range(1, 256))]
WORDS = [";>PWN;", "$(>PWN)", "`>PWN`", "|>PWN", "&>PWN", "\";>PWN;\"", "';>PWN;'", "$(touch PWN)", "`touch PWN`", ";touch PWN;", "|touch PWN", "&touch PWN&", "&&touch PWN", "||touch PWN", ">PWN", "<PWN", ">>PWN", "2>PWN", "$HOME", "${HOME}", "$$", "$0", "$1", "$IFS", "'", "\"", "''", "\"\"",
         "'\"'", "\\", "\\\\", "a\\", "'a", "a'", "a'b'c", "\"a b\"", "*", "?", "[a-z]*", "~", "~root", "{a,b}", "#x", " #x", "!!", "%s", "%n", "%d%n%s", "%N", "%B/x", "%%", "-x", "--help", "x=y", "a b", " a", "a ", "a\tb", "\x7f",
         "\xff\xfe", "\x80", "a\\\nb", "$'x'", "$\"x\"", "<(x)", "x;y", "'$(touch PWN)'", "\\$(touch PWN)", "\\`touch PWN\\`", "';touch PWN;'", "\";touch PWN;\"", "')touch PWN", "x)y", "(x", "case", "if", "x|y", "x&y", "a;;b"]


def values(ok):
    """data which may be in a place, by the characters it can have"""
    out = []
    for c in ONE:
        out += ["a%sb" % c, c + "b", "a" + c] + [c]
    for a, b in itertools.product(META, META):
        out += ["x" + a + b + "y"] + ([a + b, a + "y" + b] if T else [])
    if T:
        out += ["x%s%s%sy" % x for x in itertools.product("|&;$`\\\"' >", repeat=3)]
    out += WORDS + [a + b for a in WORDS[:20] for b in WORDS[:20]] if T else WORDS
    return [v for v in dict.fromkeys(out) if ok(v)]


REC = "#!/bin/sh\n{ printf '%%s\\0' %s \"$@\"; printf '\\n\\0'; } >> @/var/rec\n%s\n"
SITES = []


def site(name, ok, setup, want, cmds, files=None, conf="", dirs=()):
    """setup(w, v) runs programs; want(v) -> the recorded commands; cmds: stand-ins (name, rest of the script)"""
    SITES.append((name, ok, setup, want, cmds, files or {}, conf, dirs))


def run(case):
    i, v = case
    name, ok, setup, want, cmds, files, conf, dirs = SITES[i]
    d = "%s/p%d" % (ck.scratch, os.getpid())
    w = World(d + "/w", conf=conf, files=dict(files), dirs=["cwd"] + list(dirs))
    for c, rest in cmds:
        w.files[c] = REC % (os.path.basename(c), rest) if not c.startswith("lib/") else "#!/bin/sh\nexit 0\n"
    w.reset()
    for c, _ in cmds:
        os.chmod(w.p(c), 0o755)
    old = os.getcwd()
    os.chdir(w.p("cwd"))
    try:
        r = setup(w, v)
    finally:
        os.chdir(old)
    ref = want and want(w, v)
    got = []
    if os.path.exists(w.p("var/rec")):
        cur = []
        for x in w.get("var/rec").split(b"\0")[:-1]:
            if x == b"\n":
                got.append(cur)
                cur = []
            else:
                cur.append(x.decode("latin-1"))
    if isinstance(r, str):
        return "%s %r: %s" % (name, v, r)
    if r is not None and r.returncode < 0:
        return "%s %r: signal %d" % (name, v, -r.returncode)
    if want and got != ref:
        return "%s: %r reached the command as %r instead of %r; %s" % (name, v, got, ref, w.log()[-200:])
    left = w.ls("cwd") + [x for x in w.tree() if os.path.basename(x).upper() == "PWN"]
    if left:
        return "%s: %r was executed, created %s" % (name, v, left)
    return None


noline = lambda v: not (set(v) & set("\r\n"))
fs = lambda v: os.fsdecode(v.encode("latin-1"))        # the name of a file with these octets
fname = lambda v: "/" not in v and v not in (".", "..") and noline(v)
low = lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
upp = lambda s: "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
blanks = " \t\v\f"


# ---- ftninpost: envelope sender -------------------------------------------------------
def post(w, v):
    w.put("spool/outrfc/mail/00000001.rfc", b"From " + v.encode("latin-1") + b" Sun Sep 09 01:46:40 2001\nTo: a@b\n\nx\n")
    return w.run(ck.bin("gate/ftninpost"))


def sender(v):
    v = v.lstrip(blanks)
    out, q, i = "", False, 0
    while i < len(v) and (q or v[i] not in blanks):
        if v[i] == '"':
            q = not q
        elif q and v[i] == "\\" and i + 1 < len(v):
            out += v[i]
            i += 1
        out += v[i]
        i += 1
    return out if not q else re.split("[%s]" % blanks, v)[0]


site("ftninpost, sender", lambda v: noline(v) and v.strip(blanks) and v.strip(blanks) == v and '"' not in v and not set(v) & set(blanks), post,
     lambda w, v: [["sendmail", "-f" + v, "-t"], ["rnews"]][:1], [("bin/sendmail", "cat > /dev/null")], conf="FTNInSendmail @/bin/sendmail -f%s -t\nFTNInRnews @/bin/rnews\n")
site("ftninpost, quoted sender", lambda v: noline(v) and not (set(v) & set('"\\')), lambda w, v: post(w, '"%s"@x.org' % v),
     lambda w, v: [["sendmail", '-f"%s"@x.org' % v, "-t"]], [("bin/sendmail", "cat > /dev/null")], conf="FTNInSendmail @/bin/sendmail -f%s -t\nFTNInRnews @/bin/rnews\n")


# ---- ftn2rfc -> ftninpost: the sender of netmail ---------------------------------------
def mail(w, v):
    m = Msg(N("2:1/2"), N("2:1/1"), frm=v.encode("latin-1")[:35], to=b"Jane", subj=b"s", attr=1, body=b"\x01INTL 2:1/1 2:1/2\r\x01MSGID: 2:1/2 00000001\rtext\r")
    w.put("bt/pin/00000001.pkt", Pkt(N("2:1/2"), N("2:1/1"), [m]).pack())
    r = w.run(ck.bin("gate/ftn2rfc"))
    if r.returncode:
        return "exit %d of ftn2rfc: %s" % (r.returncode, r.stdout[-200:])
    return w.run(ck.bin("gate/ftninpost"))


def mailwant(w, v):
    s = open(w.p("var/in"), "rb").read() if os.path.exists(w.p("var/in")) else b""
    m = re.match(rb"From (.*) \w{3} \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4}\n", s)
    return [["sendmail", "-f" + m.group(1).decode("latin-1"), "-t"]] if m else []


site("ftn2rfc and ftninpost, sender", lambda v: True, mail, lambda w, v: mailwant(w, v) or [["sendmail", "?"]], [("bin/sendmail", "cat > @/var/in")],
     conf="FTNInSendmail @/bin/sendmail -f%s -t\nFTNInRnews @/bin/rnews\n", files={"etc/acl": "* *\n", "etc/hosts": "2:1/2 h2\n"})


# ---- ftn2rfc: newsgroup of a new area, ngoper -----------------------------------------------
def area(w, v):
    m = Msg(N("2:1/2"), N("2:1/1"), frm=b"John", to=b"All", subj=b"s", body=b"AREA:X." + v.encode("latin-1") + b"\r\x01MSGID: 2:1/2 00000001\rtext\r--- \r * Origin: x (2:1/2)\rSEEN-BY: 1/1\r")
    w.put("bt/pin/00000001.pkt", Pkt(N("2:1/2"), N("2:1/1"), [m]).pack())
    return w.run(ck.bin("gate/ftn2rfc"))


NG = ('exec %s -c @/etc/fidogate.conf "$@"' % ck.bin("toss/ngoper").replace("%", "%%"))
site("ftn2rfc, group of a new area, ngoper", lambda v: noline(v) and not set(v) & set(blanks) and "/" not in v, area,
     lambda w, v: [["ngoper", "create", "fido.x." + low(v)], ["newgroup", "fido.x." + low(v), "y"], ["renumber", "fido.x." + low(v)]],
     [("bin/ngoper", NG), ("bin/newgroup", ""), ("bin/renumber", "")], files={"etc/areas": "X. fido.x. -H -a 2:1/1\n", "news/active": "other.group 0 0 y\n"},
     conf="AutoCreateNG\nAutoCreateNewgroupCmd @/bin/newgroup %s y\nAutoCreateRenumberCmd @/bin/renumber %s\nAutoCreateRmgroupCmd @/bin/rmgroup %s\n")
site("ngoper remove", lambda v: v and not v.startswith("-") and noline(v), lambda w, v: w.run(ck.bin("toss/ngoper"), "remove", v.encode("latin-1")),
     lambda w, v: [["rmgroup", v]], [("bin/rmgroup", "")],
     conf="AutoCreateNewgroupCmd @/bin/newgroup %s y\nAutoCreateRmgroupCmd @/bin/rmgroup %s\n")


# ---- ftntoss, areafix, ftntick: creation of areas ---------------------------------------------
def toss(w, v):
    m = Msg(N("2:1/2"), N("2:1/1"), frm=b"John", to=b"All", subj=b"s", body=b"AREA:X" + v.encode("latin-1") + b"\r\x01MSGID: 2:1/2 00000001\rtext\r--- \r * Origin: x (2:1/2)\rSEEN-BY: 1/2\r\x01PATH: 1/2\r")
    w.put("bt/pin/00000001.pkt", Pkt(N("2:1/2"), N("2:1/1"), [m], passwd=b"pkt").pack())
    return w.run(ck.bin("toss/ftntoss"), "-s")


CR = dict(files={"etc/passwd": "af 2:1/2 pw 100 $&~% John\nff 2:1/2 pw 100 $&~% John\npacket 2:1/2 pkt\n"}, conf="AutoCreateCmd @/bin/create\n", cmds=[("bin/create", "")])


def made(area, key="NONE", desc="NONE", state="S", addr="2:1/2.0"):
    return [["create", area, "2:1/2.0", state, addr, "-1", key, desc, "2", "-", "-"]]


site("ftntoss, new area", lambda v: noline(v) and not set(v) & set(blanks), toss, lambda w, v: made("X" + upp(v)), **CR)
one = lambda v: v and noline(v) and not (set(v) & set(blanks))


def fix(w, text):
    return w.run(ck.bin("areafix/ftnaf"), "2:1/2", *text)


AF = ck.bin("areafix/ftnafpkt")


def afmail(w, cmd):
    m = Msg(N("2:1/2"), N("2:1/1"), frm=b"John", to=b"Areafix", subj=b"pw", attr=1, body=b"\x01INTL 2:1/1 2:1/2\r" + cmd.encode("latin-1") + b"\r---\r")
    w.put("x.pkt", Pkt(N("2:1/2"), N("2:1/1"), [m]).pack())
    return w.run(AF, w.p("x.pkt"))


# a name, key, description or state in quotes is one word of the areafix command
word = lambda v: one(v) and '"' not in v and "\\" not in v and ord(min(v)) > 31
site("areafix, name of a new area", lambda v: word(v), lambda w, v: afmail(w, "%NEW X" + v), lambda w, v: made("X" + upp(v)), **CR)
site("areafix, key", word, lambda w, v: afmail(w, "%NEW X -k a" + v), lambda w, v: made("X", key="a" + v), **CR)
site("areafix, description", word, lambda w, v: afmail(w, "%NEW X -d a" + v), lambda w, v: made("X", desc="a" + v), **CR)
site("areafix, state", word, lambda w, v: afmail(w, "%NEW X -s a" + v), lambda w, v: made("X", state="a" + v), **CR)


# ---- ftntick ---------------------------------------------------------------------------------
def tic(name="x.tic", area="AREA", file="file.zip", **k):
    def f(w, v):
        n, a, fl = name, area, file
        if "%v" in n:
            n = n.replace("%v", v)
        a, fl = a.replace("%v", v), fl.replace("%v", v)
        w.put("bt/pin/" + fs(low(fl)), b"contents\n")
        w.put("bt/pin/" + fs(n), ("Area %s\r\nOrigin 2:1/2\r\nFrom 2:1/2\r\nFile %s\r\nDesc x\r\nCreated by x\r\nPw pw\r\nPath 2:1/2 1\r\nSeenby 2:1/2\r\n" % (a, fl)).encode("latin-1"))
        return w.run(ck.bin("tick/ftntick"), "-x", w.p("bin/exec"))
    return f


FA = {"etc/passwd": "ff 2:1/2 pw 100 $&~% John\n", "var/fareas.bbs": "x\n@/files/area AREA -z 2 2:1/2 2:1/3\n@/files/unk UNK -z 2 2:1/2\n"}
FC = "NoTicHistory\nPassthroughtBoxesDir @/fbox\nTickWaitHour 0\nTickWaitAction bad\nAutoCreateFechoPath @/files\nTickFileAction AREA * @/bin/action 1 %s 2\n"
site("ftntick, name of the file", lambda v: fname(v) and not set(v) & set(blanks), tic(file="x%v"),
     lambda w, v: [["action", "1", w.p("files/area/x" + low(v)), "2"], ["exec", w.p("bt/pin/x.tic")]], [("bin/action", ""), ("bin/exec", "")], FA, FC, ["fbox", "files/area"])
site("ftntick, name of the TIC", lambda v: fname(v) and v, tic(name="x%v.tic"), lambda w, v: [["action", "1", w.p("files/area/file.zip"), "2"], ["exec", w.p("bt/pin/x%s.tic" % v)]],
     [("bin/action", ""), ("bin/exec", "")], FA, FC, ["fbox", "files/area"])
site("ftntick, new area", lambda v: word(v) and "/" not in v, tic(area="X%v"), lambda w, v: made("X" + upp(v)) + [["exec", w.p("bt/pin/x.tic")]], [("bin/create", ""), ("bin/exec", "")], FA,
     FC + "AutoCreateCmd @/bin/create\n", ["fbox", "files/area"])


# options of areafix in the name of an area
OPT = ["-k", "-d", "-s", "-a", "-l", "-z", "-e", "-n"]
for o in OPT:
    site("ftntoss, option %s in the name" % o, lambda v: len(v) == 1 and (v.isalnum() or T) and one(v), lambda w, v, o=o: toss(w, " %s 1%s" % (o, v)), lambda w, v: [], **CR)
    site("ftntick, option %s in the name" % o, lambda v: len(v) == 1 and (v.isalnum() or T) and one(v), lambda w, v, o=o: tic(area="X %s 1%%v" % o)(w, v), lambda w, v: [], [("bin/create", ""), ("bin/exec", "")], FA,
         FC + "AutoCreateCmd @/bin/create\n", ["fbox", "files/area"])


def ticdir(pre):
    def f(w, v):
        before = set(w.tree())
        r = tic(area=pre + "%v")(w, v)
        new = [x for x in set(w.tree()) - before if not x.startswith(("bt/pin/", "log/", "lock/", "var/", "files/area/", "fbox/"))]
        dirs = [d for d, _, _ in os.walk(w.root) if os.path.basename(d).startswith("xy") and os.path.dirname(d) != w.p("files")]
        return "made %s" % (new + dirs) if new or dirs else r
    return f


for p in ("../xy", "../../w/xy", "/xy", "x/../../xy", "a/xy", "./xy"):
    site("ftntick, new area %r" % p, lambda v: fname(v) and one(v) and len(v) < 3, ticdir(p), lambda w, v: [], [("bin/exec", "")], FA, FC, ["fbox", "files/area"])


# ---- runinc, ftnin, ftnflo ----------------------------------------------------------------------
def arc(w, v, data=b"PK\x03\x04data"):
    w.put("bt/pin/" + fs(v), data)
    return w.run(ck.bin("toss/runinc"), "pin")


def arcname(v):
    """8.3 names are archives"""
    return (v + "xxxxxxxx")[:8] + ".mo0"


UN = [("bin/unarc", ""), ("bin/list", "echo 1 x")]
site("runinc, name of an archive", lambda v: len(v) <= 8 and fname(v), lambda w, v: arc(w, arcname(v)),
     lambda w, v: [["list", "l", w.p("bt/pin/" + arcname(v))], ["unarc", "e", w.p("bt/pin/" + arcname(v))]], UN + [("lib/ftntoss", ""), ("lib/ftnroute", ""), ("lib/ftnpack", "")],
     files={"etc/packing": 'unarc ZIP "PK0x030x04" "@/bin/unarc e %s" "@/bin/list l %s"\n'}, dirs=["spool/outpkt/mail", "spool/uuin", "spool/ftpin"])


LIB = [("lib/ftntoss", ""), ("lib/ftnroute", ""), ("lib/ftnpack", "")]
PK = {"etc/packing": 'unarc ZIP "PK0x030x04" "@/bin/unarc e %s" "@/bin/list l %s"\n'}
AD = ["spool/outpkt/mail", "spool/uuin", "spool/ftpin", "bt/pin/bad"]
a83 = lambda v: len(v) <= 8 and fname(v)
site("runinc, name of an unknown archive", a83, lambda w, v: arc(w, arcname(v), b"no archive"), lambda w, v: [], UN + LIB, PK, dirs=AD)
site("runinc, name of a bad archive", a83, lambda w, v: arc(w, arcname(v)), lambda w, v: [["list", "l", w.p("bt/pin/" + arcname(v))], ["unarc", "e", w.p("bt/pin/" + arcname(v))]],
     [("bin/unarc", "exit 1"), UN[1]] + LIB, PK, dirs=AD)
site("runinc, name of a bad archive which can't be listed", a83, lambda w, v: arc(w, arcname(v)), lambda w, v: [["list", "l", w.p("bt/pin/" + arcname(v))]] * 2,
     [("bin/unarc", "exit 1"), ("bin/list", "echo x")] + LIB, PK, dirs=AD)
site("runinc, name of an unpacked file", fname, lambda w, v: (w.put("inside/" + fs(v) + ".pkt", b"x"), arc(w, arcname("x")))[1],
     lambda w, v: [["list", "l", w.p("bt/pin/xxxxxxxx.mo0")], ["unarc", "e", w.p("bt/pin/xxxxxxxx.mo0")]], [("bin/unarc", "cp @/inside/* ."), UN[1]] + LIB, PK, dirs=AD + ["inside"])


# ---- everything else in received data: no command at all, or none with it -----------------------
HOSTILE = [v for v in WORDS if "PWN" in v]
hostile = lambda v: v in HOSTILE


def tfield(n):
    def f(w, v):
        w.put("files/area/old.zip", b"old")
        if n[1:] == "Replaces" and fname(v):
            for x in (v, "old.zip" + v, "old.zip " + v):
                w.put("files/area/" + fs(x), b"old")
                w.put("files/area/" + fs(low(x)), b"old")
        w.put("bt/pin/file.zip", b"contents\n")
        h = [("Area", "AREA"), ("Origin", "2:1/2"), ("From", "2:1/2"), ("File", "file.zip"), ("Desc", "x"), ("Created", "by x"), ("Pw", "pw"), ("Path", "2:1/2 1"), ("Seenby", "2:1/2"),
             ("Replaces", "old.zip"), ("LDesc", "y"), ("Size", "9"), ("Date", "1000000000"), ("Release", "1"), ("Magic", "M"), ("App", "x y")]
        w.put("bt/pin/x.tic", "".join("%s %s\r\n" % (a, b + (" " if n[0] == "+" else "") + v if a == n[1:] else b) for a, b in h).encode("latin-1"))
        r = w.run(ck.bin("tick/ftntick"), "-x", w.p("bin/exec"))
        if os.path.exists(w.p("var/rec")) and any(v in x.decode("latin-1") for x in w.get("var/rec").split(b"\0")):
            return "in a command"
        return r
    return f


for n in ("Area", "Origin", "From", "Desc", "Created", "Pw", "Path", "Seenby", "Replaces", "LDesc", "Size", "Date", "Release", "Magic", "App"):
    for m in "+-":
        site("ftntick, %s %s" % (n, "followed" if m == "+" else "by blank"), hostile, tfield(m + n), None, [("bin/action", ""), ("bin/exec", "")], FA, FC, ["fbox", "files/area"])

ALLF = {"etc/acl": "* *\n", "etc/areas": "X.Y fido.x.y -a 2:1/1\n", "etc/hosts": "2:1/2 h2\n", "etc/routing": "type netmail\nroute normal 2:1/3 *\ntype echomail\nsend normal *\n",
        "etc/packing": 'progn arc "@/bin/arc %s %s"\npack arc *\n', "var/areas.bbs": "x\nX.Y -z 2 2:1/2 2:1/3\n", "etc/passwd": "af 2:1/2 pw 100 $&~% John\npacket 2:1/2 pkt\n"}
CMDS = [("bin/" + c, "cat > /dev/null") for c in ("sendmail", "rnews", "arc", "create", "ngoper")]
ALLC = "FTNInSendmail @/bin/sendmail -f%s -t\nFTNInRnews @/bin/rnews\nAutoCreateCmd @/bin/create\nAutoCreateNG\nDefaultCharset cp866:cp866:utf-8\n"


def message(kind, field, progs):
    """a message with v in a field goes through programs"""
    def f(w, v):
        b = v.encode("latin-1")
        g = lambda n, d: b[:71 if n == "subj" else 35] if n == field else d
        net = kind == "net"
        body = (b"\x01INTL 2:1/%d 2:1/2\r" % (1 if progs[0] != "toss" else 3) if net else b"AREA:X.Y\r") + b"\x01MSGID: " + g("msgid", b"2:1/2 00000001") + b"\r\x01REPLY: " + g("reply", b"2:1/2 00000002") + b"\r"
        body += b"\x01PID: " + g("pid", b"x") + b"\r\x01CHRS: " + g("chrs", b"CP866 2") + b"\r\x01RFC-X: " + g("rfc", b"y") + b"\rFrom: " + g("rfcfrom", b"a@b.c") + b"\rTo: " + g("rfcto", b"a@b.c") + b"\r\r"
        body += g("line", b"text") + b"\r--- " + g("tear", b"t") + b"\r * Origin: " + g("origin", b"o") + b" (2:1/2)\r"
        if not net:
            body += b"SEEN-BY: " + g("seenby", b"1/2") + b"\r\x01PATH: " + g("path", b"1/2") + b"\r"
        m = Msg(N("2:1/2"), N("2:1/1") if progs[0] != "toss" else N("2:1/3"), frm=g("from", b"John"), to=g("to", b"Jane"), subj=g("subj", b"s"), attr=1, body=body)
        w.put("bt/pin/" + (fs(v.replace("/", "")) if field == "file" else "00000001") + ".pkt", Pkt(N("2:1/2"), N("2:1/1"), [m], passwd=g("passwd", b"pkt")[:8]).pack())
        for p in progs:
            a = {"toss": ("toss/ftntoss", "-s"), "route": ("toss/ftnroute",), "pack": ("toss/ftnpack",), "f2r": ("gate/ftn2rfc",), "post": ("gate/ftninpost",)}[p]
            r = w.run(ck.bin(a[0]), *a[1:])
            if r.returncode < 0:
                return r
        for x in (w.get("var/rec").split(b"\0") if os.path.exists(w.p("var/rec")) else ()):
            if b in x and not x.startswith(b"-f"):
                return "in a command: %r" % x
        return r
    return f


FIELDS = ["from", "to", "subj", "msgid", "reply", "pid", "chrs", "rfc", "rfcfrom", "rfcto", "line", "tear", "origin", "passwd", "file"]
for k in ("net", "echo"):
    for p in (("toss", "route", "pack"), ("f2r", "post")):
        for n in FIELDS + (["seenby", "path"] if k == "echo" else []):
            site("%s of %s through %s" % (n, "netmail" if k == "net" else "echomail", "+".join(p)), hostile, message(k, n, p), None, CMDS, ALLF, ALLC, ["bt/out"])


def rfc(mode, field):
    def f(w, v):
        h = [("From", "john@x.org"), ("To", "jane@f2.n1.z2.fidonet.org"), ("Subject", "s"), ("Message-ID", "<1@x.org>"), ("References", "<2@x.org>"), ("Newsgroups", "fido.x.y"), ("Organization", "o"), ("X-Comment-To", "c"),
             ("Content-Type", "text/plain; charset=utf-8"), ("Reply-To", "x@y.z"), ("X-FTN-Kludge", "A"), ("X-Flags", "f"), ("X-Mailer", "m"), ("Path", "a!b"), ("Sender", "s@x.org"), ("Errors-To", "e@x.org")]
        if mode == "mail":
            h = [x for x in h if x[0] != "Newsgroups"]
        w.put("in", ("".join("%s: %s\n" % (a, v if a == field else b) for a, b in h) + "\n" + (v if field == "" else "text") + "\n").encode("latin-1"))
        a = {"mail": ["-t"], "news": ["-n"], "args": ["--", v if field == "arg" else "jane@f2.n1.z2.fidonet.org"]}[mode]
        with open(w.p("in"), "rb") as s:
            r = w.run(ck.bin("gate/rfc2ftn"), *a, stdin=s)
        return r if not os.path.exists(w.p("var/rec")) else "a command was executed"
    return f


for m in ("mail", "news", "args"):
    for n in ["From", "To", "Subject", "Message-ID", "References", "Newsgroups", "Organization", "X-Comment-To", "Content-Type", "Reply-To", "X-FTN-Kludge", "X-Flags", "X-Mailer", "Path", "Sender", "Errors-To", "", "arg"]:
        site("rfc2ftn %s, %s" % (m, n or "text"), hostile, rfc(m, n), None, CMDS, ALLF, ALLC)
for n in ("+", "-", "", "%LIST ", "%HELP ", "%QUERY ", "%UNLINKED ", "%FROM ", "%PASSWD ", "%PASSIVE ", "%ACTIVE ", "%DELETE ", "%AVAIL ", "%X ", "% "):
    site("areafix command %r" % n, hostile, lambda w, v, n=n: afmail(w, n + v), None, [c for c in CMDS if "create" not in c[0]], ALLF, ALLC)


def flo(*pre):
    def f(w, v):
        w.put("bt/out/00010003.flo", ("%s%s\r\n" % (pre[0], w.p("cwd2/x" + v))).encode("latin-1"))
        w.put("cwd2/x" + fs(v), b"x")
        return w.run(ck.bin("util/ftnflo"), "-x", w.p("bin/flo") + " %s", "2:1/3")
    return f


for p in ("", "^", "#"):
    site("ftnflo, %r entry" % p, lambda v: fname(v) and not v.endswith(tuple(" \t\v\f")) and v, flo(p), lambda w, v: [["flo", w.p("cwd2/x" + v)]], [("bin/flo", "")], dirs=["cwd2", "bt/out"])

PARTS = os.environ.get("PARTS")
for i, s in enumerate(SITES):
    if PARTS and not re.search(PARTS, s[0]):
        continue
    vs = values(s[1])
    bad = 0
    for r in core.pmap(run, [(i, v) for v in vs], 16):
        ck.count("states"), ck.count("evaluations")
        if r:
            bad += 1
            ck.violation(r)
    ck.part(s[0], values=len(vs), violating=bad)
ck.finish()
