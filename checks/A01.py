import itertools, os
from fg import core, afrun, world
from fg.ftn import N, A
from fg.areafix import Fix, Area, Pw, parse_areas, node_diff, tokens
ck = core.Check("A01")
ck.rule = ("every list of links, every combination of options and every string up to a length in areas.bbs, in every way to write it, "
           "read and written back by the real programs; non-trivial = area")
ck.build("plain")
AF, PKT, UT = ck.bin("areafix/ftnaf"), ck.bin("areafix/ftnafpkt"), ck.bin("areafix/ftnafutil")
T = ck.thorough
C = N("2:1/3")
FIRST = "Test System"


def world_(text, d="w", name="var/areas.bbs"):
    m = Fix(passwd={C: Pw("pw", 10, "X")}, areas=[])
    w = afrun.setup(ck, m, d=d)
    w.put(name, text)
    return w


def sub(w, *cmd, ctx=()):
    return w.run(AF, *(list(ctx) + ["2:1/3"] + list(cmd)))


def tup(a):
    links = list(dict.fromkeys(a.links))
    return a.key_tuple()[:-6] + (tuple(links[:max(a.u, 0)]), tuple(sorted(set(links[max(a.u, 0):]))), tuple(sorted(set(a.passive))), a.e, a.n, a.u, a.time)


def norm(t):
    """a final \\ of a word can't be quoted, a blank follows"""
    return tuple((x.rstrip(" ") if x.rstrip(" ").endswith("\\") else x) if isinstance(x, str) else x for x in t)


def trip(w, lines, first=FIRST, nl="\n", last="\n", ctx=(), name="var/areas.bbs"):
    text = first + nl + nl.join(lines + ["- ZZZ -z 2 2:1/2"]) + last
    w.put(name, text)
    for i in range(6):
        if i:
            try:
                os.unlink(w.p(name[:-3] + "o%02d" % i))
            except FileNotFoundError:
                pass
    r = sub(w, "sub", "ZZZ", ctx=ctx)
    errs = []
    if r.returncode:
        return ["exit %d: %s" % (r.returncode, r.stdout[-200:])]
    if w.get(name[:-3] + "o01") != text.encode("latin-1"):
        errs.append("old areas.bbs not kept")
    f0, want = parse_areas(text.replace("\r\n", "\n"))
    out = w.get(name).decode("latin-1")
    try:
        f1, got = parse_areas(out)
    except ValueError as e:
        return [str(e)]
    if f1 != f0:
        errs.append("first line %r instead of %r" % (f1[:80], f0[:80]))
    if want[-1].links.count(C) == 0:
        want[-1].links.append(C)
    if [x.tag.rstrip(" ") for x in want] != [x.tag.rstrip(" ") for x in got]:
        miss = [x.tag for x in want if x.tag not in [g.tag for g in got]][:5]
        errs.append("areas lost: %r of %d, new %r" % (miss, len(want), [g.tag for g in got if g.tag not in [x.tag for x in want]][:5]))
        return errs
    ls = [l for l in lines if len(tokens(l)) >= 2]
    for i, (a, g) in enumerate(zip(want, got)):
        if norm(tup(a)) != norm(tup(g)):
            errs.append("area written as %r rewritten as %r" % ((ls + ["ZZZ"])[i][:300], out.split("\n")[i + 1][:300]))
            if len(errs) > 4:
                break
    # what a robot has written is written again the same way
    r = sub(w, "unsub", "ZZZ", ctx=ctx)
    r = sub(w, "sub", "ZZZ", ctx=ctx)
    again = w.get(name).decode("latin-1")
    a, b = [[x.rstrip(" ") for x in y.split("\n")] for y in (out, again)]
    if a[:len(got)] != b[:len(got)]:
        d = [(x, y) for x, y in zip(a, b) if x != y][:1]
        errs.append("second rewriting changes %r" % d)
    return errs


def part(name, cases, per=250):
    """cases: lines; [(first, nl, last, ctx, lines)] for whole files"""
    if cases and isinstance(cases[0], str):
        cases = [("Test System", "\n", "\n", (), cases[i:i + per]) for i in range(0, len(cases), per)]

    def one(c):
        ctx = c[3]
        nm = "var/fareas.bbs" if ctx else "var/areas.bbs"
        w = world_("", "f" if ctx else "w", nm)
        if ctx:
            w.put("etc/passwd", "ff 2:1/3 pw\n")
        return c, trip(w, c[4], c[0], c[1], c[2], ctx, nm)

    n = bad = 0
    for c, errs in core.pmap(one, cases, 2):
        n += len(c[4])
        ck.count("states", len(c[4]) + 1)
        ck.count("transitions", 2 * (len(c[4]) + 1))
        if errs:
            bad += 1
            if bad <= 5:
                ck.violation("%s: %s" % (name, errs[0]), None, [repr(c[:4])] + errs + [c[4][:3]])
    ck.count("evaluations", n)
    ck.sample(repr(cases[-1][4][-1])[:300])
    ck.part(name, areas=n, files=len(cases), violating=bad)


# 1. links: every ordered list, written in full and in every abbreviated way
NODES = [N(x) for x in ("2:1/2", "2:1/2.1", "2:1/2.2", "2:1/20", "2:2/2", "3:1/2", "3:1/2.1", "3:2/20.1")]


def forms(n, old):
    fs = [A(n)]
    full = "%d:%d/%d.%d" % tuple(n[:4])
    c = [full, "%d/%d.%d" % tuple(n[1:4]), "%d.%d" % tuple(n[2:4]), ".%d" % n[3], "%d/%d" % tuple(n[1:3]), "%d" % n[2]]
    for x in c:
        if x not in fs and node_diff(x, old) == n:
            fs.append(x)
    return fs


def written(l):
    old = (2, -1, -1, -1)
    ch = []
    for n in l:
        ch.append(forms(n, old))
        old = n
    return ch


MAXL = 5 if T else 4
lines = []
k = 0
for r in range(0, MAXL + 1):
    for l in itertools.permutations(NODES, r):
        ch = written(l)
        alls = list(itertools.product(*ch)) if r <= 2 else [[x[0] for x in ch], [x[-1] for x in ch], [min(x, key=len) for x in ch]]
        for u in ((0, 1, 2, 3) if r else (0, 1)):
            for f in alls if u == 1 or r <= 2 else alls[2:]:
                k += 1
                lines.append("- L%d -z 2 %s%s" % (k, "" if u == 1 else "-u %d " % u, " ".join(f)))
part("lists of links", lines, 400)

GRID = [N("%d:%d/%d.%d" % x) for x in itertools.product((2, 3), (1, 2), (2, 20), (0, 1, 2))]
lines = []
for l in itertools.permutations(GRID, 3 if T else 2):
    f = [x[-1] for x in written(l)] if len(lines) % 2 else [A(x) for x in l]
    for u in (0, 1, 2):
        lines.append("- G%d -z 2 %s%s" % (len(lines), "" if u == 1 else "-u %d " % u, " ".join(f)))
part("pairs of links" if not T else "triples of links", lines, 400)

# repeated links are one
lines = []
for r in (2, 3):
    for l in itertools.product(NODES[:4], repeat=r):
        lines.append("- D%d -z 2 " % len(lines) + " ".join(A(x) for x in l))
part("repeated links", lines)

# 2. passive links: -p, or P in front of a link
lines = []
for r in range(1, 4):
    for l in itertools.permutations(NODES[:6], r):
        for m in range(1 << r):
            for how in ("p", "P"):
                pas = [x for i, x in enumerate(l) if m >> i & 1]
                if how == "P":
                    s = " ".join(("P" if m >> i & 1 else "") + A(x) for i, x in enumerate(l))
                else:
                    if not pas:
                        continue
                    s = None
                lines.append(("- Q%d -z 2 " % len(lines)) + (s if s else "-p %s %s" % (",".join(A(x) for x in pas), " ".join(A(x) for x in l))))
LP = lines


def pmodel(text):
    """P in front of a link is the same as the link in -p"""
    out = []
    for l in text:
        t = l.split(" ")
        p = [x[1:] for x in t if x.startswith("P2") or x.startswith("P3")]
        o = [x[1:] if x.startswith(("P2", "P3")) else x for x in t]
        if p:
            o[4:4] = ["-p", ",".join(p)]
        out.append(" ".join(o))
    return out


def passive_case(i):
    ls = LP[i:i + 300]
    w = world_("", "w")
    w.put("var/areas.bbs", FIRST + "\n" + "\n".join(ls + ["- ZZZ -z 2 2:1/2"]) + "\n")
    sub(w, "sub", "ZZZ")
    want = parse_areas(FIRST + "\n" + "\n".join(pmodel(ls)))[1]
    try:
        got = parse_areas(w.get("var/areas.bbs").decode("latin-1"))[1][:-1]
    except ValueError as e:
        return [str(e)], len(ls)
    return ["area %s rewritten as %s" % (l, g.line()) for l, a, g in zip(ls, want, got) if tup(a) != tup(g)] + (
        ["areas lost"] if len(want) != len(got) else []), len(ls)


n = bad = 0
for e, c in core.pmap(passive_case, range(0, len(LP), 300), 1):
    n += c
    if e:
        bad += 1
        ck.violation("passive links: " + e[0], None, e[:10])
ck.count("states", n)
ck.count("evaluations", n)
ck.part("passive links", areas=n, violating=bad)

# 3. options: every subset, and every order of two or three
OPT = ["-z 3", "-a 2:5/6.7", "-l 12", "-k KEY", '-d "a b"', "-r", "-p 2:1/3,4", "-t 123456", "-e 7", "-n 8", "-s SW", "-u 2", "-#"]
lines = []
for m in range(1 << len(OPT)):
    lines.append(("#" if m & 1 else "") + "- O%d %s 2:1/3 4 5" % (m, " ".join(o for i, o in enumerate(OPT) if m >> i & 1)))
for l in itertools.permutations(OPT, 3 if T else 2):
    lines.append("/dir O%d %s 3:1/3 2:1/4 5" % (len(lines), " ".join(l)))
part("options", lines, 400)
VAL = []
for o, vs in (("-z", ("0", "1", "2", "65535")), ("-l", ("0", "1", "-5", "100", "99999")), ("-t", ("0", "1", "2147483647", "2147483648", "4294967295", "5000000000")),
              ("-e", ("0", "1", "365", "-1")), ("-n", ("0", "1", "365", "-1")), ("-u", ("0", "1", "2", "9")),
              ("-a", ("2:1/1", "2:1/1.1", "2:0/0", "0:0/1", "65535:65535/65535.65535")), ("-s", ("S", "U", "SWFPU", "x"))):
    VAL += ["- V%s%d %s %s 2:1/3 4 3:1/1" % (o[1], i, o, v) for i, v in enumerate(vs)]
part("values", VAL)

# 4. strings
ALPH = ["a", " ", '"', "\\", "\t", "-", "#", ",", "\xe9"] if T else ["a", " ", '"', "\\", "-"]
ML = 4 if T else 5
words = ["".join(x) for r in range(0, ML + 1) for x in itertools.product(ALPH, repeat=r)]


def q(s):
    return '"%s"' % s.replace('"', '\\"')


raw = []
for s in words:
    if not s.endswith("\\"):
        raw.append(q(s))
    if s and not set(s) & set(' "\t') and s[0] != "-":
        raw.append(s)
part("descriptions", ["- S%d -z 2 -d %s -s S 2:1/3 4" % (i, s) for i, s in enumerate(raw)], 500)
short = [x for x in raw if len(x) <= 5]
part("keys", ["- S%d -z 2 -k %s -d \"x\" 2:1/3 4" % (i, s) for i, s in enumerate(short) if s != '""'], 500)
tags = [s for s in short if s != '""']
part("names of areas", ["- %s -z 2 -d \"x\" 2:1/3 4" % s for i, s in enumerate(tags)], 1)
part("directories", ["%s S%d -z 2 2:1/3 4" % (s, i) for i, s in enumerate(short) if s[0] != "#"]
     + ["%s P%d -z 2 2:1/3 4" % ('"#' + s[1:] if s[0] == '"' else "#" + s, i) for i, s in enumerate(short)], 500)

# 5. layout: blanks, empty lines, line ends, first line, last line
base = ["- A -z 2 2:1/3 4", "#- B -z 2 -d \"x  y\" 2:1/3", "- C -z 2"]
cases = []
for nl, last in itertools.product(("\n", "\r\n"), ("", "\n", "\r\n", "\n\n", "\n \n")):
    for first in ("", "Test System", "a" * 500, "; comment # -z", "\xe9\"x", " lead"):
        for sep in (" ", "  ", "\t", " \t "):
            for trail in ("", " ", "\t"):
                cases.append((first, nl, last, (), [l.replace(" ", sep) if '"' not in l else l for l in [x + trail for x in base]]))
            cases.append((first, nl, last, (), ["", base[0], "   ", base[1], "", base[2], ""]))
            cases.append((first, nl, last, (), [" " + x for x in base]))
part("layout", cases)
# 6. long lines, many areas
cases = []
for cnt in ((100, 1000, 2000, 4000) if T else (100, 2000)):
    ls = ["- LONG -z 2 -d \"%s\" " % ("d" * 200) + " ".join("2:%d/%d" % (1 + i // 60, i % 60) for i in range(cnt)),
          "- LP -z 2 -p %s 2:9/9 " % ",".join("%d" % i if i else "2:1/0" for i in range(cnt)) + " ".join("%d" % i if i else "2:1/0" for i in range(cnt))]
    cases.append((FIRST, "\n", "\n", (), ls))
cases.append((FIRST, "\n", "\n", (), ["- A%d -z %d 2:1/3 4" % (i, i % 7) for i in range(20000 if T else 5000)]))
for d in range(1, 40):
    # a line that just fits, one that fits before and not after being written in full is not
    cases.append((FIRST, "\n", "\n", (), ["- X%d -z 2 -d \"%s\" -t 1 2:1/3" % (d, "d" * (32000 + d * 10 + 300))]))
part("long", cases)
part("filefix", [(FIRST, "\n", "\n", ("-F",), lines[:2000]), (FIRST, "\n", "\n", ("-F",), ["/a/b%d F%d -z 2 -d \"x y\" 2:1/3 4" % (i, i) for i in range(50)])])


# 7. history of old versions
def hist(seq):
    w = world_(FIRST + "\n- A -z 2 2:1/2\n- B -z 2 2:1/2\n- C -z 2 2:1/2\n")
    vers = [w.get("var/areas.bbs")]
    errs = []
    old = [None] * 5
    for c in seq:
        before = w.get("var/areas.bbs")
        r = sub(w, *c)
        now = w.get("var/areas.bbs")
        if now != before:
            old = [before] + old[:4]
        if [w.get("var/areas.o%02d" % i) for i in range(1, 6)] != old:
            errs.append("after %r: versions kept are %r" % (c, [bool(w.get("var/areas.o%02d" % i)) for i in range(1, 7)]))
            break
        if w.ls("var") != sorted(["areas.bbs"] + ["areas.o%02d" % i for i in range(1, 6) if old[i - 1] is not None] + [x for x in w.ls("var") if not x.startswith("areas")]):
            errs.append("files in var: %r" % w.ls("var"))
    return seq, errs


CM = [("sub", "A"), ("unsub", "A"), ("sub", "B"), ("query",)]
seqs = [tuple(CM[i] for i in s) for s in itertools.product(range(4), repeat=4 if T else 3)] + [tuple([CM[0], CM[1]] * 4), tuple([CM[0], CM[3], CM[1], CM[2]] * 3)]
n = bad = 0
for s, e in core.pmap(hist, seqs, 4):
    n += len(s)
    if e:
        bad += 1
        ck.violation("history %r: %s" % (s, e[0]), None, e)
ck.count("states", n)
ck.count("evaluations", len(seqs))
ck.part("old versions", runs=n, sequences=len(seqs), violating=bad)
ck.finish()
