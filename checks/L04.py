import re
from fg import core, mcx, world
ck = core.Check("L04")
ck.rule = ("every preemption-bounded schedule of 2-3 real processes attaching to / reading / deleting one FLO file; "
           "non-trivial = distinct execution trace")
ck.build("plain", har=["h_flo"])

def scen(name, procs, initial, pb, bsy, mkdir=True, limit=None):
    worlds = {}
    def setup(w):
        wd = worlds.get(w)
        if wd is None:
            wd = worlds[w] = world.World("%s/w%d" % (ck.scratch, w), dirs=["bt/out"] if mkdir else [])
        wd.reset({"bt/out/00010005.flo": initial} if initial is not None else None)
        return mcx.Job(wd.root, [dict(args=[ck.har("h_flo"), wd.p("etc/fidogate.conf"), "2:1/5"] + p,
                                      stdout=wd.p("log/o%d" % i)) for i, p in enumerate(procs)], ignore=("/log/", "/etc/"))
    def judge(w, res):
        wd = worlds[w]
        if res.dead:
            return ("deadlock", None)
        if any(v != "0" for v in res.exits.values()):
            return ("process failed %s" % res.exits, None)
        ok, errs, sent = [], 0, []
        for i in range(len(procs)):
            for l in (wd.get("log/o%d" % i) or b"").decode().splitlines():
                f = l.split(" ", 2)
                if f[0] == "a" and f[2] == "ok": ok.append(f[1])
                elif f[0] == "a": errs += 1
                elif f[0] == "s": sent.append(l[2:].lstrip("^#"))
        if errs:
            return ("attach failed with no fault present", "mkdir-race" if not mkdir else None)
        rest, seen = [], []
        for fl in wd.ls("bt/out"):
            if fl.endswith("lo"):
                d = wd.get("bt/out/" + fl)
                if d and not d.endswith(b"\n"):
                    return ("incomplete line in %s: %r" % (fl, d), None)
                for l in d.decode().splitlines():
                    if l.startswith("~"):
                        seen.append(l[1:])
                    else:
                        rest.append(l.lstrip("^#"))
            elif fl.endswith(".bsy"):
                return ("BSY file left behind", None)
        init = [l.lstrip("^#") for l in (initial or b"").decode().splitlines() if not l.startswith("~")]
        want = set(init) | set(ok)
        have = rest + sent
        lost = [x for x in want if x not in have]
        if lost:
            return ("entry lost: %s attached ok, file has %s, mailer saw %s" % (lost, rest, sent), None)
        dup = [x for x in set(rest) if rest.count(x) > 1]
        if dup:
            return ("entry present twice: %s" % rest, None)
        extra = [x for x in have if x not in want]
        # a line marked as sent has its first character overwritten
        raw = [l for l in (initial or b"").decode().splitlines()] + \
            [(a.split(":")[1].strip("-") + a.split(":")[2]) for p in procs for a in p if a[0] == "a"]
        if extra or any(x not in [r[1:] for r in raw] for x in seen):
            return ("corrupt entry: %s / %s" % (extra, seen), None)
        return None
    mcx.explore(ck, name, setup, judge, pb, limit)

T = ck.thorough
for b in (1, 0):
    at = lambda n, m="^", fl="Normal": "a:%s:%s:%s:%d" % (m, n, fl, b)
    n = "bsy" if b else "no bsy"
    scen("2 attachers, other names, %s" % n, [[at("/f/a")], [at("/f/b", "#")]], None, 2 if not T else 3, b)
    scen("2 attachers, same name, %s" % n, [[at("/f/a")], [at("/f/a")]], b"^/f/z\n", 2 if not T else 3, b)
    scen("attach vs mailer delete, %s" % n, [[at("/f/a")], ["m:1:%d" % b]], b"^/f/z\n~^/f/a\n", 2 if not T else 3, b)
    scen("attach vs mailer mark, %s" % n, [[at("/f/a"), at("/f/b", "-")], ["m:0:%d" % b]], b"/f/z\n", 2 if not T else 3, b)
    scen("2 attach vs delete, %s" % n, [[at("/f/a")], [at("/f/b")], ["x:1:%d" % b]], b"^/f/z\n", 1 if not T else 2, b)
scen("delete without BSY vs mailer and attach with BSY", [["m:1:0"], ["m:0:1"], ["a:^:/f/a:Normal:1"]], b"^/f/z\n", 1 if not T else 2, 1)
scen("2 attachers, other flavour", [["a:^:/f/a:Crash:1"], ["a:^:/f/b:Hold:1"]], None, 2, 1)
scen("2 attachers, new directory", [["a:^:/f/a:Normal:1"], ["a:^:/f/b:Normal:1"]], None, 2 if not T else 3, 1, mkdir=False)
ck.finish()
