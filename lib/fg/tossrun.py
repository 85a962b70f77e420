"""Run the real ftntoss on enumerated cases, compare with the model."""
import os, re
from . import core, world, toss
from .toss import Toss


def setup(ck, m, pkts, extra=None, dir="w"):
    w = world.World("%s/%s%d" % (ck.scratch, dir, core.worker_id()), zones=False)
    w.conf = "\n".join(l for l in w.conf.splitlines() if not l.startswith("Address")) + "\n"
    conf, files = m.files()
    w.conf += conf
    w.files.update({k: v.encode("latin-1") for k, v in files.items()})
    w.reset({"bt/pin/%02d.pkt" % i: p.pack() for i, p in enumerate(pkts)})
    for k, v in (extra or {}).items():
        w.put(k, v)
    order(w, len(pkts))
    return w


def order(w, n, base=10 ** 9):
    for i in range(n):
        os.utime(w.p("bt/pin/%02d.pkt" % i), (base + i, base + i))


def judge(w, m, r, errs=None):
    errs = [] if errs is None else errs
    if r is not None and r.returncode != 0:
        errs.append("ftntoss exit %d: %r" % (r.returncode, r.stdout[-300:]))
    if w.ls("bt/pin"):
        errs.append("input left: %s" % w.ls("bt/pin"))
    errs += toss.compare(m, toss.observed(w, errs))
    for f in w.ls("lock") + [x for x in w.ls("var") if x.endswith(".lock")]:
        errs.append("lock left: %s" % f)
    return errs


def states(w):
    """area -> state in the rewritten areas.bbs"""
    out = {}
    for l in (w.get("var/areas.bbs") or b"").decode("latin-1").splitlines()[1:]:
        f = l.split()
        m = re.search(r" -s (\S+)", l)
        out[f[1]] = m.group(1) if m else ""
    return out


class Runner:
    def __init__(self, ck):
        self.ck = ck

    def go(self, name, cases, areas=False, check=None):
        ck = self.ck
        FT = ck.bin("toss/ftntoss")

        def run(case):
            label, kw, pkts = case
            m = Toss(**kw)
            w = setup(ck, m, pkts)
            r = w.run(FT, *m.args)
            for p in pkts:
                m.packet(p)
            errs = judge(w, m, r)
            if areas:
                st = states(w)
                for a in m.alist:
                    if sorted(st.get(a.tag, "?")) != sorted(a.state):
                        errs.append("state of %s is %r, expected %r" % (a.tag, st.get(a.tag), a.state))
            if check:
                errs += check(w, m)
            return label, errs, sum(len(p.msgs) for p in pkts), len(m.out), m.events, repr(m.out[-1:])[:300]

        n = k = o = bad = 0
        ev = {}
        s = ""
        for label, errs, a, b, e, s in core.pmap(run, cases, 1 if len(cases) < 64 else 8):
            n += 1
            k += a
            o += b
            for x, y in e.items():
                ev[x] = ev.get(x, 0) + y
            if errs:
                bad += 1
                if bad <= 5:
                    ck.violation("%s: %s: %s" % (name, label, errs[0]), None, errs[:10])
        ck.sample(s)
        ck.count("states", k)
        ck.count("transitions", o)
        ck.count("evaluations", n)
        ck.part(name, runs=n, messages=k, outputs=o, events=ev, violating=bad)
