"""Every crash point, torn write and failing operation of one run of a real
program, each followed by a recovery run and a judgement."""
import errno, os, re
from . import core, mcx

MUT = ("write", "pwrite", "rename", "unlink", "link", "symlink", "mkdir", "rmdir", "ftruncate", "truncate", "chmod")


def faults_of(steps, full=False, proc=0, kills=True, errs=True):
    """all single faults of the run whose steps are given"""
    out = []
    n = -1
    for s in steps:
        if s.proc != proc:
            continue
        n += 1
        if s.name in ("sleep", "kill", "getdents"):
            continue
        create = s.name == "open" and s.arg & (mcx.O_CREAT | mcx.O_TRUNC)
        if kills and (s.name in MUT or create or s.name in ("close", "lock", "unlock")):
            out.append((n, "kill"))
            if s.name == "write" and s.arg > 1:
                ks = range(1, s.arg) if full and s.arg <= 64 else sorted({1, s.arg // 2, s.arg - 1})
                out += [(n, "torn", k) for k in ks]
        if not errs:
            continue
        if s.name in ("write", "pwrite"):
            out += [(n, "errno", errno.ENOSPC), (n, "stick", errno.ENOSPC)]
            if s.arg > 1:
                out += [(n, "shorterr", s.arg // 2, errno.ENOSPC), (n, "short", s.arg // 2)]
            if full:
                out.append((n, "errno", errno.EIO))
        elif create:
            out += [(n, "errno", errno.EACCES), (n, "stick", errno.ENOSPC)]
        elif s.name == "open":
            if s.ret >= 0:
                out.append((n, "errno", errno.EACCES))
                if full:
                    out.append((n, "errno", errno.EMFILE))
        elif s.name == "close":
            out.append((n, "errno", errno.EIO))
        elif s.name == "read":
            out.append((n, "errno", errno.EIO))
        elif s.name in MUT:
            out.append((n, "errno", errno.EACCES if s.name != "mkdir" else errno.ENOSPC))
            if s.name == "link":
                out.append((n, "errno", errno.EXDEV))
    return out


def sweep(ck, name, setup, judge, full=False, kills=True, errs=True, skip=None, double=False, dfull=False):
    """setup(wid) -> (ctx, Job) with initial files; judge(ctx, res, fault, second) -> list of errors, running the
    recovery itself; `second` (or None) is a fault to inject in the recovery run (double=True), in which case
    judge must call ctx.recover(faults) through mcx and return (errors, steps of the recovery)."""
    if os.environ.get("PARTS") and not re.search(os.environ["PARTS"], name):
        return

    def base(wid):
        ctx, job = setup(wid)
        r = job.run()
        errs_, rec = judge(ctx, r, None, None)
        return r.steps, errs_, rec

    steps, e, rec = list(core.pmap(base, [0], n=2))[0] if False else base(0)
    if e:
        ck.violation("%s: without any fault: %s" % (name, e[0]), None, e[:10])
        return
    fs = faults_of(steps, full, kills=kills, errs=errs)
    if skip:
        fs = [f for f in fs if not skip(steps, f)]

    def one(f):
        ctx, job = setup(core.worker_id())
        r = job.run(faults=[(0,) + f])
        errs_, rec = judge(ctx, r, f, None)
        n, k = len(r.steps), 1
        bad = [(f, None, r, errs_)] if errs_ else []
        if double and rec is not None:
            for g in faults_of(rec, dfull, kills=kills, errs=False):
                if g[1] == "torn" and not dfull or skip and skip(rec, g):
                    continue
                ctx, job = setup(core.worker_id())
                r = job.run(faults=[(0,) + f])
                e2, _ = judge(ctx, r, f, g)
                n += len(r.steps)
                k += 1
                if e2:
                    bad.append((f, g, r, e2))
                    break
        return f, n, k, [(a, b, e, [repr(s) for s in r.steps[-6:]]) for a, b, r, e in bad]

    n = k = nbad = 0
    kinds = {}
    for f, t, c, bad in core.pmap(one, fs, 4):
        n += t
        k += c
        kinds[f[1]] = kinds.get(f[1], 0) + 1
        for a, b, e, tail in bad:
            nbad += 1
            s = steps[[i for i, x in enumerate(steps) if x.proc == 0][a[0]]]
            if nbad <= 6:
                ck.violation("%s: %s at op %d %r%s: %s" % (name, " ".join(map(str, a[1:])), a[0], s,
                             ", then %r in the recovery" % (b,) if b else "", e[0]), getattr(e[0], "key", None),
                             dict(fault=a, second=b, errors=e[:10], steps=tail))
    ck.count("states", k)
    ck.count("transitions", n)
    ck.count("evaluations", k)
    ck.part(name, ops=len(steps), faults=kinds, runs=k, violating=nbad)
