"""Calls of library functions through harness/h_unit.c."""
import os, struct, subprocess
from . import core

ENV = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1"}


def b_(x):
    return x if isinstance(x, bytes) else x.encode()


def rec(op, *args):
    return op.encode() + bytes([len(args)]) + b"".join(struct.pack("<I", len(x)) + x for x in map(b_, args))


def call(ck, conf, recs, variant="asan", timeout=600, env=None):
    """recs: list of (op, args...) -> list of result lists, error text or None"""
    p = subprocess.run([ck.har("h_unit", variant), conf], input=b"".join(rec(*[x for x in r if x is not None]) for r in recs), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=dict(ENV, **(env or {})), timeout=timeout)
    o = p.stdout
    out = []
    i = 0
    try:
        while i < len(o):
            n = struct.unpack("<H", o[i:i + 2])[0]
            i += 2
            r = []
            for _ in range(n):
                l = struct.unpack("<I", o[i:i + 4])[0]
                if i + 4 + l > len(o):
                    raise struct.error
                r.append(o[i + 4:i + 4 + l])
                i += 4 + l
            out.append(r)
    except struct.error:
        pass
    err = None
    if p.returncode or len(out) != len(recs):
        err = "exit %d at call %r: %s" % (p.returncode, recs[len(out)] if len(out) < len(recs) else None,
                                         p.stderr.decode("latin-1")[:1500])
    return out, err


def sweep(ck, conf, name, gen, judge, batch=20000, limit=6, variant="asan", crashkey=None):
    """gen: iterable of (op, args...); judge(call, results) -> None or (what, key)"""
    def batches():
        b = []
        for g in gen:
            b.append(g)
            if len(b) == batch:
                yield b
                b = []
        if b:
            yield b

    def one(b):
        bad = []
        n = 0
        start = 0
        crashes = 0
        while start < len(b):
            out, err = call(ck, conf, b[start:], variant)
            for c, r in zip(b[start:], out):
                n += 1
                e = judge(c, r)
                if e and len(bad) < 50:
                    bad.append((c, r, e))
            if not err:
                break
            # output is buffered: replay one by one around the crash
            k = start + len(out)
            while k < len(b):
                o1, e1 = call(ck, conf, [b[k]], variant)
                n += 1
                if e1:
                    bad.append((b[k], None, ("crash: " + e1, crashkey)))
                    crashes += 1
                    k += 1
                    break
                e = judge(b[k], o1[0])
                if e and len(bad) < 50:
                    bad.append((b[k], o1[0], e))
                k += 1
            start = k
            if crashes >= 5:
                break
        return n, bad
    n = nb = 0
    for k, bad in core.pmap(one, batches(), 1):
        n += k
        for c, r, e in bad:
            nb += 1
            what, key = e if isinstance(e, tuple) else (e, None)
            if nb <= limit or key:
                ck.violation("%s: %r -> %r: %s" % (name, c, r, what), key, [c, r])
    ck.count("states", n)
    ck.count("transitions", n)
    ck.count("evaluations", n)
    ck.part(name, calls=n, violating=nb)
