"""A scratch FIDOGATE installation."""
import os, shutil, subprocess

DIRS = ["etc", "bin", "lib", "log", "var/seq", "lock", "spool/toss/toss", "spool/toss/route", "spool/toss/pack",
        "spool/toss/bad", "spool/outpkt/mail", "spool/outpkt/news", "spool/outrfc/mail", "spool/outrfc/news", "bt",
        "bt/in", "bt/pin", "bt/netmail", "bt/tick", "news"]

BASE_CONF = """CONFIGDIR @/etc
BINDIR @/bin
LIBEXECDIR @/lib
LOGDIR @/log
VARDIR @/var
LOCKDIR @/lock
SPOOLDIR @/spool
BTBASEDIR @/bt
NETMAILDIR @/bt/netmail
INBOUND @/bt/in
PINBOUND @/bt/pin
UUINBOUND @/bt/in
FTPINBOUND @/bt/in
NEWSVARDIR @/news
NEWSLIBDIR @/news
NEWSBINDIR @/news
NEWSSPOOLDIR @/news
ACL @/etc/acl
LOGFILE @/log/log
Hostname f1
Domain n1.z2.test.org
AreasBBS @/var/areas.bbs
FAreasBBS @/var/fareas.bbs
"""


class World:
    def __init__(self, root, conf="", files=None, address="2:1/1", zones=True, dirs=()):
        self.root = root
        z = "Address %s\n" % address if isinstance(address, str) else "".join("Address %s\n" % a for a in address)
        if zones:
            z += ("Zone default .fidonet.org fidonet out\nZone 1 .fidonet.org fidonet out.001\n"
                  "Zone 2 .fidonet.org fidonet out\nZone 3 .fidonet.org fidonet out.003\n")
        self.conf = BASE_CONF + z + conf
        self.files = {"etc/fidogate.conf": None}
        for n in ("routing", "passwd", "packing", "areas", "hosts", "aliases", "acl", "ftnacl", "spyes", "uplinks"):
            self.files["etc/" + n] = b""
        self.files["var/areas.bbs"] = b"Test System\n"
        self.files["var/fareas.bbs"] = b"@/files\n".replace(b"@", root.encode())
        self.dirs = list(DIRS) + list(dirs)
        for k, v in (files or {}).items():
            self.files[k] = v

    def x(self, s):
        if isinstance(s, str):
            s = s.encode("latin-1")
        return s.replace(b"@/", self.root.encode() + b"/")

    def reset(self, extra=None):
        shutil.rmtree(self.root, ignore_errors=True)
        for d in self.dirs:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for k, v in self.files.items():
            self.put(k, self.x(self.conf) if v is None else self.x(v))
        for k, v in (extra or {}).items():
            self.put(k, v)
        return self

    def p(self, rel):
        return os.path.join(self.root, rel)

    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        try:
            f = open(p, "wb")
        except FileNotFoundError:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            f = open(p, "wb")
        with f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1"))

    def get(self, rel):
        try:
            with open(os.path.join(self.root, rel), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def ls(self, rel=""):
        try:
            return sorted(os.listdir(os.path.join(self.root, rel)))
        except FileNotFoundError:
            return []

    def tree(self, skip=("log/",)):
        o = {}
        n = len(self.root) + 1
        for d, dn, fn in os.walk(self.root):
            for f in fn:
                p = os.path.join(d, f)
                r = p[n:]
                if any(r.startswith(s) for s in skip):
                    continue
                try:
                    with open(p, "rb") as fp:
                        o[r] = fp.read()
                except OSError:
                    o[r] = None
        return o

    def restore(self, tree):
        shutil.rmtree(self.root, ignore_errors=True)
        for d in self.dirs:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for k, v in tree.items():
            self.put(k, v)

    def args(self, binary, *a):
        return [binary, "-c", self.root + "/etc/fidogate.conf"] + list(a)

    def run(self, binary, *a, **kw):
        env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0"}
        env.update(kw.pop("env", {}))
        return subprocess.run(self.args(binary, *a), env=env, cwd=self.root, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, stdin=kw.pop("stdin", subprocess.DEVNULL), timeout=kw.pop("timeout", 60), **kw)

    def log(self):
        return (self.get("log/log") or b"").decode("latin-1")
