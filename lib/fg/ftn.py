"""Independent reader/writer of FTN packets (FTS-0001, FSC-0039/0048)."""
import struct, collections

Node = collections.namedtuple("Node", "zone net node point")


def N(s):
    z, r = s.split(":")
    n, r = r.split("/")
    f, _, p = r.partition(".")
    return Node(int(z), int(n), int(f), int(p or 0))


def A(n):
    return "%d:%d/%d" % n[:3] + (".%d" % n[3] if n[3] else "")


class Msg:
    __slots__ = ("onode", "dnode", "onet", "dnet", "attr", "cost", "date", "to", "frm", "subj", "body")

    def __init__(self, frm_addr, to_addr, to=b"Sysop", frm=b"User", subj=b"Subj", body=b"", attr=0, cost=0,
                 date=b"09 Sep 01  01:40:00"):
        self.onode, self.onet = frm_addr[2], frm_addr[1]
        self.dnode, self.dnet = to_addr[2], to_addr[1]
        self.attr, self.cost, self.date = attr, cost, date
        self.to, self.frm, self.subj, self.body = to, frm, subj, body

    def key(self):
        return (self.onet, self.onode, self.dnet, self.dnode, self.attr, self.cost, self.date, self.to, self.frm,
                self.subj, self.body)

    def __repr__(self):
        return "Msg(%d/%d->%d/%d attr=%x %r to=%r from=%r subj=%r body=%r)" % (
            self.onet, self.onode, self.dnet, self.dnode, self.attr, self.date, self.to, self.frm, self.subj, self.body)

    def pack(self):
        return struct.pack("<HHHHHHH", 2, self.onode, self.dnode, self.onet, self.dnet, self.attr, self.cost) + \
            (self.date + b"\0" * 20)[:20] + self.to + b"\0" + self.frm + b"\0" + self.subj + b"\0" + self.body + b"\0"


class Pkt:
    def __init__(self, frm, to, msgs=(), passwd=b"", time=(2001, 8, 9, 1, 40, 0)):
        self.frm, self.to, self.msgs, self.passwd, self.time = frm, to, list(msgs), passwd, time

    def header(self):
        t = self.time
        return struct.pack("<12H", self.frm.node, self.to.node, t[0], t[1], t[2], t[3], t[4], t[5], 0, 2,
                           self.frm.net, self.to.net) + b"\xfe\x02" + (self.passwd + b"\0" * 8)[:8] + \
            struct.pack("<HHH", self.frm.zone, self.to.zone, 0) + b"\x00\x01\x00\x00" + \
            struct.pack("<HHHHH", 1, self.frm.zone, self.to.zone, self.frm.point, self.to.point) + b"XPKT"

    def pack(self):
        return self.header() + b"".join(m.pack() for m in self.msgs) + b"\0\0"


class BadPkt(Exception):
    pass


def parse(data, strict=True):
    """Parse a packet; BadPkt if it is not a complete well-formed one."""
    if len(data) < 58:
        raise BadPkt("short header (%d bytes)" % len(data))
    h = struct.unpack("<12H", data[:24])
    pw = data[26:34].split(b"\0")[0]
    oz, dz = struct.unpack("<HH", data[34:38])
    cw1 = struct.unpack(">H", data[40:42])[0]
    cw, oz2, dz2, op, dp = struct.unpack("<HHHHH", data[44:54])
    if h[9] != 2:
        raise BadPkt("packet type %d" % h[9])
    if cw and cw == cw1:
        f, t = Node(oz2, h[10], h[0], op), Node(dz2, h[11], h[1], dp)
    else:
        f, t = Node(oz, h[10], h[0], 0), Node(dz, h[11], h[1], 0)
    k = Pkt(f, t, passwd=pw, time=tuple(h[2:8]))
    i = 58
    while True:
        if i + 2 > len(data):
            raise BadPkt("no end marker")
        ty = struct.unpack("<H", data[i:i + 2])[0]
        if ty == 0:
            if i + 2 != len(data):
                raise BadPkt("%d bytes after the end marker" % (len(data) - i - 2))
            return k
        if ty != 2:
            raise BadPkt("message type %d at %d" % (ty, i))
        if i + 34 > len(data):
            raise BadPkt("short message header")
        a = struct.unpack("<6H", data[i + 2:i + 14])
        date = data[i + 14:i + 34]
        if strict and (date[19:] != b"\0" or b"\0" in date[:19]):
            raise BadPkt("bad date field %r" % date)
        j = i + 34
        s = []
        for what in ("to", "from", "subject", "text"):
            e = data.find(b"\0", j)
            if e < 0:
                raise BadPkt("unterminated %s" % what)
            s.append(data[j:e])
            j = e + 1
        if strict and (len(s[0]) > 35 or len(s[1]) > 35 or len(s[2]) > 71):
            raise BadPkt("header field too long")
        m = Msg(Node(0, a[2], a[0], 0), Node(0, a[3], a[1], 0), s[0], s[1], s[2], s[3], a[4], a[5], date.split(b"\0")[0])
        k.msgs.append(m)
        i = j
