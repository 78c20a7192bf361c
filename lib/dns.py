"""DNS messages as multicast DNS uses them: an encoder and a decoder of its own (RFC 1035, 6762, 6763)."""
import struct

A, PTR, TXT, AAAA, SRV = 1, 12, 16, 28, 33
FLUSH = 0x8000


def labels(n):
    return [l for l in (n if isinstance(n, bytes) else n.encode()).split(b".") if l]


class Writer:
    """compress: probability that a name that occurred before is referred to"""
    def __init__(self, r=None, compress=1.0):
        self.b, self.at, self.r, self.p = bytearray(12), {}, r, compress

    def name(self, n):
        ls = labels(n)
        while ls:
            k = tuple(ls)
            if k in self.at and (self.p >= 1 or self.r.random() < self.p):
                self.b += struct.pack(">H", 0xC000 | self.at[k])
                return
            if len(self.b) < 0x3FFF:
                self.at.setdefault(k, len(self.b))
            self.b += bytes([len(ls[0])]) + ls[0]
            ls = ls[1:]
        self.b.append(0)

    def question(self, n, t, c=1):
        self.name(n)
        self.b += struct.pack(">HH", t, c)

    def record(self, rec):
        n, t, c, ttl, d = rec
        self.name(n)
        self.b += struct.pack(">HHIH", t, c, ttl, 0)
        s = len(self.b)
        if t == PTR:
            self.name(d)
        elif t == SRV:
            self.b += struct.pack(">HHH", *d[:3])
            self.name(d[3])
        else:
            self.b += d
        self.b[s - 2:s] = struct.pack(">H", len(self.b) - s)


def message(qid=0, flags=0x8400, questions=(), answers=(), authority=(), additional=(), r=None, compress=1.0):
    w = Writer(r, compress)
    for q in questions:
        w.question(*q)
    for sec in (answers, authority, additional):
        for x in sec:
            w.record(x)
    w.b[:12] = struct.pack(">HHHHHH", qid, flags, len(questions), len(answers), len(authority), len(additional))
    return bytes(w.b)


class Bad(Exception):
    pass


def read_name(b, o):
    out, end, n = [], None, 0
    while True:
        if o >= len(b) or n > 128:
            raise Bad("name")
        l = b[o]
        if l >= 0xC0:
            if o + 1 >= len(b):
                raise Bad("reference")
            end = end or o + 2
            o = struct.unpack(">H", b[o:o + 2])[0] & 0x3FFF
            n += 1
        elif l > 63:
            raise Bad("label of %d" % l)
        else:
            if o + 1 + l > len(b):
                raise Bad("label")
            if not l:
                return b".".join(out) + b"." if out else b".", end or o + 1
            out.append(b[o + 1:o + 1 + l])
            o += 1 + l
            n += 1


def parse(b):
    """dict(id, flags, questions=[(name, type, class)], answers, authority, additional=[(name, type, class, ttl, data)])"""
    if len(b) < 12:
        raise Bad("header")
    i, f, q, an, au, ad = struct.unpack(">HHHHHH", b[:12])
    m, o = {"id": i, "flags": f, "questions": []}, 12
    for _ in range(q):
        n, o = read_name(b, o)
        if o + 4 > len(b):
            raise Bad("question")
        m["questions"].append((n,) + struct.unpack(">HH", b[o:o + 4]))
        o += 4
    for k, c in (("answers", an), ("authority", au), ("additional", ad)):
        m[k] = []
        for _ in range(c):
            n, o = read_name(b, o)
            if o + 10 > len(b):
                raise Bad("record")
            t, cl, ttl, l = struct.unpack(">HHIH", b[o:o + 10])
            o += 10
            if o + l > len(b):
                raise Bad("data")
            d = b[o:o + l]
            if t == PTR:
                d, e = read_name(b, o)
                if e != o + l:
                    raise Bad("length of PTR")
            elif t == SRV:
                d, e = read_name(b, o + 6)
                if e != o + l:
                    raise Bad("length of SRV")
                d = struct.unpack(">HHH", b[o:o + 6]) + (d,)
            m[k].append((n, t, cl, ttl, d))
            o += l
    m["rest"] = len(b) - o
    return m


def txt(*entries):
    return b"".join(bytes([len(e)]) + e for e in entries)
