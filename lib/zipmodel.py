"""Independent author of ZIP archives (for what zipfile cannot be talked into) and a script/model of IZIPFile."""
import datetime
import random, struct, zlib, binascii
from tree import Node


def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return "%016x" % h


def blob(r, big=40000):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 5, 21, 22, 30, 31, 46, 255, 256, 1024, 4096, 5119, 5120, 5121, 65535, 65536]) if r.random() < 0.4 else int(big ** r.random())
    if k < 0.35:
        return r.randbytes(n)
    if k < 0.55:
        return (b"<GDTF DataVersion=\"1.2\"/>\r\n" * (n // 27 + 1))[:n]
    if k < 0.7:
        return bytes([r.choice([0, 0x20, 0xff])]) * n
    if k < 0.85:
        p = b"".join(r.choice([b"PK\3\4", b"PK\1\2", b"PK\5\6" + b"\0" * 18, b"\r\n", b"\xff", b"x" * 30, b"P", b"PK\7\10"]) for _ in range(n // 8 + 1))
        return (p * (n // max(1, len(p)) + 1))[:n]
    return bytes(r.choice(b"ab") for _ in range(n))


PARTS = ["a", "b", "model", "Tex ture", "größe", "灯具", "x.y.z", "It's", "A&B <c>", "UPPER", "upper", "n" * 60, "é" * 20, "\U0001f4a1", "-", "..a", "%41", "#"]


def name(r, used):
    for _ in range(50):
        n = "/".join(r.choice(PARTS) for _ in range(r.choice([1, 1, 1, 2, 3]))) + r.choice(["", "", ".glb", ".xml", str(r.randrange(50))])
        if r.random() < 0.03:
            n += "L" * r.choice([900, 1000, 1023, 1024, 1025, 3000])
        if n not in used:
            return n
    return "u%d" % r.randrange(10 ** 9)


def deflate(b, r):
    c = zlib.compressobj(r.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, r.choice([1, 8, 9]), r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
    out, i = b"", 0
    while i < len(b):
        k = r.choice([len(b), 1000, 17]) if len(b) < 5000 else len(b)
        out += c.compress(b[i:i + k])
        i += k
        if r.random() < 0.2:
            out += c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    return out + c.flush()


def archive(entries, r, plain=False):
    """An archive as other tools write them: stored or deflated, extra fields, comments, data descriptors,
    unused bytes between the entries, a central directory in another order."""
    out, cen = bytearray(), []
    for n, d in entries:
        nb = n.encode()
        m = r.choice([0, 8, 8])
        c = d if m == 0 else deflate(d, r)
        crc = binascii.crc32(d)
        fl = 0x0800 if any(x > 127 for x in nb) or r.random() < 0.5 else 0
        desc = not plain and r.random() < 0.2
        ex = b"" if plain or r.random() < 0.7 else struct.pack("<HH", r.choice([0x5455, 0x7875, 0xcafe]), 7) + r.randbytes(7)
        cex = b"" if plain or r.random() < 0.7 else struct.pack("<HH", 0x5455, 5) + r.randbytes(5)
        cm = b"" if plain or r.random() < 0.8 else r.choice([b"a comment", b"PK\1\2", "größe".encode()])
        if desc:
            fl |= 8
        if not plain and r.random() < 0.05 and out:
            out += r.randbytes(r.randrange(1, 40))
        off = len(out)
        out += struct.pack("<IHHHHHIIIHH", 0x04034b50, 20, fl, m, 0x6000, 0x5821, 0 if desc else crc, 0 if desc else len(c), 0 if desc else len(d), len(nb), len(ex)) + nb + ex + c
        if desc:
            out += (b"PK\7\10" if r.random() < 0.7 else b"") + struct.pack("<III", crc, len(c), len(d))
        cen.append((n, struct.pack("<IHHHHHHIIIHHHHHII", 0x02014b50, r.choice([20, 0x031e, 63]), 20, fl, m, 0x6000, 0x5821, crc, len(c), len(d), len(nb), len(cex), len(cm), 0, r.choice([0, 1]), r.choice([0, 0x81a40000]), off) + nb + cex + cm))
    order = list(range(len(cen)))
    if not plain and r.random() < 0.2:
        r.shuffle(order)
    start = len(out)
    for i in order:
        out += cen[i][1]
    com = b"" if plain or r.random() < 0.8 else r.choice([b"archive comment", b"x" * 300])
    size = len(out) - start
    out += struct.pack("<IHHHHIIH", 0x06054b50, 0, 0, len(cen), len(cen), size, start, len(com)) + com
    return bytes(out), [entries[i] for i in order]


class Script:
    """A script of operations with what each of them must give."""

    def __init__(self, r, i):
        self.r, self.root, self.exp, self.files, self.want = r, Node("Script"), [], {}, []
        self.i = i

    def op(self, k, exp=None, **a):
        self.root.add("Op", K=k, **a)
        self.exp.append(exp)

    def data(self, b):
        return b.decode("utf-8", "surrogateescape")

    def write(self, tag, rm=True):
        r = self.r
        f = "z%d%s.zip" % (self.i, tag)
        comp = r.random() < 0.6
        self.op("write" if comp and r.random() < 0.3 else "new", "ok", Name=f, Compress="1" if comp else "0")
        T = int(datetime.datetime(r.randrange(1980, 2038), r.randrange(1, 13), r.choice([1, 1, 2, 28, r.randrange(1, 29)]), r.randrange(24), r.randrange(60), r.randrange(60), tzinfo=datetime.timezone.utc).timestamp()) - r.choice([0, 0, 0, 86400])
        T = max(T, 315619200)
        self.op("clock", "ok", T=str(T))
        m = []                                         # [name, bytes] in order
        for _ in range(r.choice([1, 2, 3, 5, 8, 20])):
            k = r.random()
            if m and k < 0.08:
                self.op("addb", "err", Name=r.choice(m)[0], Data="other")
            elif rm and m and k < 0.2:
                x = r.choice(m)
                m.remove(x)
                self.op("rm", "ok", Name=x[0])
            elif rm and m and k < 0.23:
                self.op("rm", "err", Name="not there")
            elif m and k < 0.3:
                self.op("all", [list(x) for x in m])
            else:
                n, d = name(r, [x[0] for x in m]), blob(r)
                via = n.replace("/", "\\") if r.random() < 0.1 else n
                m.append([n, d])
                self.op(r.choice(["addb", "addb", "addf"]), "ok", Name=via, Data=self.data(d))
        if r.random() < 0.5:
            self.op("all", [list(x) for x in m])
        if r.random() < 0.4:
            self.op("tobuf", "ok", Name=f + ".buf")
            self.want.append((f + ".buf", [list(x) for x in m], T))
        self.op("close", "ok")
        self.want.append((f, [list(x) for x in m], T))
        return f, m

    def read(self, f, m):
        r = self.r
        for k in r.sample(["readf", "readb"], r.choice([1, 2])):
            if r.random() < 0.7:
                self.op("fresh", "ok")
            self.op(k, "ok", Name=f)
            self.op("all", [list(x) for x in m])
            if r.random() < 0.3:
                self.op("ext", [x for x in m if x[0].endswith(".glb")], Name="glb")
            if m and r.random() < 0.5:
                x = r.choice(m)
                self.op("get", [list(x)], Name=x[0])
            miss = r.choice(["nope", "x", (m[0][0] if m else "q") + "/", (m[-1][0] if m else "q")[:-1], (m[0][0] if m else "q").upper() + "_"])
            if miss not in [x[0] for x in m] and miss:
                self.op("get", "missing", Name=miss)
            self.op("close", "ok")
