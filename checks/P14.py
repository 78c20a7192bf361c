import os, sys, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script
from tree import Node
from gcheck import rng


def size(r):
    b = r.choice([0, 0, 1, 2, 3, 8, 31, 32, 54, 55, 56, 57, 60, 63, 64, 65, 119, 120, 127, 128, 129, 183, 184, 192, 256, 1000])
    return max(0, b + r.choice([0, 0, 0, -1, 1, 64, r.randrange(300)]))


def data(r, n):
    k = r.random()
    b = r.randbytes(n) if k < 0.7 else (b"\xff" * n if k < 0.8 else (b"\0" * n if k < 0.9 else b"abc" * (n // 3 + 1)))[:n]
    return b.decode("latin-1").encode("latin-1").decode("utf-8", "surrogateescape")


def raw(s):
    return s.encode("utf-8", "surrogateescape")


def make(c, i):
    r = rng(c, "sha", i)
    s = Node("sha")
    s.x = []
    cur = b""

    def op(tag, want=None, **a):
        s.add(tag, **a)
        s.x.append(want)
    if i in (7, 107):                                  # the bit count exceeds 32 bits
        d, n = data(r, 65536), (8193, 40000)[i > 7] if i < 10 or c.tier == "thorough" else 20
        h = hashlib.sha256()
        op("reset")
        op("many", Data=d, Off="0", N=str(n))
        for _ in range(n):
            h.update(raw(d))
        op("get", h.hexdigest())
        op("reset")
    for _ in range(r.choice([3, 6, 12, 30])):
        k = r.random()
        off = str(r.choice([0, 0, 0, 1, 2, 3, 5]))
        if k < 0.5:
            d = data(r, size(r) if r.random() < 0.98 else r.choice([5000, 70000]))
            op("add", Data=d, Off=off)
            cur += raw(d)
        elif k < 0.7:
            op("get", hashlib.sha256(cur).hexdigest())
        elif k < 0.75:
            op("raw", hashlib.sha256(cur).digest().decode("utf-8", "surrogateescape"))
        elif k < 0.8:
            op("reset")
            cur = b""
        elif k < 0.9:
            d = data(r, size(r))
            op(r.choice(["one", "text"]), hashlib.sha256(raw(d)).hexdigest(), Data=d, Off=off)
            cur = raw(d)
        else:
            d = data(r, size(r))
            h = hashlib.sha256(raw(d)).hexdigest()
            g = r.choice([h, h, h[:-1], h + "0", h[:10] + ("0" if h[10] != "0" else "1") + h[11:], hashlib.sha256(raw(d) + b"\0").hexdigest(), h[:-1] + ("0" if h[-1] != "0" else "1")])
            op(r.choice(["file", "buffer"]), (h, g == h), Data=d, Hash=g)
    op("get", hashlib.sha256(cur).hexdigest())
    return s


def run():
    c = vlib.Check("P14", rule="a case is a history of adding chunks at any alignment, asking for the hash in between, starting over, one-shot hashes, and creating and checking hash files; every hash is compared with Python's hashlib; distinct: histories and residual block sizes at which a hash was taken", assumptions=["messages up to 512 MB (2.6 GB in the thorough run)"])

    def verify(i, s, t, rep):
        n = 0
        c.distinct("histories", " ".join("%s%d" % (o.tag, len(o.get("Data", ""))) for o in s.c))
        for o, w, g in zip(s.c, s.x, t.c):
            n = n + len(raw(o.a["Data"])) if o.tag == "add" else n + len(raw(o.a["Data"])) * int(o.a["N"]) if o.tag == "many" else 0 if o.tag == "reset" else len(raw(o.a["Data"])) if o.tag in ("one", "text") else n
            if w is None:
                continue
            c.count("hashes compared")
            if isinstance(w, tuple):
                # an empty file or buffer has no data to hash for the library's buffers
                c.count("hash files checked")
                if g.get("Ok") != "1" or g.get("V") != w[0]:
                    c.violation("hashfile:" + o.tag, "%d bytes: %s instead of %s" % (len(raw(o.a["Data"])), g.get("V"), w[0]), rep)
                if g.get("Check") != ("1" if w[1] else "0"):
                    c.violation("check:" + o.tag, "%d bytes checked against %s: %s" % (len(raw(o.a["Data"])), o.a["Hash"], g.get("Check")), rep)
            else:
                c.distinct("residual block sizes", "%s %d" % (o.tag, n % 64))
                if g.get("V") != w:
                    c.violation("hash:" + o.tag, "after %d bytes: %s instead of %s" % (n, g.get("V"), w), rep)
        c.sample("case %d: %s" % (i, " ".join(o.tag for o in s.c)))
    script.run(c, lambda i: make(c, i), verify, c.n(1500, 60000), per=50, timeout=120)
    c.finish(["histories", "residual block sizes"], 1000, ["hashes compared", "hash files checked"])

vlib.main(run)
