import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck
from tree import Node

FOLDERS = {0: "models/svg/", 1: "models/3ds/", 2: "wheels/", 3: "", 4: "models/gltf/", 5: "models/3ds_low/", 6: "models/3ds_high/", 7: "models/gltf_low/", 8: "models/gltf_high/", 9: "models/svg_side/", 10: "models/svg_front/"}
MODEL = {0: ("svg", "~SVG"), 1: ("3ds", "~3DS"), 4: ("glb", "~GLTF"), 5: ("3ds", "~3DSLow"), 6: ("3ds", "~3DSHigh"), 7: ("glb", "~GLTFLow"), 8: ("glb", "~GLTFHigh"), 9: ("svg", "~SVGSide"), 10: ("svg", "~SVGFront")}
BUFS = {0: "~BufSVG", 1: "~Buf3DS", 4: "~BufGLTF"}


def fnv(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return "%d:%016x" % (len(b), h)


def payload(r):
    k = r.random()
    n = r.choice([1, 2, 3, 5, 17, 255, 256, 257, 1000, 4095, 4096, 4097, 32768, 65536]) if k < 0.5 else r.randint(1, 9000)
    if r.random() < 0.02:
        n = r.randint(100000, 400000)
    k = r.random()
    if k < 0.3:
        return bytes([r.randrange(256)]) * n
    if k < 0.6:
        return r.randbytes(n)
    if k < 0.75:   # bytes that look like the structures of an archive
        return (b"PK\x03\x04" + r.randbytes(20) + b"PK\x05\x06" + b"PK\x01\x02") * (1 + n // 40)
    return (" ".join(r.choice(["vertex", "face", "0.5", "<path/>", "\n", "M0 0"]) for _ in range(1 + n // 5))).encode()


def put(m, r, res, want, ty, name, ext, where, node, key, data=None):
    """Adds a resource for `node`, and what the reader should see."""
    data = payload(r) if data is None else data
    n = Node("Resource")
    full = name + "." + ext
    n.a.update(Name=full, Type=str(ty), Data=data.decode("utf-8", "surrogateescape"), Via=r.choice(["buffer", "file"]))
    if n.a["Via"] == "file":
        if r.random() < 0.4:
            n.a.update(Source="src%d.tmp" % len(res), Rename="1")
        else:
            n.a.update(Source=full, Rename="0")
        n.a["Unlink"] = r.choice("01")
    n.x = FOLDERS[ty] + full
    if any(x.x == n.x for x in res):
        return None
    res.append(n)
    for k in ([key] if isinstance(key, str) else key):
        want.append((node, k, fnv(data)))
    return n


def generate(m, r, i):
    """Resources of the fixture; sets the expected ~attributes on m (they are not shown to the library)."""
    res, want = [], []
    ok = lambda s: "".join(c for c in s if c.isalnum() or c in " _-.").strip(" .")[:80].strip(" .") or "f"
    if m.a.get("Thumbnail"):
        m.a["Thumbnail"] = ok(m.a["Thumbnail"]) + "_t"
        for ext, key in (("png", "~ThumbPNG"), ("svg", "~ThumbSVG")):
            if r.random() < 0.6:
                put(m, r, res, want, 3, m.a["Thumbnail"], ext, "", m, key)
    for k, mo in enumerate(m.kids("Model")):
        if r.random() < 0.85:
            mo.a["File"] = "model %d" % k if r.random() < 0.5 else "Body-%d.v2" % k
            for ty, (ext, key) in MODEL.items():
                if r.random() < 0.45:
                    put(m, r, res, want, ty, mo.a["File"], ext, "", mo, [key] + ([BUFS[ty]] if ty in BUFS else []))
    for w in m.kids("Wheel"):
        for s in w.kids("Slot"):
            if s.a.get("MediaFileName") and r.random() < 0.8:
                nm = ok(s.a["MediaFileName"])
                s.a["MediaFileName"] = nm
                put(m, r, res, want, 2, nm, "png", "", s, "~Image")
    for k in range(r.randint(0, 3)):
        put(m, r, res, want, 3, "extra%d" % k, r.choice(["txt", "bin", "pdf"]), "", m, [])
    # small files whose names are asked for by nothing, in a folder that exists
    if r.random() < 0.3:
        put(m, r, res, want, r.choice(list(FOLDERS)), "unrelated", r.choice(["3ds", "svg", "glb", "png"]), "", m, [])
    r.shuffle(res)
    return res, want


class RT(gcheck.RT):
    def model(self, i):
        r = gcheck.rng(self.chk, self.kind, i)
        m = gdtf.Gen(r, full=r.choice([0.2, 0.5])).build()
        res, want = generate(m, r, i)
        self.want[i] = want
        return m, r, res

    def verify(self, w, i, m, res, mode):
        chk = self.chk
        want = self.want[i]
        # the getters for files see nothing before anything was read, so they are expected from reading on
        self.checks = ("doc",)
        gcheck.RT.verify(self, w, i, m, res, mode)
        base = {}
        for n in m.walk():
            ks = {"FixtureType": ["~ThumbPNG", "~ThumbSVG"], "Slot": ["~Image"], "Model": [k for _, k in MODEL.values()] + list(BUFS.values())}.get(n.tag, [])
            for k in ks:
                base[(id(n), k)] = "-" if k not in BUFS.values() else None
        for n, k, v in want:
            base[(id(n), k)] = v
        rep = "gdtf_rt files kind=%s case=%d seed=%d mode=%s\nresources %s\n%s" % (self.kind, i, chk.seed, mode, [(x.x, len(x.a["Data"]), x.a["Via"]) for x in res], m.text()[:4000])
        data = gcheck.rd(w, "g%d.gdtf" % i)
        trees = {p: gcheck.rdtree(w, "c%d.%s" % (i, p)) for p in ("rd", "buf", "third")}
        exp = gdtf.expected_read(m, True)
        for p, t in trees.items():
            if t is None:
                chk.violation(p + ":unreadable", "the archive cannot be read: %s" % gcheck.rd(w, "c%d.log" % i).decode(), rep)
                continue
            for e in t.kids("~Error"):
                chk.violation(p + ":parsing-error-" + e.a["Type"], "reading a written document reports %s" % e.a, rep)
            out = []
            gdtf.compare(exp, t, out)
            gcheck.report(chk, p, out, rep)
            pairs = [(m, t)] + list(zip(m.kids("Model"), t.kids("Model")))
            for a, b in zip(m.kids("Wheel"), t.kids("Wheel")):
                pairs += list(zip(a.kids("Slot"), b.kids("Slot")))
            for a, b in pairs:
                for k, g in b.a.items():
                    if (id(a), k) not in base:
                        continue
                    e = base[(id(a), k)]
                    if e is None:   # without a file of normal resolution it is not said what the buffer is
                        continue
                    # files in the working folder belong to the document read last (see the known findings), so the
                    # files are judged on the object that was dumped before another document was read
                    if k not in BUFS.values() and p == "third":
                        continue
                    if g != e:
                        chk.violation("%s:resource:%s.%s" % (p, a.tag, k[1:]), "%s of %s should be %s (bytes:hash), is %s" % (k, a.a.get("Name"), e, g), rep)
                    if e != "-":
                        chk.count("resources read back and compared")
                        chk.distinct("resource kinds", "%s%s %s" % (a.tag, k, p))
        # the two ways of reading show the same
        if trees["rd"] is not None and trees["buf"] is not None and trees["rd"].text() != trees["buf"].text():
            a, b = trees["rd"].text().splitlines(), trees["buf"].text().splitlines()
            d = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
            chk.violation("file-vs-buffer", "reading the file and reading the buffer differ: %s / %s" % d, rep)
        if trees["third"] is not None:
            strip = lambda t: "\n".join(" ".join(f for f in l.split(" ") if not f.startswith("~")) for l in t.text().splitlines())
            if trees["buf"] is not None and strip(trees["buf"]) != strip(trees["third"]):
                chk.violation("resave:getters", "after writing a document that was read again, other values are read", rep)
        first = gcheck.unzip(data)[0]
        for p in ("re", "re2", "re3"):
            b = gcheck.rd(w, "c%d.%s" % (i, p))
            if not b:
                chk.violation(p + ":missing", "no buffer after refreshing: %s" % gcheck.rd(w, "c%d.log" % i).decode(), rep)
                continue
            e, probs = gcheck.unzip(b)
            for x in probs:
                chk.violation(p + ":archive", x, rep)
            if set(e) != set(first):
                chk.violation(p + ":entries", "written again, the archive holds %s instead of %s" % (sorted(e)[:30], sorted(first)[:30]), rep)
            for k in e:
                if k in first and k != "description.xml" and e[k] != first[k]:
                    chk.violation(p + ":resource-bytes", "entry %s changed when the document was written again" % k, rep)
            if e.get("description.xml") != first.get("description.xml"):
                g1, g2 = gdtf.from_doc(first["description.xml"])[0], gdtf.from_doc(e.get("description.xml", b""))[0]
                out = []
                if g2 is not None and g1 is not None:
                    for g in (g1, g2):
                        gdtf.fill_names(g)
                    gdtf.compare(g1, g2, out)
                gcheck.report(chk, p, out, rep)
            chk.count("archives written again and compared")
        d2 = [gcheck.unzip(gcheck.rd(w, "c%d.%s" % (i, p)) or b"")[0] for p in ("re", "re2", "re3")]
        if d2[0] != d2[1]:
            chk.violation("refresh-twice", "refreshing the buffer twice gives other entries", rep)
        if d2[0] != d2[2]:
            chk.violation("resave-settles", "a document written again, read and written once more is not the same", rep)

    def _chunk(self, item):
        self.want = {}
        return gcheck.RT._chunk(self, item)


def shared(c):
    """Files of a fixture stay available while it lives, whatever else is read."""
    c.shard("asan", "pub", "gdtf_two", c.n(4, 40), jobs=4)


def run():
    c = vlib.Check("P07", rule="a case is one generated fixture with resources of every kind (thumbnails, models in all resolutions, gobos, others) that was written to a file or buffer, read from file and from buffer, refreshed, read and refreshed again, all compared entry by entry and value by value; distinct: documents, kinds of resource seen by each way of reading",
                   assumptions=["resource names are plain file names", "names are unique irrespective of case and free of the characters the library deletes from names"])
    RT(c, dict(), kind="files", cmd=("gdtf_rt", "files")).run(c.n(500, 10000))
    shared(c)
    c.finish(["models", "resource kinds"], 300, ["resources read back and compared", "archives written again and compared"])

vlib.main(run)
