"""Hostile inputs through the readers; the sanitizers are the oracle."""
import os, base64, zlib
import gdtf, mvr, hostile
from gcheck import rng, rd


def gdtf_case(chk, i):
    r = rng(chk, "hostile", i)
    o = r.choice([dict(scale=0.4, full=0.5), dict(scale=0.7, full=0.3), dict(scale=0.3, full=1.0), dict(scale=1.0, full=0.6)])
    m = gdtf.Gen(r, api=False, **o).build()
    doc = gdtf.to_doc(m, r)
    extra = [(n, r.randbytes(r.choice([0, 1, 300]))) for n in ("thumbnail.png", "wheels/a.png", "models/gltf/m.glb", "models\\3ds\\m.3ds", "a/../b", "dir/") if r.random() < 0.15]
    return hostile.hostile_archive(doc, lambda d: gdtf.serialize(d, r), "description.xml", r, extra)


def mvr_case(chk, i):
    r = rng(chk, "hostile", i)
    o = r.choice([dict(), dict(full=0.3), dict(full=1.0, scale=1.3), dict(scale=2, full=0.5)])
    m = mvr.Gen(r, api=False, **o).build()
    doc = mvr.to_doc(m, r, (1, 6))
    extra = []
    if r.random() < 0.3:                               # fixtures in the archive, sound or damaged
        names = [v for n in m.walk() for k, v in n.a.items() if k == "GdtfName" and v] or ["a.gdtf"]
        g = gdtf.Gen(r, api=False, scale=0.3, full=0.4).build()
        b, _ = hostile.hostile_archive(gdtf.to_doc(g, r), lambda d: gdtf.serialize(d, r), "description.xml", r, [])
        extra.append((r.choice(names), b))
    extra += [(n, r.randbytes(r.choice([0, 1, 300]))) for n in ("model.glb", "dir/x.3ds", "dir/", "x") if r.random() < 0.1]
    return hostile.hostile_archive(doc, lambda d: mvr.serialize(d, r), "GeneralSceneDescription.xml", r, extra)


def run(c, make, cmd, ext, total, per=40):
    c.exe("asan", "pub")

    def chunk(item):
        a, cnt = item
        inp = {}

        def prep(w, s, k):
            for i in range(s, s + k):
                if i not in inp:
                    inp[i] = make(c, i)
                with open(os.path.join(w, "r%d%s" % (i, ext)), "wb") as f:
                    f.write(inp[i][0])

        def post(w, cases):
            for i in cases:
                b, kinds = inp[i]
                c.count("hostile inputs read")
                for k in kinds:
                    c.distinct("kinds of damage", k)
                c.distinct("inputs", "%d:%d" % (len(b), zlib.crc32(b)))
                t = rd(w, "r%d.rd" % i)
                if t is not None:
                    c.count("hostile inputs that gave an object")
                    c.count("values read from them", t.count(b"="))
        c.shard("asan", "pub", cmd, cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, case_timeout=60,
                attach=lambda i: "kinds: %s\ninput (base64): %s" % (inp[i][1], base64.b64encode(inp[i][0]).decode()[:200000]) if i in inp else "")
    c.pmap(chunk, [(a, min(per, total - a)) for a in range(0, total, per)])
