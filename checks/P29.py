import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, mvr
from gcheck import rng, mkzip


def run():
    c = vlib.Check("P29", rule="a case is a GDTF or MVR document that is read while the application gives up at chosen questions of the library whether to go on (once, or from then on); the part that was read is walked through every getter and compared with the whole, and the next reading has to be whole; distinct: moments of giving up, documents", assumptions=["documents are read in one thread"])

    def make(kind, i):
        r = rng(c, "abort-" + kind, i)
        if kind == "gdtf":
            m = gdtf.Gen(r, api=False, **r.choice([dict(scale=0.4, full=0.6), dict(scale=0.7, full=0.9), dict(scale=0.3, full=1.0)])).build()
            return mkzip([("description.xml", gdtf.serialize(gdtf.to_doc(m, r), r))] + [("thumbnail.png", b"x")] * (r.random() < 0.3), r)
        m = mvr.Gen(r, api=False, **r.choice([dict(), dict(full=0.5), dict(full=1.0)])).build()
        ents = [("GeneralSceneDescription.xml", mvr.serialize(mvr.to_doc(m, r, (1, 6)), r))]
        names = sorted({v for n in m.walk() for k, v in n.a.items() if k == "GdtfName" and v and "/" not in v and v.lower().endswith(".gdtf")})
        for n in names[:2]:
            if r.random() < 0.7:
                g = gdtf.Gen(r, api=False, scale=0.3, full=0.6).build()
                ents.append((n, mkzip([("description.xml", gdtf.serialize(gdtf.to_doc(g, r), r))], r)))
                c.count("fixtures in scenes")
        return mkzip(ents, r)

    c.exe("asan", "pub")
    for kind, total in (("gdtf", c.n(220, 4400)), ("mvr", c.n(220, 4400))):
        def chunk(item):
            a, cnt = item

            def prep(w, s, k):
                for i in range(s, s + k):
                    with open(os.path.join(w, "r%d.%s" % (i, kind)), "wb") as f:
                        f.write(make(kind, i))
                    c.distinct("documents", "%s%d" % (kind, i))
            c.shard("asan", "pub", kind + "_abort", cnt, start=a, per=cnt, jobs=1, prep=prep, case_timeout=120)
        c.pmap(chunk, [(a, min(5, total - a)) for a in range(0, total, 5)])
    c.finish(["moments", "documents"], 100, ["readings given up", "parts compared", "readings after one given up", "abort questions of whole readings", "steps of progress", "fixtures in scenes"])

vlib.main(run)
