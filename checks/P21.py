import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, mvr
from gcheck import rng
from tree import Node


def run():
    c = vlib.Check("P21", rule="a case is a document that is written and read while each call of the file system that this needs fails, once or from then on, the folder or the permission is missing, the disk is full, or the file is cut; distinct: failing calls, documents", assumptions=["a failing write leaves half of its data, a failing fclose half of the file"])

    def make(kind, i):
        r = rng(c, "fault-" + kind, i)
        if kind == "mvr":
            m = mvr.Gen(r, api=True, scale=r.choice([0.3, 0.7])).build()
            m.c = [k for k in m.c if k.tag not in ("File", "Lib")]
            for k in range(r.choice([0, 1, 3])):
                m.add("File", Name="f%d.bin" % k, Data="x" * r.choice([1, 100, 5000]), Via="buffer", Late="0")
            m.a["_Drop"] = "0"
            return m
        m = gdtf.Gen(r, api=True, scale=0.3).build()
        m = m.copy()
        for k in range(r.choice([0, 1, 3])):
            m.add("Resource", Name="f%d.bin" % k, Data="x" * r.choice([1, 100, 5000]), Type=str(r.choice([0, 1, 2])))
        return m

    for kind in ("mvr", "gdtf"):
        total = c.n(120, 2400)

        def chunk(item):
            a, cnt = item

            def prep(w, s, k):
                for i in range(s, s + k):
                    m = make(kind, i)
                    c.distinct("documents", "%s%d" % (kind, i))
                    with open(os.path.join(w, "c%d.tree" % i), "w", errors="surrogateescape") as f:
                        f.write(m.text())
            c.shard("asan", "pub", kind + "_fault", cnt, start=a, per=cnt, jobs=1, prep=prep, case_timeout=60, env={"VR_FSIZE": "1"}, attach=lambda i: make(kind, i).text()[:20000])
        c.exe("asan", "pub")
        c.pmap(chunk, [(a, min(5, total - a)) for a in range(0, total, 5)])
    c.finish(["failing calls", "documents"], 100, ["writes with a failing call", "reads with a failing call", "failures reported", "writes after failures", "reads after failures", "cut files read"])

vlib.main(run)
