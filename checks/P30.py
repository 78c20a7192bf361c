import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, same, hcheck, hostile, gdtf, mvr
from gcheck import rng


def run():
    c = vlib.Check("P30", rule="a case is a document that is read (sound or damaged) or built and written twice: with zeroed memory, the C locale, UTC and in one order, and with memory full of garbage, another compiler level, a locale with decimal commas, another time zone, date and environment and after other documents; everything that comes out is compared; distinct: inputs", assumptions=["dates of archive entries are those of the clock"])

    def g_tree(i):
        r = rng(c, "same", i)
        m = gdtf.Gen(r, api=True, scale=r.choice([0.3, 0.6, 1.0]), full=r.choice([0.2, 0.6, 1.0])).build()
        m.a["_Mode"] = r.choice(["buffer", "file"])
        m.a["_Twice"] = r.choice("001")
        return {"c%d.tree" % i: m.text().encode("utf-8", "surrogateescape")}

    def m_tree(i):
        r = rng(c, "same", i)
        m = mvr.Gen(r, api=True, scale=r.choice([0.5, 1, 2]), full=r.choice([0.2, 0.6, 1.0])).build()
        m.a["_Drop"] = r.choice("01")
        m.a["_Twice"] = r.choice("001")
        return {"c%d.tree" % i: m.text().encode("utf-8", "surrogateescape")}

    def g_doc(i):
        r = rng(c, "samedoc", i)
        m = gdtf.Gen(r, api=False, scale=r.choice([0.3, 0.6, 1.0]), full=r.choice([0.2, 0.6, 1.0])).build()
        return {"r%d.gdtf" % i: hostile.mkzip([("description.xml", gdtf.serialize(gdtf.to_doc(m, r), r))], r)}

    def m_doc(i):
        r = rng(c, "samedoc", i)
        m = mvr.Gen(r, api=False, scale=r.choice([0.5, 1, 2])).build()
        return {"r%d.mvr" % i: hostile.mkzip([("GeneralSceneDescription.xml", mvr.serialize(mvr.to_doc(m, r, (1, 6)), r))], r)}

    def z_doc(i):                                      # the compressed data is damaged and nothing else
        r = rng(c, "samezip", i)
        n, b = (next(iter((g_doc if i % 2 else m_doc)(700000 + i).items())))
        b = bytearray(b)
        k = 30 + int.from_bytes(b[26:28], "little") + int.from_bytes(b[28:30], "little")
        e = len(b) - 22 if b.find(b"PK\x01\x02") < 0 else b.find(b"PK\x01\x02")
        for _ in range(r.choice([1, 1, 2, 4])):
            j = r.randrange(k, min(e, k + r.choice([4, 40, 400, 1 << 30])))
            b[j] ^= 1 << r.randrange(8)
        return {"r%d%s" % (i, os.path.splitext(n)[1]): bytes(b)}
    half = c.n(600, 12000)
    same.run(c, "gdtf-damaged", half, lambda i: {n.replace("r%d" % (2 * i + 1), "r%d" % i): b for n, b in z_doc(2 * i + 1).items()}, "gdtf_read", ["r#.rd", "r#.buf", "r#.re", "r#.log"], 25)
    same.run(c, "mvr-damaged", half, lambda i: {n.replace("r%d" % (2 * i), "r%d" % i): b for n, b in z_doc(2 * i).items()}, "mvr_read", ["r#.rd", "r#.rd2", "r#.log"], 25)
    same.run(c, "gdtf-hostile", c.n(800, 16000), lambda i: {"r%d.gdtf" % i: hcheck.gdtf_case(c, 500000 + i)[0]}, "gdtf_read", ["r#.rd", "r#.buf", "r#.re", "r#.log"], 25)
    same.run(c, "mvr-hostile", c.n(800, 16000), lambda i: {"r%d.mvr" % i: hcheck.mvr_case(c, 500000 + i)[0]}, "mvr_read", ["r#.rd", "r#.rd2", "r#.log"], 25)
    same.run(c, "gdtf-read", c.n(250, 5000), g_doc, "gdtf_read", ["r#.rd", "r#.buf", "r#.re", "r#.log"], 10)
    same.run(c, "mvr-read", c.n(250, 5000), m_doc, "mvr_read", ["r#.rd", "r#.rd2", "r#.log"], 10)
    same.run(c, "gdtf-built", c.n(250, 5000), g_tree, "gdtf_rt", ["c#.pre", "c#.rd", "c#.buf", "c#.re", "c#.third", "c#.log", "g#.gdtf", "c#.gdtf2"], 10)
    same.run(c, "mvr-built", c.n(250, 5000), m_tree, "mvr_rt", ["c#.pre", "c#.rd", "c#.log", "m#.mvr"], 10)
    c.finish(["inputs"], 1500, ["pairs of executions compared", "characters compared", "outputs compared: g.gdtf", "outputs compared: m.mvr", "outputs compared: r.rd", "outputs compared: c.rd"])

vlib.main(run)
