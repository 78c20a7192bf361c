import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, mcheck, gcheck


def par(x, variant, n=4):
    x.variant, x.env = variant, {"VR_PAR": str(n)}
    return x


def run():
    c = vlib.Check("P33", rule="a case is a document that a thread builds, writes and reads (or only reads) while three other threads do the same with documents of their own; under ThreadSanitizer, and under AddressSanitizer with the result compared with the model; distinct: documents", assumptions=["each thread has a user folder of its own (documents share the folder they are extracted to)"])
    for v, n in (("tsan", 1), ("asan", 2)):
        c.exe(v, "pub")
        par(gcheck.RT(c, dict(), kind="par-g" + v, checks=("pre", "doc", "rd", "buf", "re")), v).run(c.n(120 * n, 2400), per=12)
        par(gcheck.Docs(c, dict(edge=0.1), kind="par-d" + v), v).run(c.n(120 * n, 2400), per=12)
        par(mcheck.RT(c, dict(scale=0.7), kind="par-m" + v, checks=("pre", "rd")), v).run(c.n(120 * n, 2400), per=12)
        par(mcheck.Docs(c, dict(scale=0.7), kind="par-n" + v), v).run(c.n(120 * n, 2400), per=12)
    c.finish(["models"], 300, ["cases beside others"])

vlib.main(run)
