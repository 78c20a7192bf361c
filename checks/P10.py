import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

def foot(k):
    return "~Breaks" in k or k.startswith("Break") or "DMXBreak" in k or k.split(":")[0] in ("DMXChannel.Coarse", "DMXChannel.Fine", "DMXChannel.Ultra", "DMXChannel.Uber", "DMXChannel.~Resolution", "Geometry>Break") or k.startswith("Geometry.~Channels")


def run():
    c = vlib.Check("P10", rule="a case is one document whose geometry trees have references with breaks and whose modes have many channels; footprint, breaks and the channels of every mode are compared with an independent computation; distinct: documents", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    o = lambda r, i: dict(chans=lambda r: r.choice([1, 3, 8, 20]), funcs=lambda r: 1, scale=r.choice([0.6, 1.2]), full=0.5, refs=0.3)
    gcheck.Docs(c, o, foot, kind="footdocs").run(c.n(700, 14000))
    gcheck.RT(c, o, foot, ("pre", "rd", "buf", "doc", "re"), kind="footrt").run(c.n(400, 8000))
    c.finish(["models"], 500, ["documents read and compared", "documents read back and compared", "written documents compared"])

vlib.main(run)
