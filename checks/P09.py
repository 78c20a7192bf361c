import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

def dmx(k):
    t = k.split(":")[0].split(".")[0].split(">")[0]
    return t in ("ChannelFunction", "ChannelSet", "LogicalChannel") or k.startswith("DMXChannel.Highlight") or k.startswith("DMXChannel>") or k.startswith("MacroDMXValue.Value") or k.startswith("MacroVisualValue.Value")


def run():
    c = vlib.Check("P09", rule="a case is one document whose channels have many functions and sets, at 1 to 4 bytes; start, end, resolution and every inserted gap set are compared with an independent tiling; distinct: documents", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    o = lambda r, i: dict(funcs=lambda r: r.choice([1, 2, 3, 6, 12]), chans=lambda r: r.choice([1, 2, 4]), scale=0.5, full=r.choice([0.3, 0.8]))
    gcheck.Docs(c, o, dmx, kind="tiledocs").run(c.n(700, 14000))
    gcheck.RT(c, o, dmx, ("pre", "rd", "buf", "doc", "re"), kind="tilert").run(c.n(500, 10000))
    c.finish(["models"], 500, ["documents read and compared", "documents read back and compared", "written documents compared"])

vlib.main(run)
