import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, mcheck

def links(k):
    return k.split(".")[0].split("#")[0] in ("MVR", "Layer", "Group") or any(x in k for x in ("#", "Guid", "Multipatch", "Focus", "Class", "Position", "SymDef", "LinkedDef", "ToObject", "~", "!"))

def run():
    c = vlib.Check("P04", rule="a case is one scene (deep, wide, empty, with links to objects before and after, to nothing, with shared UUIDs) walked through the interface and compared with the tree in the document; distinct: element.attribute pairs used, and scenes", assumptions=["a shared UUID is never the target of a link"])
    shapes = lambda r, i: r.choice([dict(depth=30, scale=0.7, full=0.3), dict(depth=1, scale=7, full=0.2), dict(layers=0), dict(layers=8, scale=0.6), dict(scale=1.5, full=0.8), dict(full=0.6)])
    mcheck.Docs(c, shapes, filt=links, kind="tangle", mutate=mcheck.tangle).run(c.n(700, 15000))
    mcheck.Docs(c, shapes, filt=links, kind="linked").run(c.n(150, 3000))
    mcheck.RT(c, shapes, filt=links, kind="walk", checks=("pre", "rd")).run(c.n(300, 6000))
    c.finish(["element.attribute used", "models"], 500, ["documents read and compared", "scenes read back and compared"])

vlib.main(run)
