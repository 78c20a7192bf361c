import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

def run():
    c = vlib.Check("P05", rule="a case is one generated document that was built through the interface, written (file or buffer), read again and compared value by value with the model; distinct: element.attribute pairs given a value, and documents", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    gcheck.RT(c, dict(), kind="rt").run(c.n(600, 12000))
    gcheck.RT(c, dict(full=1.0, scale=1.6), kind="full").run(c.n(120, 2500))
    gcheck.RT(c, dict(full=0.15), kind="sparse").run(c.n(200, 4000))
    gcheck.Edit(c, lambda r, i: dict(full=r.choice([0.2, 0.6, 1.0])), kind="edit", checks=("pre", "doc", "rd")).run(c.n(200, 4000))
    c.finish(["element.attribute used", "models"], 500, ["documents read back and compared", "getters compared before writing", "written documents compared", "documents edited"])

vlib.main(run)
