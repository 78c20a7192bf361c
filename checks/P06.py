import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

def run():
    c = vlib.Check("P06", rule="a case is one document authored by an independent writer of the format, with varied spelling of numbers, order and layout, read by the library and compared value by value; and one document written by the library, taken apart by an independent strict reader; distinct: element.attribute pairs used, and documents", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    gcheck.Docs(c, dict(), kind="docs").run(c.n(700, 14000))
    gcheck.Docs(c, dict(full=1.0, scale=1.5), kind="full").run(c.n(120, 2500))
    gcheck.Docs(c, dict(full=0.1), kind="sparse").run(c.n(200, 4000))
    gcheck.RT(c, dict(), kind="conf", checks=("doc",)).run(c.n(400, 8000))
    c.finish(["element.attribute used", "models"], 500, ["documents read and compared", "written documents compared"])

vlib.main(run)
