import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, mcheck

def run():
    c = vlib.Check("P01", rule="a case is one generated scene that was built through the interface, compared through its getters, written, read again and compared value by value with the model; distinct: element.attribute pairs given a value, and scenes", assumptions=["UUIDs are unique", "groups without children are not written", "numbers are compared to the six decimals the library prints"])
    mcheck.RT(c, dict(), kind="rt", checks=("pre", "rd")).run(c.n(700, 14000))
    mcheck.RT(c, dict(full=1.0, scale=1.6), kind="full", checks=("pre", "rd")).run(c.n(120, 2500))
    mcheck.RT(c, dict(full=0.15), kind="sparse", checks=("pre", "rd")).run(c.n(200, 4000))
    mcheck.RT(c, dict(edge=0.15, ctl=True), kind="edge", checks=("pre", "rd")).run(c.n(100, 2000))
    c.finish(["element.attribute used", "models"], 500, ["scenes read back and compared", "scenes compared before writing"])

vlib.main(run)
