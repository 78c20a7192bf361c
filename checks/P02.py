import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import uuid
import vlib, mcheck, mvr

def dangle(m, r):
    """Links that name no object of the file, next to links that do: the latter must still resolve, and everything else be read."""
    exp = m.copy()
    for n, x in list(zip(m.walk(), exp.walk())):
        for k in ("Focus", "Position", "Class", "Multipatch", "SymDef"):
            if n.a.get(k) and r.random() < 0.3:
                n.a[k] = str(uuid.UUID(int=r.getrandbits(128))).upper()
                for q in (k, k + "Name"):
                    x.a.pop(q, None)
    return mvr.expected_read(exp, False)


def run():
    c = vlib.Check("P02", rule="a case is one document authored by an independent writer of the format, with varied spelling of numbers and UUIDs, order and layout, read by the library and compared value by value; or one document written by the library and taken apart by an independent strict reader; distinct: element.attribute pairs used, and documents", assumptions=["UUIDs are unique", "numbers are compared to the six decimals the library prints", "attribute values have no tabs or line breaks"])
    mcheck.Docs(c, dict(), kind="docs").run(c.n(600, 14000))
    mcheck.Docs(c, dict(full=1.0, scale=1.6), kind="full").run(c.n(120, 2500))
    mcheck.Docs(c, dict(full=0.1), kind="sparse").run(c.n(150, 4000))
    mcheck.Docs(c, dict(), kind="plain", variation=False).run(c.n(100, 1000))
    mcheck.Docs(c, dict(full=0.9), kind="dangling", mutate=dangle).run(c.n(120, 2500))
    mcheck.RT(c, dict(edge=0.05), kind="conf", checks=("doc",)).run(c.n(400, 8000))
    mcheck.RT(c, dict(full=1.0, scale=1.5), kind="conf-full", checks=("doc",)).run(c.n(60, 1500))
    c.finish(["element.attribute used", "models"], 500, ["documents read and compared", "written documents compared"])

vlib.main(run)
