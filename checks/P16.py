import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, hcheck

def run():
    c = vlib.Check("P16", rule="a case is one archive with a scene description (and fixtures beside it) damaged in structure, values, text or bytes, read and walked twice through every getter under ASan and UBSan; distinct: inputs and kinds of damage", assumptions=["archives of up to a few hundred kilobytes", "names and content of the archive only; the machine has the memory"])
    hcheck.run(c, hcheck.mvr_case, "mvr_read", ".mvr", c.n(7000, 60000))
    c.finish(["inputs", "kinds of damage"], 1000, ["hostile inputs read", "hostile inputs that gave an object", "values read from them"])

vlib.main(run)
