import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, hcheck

def run():
    c = vlib.Check("P15", rule="a case is one archive with a GDTF document damaged in structure, values, text or bytes, read from file and memory, walked through every getter and written again under ASan and UBSan; distinct: inputs and kinds of damage", assumptions=["archives of up to a few hundred kilobytes", "names and content of the archive only; the machine has the memory"])
    hcheck.run(c, hcheck.gdtf_case, "gdtf_read", ".gdtf", c.n(6000, 60000))
    c.finish(["inputs", "kinds of damage"], 1000, ["hostile inputs read", "hostile inputs that gave an object", "values read from them"])

vlib.main(run)
