import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, mcheck

def run():
    c = vlib.Check("P03", rule="a case is one scene written with files from disk, from memory and fixtures looked up in folders; the archive is compared with what was added and the files listed after reading are compared byte by byte; distinct: scenes", assumptions=["file names are unique irrespective of case"])
    mcheck.RT(c, dict(full=0.5, scale=0.5), kind="files", checks=("rd",), files=mcheck.files_for).run(c.n(500, 10000))
    mcheck.RT(c, dict(full=0.8, scale=1.2), kind="more", checks=("rd",), files=mcheck.files_for).run(c.n(100, 2000))
    c.finish(["models"], 300, ["files compared in the archive", "files compared after reading", "scenes read back and compared"])

vlib.main(run)
