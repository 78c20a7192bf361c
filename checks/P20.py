import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, xnetgen, xfullgen


def run():
    c = vlib.Check("P20", rule="a case is a history of a service with concurrent peers, stations that join and leave, messages sent by several threads, or of several services that connect, leave and look for others at once, under ThreadSanitizer; distinct: histories")
    c.exe("tsan", "int")

    def verify(i, s, t, rep):
        c.count("histories of " + s.tag)
        c.distinct("histories", s.text())
    script.run(c, xnetgen.maker(c, "race"), verify, c.n(320, 6000), per=10, variant="tsan", timeout=90)
    script.run(c, xfullgen.maker(c, "racefull", 60), verify, c.n(64, 1200), per=2, variant="tsan", timeout=120, jobs=32)
    c.finish(["histories"], 200, ["histories of xnet", "histories of xfull", "incoming callbacks", "returning callbacks", "messages sent by the service", "services connected", "groups looked at"])

vlib.main(run)
