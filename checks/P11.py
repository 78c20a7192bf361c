import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

import inject

# errors that follow from the one injected because a channel, function or attribute cannot be named any more
NAMES = {9, 10, 17, 21, 58, 59, 62, 63, 67, 68, 69, 70, 72}


def run():
    c = vlib.Check("P11", rule="a case is one authored document: valid (no error may be reported), or with one injected fault (an error of the right kind has to be reported for the right element and line, and no unrelated kind); distinct: kinds of fault, documents", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    gcheck.Docs(c, dict(), lambda k: False, kind="valid").run(c.n(300, 6000))
    # many channels with names that run into each other
    gcheck.Docs(c, dict(big=True, alike=True, chans=lambda r: r.choice([63, 64, 65, 80, 100]), funcs=lambda r: 1), lambda k: False, kind="alike").run(c.n(24, 400), per=1)

    def mutate(m, doc, r):
        cs = inject.candidates(doc)
        ks = sorted(set(x[0].split(":")[0] if x[0].startswith("attribute") else x[0] for x in cs))
        k = r.choice(ks)
        k = r.choice(sorted({x[0] for x in cs if x[0] == k or x[0].startswith(k + ":")}))
        k, e, ch, code, msg, fol = r.choice([x for x in cs if x[0] == k])
        t = inject.apply(e, ch)
        return k, t, code, msg, fol, id(e)

    class D(gcheck.Docs):
        def verify(self, w, i, m, txt, inj, lines):
            chk = self.chk
            k, el, code, msg, fol, pid = inj
            rep = "gdtf_read kind=%s case=%d seed=%d injected=%s\n%s" % (self.kind, i, chk.seed, k, txt.decode("utf-8", "replace")[:12000])
            for part in ("rd", "buf"):
                t = gcheck.rdtree(w, "r%d.%s" % (i, part))
                if t is None:
                    chk.violation("fault:unreadable:" + k, "a document with a fault (%s) is not read at all" % k, rep)
                    continue
                er = [(int(e.a["Type"]), e.a["Node"], e.a["Line"], e.a["Message"]) for e in t.kids("~Error")]
                want = (code, el.tag, str(lines[id(el)]))
                if not any(x[:3] == want and (msg is None or x[3] == msg) for x in er):
                    chk.violation("fault:" + k, "%s: expected error %d at %s line %s%s, reported %s" % (k, code, el.tag, want[2], "" if msg is None else " naming " + msg, er[:8]), rep)
                rest = set(x[0] for x in er) - {code} - set(fol)
                if k.startswith(("reference", "no-function", "first-function", "dmx", "missing:ChannelFunction", "missing:DMX", "missing:Logical")):
                    rest -= NAMES
                if k == "missing:Facet.Rotation":
                    rest -= {50, 51, 52}
                for x in sorted(rest):
                    chk.violation("unrelated:%s:%d" % (k, x), "%s makes reading report an unrelated error %d: %s" % (k, x, er[:8]), rep)
                for x in er:
                    if x[1] and x[2] == "!":
                        chk.violation("no-line:%d" % x[0], "error %s has an element and no line" % (x,), rep)
                chk.count("faults judged")
            chk.distinct("fault kinds", k)
            chk.distinct("models", "%d/%s" % (i, self.kind))
    D(c, dict(), mutate=mutate, kind="faulty").run(c.n(1600, 30000))
    c.finish(["fault kinds", "models"], 500, ["faults judged", "documents read and compared"])

vlib.main(run)
