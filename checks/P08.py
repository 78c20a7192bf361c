import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, gcheck

REFS = set()
for tag, spec in list(gdtf.SPEC.items()) + [("Geometry", a) for a in gdtf.GEOSPEC.values()]:
    for a in spec:
        if a.typ.startswith("r:"):
            REFS.add(tag.split(":")[0] + "." + a.key)
BACK = ("ActivationGroup.~Attributes", "Feature.~Attributes", "Feature.~Group", "Geometry.~Parent", "Geometry.~Channels", "DMXChannel.~Name", "LogicalChannel.~Name",
        "LogicalChannel.~Parent", "ChannelFunction.~Parent")


def refs(k):
    k = k.split(":")[0]
    return k in REFS or k in BACK


def run():
    c = vlib.Check("P08", rule="a case is one document rich in references, read and compared: every reference getter has to give the very object the document names; distinct: documents, and kinds of reference given", assumptions=["names are unique irrespective of case and free of the characters the library deletes from names", "numbers are compared to the six decimals the library prints"])
    o = dict(refs=1.0, full=0.9)
    gcheck.Docs(c, o, refs, kind="refdocs").run(c.n(450, 9000))
    gcheck.RT(c, o, refs, ("rd", "buf", "doc", "re"), kind="refrt").run(c.n(250, 5000))
    # more than 128 objects of a kind, more than 64 channels: the library looks up another way
    gcheck.Docs(c, dict(big=True, refs=1.0), refs, kind="bigdocs").run(c.n(16, 300), per=1)
    gcheck.Docs(c, dict(big=True, refs=1.0, alike=True, chans=lambda r: r.choice([3, 63, 64, 65, 80, 100]), funcs=lambda r: r.choice([1, 1, 2])), refs, kind="bigalike").run(c.n(16, 300), per=1)
    gcheck.Docs(c, dict(refs=1.0, alike=True), refs, kind="alike").run(c.n(60, 1200))
    gcheck.RT(c, dict(big=True, refs=1.0), refs, ("rd", "buf"), kind="bigrt").run(c.n(8, 160), per=1)
    dangling(c)
    c.finish(["models", "reference kinds", "dangling"], 500, ["documents read and compared", "documents read back and compared", "dangling references reported"])


def dangling(c):
    import inject
    from collections import Counter

    def mutate(m, doc, r):
        cs = [x for x in inject.candidates(doc) if x[0].startswith("reference:")]
        if not cs:
            return None
        k = r.choice(sorted(set(x[0] for x in cs)))
        k, e, ch, code, msg, fol = r.choice([x for x in cs if x[0] == k])
        inject.apply(e, ch)
        return k, id(e), code

    class D(gcheck.Docs):
        def verify(self, w, i, m, txt, inj, lines):
            rep = "gdtf_read kind=%s case=%d seed=%d injected=%s\n%s" % (self.kind, i, self.chk.seed, inj and inj[0], txt.decode("utf-8", "replace")[:12000])
            t = gcheck.rdtree(w, "r%d.rd" % i)
            if t is None:
                self.chk.violation("dangling:unreadable", "a document with one unresolved reference is not read at all", rep)
                return
            if inj is None:
                return
            self.chk.distinct("dangling", inj[0])
            self.chk.count("dangling references reported")
            if not any(int(e.a["Type"]) == inj[2] for e in t.kids("~Error")):
                self.chk.violation("dangling:" + inj[0], "%s names nothing, and reading reports %s" % (inj[0], [e.a for e in t.kids("~Error")][:5]), rep)
    D(c, dict(refs=1.0, full=0.9), mutate=mutate, kind="dangling").run(c.n(250, 5000))

vlib.main(run)
