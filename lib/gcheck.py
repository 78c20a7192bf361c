"""Running GDTF models through the library and comparing with the independent model (gdtf.py)."""
import os, io, re, random, zipfile
import gdtf
from tree import Node, parse


def rng(chk, kind, i):
    return random.Random("%s/%d/%s/%d" % (chk.pid, chk.seed, kind, i))


def rd(w, name):
    p = os.path.join(w, name)
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def rdtree(w, name):
    b = rd(w, name)
    return None if b is None else parse(b.decode("utf-8", "surrogateescape"))


def codes(log):
    d = {}
    for t in log.decode().split():
        k, _, v = t.partition("=")
        d.setdefault(k, []).append(v)
    return d


def unzip(data):
    """name -> bytes of an archive, checked entry by entry by Python's zipfile; also problems."""
    probs, out = [], {}
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            for n in z.infolist():
                if n.filename in out:
                    probs.append("entry %r twice" % n.filename)
                out[n.filename] = z.read(n)
    except Exception as ex:
        probs.append("%s: %s" % (type(ex).__name__, ex))
    return out, probs


def mkzip(entries, r=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, d in entries:
            z.writestr(zipfile.ZipInfo(n, (2024, 1, 2, 3, 4, 6)), d, zipfile.ZIP_DEFLATED if r is None or r.random() < 0.8 else zipfile.ZIP_STORED)
    return b.getvalue()


def size_of(model):
    return sum(1 for _ in model.walk())


def shape(model):
    """What makes a model different from another for the coverage: which elements and attributes it uses."""
    s = set()
    for n in model.walk():
        for k in n.a:
            s.add(n.tag + "." + k)
    return s


def report(chk, prefix, diffs, replay, filt=None):
    for k, text in diffs:
        if filt is None or filt(k):
            chk.violation(prefix + ":" + k, text, replay)


def problems(chk, t, part, replay):
    """What the harness found wrong while it walked through the getters of a sound document."""
    for e in t.kids("~Problem"):
        k = re.sub(r"[^A-Za-z.]+", "-", re.sub(r"\b[a-z]+:[0-9.:]+", "", e.a["Text"].split(" is ")[0]))[:60]
        chk.violation("%s:getter:%s" % (part, k), "walking through the document read: %s" % e.a["Text"], replay)


class RT:
    """Write/read cases: builds each model through the interface, writes it, reads it again."""
    variant, env = "asan", None

    def __init__(self, chk, opts, filt=None, checks=("pre", "doc", "rd", "buf", "re"), kind="rt", resources=None, mutate=None, cmd=("gdtf_rt",)):
        self.chk, self.opts, self.filt, self.checks, self.kind, self.resources, self.mutate, self.cmd = chk, opts, filt, checks, kind, resources, mutate, cmd

    def model(self, i):
        r = rng(self.chk, self.kind, i)
        o = dict(self.opts(r, i) if callable(self.opts) else self.opts)
        m = gdtf.Gen(r, **o).build()
        if self.mutate:
            self.mutate(m, r)
        res = self.resources(m, r, i) if self.resources else []
        return m, r, res

    def run(self, total, per=None, jobs=None):
        chk = self.chk
        chk.exe(self.variant, "pub")
        per = per or max(1, min(40, (total + 31) // 32))
        chk.pmap(self._chunk, [(a, min(per, total - a)) for a in range(0, total, per)], jobs)

    def _chunk(self, item):
        a, cnt = item
        self.models = {}

        def prep(w, s, c):
            for i in range(s, s + c):
                m, r, res = self.model(i)
                t = m.copy()
                mode = r.choice(["buffer", "file"])
                t.a["_Mode"] = mode
                if r.random() < 0.3:
                    t.a["_Twice"] = "1"
                if res and mode == "buffer":
                    late = r.random() < 0.6
                    for x in res:
                        x.a["Late"] = r.choice("01") if late else "0"
                    t.a["_Hist"] = "".join("R" * r.choice([0, 0, 1, 2]) for _ in "x") + ("L" if late else "") + "R" * r.choice([0, 0, 1, 2])
                for x in res:
                    t.c.append(x)
                self.models[i] = (m, res, mode)
                with open(os.path.join(w, "c%d.tree" % i), "w", errors="surrogateescape") as f:
                    f.write(t.text())

        def post(w, cases):
            for i in cases:
                m, res, mode = self.models[i]
                self.verify(w, i, m, res, mode)
        self.chk.shard(self.variant, "pub", self.cmd[0], cnt, self.cmd[1:], start=a, per=cnt, jobs=1, prep=prep, post=post, env=self.env)

    def verify(self, w, i, m, res, mode):
        chk = self.chk
        rep = "gdtf_rt kind=%s case=%d seed=%d mode=%s\n%s" % (self.kind, i, chk.seed, mode, m.text()[:6000])
        log = rd(w, "c%d.log" % i)
        c = codes(log)
        chk.count("documents written")
        chk.count("elements written", size_of(m))
        for s in shape(m):
            chk.distinct("element.attribute used", s)
        chk.distinct("models", "%d/%s" % (i, self.kind))
        for k, vs in c.items():
            for v in vs:
                if k == "problem":
                    chk.violation("api:" + v.split("%")[0], "building the document: " + v, rep)
                elif ".len" in k:
                    if v.split(":")[0] != "0":
                        chk.violation("api:" + k, "%s returned %s" % (k, v), rep)
                elif v != "0":
                    chk.violation("api:" + k, "%s returned %s" % (k, v), rep)
        if "pre" in self.checks:
            exp = gdtf.expected_read(m, True) if mode in ("reread", "filed") else gdtf.with_defaults(m)
            out = []
            gdtf.compare(exp, rdtree(w, "c%d.pre" % i), out)
            chk.count("getters compared before writing")
            if mode == "same":                         # (writing adds the channel sets that are missing)
                out = [x for x in out if x[0] != "ChannelFunction>ChannelSet:count"]
            report(chk, "pre", out, rep, self.filt)
        data = rd(w, "g%d.gdtf" % i)
        ents, probs = unzip(data)
        for p in probs:
            chk.violation("archive", p, rep)
        want = {"description.xml"} | set(x.x for x in res)
        if set(ents) != want:
            chk.violation("entries", "archive entries %s, expected %s" % (sorted(ents)[:20], sorted(want)[:20]), rep)
        for x in res:
            if x.x in ents and ents[x.x] != x.a["Data"].encode("utf-8", "surrogateescape"):
                chk.violation("resource-bytes", "entry %s differs from what was added" % x.x, rep)
            chk.count("resources compared")
        if "description.xml" not in ents:
            return
        if "doc" in self.checks and mode not in ("reread", "filed"):  # (a document read has its names, initial functions and channel sets filled in)
            got, probs = gdtf.from_doc(ents["description.xml"])
            for p in probs:
                chk.violation("doc:" + p.split(":")[0].replace(" ", "_"), p, rep + "\n" + ents["description.xml"].decode("utf-8", "replace")[:4000])
            out = []
            gdtf.compare(gdtf.expected_doc(m), got, out)
            report(chk, "doc", out, rep + "\n" + ents["description.xml"].decode("utf-8", "replace")[:4000], self.filt)
            chk.count("written documents compared")
        exp = gdtf.expected_read(m, True)
        for part in ("rd", "buf"):
            if part not in self.checks:
                continue
            t = rdtree(w, "c%d.%s" % (i, part))
            if t is None:
                chk.violation(part + ":unreadable", "the written document cannot be read: %s" % log.decode(), rep)
                continue
            for e in t.kids("~Error"):
                chk.violation("%s:parsing-error-%s" % (part, e.a.get("Type")), "reading a written document reports %s" % e.a, rep)
            problems(chk, t, part, rep)
            out = []
            gdtf.compare(exp, t, out)
            report(chk, part, out, rep, self.filt)
            chk.count("documents read back and compared")
        if mode == "file" or "re" in self.checks:
            b2 = rd(w, "c%d.gdtf2" % i)
            if b2 is not None and b2 != data:
                chk.violation("buffer-vs-file", "the buffer (%d bytes) is not the file written (%d bytes)" % (len(b2), len(data)), rep)
        if "re" in self.checks:
            b = rd(w, "c%d.re" % i)
            if not b:
                chk.violation("re:missing", "refreshing the buffer of the document read gives nothing: %s" % log.decode(), rep)
                return
            e2, probs = unzip(b)
            for p in probs:
                chk.violation("re:archive", p, rep)
            if e2.get("description.xml") != ents["description.xml"]:
                g2, pr = gdtf.from_doc(e2.get("description.xml", b""))
                out = []
                g1 = gdtf.from_doc(ents["description.xml"])[0]
                if g2 is not None:
                    for g in (g1, g2):
                        gdtf.fill_names(g)
                    gdtf.compare(g1, g2, out)
                chk.count("resaved documents that differ textually")
                report(chk, "re", out, rep, self.filt)
            chk.count("resaved documents compared")


class Edit(RT):
    """Edit histories: a document that was built with other values (or read back) is changed to what the model says."""
    KINDS = ("d", "s", "c", "m", "R", "V", "u", "i", "u8", "b", "y", "t", "h")
    FIXED = {"MacroDMXStep.Duration", "FixtureType.Manufacturer", "FixtureType.FixtureTypeID", "DMXChannel.Coarse", "DMXChannel.Fine", "DMXChannel.Ultra", "DMXChannel.Uber", "Attribute.Pretty", "SubPhysicalUnit.PhysicalFrom", "SubPhysicalUnit.PhysicalTo"}                                      # made with the element, there is no way to set it later
    REFS = {"filter": "Filter", "emit": "Emitter", "cs": "ColorSpace", "gam": "Gamut", "prof": "DMXProfile", "wheel": "Wheel", "model": "Model"}

    def before(self, m, r):
        """m with other values, which are changed to those of m through setters."""
        g = gdtf.Gen(r)
        o = m.copy()
        n_changed = 0

        def rec(n, parent):
            nonlocal n_changed
            if n.tag in ("PinPatch", "Relation", "MacroDMXValue", "MacroVisualValue", "GamutPoint", "ChannelSet"):  # (reading adds the sets that are missing)
                return
            for a in gdtf.attrs_of(n, parent):
                k = n.tag + "." + a.key
                if a.key in n.a and a.typ[:2] == "r:" and a.typ[2:] in self.REFS and r.random() < 0.5:
                    n.a[a.key] = "%s:%d" % (a.typ[2:], r.randrange(len(m.kids(self.REFS[a.typ[2:]]))))
                    self.chk.count("references changed")
                    self.chk.distinct("element.attribute edited", k)
                if a.key not in n.a or k in self.FIXED or not (a.typ in self.KINDS or a.typ.startswith("e:")):
                    continue
                if r.random() < 0.5:
                    n.a[a.key] = g.val(a)
                    n_changed += 1
                    self.chk.distinct("element.attribute edited", k)
            for x in n.c:
                rec(x, n.tag)
        rec(o, None)
        self.chk.count("values changed", n_changed)
        return o

    def _chunk(self, item):
        a, cnt = item
        self.models = {}

        def prep(w, s, c):
            for i in range(s, s + c):
                m, r, _ = self.model(i)
                o, t = self.before(m, r), m.copy()
                how = r.choice(["same", "reread", "filed"])
                t.a["_How"] = {"same": "same", "reread": "buffer", "filed": "file"}[how]
                self.models[i] = (m, how)
                for n, x in (("c", t), ("e", o)):
                    with open(os.path.join(w, "%s%d.tree" % (n, i)), "w", errors="surrogateescape") as f:
                        f.write(x.text())

        def post(w, cases):
            for i in cases:
                m, how = self.models[i]
                self.verify(w, i, m, [], how)
        self.chk.shard(self.variant, "pub", "gdtf_edit", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, env=self.env)


class Docs:
    """Authored documents: serialised by this model, read by the library."""
    variant, env = "asan", None

    def __init__(self, chk, opts, filt=None, kind="docs", mutate=None, variation=True):
        self.chk, self.opts, self.filt, self.kind, self.mutate, self.variation = chk, opts, filt, kind, mutate, variation

    def run(self, total, per=None, jobs=None):
        chk = self.chk
        chk.exe(self.variant, "pub")
        per = per or max(1, min(40, (total + 31) // 32))
        chk.pmap(self._chunk, [(a, min(per, total - a)) for a in range(0, total, per)], jobs)

    def make(self, i):
        r = rng(self.chk, self.kind, i)
        o = dict(self.opts(r, i) if callable(self.opts) else self.opts)
        m = gdtf.Gen(r, api=False, **o).build()
        if r.random() < 0.5:
            gdtf.thin(m, r)
        doc = gdtf.to_doc(m, r if self.variation else None)
        lines = {}
        inj = self.mutate(m, doc, r) if self.mutate else None
        txt = gdtf.serialize(doc, r if self.variation else None, lines)
        return m, doc, txt, lines, inj, r

    def _chunk(self, item):
        a, cnt = item
        self.models = {}

        def prep(w, s, c):
            for i in range(s, s + c):
                m, doc, txt, lines, inj, r = self.make(i)
                self.models[i] = (m, txt, inj, lines)
                with open(os.path.join(w, "r%d.gdtf" % i), "wb") as f:
                    f.write(mkzip([("description.xml", txt)], r))

        def post(w, cases):
            for i in cases:
                self.verify(w, i, *self.models[i])
        self.chk.shard(self.variant, "pub", "gdtf_read", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, env=self.env)

    def verify(self, w, i, m, txt, inj, lines):
        chk = self.chk
        rep = "gdtf_read kind=%s case=%d seed=%d\n%s" % (self.kind, i, chk.seed, txt.decode("utf-8", "replace")[:12000])
        chk.count("documents authored")
        chk.count("elements authored", size_of(m))
        for s in shape(m):
            chk.distinct("element.attribute used", s)
        chk.distinct("models", "%d/%s" % (i, self.kind))
        log = rd(w, "r%d.log" % i)
        exp = gdtf.expected_read(m, False)
        for part in ("rd", "buf"):
            t = rdtree(w, "r%d.%s" % (i, part))
            if t is None:
                chk.violation(part + ":unreadable", "a valid document cannot be read: %s" % log.decode(), rep)
                continue
            self.errors(t, inj, lines, part, rep)
            problems(chk, t, part, rep)
            out = []
            gdtf.compare(exp, t, out)
            report(chk, part, out, rep, self.filt)
            chk.count("documents read and compared")

    def errors(self, t, inj, lines, part, rep):
        for e in t.kids("~Error"):
            self.chk.violation("%s:parsing-error-%s" % (part, e.a.get("Type")), "reading a valid document reports %s" % e.a, rep)
