"""Running MVR scenes through the library and comparing with the independent model (mvr.py)."""
import os, random
import mvr
from gcheck import rng, rd, rdtree, codes, unzip, mkzip, size_of, shape, report
from tree import Node


def facts(chk, exp, t, part, rep, version=None):
    """What must hold of any scene read, given what should be in it."""
    n = sum(1 for o in mvr.all_objects(exp) if o.tag != "Group")
    if t.a.get("~SceneObjectCount") != str(n):
        chk.violation(part + ":object-count", "the scene has %d objects that are not groups, GetSceneObjectCount says %s" % (n, t.a.get("~SceneObjectCount")), rep)
    ids = [o.a["Guid"].upper() for o in mvr.all_objects(exp) if o.tag != "Group"]
    dup = "1" if len(set(ids)) != len(ids) else "0"
    if t.a.get("~Duplicated") != dup:
        chk.violation(part + ":duplicates", "duplicate UUIDs: expected %s, got %s" % (dup, t.a.get("~Duplicated")), rep)
    if version and t.a.get("~Version") != "0:%s" % version:
        chk.violation(part + ":version", "version of the document is %s, got %s" % (version, t.a.get("~Version")), rep)
    for e, g in zip(exp.kids("SymDef"), t.kids("SymDef")):
        want = "1" if any(k.a["Kind"] == "sym" for k in e.kids("Geo")) else "0"
        if g.a.get("~ContainsSymbol") != want:
            chk.violation(part + ":contains-symbol", "symbol definition %s: contains symbols %s, expected %s" % (e.a["Guid"], g.a.get("~ContainsSymbol"), want), rep)


class RT:
    """Scenes built through the interface, written, taken apart and read again."""
    variant, env = "asan", None

    def __init__(self, chk, opts, filt=None, checks=("pre", "doc", "rd"), kind="rt", mutate=None, files=None):
        self.chk, self.opts, self.filt, self.checks, self.kind, self.mutate, self.files = chk, opts, filt, checks, kind, mutate, files

    def run(self, total, per=None, jobs=None):
        self.chk.exe(self.variant, "pub")
        per = per or max(1, min(40, (total + 31) // 32))
        self.chk.pmap(self._chunk, [(a, min(per, total - a)) for a in range(0, total, per)], jobs)

    def model(self, i):
        r = rng(self.chk, self.kind, i)
        o = dict(self.opts(r, i) if callable(self.opts) else self.opts)
        m = mvr.Gen(r, **o).build()
        if self.mutate:
            self.mutate(m, r)
        return m, r

    def _chunk(self, item):
        a, cnt = item
        self_models = {}

        def prep(w, s, c):
            for i in range(s, s + c):
                m, r = self.model(i)
                t = m.copy()
                t.a["_Drop"] = r.choice("01")
                t.a["_Twice"] = r.choice("001")
                fs = self.files(m, t, r, i, w) if self.files else None
                self_models[i] = (m, fs)
                with open(os.path.join(w, "c%d.tree" % i), "w", errors="surrogateescape") as f:
                    f.write(t.text())

        def post(w, cases):
            for i in cases:
                self.verify(w, i, *self_models[i])
        self.chk.shard(self.variant, "pub", "mvr_rt", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, env=self.env)

    def verify(self, w, i, m, fs):
        chk = self.chk
        rep = "mvr_rt kind=%s case=%d seed=%d\n%s" % (self.kind, i, chk.seed, m.text()[:8000])
        c = codes(rd(w, "c%d.log" % i))
        chk.count("scenes written")
        chk.sample("%s case %d: %s" % (self.kind, i, m.text()[:500]))
        chk.count("elements written", size_of(m))
        for s in shape(m):
            chk.distinct("element.attribute used", s)
        chk.distinct("models", "%s/%d" % (self.kind, i))
        for k, vs in c.items():
            for v in vs:
                if k == "problem":
                    chk.violation("api:" + v.split("%")[0], "building the scene: " + v, rep)
                elif v != "0":
                    chk.violation("api:" + k.split(".")[0], "%s returned %s" % (k, v), rep)
        if "pre" in self.checks:
            out = []
            mvr.compare(mvr.with_defaults(m), rdtree(w, "c%d.pre" % i), out)
            report(chk, "pre", out, rep, self.filt)
            chk.count("scenes compared before writing")
        data = rd(w, "m%d.mvr" % i) or b""
        ents, probs = unzip(data)
        for p in probs:
            chk.violation("archive", p, rep)
        if fs is not None:
            self.check_files(fs, ents, rdtree(w, "c%d.rd" % i), rep)
        elif set(ents) != {"GeneralSceneDescription.xml"}:
            chk.violation("entries", "archive entries %s" % sorted(ents)[:20], rep)
        xml = ents.get("GeneralSceneDescription.xml")
        if xml is None:
            chk.violation("entries:none", "no GeneralSceneDescription.xml", rep)
            return
        if "doc" in self.checks:
            got, probs = mvr.from_doc(xml)
            r2 = rep + "\n" + xml.decode("utf-8", "replace")[:6000]
            for p in probs:
                chk.violation("doc:" + p.split(":")[0], p, r2)
            if got is not None:
                exp = mvr.expected_read(m)
                out = []
                mvr.compare(exp, got, out)
                for x, y in zip(exp.walk(), got.walk()):
                    if x.tag == y.tag == "Geo" and x.a.get("InstGuid") and not mvr.guid_eq(x.a["InstGuid"], y.a.get("InstGuid")):
                        pass
                for k in ("AppName", "AppVersion"):
                    if k in m.a and m.a[k] != got.a.get(k):
                        out.append(("MVR." + k, "%s expected %r, got %r" % (k, m.a[k], got.a.get(k))))
                report(chk, "doc", out, r2, self.filt)
                chk.count("written documents compared")
                self.inst(exp, got, r2)
        if "rd" in self.checks:
            t = rdtree(w, "c%d.rd" % i)
            if t is None:
                chk.violation("rd:unreadable", "the written scene cannot be read", rep)
                return
            exp = mvr.expected_read(m)
            out = []
            mvr.compare(exp, t, out)
            report(chk, "rd", out, rep + "\n" + xml.decode("utf-8", "replace")[:6000], self.filt)
            if not out:
                facts(chk, exp, t, "rd", rep)
            chk.count("scenes read back and compared")

    def inst(self, exp, got, rep):
        def col(n):
            return [g.a.get("InstGuid", "").upper() for g in n.walk() if g.tag == "Geo" and g.a["Kind"] == "sym"]
        if sorted(col(exp)) != sorted(col(got)):
            self.chk.violation("doc:symbol-uuid", "UUIDs of symbols written: %s, expected %s" % (sorted(col(got))[:4], sorted(col(exp))[:4]), rep)

    def check_files(self, fs, ents, t, rep):
        """fs: entry -> bytes expected in the archive"""
        chk = self.chk
        want = dict(fs)
        want["GeneralSceneDescription.xml"] = None
        if set(want) != set(ents):
            chk.violation("files:entries", "archive has %s, expected %s" % (sorted(set(ents) - set(want))[:6], sorted(set(want) - set(ents))[:6]), rep)
        for k, v in want.items():
            if v is not None and k in ents:
                chk.count("files compared in the archive")
                if ents[k] != v:
                    chk.violation("files:archive-bytes", "entry %r has %d bytes that differ from the %d added" % (k, len(ents[k]), len(v)), rep)
        if t is None:
            return
        self.check_listed(want, t, rep)

    def check_listed(self, want, t, rep):
        chk = self.chk
        listed = [f.a["Name"] for f in t.kids("~File")]
        exp = sorted(k.rsplit("/", 1)[-1] for k in want if k != "GeneralSceneDescription.xml")
        if sorted(listed) != exp:
            chk.violation("files:listed", "attached files listed %s, expected %s" % (sorted(listed)[:8], exp[:8]), rep)
        for f in t.kids("~File"):
            v = want.get(f.a["Name"])
            if v is None:
                continue
            h = 1469598103934665603
            for b in v:
                h = ((h ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
            chk.count("files compared after reading")
            if f.a["Size"] != str(len(v)) or f.a["Fnv"] != "%016x" % h:
                chk.violation("files:read-bytes", "file %r read back has %s bytes (%s...), %d were added" % (f.a["Name"], f.a["Size"], f.a["Data"][:16], len(v)), rep)


class Docs:
    """Authored documents read by the library."""
    variant, env = "asan", None

    def __init__(self, chk, opts, filt=None, kind="docs", mutate=None, variation=True, expect=None):
        self.chk, self.opts, self.filt, self.kind, self.mutate, self.variation, self.expect = chk, opts, filt, kind, mutate, variation, expect

    def run(self, total, per=None, jobs=None):
        self.chk.exe(self.variant, "pub")
        per = per or max(1, min(40, (total + 31) // 32))
        self.chk.pmap(self._chunk, [(a, min(per, total - a)) for a in range(0, total, per)], jobs)

    def make(self, i):
        r = rng(self.chk, self.kind, i)
        o = dict(self.opts(r, i) if callable(self.opts) else self.opts)
        m = mvr.Gen(r, api=False, **o).build()
        exp = None
        if self.mutate:
            exp = self.mutate(m, r)                    # changes the model that is serialised; may return what is expected instead
        ver = (r.choice([1, 1, 1, 2, 7]), r.choice([0, 4, 5, 6, 12]))
        doc = mvr.to_doc(m, r if self.variation else None, ver)
        return m, exp if exp is not None else mvr.expected_read(m, False), mvr.serialize(doc, r if self.variation else None), "%d.%d" % ver, r

    def _chunk(self, item):
        a, cnt = item
        ms = {}

        def prep(w, s, c):
            for i in range(s, s + c):
                m, exp, txt, ver, r = self.make(i)
                ms[i] = (m, exp, txt, ver)
                with open(os.path.join(w, "r%d.mvr" % i), "wb") as f:
                    f.write(mkzip([("GeneralSceneDescription.xml", txt)], r))

        def post(w, cases):
            for i in cases:
                self.verify(w, i, *ms[i])
        self.chk.shard(self.variant, "pub", "mvr_read", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, env=self.env)

    def verify(self, w, i, m, exp, txt, ver):
        chk = self.chk
        rep = "mvr_read kind=%s case=%d seed=%d\n%s" % (self.kind, i, chk.seed, txt.decode("utf-8", "replace")[:12000])
        chk.count("documents authored")
        chk.sample("%s case %d: %s" % (self.kind, i, txt.decode("utf-8", "replace")[:500]))
        chk.count("elements authored", size_of(m))
        for s in shape(m):
            chk.distinct("element.attribute used", s)
        chk.distinct("models", "%s/%d" % (self.kind, i))
        t = rdtree(w, "r%d.rd" % i)
        if t is None:
            chk.violation("rd:unreadable", "a valid document cannot be read: %s" % rd(w, "r%d.log" % i), rep)
            return
        out = []
        mvr.compare(exp, t, out)
        report(chk, "rd", out, rep, self.filt)
        if not out:
            facts(chk, exp, t, "rd", rep, ver)
        if rd(w, "r%d.rd" % i) != rd(w, "r%d.rd2" % i):
            chk.violation("rd:second-walk", "walking the scene a second time shows another scene", rep)
        chk.count("documents read and compared")


def blob(r):
    n = r.choice([1, 2, 5, 22, 30, 1000, 4096, 4097, 65536]) if r.random() < 0.4 else int(10 ** r.uniform(0, 4.6))
    k = r.random()
    if k < 0.4:
        b = bytes(r.getrandbits(8) for _ in range(n))
    elif k < 0.7:
        b = (b"{\"a\":1}\n" * (n // 8 + 1))[:n]
    elif k < 0.8:
        b = b"\0" * n
    else:                                              # looks like parts of an archive
        p = b"".join(r.choice([b"PK\3\4", b"PK\1\2", b"PK\5\6" + b"\0" * 18, b"\r\n", b"\xff", b"x" * 30]) for _ in range(n // 8 + 1))
        b = (p * (n // len(p) + 1))[:n]
    return b


def files_for(m, t, r, i, w):
    """Adds files (from disk, from memory, fixtures from folders) to the tree; returns what the archive must hold."""
    fs, used = {}, set()

    def name(ext):
        while True:
            s = r.choice(["model", "Tex ture", "größe", "灯", "a.b.c", "README", "x", "It's", "A&B", "UPPER", "long" * r.randrange(1, 30)]) + r.choice(["", "1", "_2", str(r.randrange(10000))]) + ext
            if fs and r.random() < 0.3:
                s = mvr.akin(r, r.choice(sorted(fs)), ext)
            if s.lower() not in used and s.lower() != "generalscenedescription.xml":
                used.add(s.lower())
                return s

    def put(nm, data, **a):
        t.add("File", Name=nm, Data=data.decode("utf-8", "surrogateescape"), **a)
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        nm, d = name(r.choice([".glb", ".3ds", ".png", "", ".bin"])), blob(r)
        fs[nm] = d
        put(nm, d, Via=r.choice(["buffer", "buffer", "disk"]), Late=r.choice("01"))
    libs = r.choice([[], [0], [0, 1], [1, 0]])
    for l in libs:
        t.add("Lib", Name="lib%d" % (100 * i + l))
    wanted = []
    for o in mvr.all_objects(mvr.expected_read(m)):
        g = o.a.get("GdtfName", "")
        if g and g not in wanted:
            wanted.append(g)
    for g in wanted:
        if "/" in g or "\\" in g or g.lower() in used or len(g) > 200:
            continue
        have = {}
        for l in (0, 1, 2):
            if r.random() < 0.7:
                have[l] = blob(r)
                put(g, have[l], Via="gdtf", Dir=str(100 * i + l), Late="0")
        got = [have[l] for l in libs if l in have]
        if got:
            fs[g] = got[0]
            used.add(g.lower())
    # a fixture that is in the folder but that nothing refers to
    if libs and r.random() < 0.3:
        put(name(".gdtf"), b"unused", Via="gdtf", Dir=str(100 * i + libs[0]), Late="0")
    return fs


def tangle(m, r):
    """Broken links and shared UUIDs: what is expected then."""
    exp = None
    objs = [o for o in mvr.all_objects(m) if o.tag != "Group"]
    every = list(mvr.all_objects(m))
    targets = {v.upper() for n in m.walk() for k, v in n.a.items() if k in ("Multipatch", "Focus", "Class", "Position", "SymDef", "ToObject")}
    g = mvr.Gen(r)
    g.guids = {n.a["Guid"] for n in m.walk() if "Guid" in n.a}
    if objs and r.random() < 0.4:
        for _ in range(r.choice([1, 1, 3])):
            a, b = r.choice(objs), r.choice(objs)
            if a is not b and b.a["Guid"] not in targets:
                b.a["Guid"] = a.a["Guid"]
    elif every and r.random() < 0.3:                   # a group, a layer or a symbol definition may share the UUID of an object
        a = r.choice(every)
        others = [n for n in m.walk() if n.tag in ("Group", "Layer", "MappingDefinition") and n is not a and "Guid" in n.a]
        if others and a.a["Guid"] not in targets:
            r.choice(others).a["Guid"] = a.a["Guid"]
    exp = mvr.expected_read(m, False)
    if r.random() < 0.5:
        for n, e in zip(m.walk(), exp.walk()):
            for k in ("Multipatch", "Focus", "Class", "Position", "SymDef"):
                if n.a.get(k) and r.random() < 0.3:
                    n.a[k] = g.guid()
                    e.a[k] = ""
                    if k + "Name" in e.a:
                        e.a[k + "Name"] = ""
    return exp
