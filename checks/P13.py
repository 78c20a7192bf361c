import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import io, time, zipfile, datetime
import vlib, zipmodel
from gcheck import rng, rd, rdtree, unzip


def make(c, i):
    r = rng(c, "zip", i)
    s = zipmodel.Script(r, i)
    k = r.random()
    if k < 0.5:
        f, m = s.write("a")
        if r.random() < 0.2:
            s.op("fresh", "ok")
        s.read(f, m)
        if r.random() < 0.3:                           # the object is used again, for another or the same archive
            f, m = s.write(r.choice("ab"))
            if len(s.want) > 1:
                s.want = [w for k_, w in enumerate(s.want) if w[0] not in [x[0] for x in s.want[k_ + 1:]]]
            s.read(f, m)
    else:
        used, es = set(), []
        for _ in range(r.choice([0, 1, 2, 3, 5, 10, 60])):
            n = zipmodel.name(r, used)
            used.add(n)
            es.append([n, zipmodel.blob(r)])
            if r.random() < 0.05 and n + "/" not in used:
                used.add(n + "/")
                es.append([n + "/", b""])
        if es and r.random() < 0.15:                   # a name twice: the first entry counts
            for _ in range(r.choice([1, 2])):
                es.insert(r.randrange(len(es) + 1), [r.choice(es)[0], zipmodel.blob(r)])
        b, m = zipmodel.archive(es, r)
        m = [x for k_, x in enumerate(m) if x[0] not in [y[0] for y in m[:k_]]]
        s.files["z%dx.zip" % i] = b
        s.foreign = True
        s.read("z%dx.zip" % i, m)
        if r.random() < 0.3:
            f, m = s.write("n", rm=False)
            s.read(f, m)
    return s


def entries(c, got, exp, rep, part):
    names = [g.a["Name"] for g in got]
    if names != [e[0] for e in exp]:
        c.violation(part + ":list", "names %s, expected %s" % (names[:8], [e[0] for e in exp][:8]), rep)
        return
    for g, (n, d) in zip(got, exp):
        one(c, g, n, d, rep, part)


def one(c, g, n, d, rep, part):
    c.count("entries read")
    if g.a["Err"] != "0" or g.a["Size"] != str(len(d)) or g.a["Fnv"] != zipmodel.fnv(d):
        c.violation(part + ":data", "entry %r of %d bytes: error %s, %s bytes (%s)" % (n[:80], len(d), g.a["Err"], g.a["Size"], g.a["Fnv"]), rep)
    import binascii
    if g.a["InfoErr"] != "0" or g.a.get("Crc") != str(binascii.crc32(d)) or g.a.get("USize") != str(len(d)) or g.a.get("InfoName") != n:
        c.violation(part + ":info", "entry %r of %d bytes: info %s" % (n[:80], len(d), {k: g.a.get(k) for k in ("InfoErr", "Crc", "USize", "InfoName")}), rep)


def dates(b):
    """(name, seconds since 1970) of the entries; -1 for dates that do not exist. (The zone of the checks is UTC.)"""
    out = []
    with zipfile.ZipFile(io.BytesIO(b)) as z:
        for n in z.infolist():
            try:
                out.append((n.filename, datetime.datetime(*n.date_time, tzinfo=datetime.timezone.utc).timestamp()))
            except ValueError:
                out.append((n.filename, -1))
    return out


def verify(c, w, i, s):
    rep = "zip_ops case=%d seed=%d\n%s" % (i, c.seed, s.root.text()[:20000])
    t = rdtree(w, "z%d.res" % i)
    if t is None:
        c.violation("no-result", "no results", rep)
        return
    part = "read" if s.files else "write"
    c.distinct("scripts", "%s %s" % (part, " ".join(o.a["K"] for o in s.root.c)))
    for op, exp, got in zip(s.root.c, s.exp, t.c):
        k = op.a["K"]
        c.count("operations checked")
        c.distinct("operations", k + ("" if isinstance(exp, list) else ":" + exp))
        if k == "all":
            if "Endless" in got.a:
                c.violation(part + ":endless", "listing does not end", rep)
            entries(c, got.kids("E"), exp, rep, part)
        elif k == "ext":
            if "Endless" in got.a or [g.a["Name"] for g in got.kids("E")] != [e[0] for e in exp]:
                c.violation(part + ":extension", "names with extension glb: %s, expected %s" % ([g.a["Name"] for g in got.kids("E")][:8], [e[0] for e in exp][:8]), rep)
        elif k == "get" and exp == "missing":
            if got.a["Err"] == "0" or got.a["InfoErr"] == "0":
                c.violation(part + ":missing", "entry %r is not there, but was given" % op.a["Name"], rep)
        elif k == "get":
            one(c, got, exp[0][0], exp[0][1], rep, part)
        elif (got.a["E"] == "0") != (exp == "ok"):
            c.violation("%s:%s:%s" % (part, k, exp), "%s %r gives %s" % (k, op.a.get("Name"), got.a["E"]), rep)
    for f, m, T in s.want:
        b = rd(w, f)
        if not m:
            continue
        if b is None:
            c.violation("file:none", "no file %s" % f, rep)
            continue
        ents, probs = unzip(b)
        for p in probs:
            c.violation("file:zipfile", p, rep)
        if list(ents.items()) != [(x[0], x[1]) for x in m]:
            c.violation("file:content", "another reader sees %s, expected %s" % ([(k, len(v)) for k, v in ents.items()][:8], [(k, len(v)) for k, v in m][:8]), rep)
        c.count("written archives read by another reader")
        try:
            ds = dates(b)
        except (zipfile.BadZipFile, ValueError, struct.error) as e:
            c.violation("file:refused", "another reader refuses the archive: %s" % e, rep)
            continue
        for n, d in ds:
            c.count("dates of entries compared")
            if not any(abs(d - x) <= 2 for x in (T,)) and not -7200 <= d - time.time() <= 2:
                c.violation("file:date", "entry %r is of %s, expected %s" % (n, d, time.asctime(time.gmtime(T))), rep)
    c.sample("case %d: %s" % (i, s.root.text()[:600]))


def run():
    c = vlib.Check("P13", rule="a case is a script of operations on archives: adding, removing, listing, reading entries of an archive under construction, of the written file or buffer, and of archives authored by an independent writer (stored, deflated in every strategy, extra fields, comments, descriptors, shuffled directory, gaps); every result is compared with a model and written archives with what Python's zipfile reads; distinct: scripts and operations with outcome", assumptions=["archives are below 4 GB and hold at most a few dozen entries", "names of foreign archives are UTF-8"])
    c.exe("asan", "int")

    def chunk(item):
        a, cnt = item
        ss = {}

        def prep(w, s0, k):
            for i in range(s0, s0 + k):
                s = ss[i] = make(c, i)
                for n, b in s.files.items():
                    with open(os.path.join(w, n), "wb") as f:
                        f.write(b)
                with open(os.path.join(w, "z%d.ops" % i), "w", errors="surrogateescape") as f:
                    f.write(s.root.text())

        def post(w, cases):
            for i in cases:
                verify(c, w, i, ss[i])
        c.shard("asan", "int", "zip_ops", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post)
    total = c.n(1600, 40000)
    c.pmap(chunk, [(a, min(50, total - a)) for a in range(0, total, 50)])
    c.finish(["scripts", "operations"], 1000, ["entries read", "written archives read by another reader"])


vlib.main(run)
