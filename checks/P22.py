import os, sys, base64, warnings, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, gdtf, mvr, hostile
from gcheck import rng
from tree import Node
warnings.filterwarnings('ignore', 'Duplicate name')

PARTS = ["..", "..", "..", "..", ".", "", "a", "b", "home", "GDTFs", "MVR_Export", "GdtfGroup", "other", "canary.txt", "canary.gdtf", "x.png", "x.gdtf", "...", ".. ", "..gdtf", "%2e%2e", "..%2F", "%2F", "~", "C:", "-", "models", "wheels", "description.xml", "GeneralSceneDescription.xml", "\u00e9"]
SPECS = ["..", ".", "...", "../..", "../x", "./..", "..gdtf", "", "/", "..\\..", "a/../..", "%2e%2e", "../GDTFs/other", "x", "canary", "../../canary", "..%2F..%2Fcanary", "other", "../../GDTFs/other/canary"]


def nasty(r, root):
    k = r.random()
    if k < 0.15:
        return r.choice(SPECS) + r.choice(["", ".gdtf", ".gdtf", ".png", "/"])
    if k < 0.25:
        return r.choice(["../", "../../", "../../../", "/", "//", "..//", ".././../", "..\\", "..\\..\\", "a/../../", "models/../../"]) + r.choice(["canary.txt", "canary.gdtf", "GDTFs/other/canary.png", "home/canary.txt", "new.txt", "new/", ""])
    if k < 0.3:
        return root + r.choice(["/a/canary.txt", "/a/b/new.txt", "/a/b/home/canary.txt"])
    s = r.choice(["/", "/", "/", "\\", "//"]).join(r.choice(PARTS) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 7])))
    return r.choice(["", "", "", "/"]) + s


def good(r):
    return r.choice(["x.gdtf", "A.gdtf", "model.glb", "dir/x.3ds", "thumbnail.png", "wheels/g.png", "models/gltf/m.glb", "models\\3ds\\m.3ds"])


def canaries(top):
    home = top + "/a/b/home"
    for d in ("", "/a", "/a/b", "/a/b/new", "/a/b/home", "/a/b/home/GDTFs", "/a/b/home/GDTFs/other", "/a/b/home/Documents", "/a/b/home/Documents/x", "/a/b/home/empty"):
        os.makedirs(top + d, exist_ok=True)
        if not d.endswith("empty"):
            for f in ("canary.txt", "canary.gdtf", "canary.png"):
                with open(top + d + "/" + f, "w") as o:
                    o.write("canary " + d)
    for d, ds, fs in os.walk(top):
        for x in [d] + [d + "/" + f for f in fs]:
            os.chown(x, vlib.NOBODY, vlib.NOBODY)
    return home


def snapshot(top, home, allow):
    out = {}
    skip = {home + "/" + a for a in allow}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if d + "/" + x not in skip]
        out[d[len(top):]] = None
        for f in fs:
            p = d + "/" + f
            if p not in skip:
                with open(p, "rb") as i:
                    out[p[len(top):]] = i.read()
    return out


def stem(n):
    n = n.replace("\\", "/").split("/")[-1]
    return n[:n.rindex(".")] if "." in n else n


def run():
    c = vlib.Check("P22", rule="a case is an archive (MVR with fixtures and resources, or GDTF) whose entries, resources and fixture references have names that lead elsewhere ('..', absolute, other separators and spellings), read, walked through every getter and let go as an unprivileged user in a home full of canaries; every changing call and every file around is watched; distinct: archives and changing calls", assumptions=["the library runs on a POSIX file system; there are no symbolic links in its folders"])
    for kind in ("mvr", "gdtf"):
        total = c.n(700, 14000)
        per = 25

        def make(i):
            r = rng(c, "contain-" + kind, i)
            write = r.random() < 0.25
            top = "@TOP@"
            ns = [nasty(r, top) for _ in range(r.choice([1, 2, 4]))] + [good(r) for _ in range(r.choice([0, 1, 2]))]
            r.shuffle(ns)
            allow = {"MVR_Export", "GDTFs/GdtfGroup"} if kind == "mvr" else {"GDTFs/GdtfGroup"}
            if kind == "mvr":
                m = mvr.Gen(r, api=write, scale=0.5).build()
                specs = []
                for n in m.walk():
                    if "GdtfName" in n.a or n.tag == "Fixture":
                        n.a["GdtfName"] = r.choice(SPECS + ns + [stem(x) for x in ns]) if r.random() < 0.7 else good(r)
                        specs.append(n.a["GdtfName"])
                # (a fixture is taken apart in a folder of its own name)
                for s in specs + ns:
                    for t in (s, s + ".gdtf"):
                        for k in (stem(t), stem(t.replace("%2F", "\\")), t.split("/")[-1].rsplit(".", 1)[0].replace("%2F", "\\"), t.replace("%2F", "\\").split("/")[-1].rsplit(".", 1)[0]):
                            if k not in ("", ".", "..") and "/" not in k and k not in ("other", "canary"):
                                allow.add("GDTFs/" + k)
                g = gdtf.Gen(r, api=False, scale=0.2).build()
                gb = hostile.mkzip([("description.xml", gdtf.serialize(gdtf.to_doc(g, r), r))] + [(nasty(r, top), b"res") for _ in range(r.choice([0, 0, 1, 2]))], r) if not write else b""
                if write:
                    m.c = [k for k in m.c if k.tag not in ("File", "Lib")]
                    if r.random() < 0.6:                # a library of the user's
                        for d in r.sample(["/a/b/home/Documents/x", "/a/b", "/a/b/home/GDTFs/other"], r.choice([1, 2])):
                            m.add("Lib", Name="@LIB@" + d)
                        fx = [n for n in m.walk() if "GdtfName" in n.a]
                        for n in r.sample(fx, min(len(fx), r.choice([1, 2]))):
                            n.a["GdtfName"] = "canary.gdtf"
                            c.count("fixtures of the user's libraries")
                    for n in ns:
                        m.add("File", Name=n, Data="data", Via="buffer", Late="0")
                    return "tree", m.text(), ns + specs, allow
                es = [("GeneralSceneDescription.xml", mvr.serialize(mvr.to_doc(m, r, (1, 6)), r))]
                for n in ns + r.sample(specs, min(len(specs), 3)) + [s + ".gdtf" for s in r.sample(specs, min(len(specs), 3))]:
                    es.append((n or "n", gb if r.random() < 0.6 else b"overwritten"))
                r.shuffle(es)
                return "zip", es, ns + specs, allow
            if write:
                return "names", "\n".join(n for n in ns + ["x"] if "\n" not in n), ns, allow
            m = gdtf.Gen(r, api=False, scale=0.3).build()
            for n in m.walk():
                for a in ("Thumbnail", "MediaFileName", "File"):
                    if a in n.a or (n.tag == "FixtureType" and a == "Thumbnail") or (n.tag == "Model" and a == "File"):
                        if r.random() < 0.6:
                            n.a[a] = r.choice(ns + SPECS)
            return "zip", [("description.xml", gdtf.serialize(gdtf.to_doc(m, r), r))] + [(n or "n", b"overwritten") for n in ns], ns, allow

        def chunk(item):
            a, cnt = item
            inp = {}

            def prep(w, s, k):
                for i in range(s, s + k):
                    top = w + "/k%d" % i
                    what, d, ns, allow = make(i)
                    home = canaries(top)
                    if what == "zip":
                        es = [(n.replace("@TOP@", top), b.replace(b"@TOP@", top.encode()) if n.endswith(".xml") else b) for n, b in d]
                        data = hostile.mkzip(es, rng(c, "zip", i))
                        with open(w + "/k%d.%s" % (i, kind), "wb") as f:
                            f.write(data)
                    else:
                        data = d.replace("@TOP@", top).replace("@LIB@", "k%d" % i).encode("utf-8", "surrogateescape")
                        with open(w + ("/c%d.tree" if what == "tree" else "/k%d.names") % i, "wb") as f:
                            f.write(data)
                    with open(w + "/k%d.allow" % i, "w") as f:
                        f.write("\n".join(sorted(allow)) + "\n")
                    inp[i] = (ns, allow, snapshot(top, home, allow), data)

            def post(w, cases):
                for i in cases:
                    ns, allow, before, data = inp[i]
                    top = w + "/k%d" % i
                    after = snapshot(top, top + "/a/b/home", allow)
                    c.count("archives handled")
                    c.count("files and folders watched", len(before))
                    c.distinct("archives", "%d:%d" % (len(data), zlib.crc32(data)))
                    for n in ns:
                        c.distinct("kinds of name", "/".join(x if x in PARTS else "?" for x in n.split("/"))[:60])
                    rep = "%s case=%d seed=%d names %s\n%s" % (kind, i, c.seed, ns, base64.b64encode(data).decode()[:200000])
                    for p in set(before) | set(after):
                        if p not in after:
                            c.violation("deleted:" + kind, "%s was deleted; names %s" % (p, ns), rep)
                        elif p not in before:
                            c.violation("created:" + kind, "%s was created; names %s" % (p, ns), rep)
                        elif before[p] != after[p]:
                            c.violation("changed:" + kind, "%s was changed; names %s" % (p, ns), rep)
            c.shard("asan", "pub", kind + "_contain", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, case_timeout=60,
                    attach=lambda i: "names %s\n%s" % (inp[i][0], base64.b64encode(inp[i][3]).decode()[:200000]) if i in inp else "")
        c.exe("asan", "pub")
        c.pmap(chunk, [(a, min(per, total - a)) for a in range(0, total, per)])
    c.finish(["archives"], 1000, ["archives handled", "scenes read", "fixtures read", "scenes written", "fixtures written", "values read", "changing calls watched", "files and folders watched"])

vlib.main(run)
