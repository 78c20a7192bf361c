import os, sys, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from gcheck import rng, unzip
from tree import Node
warnings.filterwarnings('ignore', 'Duplicate name')

# Names a POSIX file system takes; '%xx' and ':' are an encoding of the library's own (macOS), '/' ends a name.
CHARS = ["*", "?", "<", ">", "a", "B", "z9", " ", "  ", ".", "..", "-", "_", "+", "~", "#", "&", "'", '"', "(", ")", "[", "]", "{", "}", "=", ",", ";", "@", "$", "!", "\u00e9", "\u00df", "\u0416", "\u65e5\u672c", "\U0001f4a1", "e\u0301"]


def name(r, used, ext):
    while True:
        k = r.random()
        if k < 0.25:
            s = r.choice(["a", "Fixture", "x y", "v1.2.3", "a.gdtf", "A.MVR", "x.tar", ".hidden", "-n", "~", "long" * r.choice([10, 40, 60])])
        else:
            s = "".join(r.choice(CHARS) for _ in range(r.choice([1, 2, 3, 5, 9])))
        s += ext
        b = s.encode()
        if s in ("", ".", "..") or len(b) > 250 or s.strip(" .") == "" or s.rstrip(" .") != s or s.lstrip(" ") != s or s.lower() in used:
            continue
        used.add(s.lower())
        return s


def run():
    c = vlib.Check("P35", rule="a case is a document written with resources from disk and read again, all of them under paths of the application: through '.' and '..' and doubled separators, with spaces, dots, quotes and characters of any script, in a home folder of such a name; distinct: paths", assumptions=["paths are full, as the interface names them, UTF-8, and their folders exist, names have no '%' followed by hexadecimal digits, no backslash or colon and no leading or trailing space or dot"])

    def make(i):
        r = rng(c, "paths", i)
        used = set()
        dirs = [""]
        for _ in range(r.choice([1, 2, 3, 4])):
            d = r.choice(dirs)
            dirs.append((d + "/" if d else "") + name(r, used, ""))
        home = "home" + name(r, used, "") if r.random() < 0.5 else "home"
        cwd = r.choice(dirs)
        kind = r.choice(["gdtf", "mvr"])

        def path(d, n):
            full = (d + "/" if d else "") + n
            p = "@/" + full
            parts = p.split("/")
            if r.random() < 0.35 and not (p.startswith("@") and len(parts) < 2):
                at = r.randrange(1, len(parts)) if p.startswith("@") else r.randrange(len(parts))
                parts.insert(at, r.choice([".", "."] + ([""] if at else ["."])))
                p = "/".join(parts)
            if r.random() < 0.2 and "/" in full:
                x = full.split("/")[0]
                p = "@/" + x + "/../" + full
            return p
        t = Node("P")
        t.a.update(Kind=kind, Home=home, Cwd=cwd or ".")
        dd = r.choice(dirs)
        dn = name(r, used, r.choice(["." + kind] * 4 + ["", ".x"]))
        docfile = (dd + "/" if dd else "") + dn
        t.a["Doc"] = path(dd, dn)
        files, want = {}, {}
        if kind == "gdtf":
            th = None
            for k in range(r.choice([0, 1, 2, 3])):
                d, n = r.choice(dirs), name(r, used, r.choice([".png", ".png", "", ".txt"]))
                data = "data %d %d" % (i, k)
                files[(d + "/" if d else "") + n] = data
                want[n] = data
                t.add("Src", Path=path(d, n))
                if n.endswith(".png") and th is None and n != ".png":
                    th = n
                    t.a["Thumb"], t.a["ThumbData"] = n[:-4], data
            want["description.xml"] = None
        else:
            for k in range(r.choice([0, 1, 2, 3])):
                d, n = r.choice(dirs), name(r, used, r.choice([".glb", ".3ds", "", ".png"]))
                data = "data %d %d" % (i, k)
                files[(d + "/" if d else "") + n] = data
                want[n] = data
                t.add("Src", Path=path(d, n))
            for k in range(r.choice([0, 1, 2])):
                d = r.choice(dirs)
                p = path(os.path.dirname(d), os.path.basename(d)) if d else "@"
                t.add("Lib", Path=p)
                for _ in range(r.choice([1, 2])):
                    n = name(r, used, ".gdtf")
                    if n == ".gdtf":
                        continue
                    data = "gdtf %d %s" % (i, n)
                    files[(d + "/" if d else "") + n] = data
                    want[n] = data
                    t.add("Fx", Name=n)
            want["GeneralSceneDescription.xml"] = None
        return t, dirs, home, files, docfile, want

    c.exe("asan", "pub")
    total, per = c.n(4000, 60000), 30

    def chunk(item):
        a, cnt = item
        cases = {i: make(i) for i in range(a, a + cnt)}

        def prep(w, s, k):
            for i in range(s, s + k):
                t, dirs, home, files, docfile, want = cases[i]
                b = os.path.join(w, "p%d" % i)
                for d in dirs + [home]:
                    os.makedirs(os.path.join(b, d), exist_ok=True)
                for n, d in files.items():
                    with open(os.path.join(b, n), "w") as f:
                        f.write(d)
                for d, ds, fs in os.walk(b):
                    os.chown(d, vlib.NOBODY, vlib.NOBODY)
                u = t.copy()
                for n in [u] + u.c:
                    for q in ("Doc", "Path"):
                        if q in n.a and n.a[q].startswith("@"):
                            n.a[q] = b + n.a[q][1:]
                with open(os.path.join(w, "p%d.tree" % i), "w") as f:
                    f.write(u.text())

        def post(w, done):
            for i in done:
                t, dirs, home, files, docfile, want = cases[i]
                b = os.path.join(w, "p%d" % i)
                rep = "paths of case %d:\n%s\nfiles: %r" % (i, t.text(), sorted(files))
                for n in [t] + t.c:
                    for k in ("Doc", "Path"):
                        if k in n.a:
                            c.distinct("paths", n.a[k])
                with open(os.path.join(w, "p%d.log" % i)) as f:
                    log = f.read().split()
                got = {}
                for x in log:
                    if x.startswith("file="):
                        p, _, d = x[5:].partition("|")
                        p = vlib.unesc(p)
                        got[os.path.basename(p)] = vlib.unesc(d)
                    else:
                        c.violation("status:" + t.a["Kind"] + ":" + x.split("=")[0], "case %d: %s for %s" % (i, x, t.a["Doc"]), rep)
                here = {}
                for d, ds, fs in os.walk(b):
                    for f in fs:
                        p = os.path.relpath(os.path.join(d, f), b)
                        if not p.startswith(home + "/"):
                            with open(os.path.join(d, f), "rb") as o:
                                here[p] = o.read()
                c.count("files looked at", len(here))
                for p, d in files.items():
                    if here.get(p) != d.encode():
                        c.violation("source:" + t.a["Kind"], "case %d: the application's file %r is %s afterwards" % (i, p, "gone" if p not in here else "another"), rep)
                extra = set(here) - set(files) - {docfile}
                if extra:
                    c.violation("elsewhere:" + t.a["Kind"], "case %d: %r were made, the document is %r" % (i, sorted(extra), docfile), rep)
                if docfile not in here:
                    c.violation("missing:" + t.a["Kind"], "case %d: there is no document at %r" % (i, docfile), rep)
                    continue
                ents, probs = unzip(here[docfile])
                for p in probs:
                    c.violation("archive", p, rep)
                if set(ents) != set(want):
                    c.violation("entries:" + t.a["Kind"], "case %d: the document has %r instead of %r" % (i, sorted(ents), sorted(want)), rep)
                for n, d in want.items():
                    if d is not None and n in ents and ents[n] != d.encode():
                        c.violation("bytes:" + t.a["Kind"], "case %d: the entry %r has other bytes" % (i, n), rep)
                if t.a["Kind"] == "mvr":
                    exp = {n: d for n, d in want.items() if d is not None}
                    if got != exp:
                        c.violation("taken-out", "case %d: read back are %r instead of %r" % (i, got, exp), rep)
                c.count("entries compared", len(ents))
        c.shard("asan", "pub", "paths", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, case_timeout=60)
    c.pmap(chunk, [(a, min(per, total - a)) for a in range(0, total, per)])
    c.finish(["paths"], 200, ["documents written and read", "files looked at", "entries compared"])

vlib.main(run)
