import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script
from tree import Node
from gcheck import rng

M = ((0.4124564, 0.3575761, 0.1804375), (0.2126729, 0.7151522, 0.0721750), (0.0193339, 0.1191920, 0.9503041))      # sRGB D65
W = ((3.2404542, -1.5371385, -0.4985314), (-0.9692660, 1.8760108, 0.0415560), (0.0556434, -0.2040259, 1.0572252))


def to_cie(rgb):
    lin = [c / 255 / 12.92 if c / 255 <= 0.04045 else ((c / 255 + 0.055) / 1.055) ** 2.4 for c in rgb]
    x, y, z = (sum(m * v for m, v in zip(row, lin)) for row in M)
    s = x + y + z
    return (x / s, y / s, y * 100) if s > 0 else (0, 0, 0)


def to_rgb(x, y, L):
    if abs(y) < 1e-6:
        return (0, 0, 0)
    L /= 100
    v = (x * L / y, L, (1 - x - y) * L / y)
    o = []
    for row in W:
        c = sum(m * k for m, k in zip(row, v))
        c = 1.055 * c ** (1 / 2.4) - 0.055 if c > 0.0031308 else 12.92 * c
        o.append(min(1, max(0, c)) * 255)
    return o


def run():
    c = vlib.Check("P26", rule="a case takes lines of the RGB cube (256 colours each) to CIE and back, and CIE colours inside, at the border and far outside of the gamut to RGB; colours must come back as they were, and both directions are compared with the formulas of sRGB; distinct: lines of the cube and CIE colours", assumptions=["values agree with the formulas within the precision of the published matrices"])
    total = c.n(1600, 1400)
    lines = c.n(16, 47)

    def make(i):
        r = rng(c, "color", i)
        n = Node("color")
        for k in range(lines):
            g = (i * lines + k) % 65536 if c.tier == "thorough" else r.choice([r.randrange(65536), r.choice([0, 1, 254, 255, 10, 11]) * 256 + r.choice([0, 1, 254, 255, 10, 11])])
            n.add("rgb", R=str(g >> 8), G=str(g & 255), K=str(r.randrange(15)))
        for _ in range(20):
            m = r.random()
            x, y, L = (r.uniform(0.15, 0.64), r.uniform(0.06, 0.6), r.uniform(0, 100)) if m < 0.5 else (r.choice([0, 1e-7, 1e-6, 0.3127, 1, -1, 2, 1e300, float("nan"), float("inf")]), r.choice([0, 1e-7, 2e-6, 0.329, 1, -1, 1e-300, 1e300, float("nan"), float("-inf")]), r.choice([0, 1, 50, 100, 200, -5, 1e300, float("nan"), float("inf")])) if m < 0.8 else (r.uniform(-1, 2), r.uniform(-1, 2), r.uniform(-10, 500))
            n.add("cie", X=repr(x), Y=repr(y), L=repr(L))
        return n

    def verify(i, s, t, rep):
        for o, g in zip(s.c, t.c):
            if o.tag == "rgb":
                c.count("colours taken to CIE and back", 256)
                c.distinct("lines", o.a["R"] + "," + o.a["G"])
                if g.get("N") != "0":
                    c.violation("round trip", g.get("Bad", "?"), rep)
                for p in g.kids("P"):
                    b, x, y, L = p.a["V"].split()
                    e = to_cie((int(o.a["R"]), int(o.a["G"]), int(b)))
                    c.count("CIE values compared")
                    dark = int(o.a["R"]) + int(o.a["G"]) + int(b) == 0
                    if not dark and max(abs(float(x) - e[0]), abs(float(y) - e[1]), abs(float(L) - e[2]) / 100) > 0.001:
                        c.violation("to cie", "%s %s %s gives %s %s %s, expected %s" % (o.a["R"], o.a["G"], b, x, y, L, e), rep)
            else:
                v = [int(k) for k in g.get("V").split()]
                x, y, L = (float(o.a[k]) for k in "XYL")
                c.distinct("CIE colours", o.text())
                c.count("RGB values compared")
                if g.get("E") != "0" or min(v) < 0 or max(v) > 255:
                    c.violation("range", "%s gives %s" % (o.text().strip(), v), rep)
                elif all(abs(k) < 1000 for k in (x, y, L)) and not 1e-7 < abs(y) < 1e-5:
                    e = to_rgb(x, y, L)
                    tol = 1 if 0.05 <= y and 0 <= x and abs(L) <= 100 else 3 if y > 0.01 else None
                    if tol and max(abs(a - b) for a, b in zip(v, e)) > tol:
                        c.violation("to rgb", "%s gives %s, expected %s" % (o.text().strip(), v, e), rep)
        c.sample("case %d: %s" % (i, s.text()[:300]))
    script.run(c, make, verify, total, per=25)
    c.finish(["lines", "CIE colours"], 1000, ["colours taken to CIE and back", "CIE values compared", "RGB values compared"])

vlib.main(run)
