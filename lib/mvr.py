"""Independent model of MVR scenes: a generator of scenes, a writer and a strict reader of GeneralSceneDescription.xml, and
what an application should observe through the interface. Written from the format, not from the library's code."""
import random, re
import xml.etree.ElementTree as ET
from tree import Node, num_eq, nums_eq

IDENT = "1,0,0,0,1,0,0,0,1,0,0,0"
NOGUID = "00000000-0000-0000-0000-000000000000"
OBJ = ["Group", "SceneObj", "FocusPoint", "Truss", "VideoScreen", "Fixture", "Projector", "Support"]
XOBJ = {"Group": "GroupObject", "SceneObj": "SceneObject"}
XOBJ.update({o: o for o in OBJ if o not in XOBJ})
RXOBJ = {v: k for k, v in XOBJ.items()}
SRC = {0: "NDI", 1: "File", 3: "CITP", 4: "CaptureDevice"}
SCALE = {0: "ScaleKeepRatio", 1: "ScaleIgnoreRatio", 2: "KeepSizeCenter"}
TRANS = {0: "Unicast", 1: "Multicast", 2: "Broadcast", 3: "Anycast"}
DEFCOLOR = "0.312712,0.329008,100"
# attribute -> (type, default) of every tag, as trees show them
_obj = {"Guid": ("g", None), "Name": ("s", ""), "Matrix": ("v", IDENT)}
_link = {"Multipatch": ("g", ""), "Class": ("g", ""), "ClassName": ("s", "")}
_gdtf = {"GdtfName": ("s", ""), "GdtfMode": ("s", "")}
SPEC = {
    "Provider": {"Provider": ("s", ""), "Version": ("s", "")}, "Entry": {"Key": ("s", ""), "Value": ("s", "")},
    "Position": {"Guid": ("g", None), "Name": ("s", "")}, "Class": {"Guid": ("g", None), "Name": ("s", "")},
    "SymDef": {"Guid": ("g", None), "Name": ("s", "")},
    "MappingDefinition": {"Guid": ("g", None), "Name": ("s", ""), "SizeX": ("i", "0"), "SizeY": ("i", "0"), "ScaleHandling": ("i", "0")},
    "Source": {"Value": ("s", ""), "LinkedGeometry": ("s", ""), "Type": ("i", "0")},
    "Geo": {"Kind": ("s", None), "File": ("s", ""), "SymDef": ("g", ""), "Matrix": ("v", IDENT)},
    "CustomCommand": {"Function": ("s", ""), "Percent": ("i", "0"), "Value": ("d", "0")},
    "Alignment": {"Geometry": ("s", ""), "Up": ("v", "0,0,0"), "Direction": ("v", "0,0,0")},
    "Overwrite": {"Universal": ("s", ""), "Target": ("s", "")},
    "Connection": {"Own": ("s", ""), "Other": ("s", ""), "ToObject": ("g", NOGUID)},
    "Address": {"Absolute": ("i", "0"), "Break": ("i", "0")},
    "Mapping": {"LinkedDef": ("g", None), "Ux": ("i", "0"), "Uy": ("i", "0"), "Ox": ("i", "0"), "Oy": ("i", "0"), "Rz": ("d", "0")},
    "Protocol": {"Geometry": ("s", "NetworkInOut_1"), "Name": ("s", ""), "Type": ("s", ""), "Version": ("s", ""), "Transmission": ("i", "3")},
    "Layer": dict(_obj), "Group": dict(_obj), "FocusPoint": dict(_obj, **_link),
}
for _t in ("SceneObj", "Truss", "Support"):
    SPEC[_t] = dict(_obj, **_link, **_gdtf)
SPEC["VideoScreen"] = dict(SPEC["Truss"])
SPEC["Projector"] = dict(SPEC["Truss"], ScaleHandling=("i", "0"))
SPEC["Fixture"] = dict(SPEC["Truss"], Function=("s", ""), UnitNumber=("i", "0"), FixtureId=("s", ""), FixtureIdNumeric=("i", "0"), Color=("v", DEFCOLOR),
                       FixtureTypeId=("i", "0"), CustomId=("i", "0"), Gobo=("s", ""), GoboRotation=("d", "0"), CastShadow=("i", "0"), InvertPan=("i", "0"),
                       InvertTilt=("i", "0"), Focus=("g", ""), Position=("g", ""), PositionName=("s", ""))
AUX = ["Provider", "Position", "Class", "SymDef", "MappingDefinition"]
LISTS = {t: ["Geo", "CustomCommand", "Alignment", "Overwrite"] for t in OBJ + ["Layer"]}
LISTS["Fixture"] = LISTS["Fixture"] + ["Address", "Mapping", "Connection", "Protocol"]
LISTS["VideoScreen"] = LISTS["VideoScreen"] + ["Source"]
LISTS["Projector"] = LISTS["Projector"] + ["Source"]
LISTS.update({"MVR": AUX + ["Layer"], "Provider": ["Entry"], "SymDef": ["Geo"], "MappingDefinition": ["Source"]})


def objects(n):
    return [k for k in n.c if k.tag in OBJ]


def all_objects(n):
    for k in n.c:
        if k.tag in OBJ or k.tag == "Layer":
            if k.tag != "Layer":
                yield k
            yield from all_objects(k)


WORDS = "Stage Truss Spot Wash LED Bühne Körper лампа 灯具 é🎭 A&B <x> \"q\" it's a;b 100% #1 x=y (z) [k] back\\slash half/full comma,ed &amp; ]]> -- ~ ^ `".split()


def akin(r, s, ext):
    """A file name that is much like another one: part of it, more than it, or with another end."""
    b = s[:-len(ext)] if ext and s.endswith(ext) else s
    b = r.choice([lambda: b[1:], lambda: b[len(b) // 2:], lambda: b[:-1], lambda: "a" + b, lambda: b + "a", lambda: b + ".x", lambda: s, lambda: b[::-1]])() or "q"
    return b + ext


class Gen:
    """full: how likely optional things are there; scale: how much there is."""

    def __init__(self, r, full=0.6, scale=1.0, api=True, depth=3, edge=0.0, layers=None, aux=True, dup=0.0, ctl=False):
        self.ctl = ctl
        self.left = 300
        self.r, self.full, self.scale, self.api, self.depth, self.edge, self.layers, self.aux, self.dup = r, full, scale, api, depth, edge, layers, aux, dup
        self.names, self.guids, self.files, self.gdtfs = set(), set(), [], []

    def p(self, x=None):
        return self.r.random() < (self.full if x is None else x)

    def n(self, hi):
        return self.r.randrange(0, max(1, int(hi * self.scale)) + 1) if self.p(max(self.full, 0.3)) else 0

    def guid(self):
        while True:
            b = bytes(self.r.choice([self.r.randrange(256), 0, 255]) for _ in range(16)) if self.r.random() < 0.1 else bytes(self.r.randrange(256) for _ in range(16))
            s = "%s-%s-%s-%s-%s" % (b[:4].hex(), b[4:6].hex(), b[6:8].hex(), b[8:10].hex(), b[10:].hex())
            s = s.upper()
            if s not in self.guids and s != NOGUID:
                self.guids.add(s)
                return s

    def text(self, empty=0.1, uniq=False):
        r = self.r
        while True:
            if r.random() < empty and not uniq:
                return ""
            s = r.choice([" ", "_", "", "."]).join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3]))) + (str(r.randrange(1000)) if r.random() < 0.4 or uniq else "")
            if r.random() < 0.02:
                s = s * r.randrange(2, 60)
            if self.edge and r.random() < self.edge:
                s = r.choice([" " + s, s + " ", "  " + s + "  "] + (["a\tb" + s, s + "x\ny", s + "\ty"] if self.ctl else []))
            if not uniq or s not in self.names:
                self.names.add(s)
                return s

    def word(self, empty=0.0):
        return "" if self.r.random() < empty else self.r.choice(["Body", "Yoke", "Head", "Beam 1", "Pan_Tilt", "CH1", "Größe", "a.b", "x-y", "Shutter1Strobe", "Dimmer/fine", "Gobo1,Index"])

    def fname(self, ext):
        while True:
            s = self.r.choice(["geo", "Körper", "a b", "x.y", "MODEL", "灯", "It's", "A&B", "p_1-2", "pc%_"]) + str(self.r.randrange(10000)) + ext
            if self.files and self.r.random() < 0.35:
                s = akin(self.r, self.r.choice(self.files), ext)
            if s.lower() not in self.names:
                self.names.add(s.lower())
                self.files.append(s)
                return s

    def num(self):
        r = self.r
        return r.choice([lambda: 0.0, lambda: 1.0, lambda: -1.0, lambda: round(r.uniform(-1, 1), 6), lambda: round(r.uniform(-1e5, 1e5), 3), lambda: round(r.uniform(-1e3, 1e3), 6), lambda: r.randrange(-100000, 100000) * 1.0, lambda: r.choice([1e-6, -1e-6, 0.1, 1e-3, 123456789.125])])()

    def nums(self, k):
        return ",".join(repr(self.num()) for _ in range(k))

    def matrix(self):
        r = self.r
        q = r.random()
        if q < 0.3:
            return IDENT
        if q < 0.5:
            return "1,0,0,0,1,0,0,0,1," + self.nums(3)
        if q < 0.6:                                    # one entry off the identity
            m = [float(x) for x in IDENT.split(",")]
            i = r.randrange(12)
            m[i] += r.choice([1e-3, -1e-3, 0.5, 1e-5, 2.0])
            return ",".join(repr(x) for x in m)
        if q < 0.65:
            return "0,0,0,0,0,0,0,0,0,0,0,0"
        return self.nums(12)

    def geos(self, n, syms, hi=3):
        for _ in range(self.n(hi)):
            if syms and self.p(0.4):
                n.add("Geo", Kind="sym", SymDef=self.r.choice(syms), Matrix=self.matrix(), InstGuid=self.guid())
            else:
                n.add("Geo", Kind="geo", File=self.fname(self.r.choice([".3ds", ".glb", ".gltf"])), Matrix=self.matrix())

    def source(self, n):
        n.add("Source", Value=self.text(), LinkedGeometry=self.text(0.3), Type=str(self.r.choice(list(SRC))), _Late=self.r.choice("01"))

    def u32(self, hi=2 ** 31 - 1):
        return str(self.r.choice([0, 1, self.r.randrange(10), self.r.randrange(10000), self.r.randrange(hi), hi]))

    def build(self):
        r = self.r
        root = Node("MVR")
        if self.p():
            root.a["AppName"], root.a["AppVersion"] = self.text(0), self.text(0)
        self.syms, self.classes, self.positions, self.maps = [], [], [], []
        for _ in range(self.n(2)):
            k = root.add("Provider", Provider=self.text(), Version=self.text())
            for _ in range(self.n(4)):
                k.add("Entry", Key=self.text(), Value=self.text())
        for _ in range(self.n(4)):
            self.positions.append(root.add("Position", Guid=self.guid(), Name=self.text(0, True)))
        for _ in range(self.n(4)):
            self.classes.append(root.add("Class", Guid=self.guid(), Name=self.text(0, True)))
        for _ in range(self.n(4)):
            k = root.add("SymDef", Guid=self.guid(), Name=self.text())
            self.syms.append(k.a["Guid"])
        r.shuffle(self.syms)
        for k in root.kids("SymDef"):                  # acyclic: only later ones in the shuffled order
            self.geos(k, self.syms[self.syms.index(k.a["Guid"]) + 1:])
        for _ in range(self.n(3)):
            k = root.add("MappingDefinition", Guid=self.guid(), Name=self.text(0.1), SizeX=self.u32(), SizeY=self.u32(), ScaleHandling=str(r.randrange(3)))
            if self.p(0.8):
                self.source(k)
                k.kid("Source").a.pop("_Late")
            self.maps.append(k.a["Guid"])
        nl = self.layers if self.layers is not None else r.choice([0, 1, 1, 2, 3]) if self.full < 0.9 else r.choice([1, 2, 3])
        for _ in range(nl):
            k = root.add("Layer", Guid=self.guid(), Name=self.text())
            self.children(k, self.depth, int(6 * self.scale))
        self.link(root)
        return root

    def children(self, n, depth, hi):
        deep = depth > 5                               # a chain of containers instead of a bush
        for j in range(self.r.randrange(0, hi + 1) if not deep else self.r.choice([1, 1, 1, 2, 3])):
            self.left -= 1
            if self.left < 0:
                return
            t = self.r.choice(OBJ + ["Fixture", "Fixture", "Group"])
            k = n.add(t, Guid=self.guid(), Name=self.text())
            self.obj(k)
            if depth > 0 and (t == "Group" or self.p(0.15) or deep):
                self.children(k, depth - 1 if not deep or j == 0 else 1, max(1, hi // 2))

    def obj(self, n):
        r, t = self.r, n.tag
        if t != "Layer":
            n.a["Matrix"] = self.matrix() if self.p(0.7) else IDENT
        if t == "Group" and r.random() < 0.3:
            n.a["_Ctor"] = "named"
        self.geos(n, self.syms)
        if "GdtfName" in SPEC[t]:
            if self.p():
                n.a["GdtfName"] = self.fname(".gdtf") if r.random() < 0.9 else self.text(0)
                if r.random() < 0.15 and self.gdtfs:
                    n.a["GdtfName"] = r.choice(self.gdtfs)
                self.gdtfs.append(n.a["GdtfName"])
            if self.p():
                n.a["GdtfMode"] = self.text(0)
        for _ in range(self.n(2)):
            n.add("CustomCommand", Function=self.word(), Percent=r.choice("01"), Value=repr(self.num()), _Late=r.choice("01"))
        for _ in range(self.n(2)):
            n.add("Alignment", Geometry=self.word(0.2), Up=self.nums(3), Direction=self.nums(3), _Late=r.choice("01"))
        for _ in range(self.n(2)):
            n.add("Overwrite", Universal=self.text(0.2), Target=self.text(0.2), _Late=r.choice("01"))
        if t in ("VideoScreen", "Projector"):
            if self.p():
                self.source(n)
            if t == "Projector" and self.p():
                n.a["ScaleHandling"] = str(r.randrange(3))
        if t == "Fixture":
            for k, f in dict(Function=lambda: self.text(0), UnitNumber=lambda: r.choice(["-1", "7", "2147483647", "-2147483648", str(r.randrange(1000))]), FixtureId=lambda: self.text(0), FixtureIdNumeric=lambda: self.u32(), Color=lambda: "%r,%r,%r" % (round(r.random(), 6), round(r.random(), 6), round(r.uniform(0, 100), 3)),
                             FixtureTypeId=lambda: str(r.randrange(-128, 128)), CustomId=lambda: self.u32(), CastShadow=lambda: "1", InvertPan=lambda: "1", InvertTilt=lambda: "1").items():
                if self.p():
                    n.a[k] = f()
            if self.p():
                n.a["Gobo"] = self.fname("") if r.random() < 0.8 else self.text(0)
                n.a["GoboRotation"] = repr(self.num())
            for b in r.sample(range(0, 20), min(20, self.n(3))):
                n.add("Address", Absolute=str(r.choice([0, 1, 512, 513, r.randrange(1, 512 * 400), 2 ** 31 - 1])), Break=str(b))
            for d in r.sample(self.maps, min(len(self.maps), self.n(2))):
                n.add("Mapping", LinkedDef=d, Ux=self.u32(), Uy=self.u32(), Ox=self.u32(), Oy=self.u32(), Rz=repr(self.num()))
            for _ in range(self.n(2)):
                n.add("Protocol", Geometry=self.word(0.3), Name=self.text(0.2), Type=self.text(0.2), Version=self.text(0.2), Transmission=str(r.randrange(4)))

    def link(self, root):
        r = self.r
        objs = list(all_objects(root))
        focus = [o for o in objs if o.tag == "FocusPoint"]
        plain = [o for o in objs if o.tag != "Group"]
        for o in objs:
            if o.tag == "Group":
                continue
            if self.classes and self.p(0.5):
                c = r.choice(self.classes)
                o.a["Class"], o.a["ClassName"] = c.a["Guid"], c.a["Name"]
            same = [x for x in plain if x.tag == o.tag and x is not o]
            if same and self.p(0.25):
                o.a["Multipatch"] = r.choice(same if r.random() < 0.8 else [x for x in plain if x is not o]).a["Guid"]
            if o.tag == "Fixture":
                if focus and self.p(0.6):
                    o.a["Focus"] = r.choice(focus).a["Guid"]
                if self.positions and self.p(0.6):
                    q = r.choice(self.positions)
                    o.a["Position"], o.a["PositionName"] = q.a["Guid"], q.a["Name"]
                for _ in range(self.n(2)):
                    o.add("Connection", Own=self.text(0.2), Other=self.text(0.2), ToObject=r.choice(objs).a["Guid"], _Late=r.choice("01"))


# ---------------------------------------------------------------------------------------------------------
def with_defaults(model, linked=True):
    m = model.copy()
    for n in m.walk():
        for k, (t, d) in SPEC.get(n.tag, {}).items():
            if k not in n.a and d is not None:
                n.a[k] = d
        if n.tag == "Protocol" and n.a["Geometry"] == "":
            n.a["Geometry"] = "NetworkInOut_1"
        if n.tag in ("VideoScreen", "Projector") and not n.kid("Source"):
            pass
    return m


def prune(m):
    """Groups without children are not part of a written document."""
    for n in list(m.walk()):
        n.c = [k for k in n.c if not (k.tag == "Group" and not objects(k))]
    return m


def expected_read(model, written=True):
    m = with_defaults(model)
    if written:
        prune(m)
    return m


def guid_eq(a, b):
    return (a or "").upper() == (b or "").upper()


def same(t, e, g):
    if g is None:
        return False
    if t == "s":
        return e == g
    if t == "g":
        return guid_eq(e, g)
    if t == "i":
        try:
            return int(e) == int(g)
        except ValueError:
            return False
    if t == "d":
        return num_eq(e, g)
    return nums_eq(e, g)


def compare(exp, got, out, path="", skip=(), limit=25):
    if len(out) >= limit:
        return
    here = path + "/" + exp.tag + ("[%s]" % exp.a.get("Guid", exp.a.get("Name", ""))[:8] if path else "")
    if exp.tag != got.tag:
        out.append((exp.tag + "~tag", "%s: expected a %s, got a %s" % (here, exp.tag, got.tag)))
        return
    for k, (t, d) in SPEC.get(exp.tag, {}).items():
        if k in skip or exp.tag + "." + k in skip:
            continue
        e, g = exp.a.get(k, d), got.a.get(k)
        if g is None and "!" + k not in got.a and e in ("", None):
            continue
        if not same(t, e, g):
            out.append((exp.tag + "." + k, "%s: %s expected %r, got %r%s" % (here, k, e, g, " (error %s)" % got.a["!" + k] if "!" + k in got.a else "")))
    for k, v in got.a.items():
        if k.startswith("!"):
            out.append((exp.tag + "." + k, "%s: %s = %s" % (here, k, v)))
        if k.startswith("~dir"):
            out.append((exp.tag + "." + k, "%s: file outside the working folder: %s" % (here, v)))
    for t in LISTS.get(exp.tag, []):
        kids(exp.kids(t), got.kids(t), t, here, out, skip, limit)
    if exp.tag in OBJ or exp.tag == "Layer":
        kids(objects(exp), objects(got), "children", here, out, skip, limit)


def kids(e, g, t, here, out, skip, limit):
    if len(e) != len(g):
        out.append((here.rsplit("/", 1)[-1].split("[")[0] + "#" + t, "%s: expected %d %s, got %d" % (here, len(e), t, len(g))))
        return
    for x, y in zip(e, g):
        compare(x, y, out, here, skip, limit)


# ---- documents ---------------------------------------------------------------------------------------------
class X:
    def __init__(self, tag, a=(), text=None):
        self.tag, self.a, self.text, self.c, self.src = tag, list(a), text, [], None

    def add(self, tag, a=(), text=None):
        x = X(tag, a, text)
        self.c.append(x)
        return x


def fnum(r, s):
    v = float(s)
    st = [repr(v) if "e" not in repr(v) else "%.9f" % v, "%.6f" % v if abs(v * 1e6 - round(v * 1e6)) < 1e-3 else "%.9f" % v]
    if v == int(v):
        st += ["%d" % v, "%d.0" % v]
    return st[0] if r is None else r.choice(st)


def vec(r, s):
    sep = "," if r is None or r.random() < 0.8 else ", "
    return "{" + sep.join(fnum(r, x) for x in s.split(",")) + "}"


def mat(r, s):
    f = s.split(",")
    return "".join(vec(r, ",".join(f[i:i + 3])) for i in (0, 3, 6, 9))


def gtext(r, g):
    if r is None:
        return g
    q = r.random()
    return g if q < 0.4 else g.lower() if q < 0.9 else "".join(c.lower() if r.random() < 0.5 else c for c in g)


def to_doc(model, r=None, version=(1, 6)):
    """r: vary what may vary (spelling of numbers and UUIDs, leaving out defaults, order of siblings of different kinds)."""
    def drop(v, d):
        return v == d and (r is None or r.random() < 0.7)

    def mx(x, n, key="Matrix"):
        v = n.a.get(key, IDENT)
        if not (v == IDENT and (r is None or r.random() < 0.7)):
            x.add("Matrix", text=mat(r, v))

    def base(x, n):
        x.a.append(("uuid", gtext(r, n.a["Guid"])))
        if n.a.get("Name") or (r and r.random() < 0.3):
            x.a.append(("name", n.a.get("Name", "")))
        x.src = n

    def geos(x, n):
        for g in n.kids("Geo"):
            if g.a["Kind"] == "geo":
                y = x.add("Geometry3D", [("fileName", g.a["File"])])
            else:
                y = x.add("Symbol", [("uuid", gtext(r, g.a.get("InstGuid", NOGUID))), ("symdef", gtext(r, g.a["SymDef"]))])
            mx(y, g)

    def source(n):
        y = X("Source", text=n.a["Value"])
        if n.a.get("LinkedGeometry") or (r and r.random() < 0.5):
            y.a.append(("linkedGeometry", n.a.get("LinkedGeometry", "")))
        y.a.append(("type", SRC[int(n.a.get("Type", 0))]))
        return y

    def obj(n):
        x = X("Layer" if n.tag == "Layer" else XOBJ[n.tag])
        base(x, n)
        if n.a.get("Multipatch"):
            x.a.append(("multipatch", gtext(r, n.a["Multipatch"])))
        elif r is not None and r.random() < 0.3:
            x.a.append(("multipatch", ""))
        mx(x, n)
        if n.kids("Geo") or (r and r.random() < 0.2):
            geos(x.add("Geometries"), n)
        for tag, lst in (("CustomCommand", "CustomCommands"), ("Alignment", "Alignments"), ("Overwrite", "Overwrites"), ("Connection", "Connections")):
            if not n.kids(tag):
                continue
            y = x.add(lst)
            for k in n.kids(tag):
                if tag == "CustomCommand":
                    y.add(tag, text=k.a["Function"] + ("/percent" if k.a["Percent"] == "1" else "") + ",f " + fnum(r, k.a["Value"]))
                elif tag == "Alignment":
                    y.add(tag, [("geometry", k.a["Geometry"]), ("up", vec(r, k.a["Up"])[1:-1] if 0 else vec(r, k.a["Up"])), ("direction", vec(r, k.a["Direction"]))])
                elif tag == "Overwrite":
                    y.add(tag, [("universal", k.a["Universal"]), ("target", k.a["Target"])])
                else:
                    y.add(tag, [("own", k.a["Own"]), ("other", k.a["Other"]), ("toObject", gtext(r, k.a["ToObject"]))])
        if n.a.get("Class"):
            x.add("Classing", text=gtext(r, n.a["Class"]))
        for k, tag in (("GdtfName", "GDTFSpec"), ("GdtfMode", "GDTFMode")):
            if n.a.get(k) or (k in SPEC[n.tag] and not (r is None) and r.random() < 0.3):
                x.add(tag, text=n.a.get(k, ""))
        if n.tag == "Fixture":
            if n.a.get("Focus"):
                x.add("Focus", text=gtext(r, n.a["Focus"]))
            if n.a.get("Position"):
                x.add("Position", text=gtext(r, n.a["Position"]))
            if n.kids("Address") or (r and r.random() < 0.3):
                y = x.add("Addresses")
                for k in n.kids("Address"):
                    y.add("Address", [] if k.a["Break"] == "0" and r is not None and r.random() < 0.5 else [("break", k.a["Break"])], k.a["Absolute"])
            for k, tag in (("FixtureId", "FixtureID"), ("FixtureIdNumeric", "FixtureIDNumeric"), ("UnitNumber", "UnitNumber"), ("FixtureTypeId", "FixtureTypeId"), ("CustomId", "CustomId"), ("Function", "Function")):
                v, d = n.a.get(k, SPEC["Fixture"][k][1]), SPEC["Fixture"][k][1]
                if not drop(v, d):
                    x.add(tag, text=v)
            for k, tag in (("CastShadow", "CastShadow"), ("InvertPan", "DMXInvertPan"), ("InvertTilt", "DMXInvertTilt")):
                v = n.a.get(k, "0")
                if not drop(v, "0"):
                    x.add(tag, text="true" if v == "1" else "false")
            if "Color" in n.a:
                x.add("Color", text=",".join(fnum(r, v) for v in n.a["Color"].split(",")))
            if n.a.get("Gobo"):
                v = n.a.get("GoboRotation", "0")
                x.add("Gobo", [] if drop(float(v), 0.0) else [("rotation", fnum(r, v))], n.a["Gobo"])
            if n.kids("Mapping"):
                y = x.add("Mappings")
                for k in n.kids("Mapping"):
                    z = y.add("Mapping", [("linkedDef", gtext(r, k.a["LinkedDef"]))])
                    for kk in ("Ux", "Uy", "Ox", "Oy"):
                        if not drop(k.a[kk], "0"):
                            z.add(kk.lower(), text=k.a[kk])
                    z.add("rz", text=fnum(r, k.a["Rz"]))
                    if r:
                        r.shuffle(z.c)
            if n.kids("Protocol"):
                y = x.add("Protocols")
                for k in n.kids("Protocol"):
                    z = y.add("Protocol", [(a.lower(), k.a[a]) for a in ("Geometry", "Name", "Type", "Version")])
                    if not (k.a["Transmission"] == "3" and r and r.random() < 0.5):
                        z.a.append(("transmission", TRANS[int(k.a["Transmission"])]))
        if n.tag == "VideoScreen" and n.kid("Source"):
            x.add("Sources").c.append(source(n.kid("Source")))
        if n.tag == "Projector" and (n.kid("Source") or "ScaleHandling" in n.a):
            y = x.add("Projections").add("Projection")
            if n.kid("Source"):
                y.c.append(source(n.kid("Source")))
            if "ScaleHandling" in n.a:
                y.add("ScaleHandling", text=SCALE[int(n.a["ScaleHandling"])])
        if objects(n):
            y = x.add("ChildList")
            y.c = [obj(k) for k in objects(n)]
        elif r is not None and r.random() < 0.2:
            x.add("ChildList")
        if r is not None:
            r.shuffle(x.c)
            r.shuffle(x.a)
        return x

    root = X("GeneralSceneDescription", [("verMajor", str(version[0])), ("verMinor", str(version[1]))])
    if "AppName" in model.a:
        root.a += [("provider", model.a["AppName"]), ("providerVersion", model.a["AppVersion"])]
    if model.kids("Provider") or (r and r.random() < 0.5):
        u = root.add("UserData")
        for p in model.kids("Provider"):
            d = u.add("Data", [("provider", p.a["Provider"]), ("ver", p.a["Version"])])
            for k in p.kids("Entry"):
                d.add("VWEntry", [("key", k.a["Key"])], k.a["Value"])
    sc = root.add("Scene")
    aux = X("AUXData")
    for p in model.c:
        if p.tag in ("Position", "Class", "SymDef", "MappingDefinition"):
            x = aux.add("Symdef" if p.tag == "SymDef" else p.tag)
            base(x, p)
            if p.tag == "SymDef":
                geos(x.add("ChildList"), p)
            if p.tag == "MappingDefinition":
                x.add("SizeX", text=p.a["SizeX"])
                x.add("SizeY", text=p.a["SizeY"])
                if p.kid("Source"):
                    x.c.append(source(p.kid("Source")))
                if not drop(p.a["ScaleHandling"], "0"):
                    x.add("ScaleHandling", text=SCALE[int(p.a["ScaleHandling"])])
                if r:
                    r.shuffle(x.c)
    if r is not None:                                  # kinds may be mixed, the order within a kind is kept
        kinds = [x.tag for x in aux.c]
        r.shuffle(kinds)
        by = {t: [x for x in aux.c if x.tag == t] for t in set(kinds)}
        aux.c = [by[t].pop(0) for t in kinds]
    lay = X("Layers")
    lay.c = [obj(l) for l in model.kids("Layer")]
    parts = [aux, lay]
    if r is not None and not aux.c and r.random() < 0.5:
        parts = [lay]
    if r is not None and r.random() < 0.5:
        parts.reverse()
    sc.c = parts
    return root


def _esc(s, attr, r):
    s = s.replace("&", "&amp;").replace("<", "&lt;")
    if r is None or r.random() < 0.5 or "]]>" in s:
        s = s.replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;").replace("\t", "&#9;").replace("\n", "&#10;").replace("\r", "&#13;")
        if r and r.random() < 0.3:
            s = s.replace("'", "&apos;")
    if r and r.random() < 0.1:
        s = re.sub(r"[^\x00-\x7f]", lambda m: "&#x%X;" % ord(m.group(0)), s)
    return s


def serialize(x, r=None, noise=True):
    o = ['<?xml version="1.0" encoding="UTF-8"%s?>' % (' standalone="no"' if r is None or r.random() < 0.5 else "")]
    pretty = r is None or r.random() < 0.7
    noise = noise and r is not None

    def rec(e, d):
        ind = ("\n" + "  " * d) if pretty else ""
        if noise and r.random() < 0.03:
            o.append(ind + "<!-- note < & -->")
        o.append(ind + "<" + e.tag)
        for k, v in e.a:
            o.append(' %s="%s"' % (k, _esc(v, True, r)))
        if noise and r.random() < 0.03:
            o.append(' future="1"')
        if e.text is not None and e.text != "":
            o.append(">" + _esc(e.text, False, r) + "</" + e.tag + ">")
        elif e.c:
            o.append(">")
            for k in e.c:
                rec(k, d + 1)
            o.append(ind + "</" + e.tag + ">")
        else:
            o.append("/>" if r is None or r.random() < 0.7 else "></" + e.tag + ">")
    rec(x, 0)
    return "".join(o).encode("utf-8") + (b"\n" if pretty else b"")


# ---- strict reading of a written document -----------------------------------------------------------------
GUIDRE = re.compile(r"^[0-9A-Fa-f]{8}-[0-9A-Fa-f]{4}-[0-9A-Fa-f]{4}-[0-9A-Fa-f]{4}-[0-9A-Fa-f]{12}$")
NUMRE = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$")
INTRE = re.compile(r"^[+-]?\d+$")
ORDER = {"AUXData": {"Position", "Class", "Symdef", "MappingDefinition"}}


def from_doc(data):
    """(tree like a dump, problems)"""
    P = []
    try:
        e = ET.fromstring(data)
    except ET.ParseError as ex:
        return None, ["not well-formed: %s" % ex]

    def bad(k, t):
        P.append("%s: %s" % (k, t))

    def attrs(e, need, opt=()):
        for k in need:
            if k not in e.attrib:
                bad("missing-attribute", "%s.%s" % (e.tag, k))
        for k in e.attrib:
            if k not in need and k not in opt:
                bad("unknown-attribute", "%s.%s" % (e.tag, k))

    def guid(s, w):
        if not GUIDRE.match(s or ""):
            bad("uuid", "%s: %r" % (w, s))
        return (s or "").upper()

    def num(s, w):
        if not NUMRE.match(s or ""):
            bad("number", "%s: %r" % (w, s))
            return "0"
        return s

    def integer(s, w):
        if not INTRE.match(s or ""):
            bad("integer", "%s: %r" % (w, s))
            return "0"
        return str(int(s))

    def matrix(s, w):
        m = re.match(r"^\{([^{}]*)\}\{([^{}]*)\}\{([^{}]*)\}\{([^{}]*)\}$", s or "")
        if not m:
            bad("matrix", "%s: %r" % (w, s))
            return IDENT
        f = [num(x.strip(), w) for g in m.groups() for x in g.split(",")]
        if len(f) != 12:
            bad("matrix", "%s: %r" % (w, s))
            return IDENT
        return ",".join(f)

    def vec3(s, w):
        m = re.match(r"^\{([^{}]*)\}$", s or "")
        f = (m.group(1) if m else (s or "")).split(",")
        if len(f) != 3:
            bad("vector", "%s: %r" % (w, s))
            return "0,0,0"
        return ",".join(num(x.strip(), w) for x in f)

    def enum(s, table, w):
        for k, v in table.items():
            if v == s:
                return str(k)
        bad("enum", "%s: %r" % (w, s))
        return "0"

    def once(e, allowed):
        seen = {}
        for k in e:
            if k.tag not in allowed:
                bad("unknown-element", "%s in %s" % (k.tag, e.tag))
            elif k.tag in seen:
                bad("element-twice", "%s in %s" % (k.tag, e.tag))
            seen.setdefault(k.tag, k)
        if e.text and e.text.strip() and allowed:
            bad("text", "%s contains text %r" % (e.tag, e.text[:40]))
        return seen

    def lst(e, tag):
        for k in e:
            if k.tag != tag:
                bad("unknown-element", "%s in %s" % (k.tag, e.tag))
        return [k for k in e if k.tag == tag]

    def boolean(s, w):
        if s not in ("true", "false"):
            bad("bool", "%s: %r" % (w, s))
        return "1" if s == "true" else "0"

    def geos(e, n):
        for k in e:
            if k.tag not in ("Geometry3D", "Symbol"):
                bad("unknown-element", "%s in %s" % (k.tag, e.tag))
                continue
            c = once(k, ("Matrix",))
            g = n.add("Geo", Kind="geo" if k.tag == "Geometry3D" else "sym", Matrix=matrix(c["Matrix"].text, k.tag) if "Matrix" in c else IDENT)
            if k.tag == "Geometry3D":
                attrs(k, ("fileName",))
                g.a["File"] = k.get("fileName", "")
            else:
                attrs(k, ("uuid", "symdef"))
                g.a["InstGuid"], g.a["SymDef"] = guid(k.get("uuid"), "Symbol.uuid"), guid(k.get("symdef"), "Symbol.symdef")

    def source(e, n):
        attrs(e, ("type",), ("linkedGeometry",))
        n.add("Source", Value=e.text or "", LinkedGeometry=e.get("linkedGeometry", ""), Type=enum(e.get("type"), SRC, "Source.type"))

    common = ("Matrix", "Geometries", "CustomCommands", "Alignments", "Overwrites", "Classing", "Connections", "ChildList")
    own = {"Layer": common, "GroupObject": common, "FocusPoint": common}
    for t in ("SceneObject", "Truss", "Support"):
        own[t] = common + ("GDTFSpec", "GDTFMode")
    own["VideoScreen"] = own["Truss"] + ("Sources",)
    own["Projector"] = own["Truss"] + ("Projections",)
    own["Fixture"] = own["Truss"] + tuple("Focus Position Addresses FixtureID FixtureIDNumeric UnitNumber FixtureTypeId CustomId Color Gobo Function CastShadow Mappings DMXInvertPan DMXInvertTilt Protocols".split())

    def obj(e, parent):
        if e.tag not in own:
            bad("unknown-element", "%s in a list of objects" % e.tag)
            return
        attrs(e, ("uuid",), ("name", "multipatch"))
        n = parent.add("Layer" if e.tag == "Layer" else RXOBJ[e.tag], Guid=guid(e.get("uuid"), e.tag + ".uuid"), Name=e.get("name", ""))
        if e.get("multipatch"):
            n.a["Multipatch"] = guid(e.get("multipatch"), e.tag + ".multipatch")
        c = once(e, own[e.tag])
        t = lambda k, d="": (c[k].text or "") if k in c else d
        n.a["Matrix"] = matrix(c["Matrix"].text, e.tag) if "Matrix" in c else IDENT
        if "Geometries" in c:
            geos(c["Geometries"], n)
        for k in lst(c["CustomCommands"], "CustomCommand") if "CustomCommands" in c else ():
            m = re.match(r"^(.*?)(/percent)?,f (\S+)$", k.text or "", re.S)
            if not m:
                bad("custom-command", repr(k.text))
                continue
            n.add("CustomCommand", Function=m.group(1), Percent="1" if m.group(2) else "0", Value=num(m.group(3), "CustomCommand"))
        for k in lst(c["Alignments"], "Alignment") if "Alignments" in c else ():
            attrs(k, ("geometry", "up", "direction"))
            n.add("Alignment", Geometry=k.get("geometry", ""), Up=vec3(k.get("up"), "Alignment.up"), Direction=vec3(k.get("direction"), "Alignment.direction"))
        for k in lst(c["Overwrites"], "Overwrite") if "Overwrites" in c else ():
            attrs(k, ("universal", "target"))
            n.add("Overwrite", Universal=k.get("universal", ""), Target=k.get("target", ""))
        for k in lst(c["Connections"], "Connection") if "Connections" in c else ():
            attrs(k, ("own", "other", "toObject"))
            n.add("Connection", Own=k.get("own", ""), Other=k.get("other", ""), ToObject=guid(k.get("toObject"), "Connection.toObject"))
        if "Classing" in c:
            n.a["Class"] = guid(t("Classing"), "Classing")
        if "GDTFSpec" in own[e.tag]:
            n.a["GdtfName"], n.a["GdtfMode"] = t("GDTFSpec"), t("GDTFMode")
        if e.tag == "Fixture":
            for k, a in (("Focus", "Focus"), ("Position", "Position")):
                if k in c:
                    n.a[a] = guid(t(k), k)
            for k in lst(c["Addresses"], "Address") if "Addresses" in c else ():
                attrs(k, ("break",))
                n.add("Address", Absolute=integer(k.text, "Address"), Break=integer(k.get("break"), "Address.break"))
            n.a["FixtureId"], n.a["Function"] = t("FixtureID"), t("Function")
            for k, a in (("FixtureIDNumeric", "FixtureIdNumeric"), ("UnitNumber", "UnitNumber"), ("FixtureTypeId", "FixtureTypeId"), ("CustomId", "CustomId")):
                n.a[a] = integer(t(k, "0"), k)
            for k, a in (("CastShadow", "CastShadow"), ("DMXInvertPan", "InvertPan"), ("DMXInvertTilt", "InvertTilt")):
                n.a[a] = boolean(t(k, "false"), k)
            if "Color" in c:
                f = t("Color").split(",")
                if len(f) != 3:
                    bad("colour", t("Color"))
                else:
                    n.a["Color"] = ",".join(num(x, "Color") for x in f)
            n.a["GoboRotation"] = "0"
            if "Gobo" in c:
                attrs(c["Gobo"], ("rotation",))
                n.a["Gobo"], n.a["GoboRotation"] = t("Gobo"), num(c["Gobo"].get("rotation"), "Gobo.rotation")
            for k in lst(c["Mappings"], "Mapping") if "Mappings" in c else ():
                attrs(k, ("linkedDef",))
                z = once(k, ("ux", "uy", "ox", "oy", "rz"))
                n.add("Mapping", LinkedDef=guid(k.get("linkedDef"), "Mapping.linkedDef"), Rz=num(z["rz"].text, "rz") if "rz" in z else "0", **{a.capitalize(): integer(z[a].text, a) if a in z else "0" for a in ("ux", "uy", "ox", "oy")})
            for k in lst(c["Protocols"], "Protocol") if "Protocols" in c else ():
                attrs(k, ("geometry", "name", "type", "version", "transmission"))
                n.add("Protocol", Transmission=enum(k.get("transmission"), TRANS, "Protocol.transmission"), **{a.capitalize(): k.get(a, "") for a in ("geometry", "name", "type", "version")})
        if "Sources" in c:
            for k in lst(c["Sources"], "Source"):
                source(k, n)
        if "Projections" in c:
            for k in lst(c["Projections"], "Projection"):
                z = once(k, ("Source", "ScaleHandling"))
                if "Source" in z:
                    source(z["Source"], n)
                if "ScaleHandling" in z:
                    n.a["ScaleHandling"] = enum(z["ScaleHandling"].text, SCALE, "ScaleHandling")
        if "ChildList" in c:
            for k in c["ChildList"]:
                obj(k, n)

    root = Node("MVR")
    if e.tag != "GeneralSceneDescription":
        return None, ["root element %s" % e.tag]
    attrs(e, ("verMajor", "verMinor"), ("provider", "providerVersion"))
    root.a["_Version"] = integer(e.get("verMajor"), "verMajor") + "." + integer(e.get("verMinor"), "verMinor")
    root.a["AppName"], root.a["AppVersion"] = e.get("provider", ""), e.get("providerVersion", "")
    c = once(e, ("UserData", "Scene"))
    for k in lst(c["UserData"], "Data") if "UserData" in c else ():
        attrs(k, ("provider", "ver"))
        p = root.add("Provider", Provider=k.get("provider", ""), Version=k.get("ver", ""))
        for y in lst(k, "VWEntry"):
            attrs(y, ("key",))
            p.add("Entry", Key=y.get("key", ""), Value=y.text or "")
    if "Scene" not in c:
        return root, P + ["missing-element: Scene"]
    s = once(c["Scene"], ("AUXData", "Layers"))
    for k in s.get("AUXData", ()):
        if k.tag not in ORDER["AUXData"]:
            bad("unknown-element", "%s in AUXData" % k.tag)
            continue
        attrs(k, ("uuid",), ("name",))
        n = root.add("SymDef" if k.tag == "Symdef" else k.tag, Guid=guid(k.get("uuid"), k.tag + ".uuid"), Name=k.get("name", ""))
        if k.tag == "Symdef":
            z = once(k, ("ChildList",))
            if "ChildList" in z:
                geos(z["ChildList"], n)
        if k.tag == "MappingDefinition":
            z = once(k, ("SizeX", "SizeY", "Source", "ScaleHandling"))
            n.a["SizeX"], n.a["SizeY"] = integer(z["SizeX"].text, "SizeX") if "SizeX" in z else "0", integer(z["SizeY"].text, "SizeY") if "SizeY" in z else "0"
            n.a["ScaleHandling"] = enum(z["ScaleHandling"].text, SCALE, "ScaleHandling") if "ScaleHandling" in z else "0"
            if "Source" in z:
                source(z["Source"], n)
    if "Layers" in s:
        for k in lst(s["Layers"], "Layer"):
            obj(k, root)
    fill_names(root)
    return root, P


def fill_names(root):
    names = {(k.tag, k.a["Guid"]): k.a.get("Name", "") for k in root.c if k.tag in ("Class", "Position")}
    for o in all_objects(root):
        for t in ("Class", "Position"):
            if o.a.get(t):
                o.a[t + "Name"] = names.get((t, o.a[t].upper()), "(missing)")
