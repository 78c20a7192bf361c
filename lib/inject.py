"""Single faults put into valid GDTF documents, with the error a reader has to report for each."""
import gdtf
from gdtf import X, GEOTAG

ENUMERR = {"prim": 22, "unit": 24, "beam": 25, "lamp": 26, "snap": 28, "master": 29, "rel": 30, "interp": 65}
REFERR = {"Attribute.ActivationGroup": 13, "Attribute.Feature": 14, "Attribute.MainAttribute": 15, "DMXMode.Geometry": 16, "ChannelFunction.ModeMaster": 17,
          "DMXChannel.Geometry": 8, "LogicalChannel.Attribute": 9, "ChannelFunction.Attribute": 59, "DMXChannel.InitialFunction": 69,
          "DMXPersonality.DMXMode": 58, "MacroDMXValue.DMXChannel": 62}


def walk(e, parent=None, owner=None):
    yield e, parent
    for k in e.c:
        yield from walk(k, e)


def tagof(e):
    n = getattr(e, "node", None)
    return n.tag if n is not None else None


def typ_of(e, parent):
    n = getattr(e, "node", None)
    if n is None or n.tag == "FixtureType" and parent is not None and parent.tag != "GDTF":
        return []
    p = getattr(parent, "node", None)
    try:
        return gdtf.attrs_of(n, p.tag if p is not None else None)
    except KeyError:
        return []


def get(e, k):
    for i, (a, v) in enumerate(e.attrs):
        if a == k:
            return i, v
    return None, None


def candidates(doc):
    """(kind, element, change, expected error type, expected message or None, follow-up types)"""
    out = []
    for e, p in walk(doc):
        n = getattr(e, "node", None)
        if n is None:
            if e.tag == "Geometries":
                out.append(("element", e, ("child", "Nonsense"), 2, None, ()))
            continue
        attrs = typ_of(e, p)
        tag = n.tag
        out.append(("attribute:" + e.tag, e, ("add", "Surplus", "1"), 1, "Surplus", ()))
        if tag == "Geometry":
            out.append(("element", e, ("child", "Nonsense"), 2, None, ()))
            if e.tag != "GeometryReference":
                out.append(("break", e, ("child", "Break"), 5, None, (2,)))
        for a in attrs:
            i, v = get(e, a.x)
            if v is None:
                continue
            if v == "":
                continue
            if a.req and a.key != "Name" and a.typ[0] != "r" and required(e, a.x):
                out.append(("missing:%s.%s" % (e.tag, a.x), e, ("drop", a.x), 0, a.x, (18, 57)))
            ek = tag + "." + a.x if tag != "Geometry" else e.tag + "." + a.x
            if a.typ[0:2] == "r:":
                code = REFERR.get(ek)
                if tag == "Geometry" and a.x == "Model":
                    code = 11
                if tag == "Geometry" and e.tag == "GeometryReference" and a.x == "Geometry":
                    code = 12
                if code is not None:
                    out.append(("reference:" + ek, e, ("set", a.x, "No such thing"), code, None, REF_FOLLOW.get(code, ())))
            elif a.typ[0:2] == "e:" and a.typ[2:] in ENUMERR:
                out.append(("enum:%s.%s" % (e.tag, a.x), e, ("set", a.x, "Nonsense"), ENUMERR[a.typ[2:]], None, ()))
            elif a.typ == "y":
                out.append(("enum:%s.%s" % (e.tag, a.x), e, ("set", a.x, "Maybe"), 66, None, ()))
            elif a.typ == "c":
                out.append(("colour:%s.%s" % (e.tag, a.x), e, ("set", a.x, "0.3,0.3"), 19, None, ()))
            elif a.typ == "m":
                out.append(("matrix-first", e, ("set", a.x, v[1:]), 46, None, ()))
                out.append(("matrix-last", e, ("set", a.x, v[:-1]), 47, None, ()))
                out.append(("matrix-lines", e, ("set", a.x, "}".join(v.split("}")[:3]) + "}"), 48, None, ()))
                out.append(("matrix-entries", e, ("set", a.x, "{1,0}" + v[v.index("}") + 1:]), 49, None, ()))
            elif a.typ == "R":
                out.append(("rotation-first", e, ("set", a.x, v[1:]), 50, None, ()))
                out.append(("rotation-last", e, ("set", a.x, v[:-1]), 51, None, ()))
                out.append(("rotation-lines", e, ("set", a.x, "}".join(v.split("}")[:2]) + "}"), 52, None, ()))
                out.append(("rotation-entries", e, ("set", a.x, v[:v.rindex(",")] + "}"), 53, None, ()))
            elif a.typ == "g":
                out.append(("uuid:" + a.x, e, ("set", a.x, v[:-3]), 18, None, ()))
            elif a.typ == "t":
                out.append(("date", e, ("set", a.x, "yesterday"), 57, None, ()))
            elif a.typ == "h":
                out.append(("hex-high", e, ("set", a.x, "0x10000"), 60, None, ()))
                out.append(("hex-char", e, ("set", a.x, "0x1G"), 61, None, ()))
            elif a.typ in ("x", "mx") and tag in ("ChannelFunction", "DMXChannel") and a.typ == "x" and "/" in v:
                b = int(v.split("/")[1])
                out.append(("dmx:%s.%s" % (tag, a.x), e, ("set", a.x, "%d/%d" % (256 ** b, b)), 21, None, (63,)))
        if tag == "Gamut" and n.c:
            i, v = get(e, "Points")
            out.append(("gamut", e, ("set", "Points", v[:-1]), 71, None, ()))
        if tag == "DMXChannel":
            out.append(("no-function", e, ("empty",), 68 if get(e, "InitialFunction")[1] is None else 69, None, (69, 17, 62, 10, 9)))
        if tag == "LogicalChannel" and e.c:
            f = [x for x in e.c if x.tag == "ChannelFunction"]
            if len(f) == 1:
                out.append(("first-function", f[0], ("set", "DMXFrom", "1/1"), 63, None, (21,)))
    return out


REF_FOLLOW = {8: (69, 17, 62, 70), 9: (69, 17, 62, 70, 59), 59: (69, 17), 14: ()}


def apply(e, ch):
    if ch[0] == "child":
        e.c.insert(0, X(ch[1], [("DMXBreak", "1"), ("DMXOffset", "1")] if ch[1] == "Break" else []))
        return e.c[0]
    if ch[0] == "add":
        e.attrs.append((ch[1], ch[2]))
    if ch[0] == "drop":
        e.attrs = [x for x in e.attrs if x[0] != ch[1]]
    if ch[0] == "set":
        e.attrs = [(k, v) for k, v in e.attrs if k != ch[1]] + [(ch[1], ch[2])]
    if ch[0] == "empty":
        for l in e.c:
            l.c = []
    return e


CONDITION = {
    "Structure": ("CrossSectionType", {"Tube": ("CrossSectionHeight", "CrossSectionWallThickness"), None: ("TrussCrossSection",)}),
    "Support": ("SupportType", {"Rope": ("RopeCrossSection", "RopeOffsetX", "RopeOffset"),
                                None: ("CapacityX", "CapacityY", "CapacityZ", "CapacityXX", "CapacityYY", "CapacityZZ",
                                       "ResistanceX", "ResistanceY", "ResistanceZ", "ResistanceXX", "ResistanceYY", "ResistanceZZ")}),
    "WiringObject": ("ComponentType", {"Consumer": ("ElectricalPayLoad", "VoltageRangeMin", "VoltageRangeMax", "FrequencyRangeMin", "FrequencyRangeMax", "CosPhi"),
                                       "PowerSource": ("MaxPayLoad", "Voltage"), "Fuse": ("FuseCurrent", "FuseRating"), None: ()}),
}


def required(e, x):
    """Some attributes are mandatory only for one kind of structure, support or wiring object."""
    if e.tag == "Measurement" and x in ("LuminousIntensity", "Transmission"):
        return False
    if e.tag == "Structure" and x == "CrossSectionType":
        return False
    if e.tag not in CONDITION:
        return True
    key, kinds = CONDITION[e.tag]
    if not any(x in v for v in kinds.values()):
        return True
    kind = get(e, key)[1]
    return x in kinds.get(kind if kind in kinds else None, ())
