"""Independent model of GDTF documents: the vocabulary (element and attribute names, value forms, defaults), a generator of
valid documents, a writer and a strict reader of description.xml, and what an application should observe through the
interface. Written from the format, not from the library's code."""
import math
import xml.etree.ElementTree as ET
from tree import Node, num_eq, nums_eq, parse, esc

ENUMS = {
    "unit": {i: s for i, s in zip(list(range(11)) + list(range(12, 23)), "None Percent Length Mass Time Temperature LuminousIntensity Angle Force Frequency Current Voltage Power Energy Area Volume Speed Acceleration AngularSpeed AngularAccc WaveLength ColorComponent".split())},
    "spu": dict(enumerate("PlacementOffset Amplitude AmplitudeMin AmplitudeMax Duration DutyCycle TimeOffset MinimumOpening Value RatioHorizontal RatioVertical".split())),
    "lamp": dict(enumerate("Discharge Tungsten Halogen LED".split())),
    "beam": dict(enumerate("Wash Spot None Rectangle PC Fresnel Glow".split())),
    "prim": dict(enumerate("Undefined Cube Cylinder Sphere Base Yoke Head Scanner Conventional Pigtail Base1_1 Scanner1_1 Conventional1_1".split())),
    "snap": dict(enumerate("Yes No On Off".split())),
    "master": dict(enumerate("None Grand Group".split())),
    "rel": {1: "Multiply", 2: "Override"},
    "cspace": dict(enumerate("sRGB Custom ProPhoto ANSI".split())),
    "interp": dict(enumerate("Linear Step Log".split())),
    "lcolor": dict(enumerate("RGB SingleWaveLength".split())),
    "comp": dict(enumerate("Input Output PowerSource Consumer Fuse NetworkProvider NetworkInput NetworkOutput NetworkInOut".split())),
    "orient": dict(enumerate("Left Right Top Bottom".split())),
    "fuse": dict(enumerate("B C D K Z".split())),
    "struct": dict(enumerate("CenterLineBased Detail".split())),
    "cross": dict(enumerate("TrussFramework Tube".split())),
    "support": dict(enumerate("Rope GroundSupport".split())),
    "ces": {i: "CES%02d" % (i + 1) for i in range(99)},
}
WHITE, WHITE2 = "0.3127,0.329,100", "0.31273,0.32902,100"
IDENT = "1,0,0,0,1,0,0,0,1,0,0,0"


class A:
    """An attribute: tree key, type, default (as in trees), mandatory in a document, how the interface treats it."""

    def __init__(self, key, typ, default=None, req=False, x=None, dump=True):
        self.key, self.typ, self.default, self.req, self.x, self.dump = key, typ, default, req, x or key, dump


def _t(s):
    out = []
    for w in s.split():
        k, typ, *r = w.split("|")
        req = k.endswith("*")
        out.append(A(k.rstrip("*"), typ, r[0] if r and r[0] != "-" else ("" if typ == "s" else None), req))
    return out


SPEC = {
    "FixtureType": _t("Name*|n Manufacturer*|s FixtureTypeID*|g ShortName*|s LongName*|s Description*|s Thumbnail|s ThumbnailOffsetX|i|0 ThumbnailOffsetY|i|0 CanHaveChildren|y RefFT|g"),
    "ActivationGroup": _t("Name*|n"), "FeatureGroup": _t("Name*|n Pretty*|s"), "Feature": _t("Name*|n"),
    "Attribute": _t("Name*|n Pretty*|s ActivationGroup|r:act Feature*|r:feat MainAttribute|r:attr PhysicalUnit|e:unit|0 Color|c"),
    "SubPhysicalUnit": _t("Type*|e:spu PhysicalUnit*|e:unit|0 PhysicalFrom|d|0 PhysicalTo|d|0"),
    "Filter": _t("Name*|n Color*|c"), "Emitter": _t("Name*|n Color*|c DominantWaveLength|d|0 DiodePart|s"),
    "Measurement:f": _t("Physical*|d|0 Transmission*|d|0 InterpolationTo|e:interp|0"),
    "Measurement:e": _t("Physical*|d|0 LuminousIntensity*|d|0 InterpolationTo|e:interp|0"),
    "MeasurementPoint": _t("WaveLength*|d|0 Energy*|d|0"),
    "ColorSpace": _t("Name|n Mode|e:cspace|0 Red|c Green|c Blue|c WhitePoint|c"),
    "MainColorSpace": _t("Name|s Mode|e:cspace|0 Red|c Green|c Blue|c WhitePoint|c"),
    "Gamut": _t("Name*|n"), "GamutPoint": _t("Color*|c"),
    "DMXProfile": _t("Name|n"), "Point": _t("DMXPercentage|d|0 CFC3|d|0 CFC2|d|0 CFC1|d|0 CFC0|d|0"),
    "CRIGroup": _t("ColorTemperature|d|6000"), "CRI": _t("CES|e:ces|0 ColorRenderingIndex|u8|100"),
    "Connector": _t("Name*|n Type*|s DMXBreak|u|0 Gender|i|0 Length|d|0"),
    "Wheel": _t("Name*|n"),
    "Slot": _t("Name*|n Color|c|%s MediaFileName|s Filter|r:filter Duration|d|0 Width|u|0 Height|u|0 FPS|u|0" % WHITE2),
    "Facet": _t("Color|c|%s Rotation*|R" % WHITE),
    "AnimationSystem": _t("P1X|d P1Y|d P2X|d P2Y|d P3X|d P3Y|d Radius*|d"),
    "Model": _t("Name*|n Length|d|0 Width|d|0 Height|d|0 PrimitiveType|e:prim|0 File|s SVGOffsetX|d|0 SVGOffsetY|d|0 SVGSideOffsetX|d|0 SVGSideOffsetY|d|0 SVGFrontOffsetX|d|0 SVGFrontOffsetY|d|0"),
    "Protocol": _t("Name*|s"), "PinPatch": _t("ToWiringObject*|r:geo FromPin*|u|0 ToPin*|u|0"),
    "Break": _t("DMXBreak|i|1 DMXOffset|A|1"),
    "DMXMode": _t("Name*|n Description|s Geometry*|r:geo"),
    "DMXChannel": _t("DMXBreak|B|1 Coarse|i|0 Fine|i|0 Ultra|i|0 Uber|i|0 Highlight|x Geometry*|r:geo InitialFunction|r:fn"),
    "LogicalChannel": _t("Attribute*|r:attr Snap|e:snap|1 Master|e:master|0 MibFade|d|0 DMXChangeTimeLimit|d|0"),
    "ChannelFunction": _t("Name|n Attribute|r:attr OriginalAttribute|s DMXFrom|x|0 Default|x|0 PhysicalFrom|d|0 PhysicalTo|d|1 RealFade|d|0 RealAcceleration|d|0 Min|d|0 Max|d|1 CustomName|s "
                          "Wheel|r:wheel Emitter|r:emit Filter|r:filter ColorSpace|r:cs Gamut|r:gam DMXProfile|r:prof ModeMaster|r:chfn ModeFrom|mx ModeTo|mx"),
    "ChannelSet": _t("Name|n DMXFrom|x|0 PhysicalFrom|d PhysicalTo|d WheelSlotIndex|i|0"),
    "SubChannelSet": _t("Name|n PhysicalFrom|d PhysicalTo|d SubPhysicalUnit*|r:spu DMXProfile|r:prof"),
    "Relation": _t("Name*|n Master*|r:ch Follower*|r:fn Type*|e:rel"),
    "FTMacro": _t("Name*|n ChannelFunction|r:fn"), "MacroDMX": [], "MacroVisual": [],
    "MacroDMXStep": _t("Duration|d|1"), "MacroDMXValue": _t("Value*|x DMXChannel*|r:ch"),
    "MacroVisualStep": _t("Duration|d|1 Fade|d|0 Delay|d|0"), "MacroVisualValue": _t("Value*|x ChannelFunction*|r:fn"),
    "Revision": _t("Text|s Date*|t UserID|u|0 ModifiedBy|s"),
    "FTRDM": _t("ManufacturerID*|h|0 DeviceModelID*|h|0"), "SoftwareVersionID": _t("Value*|h"), "DMXPersonality": _t("Value*|h DMXMode*|r:mode"),
    "Art-Net": [], "sACN": [], "Map": _t("Key*|u Value*|u"),
    # properties of the fixture that sit in elements of their own
    "OperatingTemperature": _t("Low|d|0 High|d|40"), "Weight": _t("Value|d|0"), "LegHeight": _t("Value|d|0"),
}
GBASE = "Name*|n Position*|m Model|r:model"
GEO = {  # interface type -> (element, attributes, own children)
    9: ("Geometry", "", []), 10: ("Axis", "", []), 11: ("FilterBeam", "", []), 12: ("FilterColor", "", []), 13: ("FilterGobo", "", []),
    14: ("FilterShaper", "", []), 76: ("MediaServerCamera", "", []), 77: ("MediaServerLayer", "", []), 78: ("MediaServerMaster", "", []), 86: ("Magnet", "", []),
    15: ("Beam", "LampType|e:lamp|0 PowerConsumption|d|1000 LuminousFlux|d|10000 ColorTemperature|d|6000 BeamAngle|d|25 BeamRadius|d|%s FieldAngle|d|25 ThrowRatio|d|1 RectangleRatio|d|1.7777 BeamType|e:beam|0 ColorRenderingIndex|u|100 EmitterSpectrum|r:emit" % "0.05", []),
    17: ("GeometryReference", "Geometry*|r:geo", ["Break"]),
    79: ("Display", "Texture*|s Width|u|0 Height|u|0 IsCurved|b|0", []),
    81: ("Laser", "ColorType*|e:lcolor|0 Color|d|0 OutputStrength*|d|0 Emitter|r:emit BeamDiameter*|d|0 BeamDivergenceMin*|d|0 BeamDivergenceMax*|d|0 ScanAnglePan*|d|0 ScanAngleTilt*|d|0 ScanSpeed*|d|0", ["Protocol"]),
    82: ("WiringObject", "ConnectorType*|s ComponentType*|e:comp|0 SignalType*|s PinCount*|u|0 SignalLayer*|u|0 Orientation*|e:orient|0 WireGroup*|s ElectricalPayLoad*|d|0 VoltageRangeMin*|d|0 VoltageRangeMax*|d|0 FrequencyRangeMin*|d|0 FrequencyRangeMax*|d|0 CosPhi*|d|0 MaxPayLoad*|d|0 Voltage*|d|0 FuseCurrent*|d|0 FuseRating*|e:fuse|0", ["PinPatch"]),
    83: ("Inventory", "Count*|u|0", []),
    84: ("Structure", "LinkedGeometry*|r:geo StructureType*|e:struct|0 CrossSectionType*|e:cross|0 CrossSectionHeight*|d|0 CrossSectionWallThickness*|d|0 TrussCrossSection*|s", []),
    85: ("Support", "SupportType*|e:support|0 CapacityX*|d|0 CapacityY*|d|0 CapacityZ*|d|0 CapacityXX*|d|0 CapacityYY*|d|0 CapacityZZ*|d|0 RopeCrossSection*|s RopeOffset*|V ResistanceX*|d|0 ResistanceY*|d|0 ResistanceZ*|d|0 ResistanceXX*|d|0 ResistanceYY*|d|0 ResistanceZZ*|d|0", []),
}
GEOSPEC = {k: _t(GBASE + " " + v[1]) for k, v in GEO.items()}
GEOTAG = {v[0]: k for k, v in GEO.items()}
# containers of the FixtureType element, in document order
TOP = [("AttributeDefinitions/ActivationGroups", "ActivationGroup"), ("AttributeDefinitions/FeatureGroups", "FeatureGroup"), ("AttributeDefinitions/Attributes", "Attribute"),
       ("Wheels", "Wheel"), ("PhysicalDescriptions/AdditionalColorSpaces", "ColorSpace"), ("PhysicalDescriptions/Gamuts", "Gamut"), ("PhysicalDescriptions/Filters", "Filter"),
       ("PhysicalDescriptions/Emitters", "Emitter"), ("PhysicalDescriptions/DMXProfiles", "DMXProfile"), ("PhysicalDescriptions/CRIs", "CRIGroup"), ("PhysicalDescriptions/Connectors", "Connector"),
       ("Models", "Model"), ("Geometries", "Geometry"), ("DMXModes", "DMXMode"), ("Revisions", "Revision"), ("Protocols", "FTRDM"), ("Protocols", "Art-Net"), ("Protocols", "sACN")]
CHILDREN = {"FeatureGroup": ["Feature"], "Attribute": ["SubPhysicalUnit"], "Filter": ["Measurement"], "Emitter": ["Measurement"], "Measurement": ["MeasurementPoint"],
            "DMXProfile": ["Point"], "CRIGroup": ["CRI"], "Wheel": ["Slot"], "Slot": ["Facet", "AnimationSystem"], "DMXChannel": ["LogicalChannel"],
            "LogicalChannel": ["ChannelFunction"], "ChannelFunction": ["ChannelSet", "SubChannelSet"], "FTMacro": ["MacroDMX", "MacroVisual"],
            "MacroDMX": ["MacroDMXStep"], "MacroDMXStep": ["MacroDMXValue"], "MacroVisual": ["MacroVisualStep"], "MacroVisualStep": ["MacroVisualValue"],
            "FTRDM": ["SoftwareVersionID"], "SoftwareVersionID": ["DMXPersonality"], "Art-Net": ["Map"], "sACN": ["Map"]}
MODEC = [("DMXChannels", "DMXChannel"), ("Relations", "Relation"), ("FTMacros", "FTMacro")]
FXPROPS = [("OperatingTemperature", "Low", "OperatingTemperatureLow", "0"), ("OperatingTemperature", "High", "OperatingTemperatureHigh", "40"), ("Weight", "Value", "Weight", "0"), ("LegHeight", "Value", "LegHeight", "0")]


def attrs_of(n, parent_tag=None):
    if n.tag == "Geometry":
        return GEOSPEC[int(n.a["Type"])]
    if n.tag == "Measurement":
        return SPEC["Measurement:f" if parent_tag == "Filter" else "Measurement:e"]
    return SPEC[n.tag]


# ---------------------------------------------------------------------------------------------------------------
# Tokens and the names they stand for
class Index:
    def __init__(self, root):
        self.by_tok, self.name = {}, {}
        top = {"ActivationGroup": "act", "Filter": "filter", "Emitter": "emit", "ColorSpace": "cs", "Gamut": "gam", "DMXProfile": "prof", "Wheel": "wheel", "Model": "model"}
        for tag, p in top.items():
            for i, n in enumerate(root.kids(tag)):
                self.put("%s:%d" % (p, i), n, n.a.get("Name", ""))
        for i, g in enumerate(root.kids("FeatureGroup")):
            self.put("fg:%d" % i, g, g.a["Name"])
            for j, f in enumerate(g.kids("Feature")):
                self.put("feat:%d.%d" % (i, j), f, g.a["Name"] + "." + f.a["Name"])
        for i, n in enumerate(root.kids("Attribute")):
            self.put("attr:%d" % i, n, n.a["Name"])
            for j, s in enumerate(n.kids("SubPhysicalUnit")):
                self.put("spu:%d.%d" % (i, j), s, ENUMS["spu"][int(s.a["Type"])])
        for i, n in enumerate(root.kids("Wheel")):
            for j, s in enumerate(n.kids("Slot")):
                self.put("slot:%d.%d" % (i, j), s, s.a["Name"])

        def geos(n, tok):
            for i, g in enumerate(n.kids("Geometry")):
                t = tok + str(i)
                self.put(t, g, g.a["Name"])
                g.x = (t, n)
                geos(g, t + ".")
        geos(root, "geo:")
        for m, n in enumerate(root.kids("DMXMode")):
            self.put("mode:%d" % m, n, n.a["Name"])
            for i, ch in enumerate(n.kids("DMXChannel")):
                lcs = ch.kids("LogicalChannel")
                cn = self.name.get(ch.a.get("Geometry"), "") + "_" + (self.name.get(lcs[0].a.get("Attribute"), "") if lcs else "")
                self.put("ch:%d.%d" % (m, i), ch, cn)
                for j, l in enumerate(lcs):
                    ln = cn + "." + self.name.get(l.a.get("Attribute"), "")
                    self.put("lc:%d.%d.%d" % (m, i, j), l, ln)
                    for k, f in enumerate(l.kids("ChannelFunction")):
                        fname = f.a.get("Name", "") or "%s %d" % (self.name.get(f.a.get("Attribute"), "NoFeature"), k + 1)
                        self.put("fn:%d.%d.%d.%d" % (m, i, j, k), f, ln + "." + fname)

    def put(self, tok, n, name):
        self.by_tok[tok], self.name[tok] = n, name

    def channel_of(self, tok):
        p = tok.split(":")[1].split(".")
        return self.by_tok["ch:%s.%s" % (p[0], p[1])]


def ch_bytes(ch):
    v = [int(ch.a.get(k, "0")) for k in ("Coarse", "Fine", "Ultra", "Uber")]
    if v[0] == 0:
        return 2
    for i in (1, 2, 3):
        if v[i] == 0:
            return i
    return 4


def is_virtual(ch):
    return all(int(ch.a.get(k, "0")) == 0 for k in ("Coarse", "Fine", "Ultra", "Uber"))


# ---------------------------------------------------------------------------------------------------------------
# Generator
PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
SPECIAL = "&<>\"'()+-/:;=@`#%*,"
TEXTS = ["", "a", "Plain text", "Ampersand & <tags> \"quoted\" 'single'", "Grüße aus Köln", "日本語テキスト", "emoji 😀 text", "x" * 300, " lead and trail ", "semi;colon, comma. {brace}", "]]> &amp; &#65;", "100%", "a=b?c#d", "\\back/slash"]


class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(scale=1.0, modes=True, specials=True, api=True, big=False, full=0.6, chans=None, funcs=None, refs=0.5, plainnames=False, nofeature=0.0, casevar=0.0, alike=False)
        self.o.update(opt)
        self.names = {}

    def some(self, hi, lo=0):
        k = self.r.randint(lo, hi)
        return max(lo, int(k * self.o["scale"]))

    def name(self, kind, dots=False):
        r = self.r
        used = self.names.setdefault(kind, set())
        while True:
            L = r.choice([1, 2, 3, 5, 8, 12, 20]) if not self.o["big"] else r.choice([3, 5, 8])
            s = "".join(r.choice(PLAIN) for _ in range(L))
            if self.o["alike"]:                                # names that run into each other
                s = "".join(r.choice("ab0") for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 9])))
            elif self.o["specials"] and not self.o["plainnames"] and r.random() < 0.25:
                p = r.randrange(len(s) + 1)
                s = s[:p] + r.choice(SPECIAL) + s[p:]
            if r.random() < 0.2 and len(s) > 2 and not self.o["alike"]:
                s = s[:1] + " " + s[1:]
            if used and self.r.random() < self.o["casevar"]:
                s = r.choice(sorted(used)).swapcase()
            key = s if self.o["casevar"] else s.lower()
            if key not in used and s.lower() not in ("nofeature", "dummy", "none", "control"):
                used.add(key)
                return s

    def text(self):
        r = self.r
        return r.choice(TEXTS) if r.random() < 0.7 else "".join(r.choice(PLAIN + SPECIAL + " .éß漢") for _ in range(r.randint(1, 25))).strip() or "t"

    def dbl(self, lo=None):
        r = self.r
        k = r.random()
        if k < 0.25:
            v = r.choice([0, 1, -1, 0.5, 2, 100, 0.000001, -0.000001, 999999.5, 1e6, 0.1, 25.25, -45, 180, 360.125])
        elif k < 0.75:
            v = round(r.uniform(-1000, 1000), r.randint(0, 6))
        elif k < 0.87:
            e = 10.0 ** r.randint(4, 12)
            v = round(r.uniform(-e, e), r.randint(0, 6))
        else:
            v = round(r.uniform(-1, 1), 6)
        return repr(float(v))

    def val(self, a):
        r, t = self.r, a.typ
        if t == "s":
            return self.text()
        if t == "d":
            return self.dbl()
        if t == "i":
            return str(r.choice([0, 1, -1, 2, 7, 100, -32768, 32767, 2147483647, -2147483648, r.randint(-1000, 1000)]))
        if t == "u":
            return str(r.choice([0, 1, 2, 255, 256, 65535, 2147483647, r.randint(0, 5000)]))
        if t in ("b", "y"):
            return str(r.randint(0, 1))
        if t == "u8":
            return str(r.choice([0, 1, 100, 255, r.randint(0, 255)]))
        if t.startswith("e:"):
            return str(r.choice(list(ENUMS[t[2:]])))
        if t == "c":
            return ",".join(repr(round(r.uniform(0, 1), 6)) for _ in range(2)) + "," + repr(round(r.uniform(0, 100), 4))
        if t in ("m", "R"):
            # an orthonormal-ish or arbitrary matrix with 6 decimals
            m = [repr(round(r.uniform(-2, 2), 6)) for _ in range(9)] if r.random() < 0.6 else IDENT.split(",")[:9]
            o = [repr(round(r.uniform(-100, 100), 6)) for _ in range(3)] if t == "m" else ["0", "0", "0"]
            return ",".join(m + o)
        if t == "V":
            return ",".join(repr(round(r.uniform(-10, 10), 6)) for _ in range(3))
        if t == "g":
            h = "%032X" % r.choice([r.getrandbits(128), r.getrandbits(128) | (1 << 127) | (1 << 95) | (1 << 63), r.getrandbits(128)])
            return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
        if t == "t":
            return "%04d-%02d-%02dT%02d:%02d:%02d" % (r.choice([1970, 1999, 2000, 2024, 2026, 2099, r.randint(1000, 9999)]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        if t == "h":
            return str(r.choice([0, 1, 9, 10, 15, 16, 255, 256, 4096, 65535, r.randint(0, 65535)]))
        if t == "A":
            return str(r.choice([1, 2, 511, 512, 513, 1024, 1025, r.randint(1, 2000)]))
        raise KeyError(t)

    def fill(self, n, skip=(), parent=None):
        """Sets the mandatory attributes and a random part of the optional ones (references are set later)."""
        for a in attrs_of(n, parent):
            if a.key in n.a or a.key in skip or a.typ in ("n",) or a.typ[0] == "r" or a.typ in ("x", "mx", "B"):
                continue
            if a.req or self.r.random() < self.o["full"]:
                n.a[a.key] = self.val(a)
        return n

    def dmx(self, bytes_):
        m = 256 ** bytes_ - 1
        return self.r.choice([0, 1, m, m - 1, m // 2, self.r.randint(0, m), self.r.randint(0, m)])

    def pick(self, lst, p=None):
        return self.r.choice(lst) if lst and self.r.random() < (self.o["refs"] if p is None else p) else None

    def measure(self, n):
        for _ in range(self.some(2)):
            m = n.add("Measurement")
            self.fill(m, parent=n.tag)
            for _ in range(self.some(3)):
                self.fill(m.add("MeasurementPoint"))

    def build(self):
        r, o = self.r, self.o
        root = Node("FixtureType")
        root.a["Name"] = self.name("fixture").replace("/", "x")
        self.fill(root)
        root.a["Manufacturer"] = self.text() or "M"
        for el, x, k, d in FXPROPS:
            if r.random() < 0.5:
                root.a[k] = self.dbl()
        big = 30 if o["big"] else 0
        for _ in range(self.some(3) + big):
            root.add("ActivationGroup", Name=self.name("act"))
        for _ in range(self.some(3, 1)):
            g = root.add("FeatureGroup", Name=self.name("fg"))
            self.fill(g)
            for _ in range(self.some(3, 1)):
                g.add("Feature", Name=self.name("feat"))
        acts = ["act:%d" % i for i in range(len(root.kids("ActivationGroup")))]
        feats = ["feat:%d.%d" % (i, j) for i, g in enumerate(root.kids("FeatureGroup")) for j in range(len(g.kids("Feature")))]
        nattr = self.some(6, 2) + big * 2
        for i in range(nattr):
            a = root.add("Attribute", Name=self.name("attr"))
            self.fill(a)
            a.a["Feature"] = r.choice(feats)
            t = self.pick(acts)
            if t:
                a.a["ActivationGroup"] = t
            t = self.pick(["attr:%d" % k for k in range(nattr)], 0.3)
            if t:
                a.a["MainAttribute"] = t
            kinds = list(ENUMS["spu"])
            r.shuffle(kinds)
            for k in range(r.choice([0, 0, 1, 2])):
                s = a.add("SubPhysicalUnit", Type=str(kinds[k]))
                self.fill(s)
        for _ in range(self.some(2) + big // 3):
            f = self.fill(root.add("Filter", Name=self.name("filter")))
            self.measure(f)
        for _ in range(self.some(2) + big // 3):
            f = self.fill(root.add("Emitter", Name=self.name("emit")))
            self.measure(f)
        for k in range(self.some(2) + 1):
            c = root.add("ColorSpace", Name=self.name("cs"), Mode=str(r.randint(0, 3))) if k else root.add("MainColorSpace", Name=r.choice(["", "", "Default", self.name("maincs")]), Mode=str(r.choice([0, 0, 1, 2, 3])))
            if c.a["Mode"] == "1":
                for k in ("Red", "Green", "Blue", "WhitePoint"):
                    c.a[k] = self.val(A(k, "c"))
        for _ in range(self.some(2)):
            g = root.add("Gamut", Name=self.name("gam"))
            for _ in range(r.randint(1, 4)):
                g.add("GamutPoint", Color=self.val(A("", "c")))
        for _ in range(self.some(2)):
            p = root.add("DMXProfile", Name=self.name("prof"))
            for _ in range(self.some(3)):
                p.add("Point", **{a.key: self.dbl() for a in SPEC["Point"]})
        for _ in range(self.some(2)):
            g = root.add("CRIGroup", ColorTemperature=self.dbl())
            for _ in range(self.some(3)):
                g.add("CRI", CES=str(r.randint(0, 98)), ColorRenderingIndex=str(r.randint(0, 120)))
        for _ in range(self.some(2)):
            self.fill(root.add("Connector", Name=self.name("conn"), Type=r.choice(["XLR5", "PowerCon", "x y"])))
        filters = ["filter:%d" % i for i in range(len(root.kids("Filter")))]
        emits = ["emit:%d" % i for i in range(len(root.kids("Emitter")))]
        for _ in range(self.some(2) + big // 3):
            w = root.add("Wheel", Name=self.name("wheel"))
            for _ in range(self.some(4)):
                s = w.add("Slot", Name=self.name("slot"))
                self.fill(s, skip=("MediaFileName", "Duration", "Width", "Height", "FPS"))
                if r.random() < 0.4:
                    s.a["MediaFileName"] = self.name("media").replace("/", "_").replace(":", "_") or "g"
                    for k in ("Duration", "Width", "Height", "FPS"):
                        if r.random() < 0.5:
                            s.a[k] = str(r.randint(1, 4000)) if k != "Duration" else self.dbl()
                t = self.pick(filters)
                if t:
                    s.a["Filter"] = t
                if r.random() < 0.4:
                    for _ in range(r.randint(1, 3)):
                        self.fill(s.add("Facet"))
                if r.random() < 0.3:
                    s.add("AnimationSystem", **{a.key: self.dbl() for a in SPEC["AnimationSystem"]})
        for _ in range(self.some(3, 1) + big):
            self.fill(root.add("Model", Name=self.name("model")), skip=("File",))
        models = ["model:%d" % i for i in range(len(root.kids("Model")))]
        nroots = self.some(4, 1)
        self.allgeo = []

        def geo(parent, tok, depth, ri):
            ty = r.choice([9, 9, 10, 10, 15] + [k for k in GEO if k != 17]) if depth else 9
            if depth and ri < nroots - 1 and r.random() < 0.35:
                ty = 17
            g = parent.add("Geometry", Type=str(ty), Name=self.name("geo"))
            self.fill(g)
            self.allgeo.append(tok)
            g.x = tok
            t = self.pick(models)
            if t:
                g.a["Model"] = t
            if ty == 15 or ty == 81:
                t = self.pick(emits)
                if t:
                    g.a["EmitterSpectrum" if ty == 15 else "Emitter"] = t
            if ty == 17:
                g.a["Geometry"] = "geo:%d" % r.randint(ri + 1, nroots - 1)
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    g.add("Break", DMXBreak=str(r.randint(1, 4)), DMXOffset=self.val(A("", "A")))
                return
            if ty == 81 and g.a["ColorType"] == "1" and "Color" not in g.a:
                g.a["Color"] = self.dbl()
            if ty == 81:
                for _ in range(r.randint(0, 2)):
                    g.add("Protocol", Name=r.choice(["ILDA", "Beam Brush", self.text() or "p"]))
            if depth < 4:
                n = self.some(3) if depth else self.some(5) + (big if ri == 0 else 0)
                for i in range(n):
                    geo(g, "%s.%d" % (tok, i), depth + 1, ri)
        for i in range(nroots):
            geo(root, "geo:%d" % i, 0, i)
        gnodes = [(g.x, g) for g in root.walk() if g.tag == "Geometry"]
        wires = [t for t, g in gnodes if g.a["Type"] == "82"]
        for t, g in gnodes:
            if g.a["Type"] == "82":
                for _ in range(r.randint(0, 2)):
                    g.add("PinPatch", ToWiringObject=r.choice(wires), FromPin=str(r.randint(0, 50)), ToPin=str(r.randint(0, 50)))
            if g.a["Type"] == "84":
                g.a["LinkedGeometry"] = r.choice([x for x, _ in gnodes])
        if o["modes"]:
            for m in range(self.some(3, 1)):
                self.mode(root, m, gnodes)
        for _ in range(self.some(2)):
            self.fill(root.add("Revision"))
        modes = ["mode:%d" % i for i in range(len(root.kids("DMXMode")))]
        if r.random() < 0.5:
            f = self.fill(root.add("FTRDM"))
            for _ in range(r.randint(0, 2)):
                s = f.add("SoftwareVersionID", Value=self.val(A("", "h")))
                for _ in range(r.randint(0, 2) if modes else 0):
                    s.add("DMXPersonality", Value=self.val(A("", "h")), DMXMode=r.choice(modes))
        for k in ("Art-Net", "sACN"):
            if r.random() < 0.5:
                f = root.add(k)
                for _ in range(r.randint(0, 3)):
                    self.fill(f.add("Map"))
        return root

    def mode(self, root, m, gnodes):
        r, o = self.r, self.o
        md = root.add("DMXMode", Name=self.name("mode"))
        self.fill(md)
        md.a["Geometry"] = "geo:%d" % r.randrange(len(root.kids("Geometry")))
        attrs = root.kids("Attribute")
        na = len(attrs)
        seen = set()
        toks = lambda tag, p: ["%s:%d" % (p, i) for i in range(len(root.kids(tag)))]
        wheels, emits, filters, css, gams, profs = toks("Wheel", "wheel"), toks("Emitter", "emit"), toks("Filter", "filter"), toks("ColorSpace", "cs"), toks("Gamut", "gam"), toks("DMXProfile", "prof")
        nch = o["chans"](r) if o["chans"] else self.some(5, 1)
        tries = 0
        while len(md.kids("DMXChannel")) < nch and tries < nch * 4:
            tries += 1
            g, gn = r.choice(gnodes)
            a0 = r.randrange(na)
            if (g, a0) in seen:
                continue
            seen.add((g, a0))
            ch = md.add("DMXChannel", Geometry=g)
            nb = r.choice([0, 1, 1, 2, 2, 3, 4])
            for k in range(nb):
                ch.a[("Coarse", "Fine", "Ultra", "Uber")[k]] = str(r.choice([r.randint(1, 40), r.randint(1, 512)]))
            if r.random() < 0.6:
                ch.a["DMXBreak"] = str(r.choice([1, 1, 2, 3, 0, r.randint(1, 20)]))
            by = ch_bytes(ch)
            if r.random() < 0.4:
                ch.a["Highlight"] = str(self.dmx(by))
            las = [a0] + r.sample([x for x in range(na) if (g, x) not in seen], min(sum((g, x) not in seen for x in range(na)), r.choice([0, 0, 0, 1, 2])))
            seen.update((g, x) for x in las)
            for a in las:
                lc = self.fill(ch.add("LogicalChannel", Attribute="attr:%d" % a))
                nf = o["funcs"](r) if o["funcs"] else r.choice([1, 1, 2, 3])
                mx = 256 ** by - 1
                starts = sorted(set([0] + [self.dmx(by) for _ in range(nf - 1)]))
                self.names.pop("fn", None)
                for k, st in enumerate(starts):
                    f = lc.add("ChannelFunction")
                    self.fill(f)
                    if r.random() < 0.8:
                        f.a["Name"] = self.name("fn")
                    if not (r.random() < o["nofeature"]):
                        f.a["Attribute"] = "attr:%d" % (a if r.random() < 0.7 else r.randrange(na))
                    if st or r.random() < 0.5:
                        f.a["DMXFrom"] = str(st)
                    if r.random() < 0.6:
                        f.a["Default"] = str(self.dmx(by))
                    for key, lst in (("Wheel", wheels), ("Emitter", emits), ("Filter", filters), ("ColorSpace", css), ("Gamut", gams), ("DMXProfile", profs)):
                        t = self.pick(lst, 0.3)
                        if t:
                            f.a[key] = t
                    end = starts[k + 1] - 1 if k + 1 < len(starts) else mx
                    cuts = sorted(set(r.choice([st, end, r.randint(st, end), min(end, st + r.randint(0, 20))]) for _ in range(r.choice([0, 0, 1, 2, 4, 6]))))
                    for q, c in enumerate(cuts):
                        lim = cuts[q + 1] - 1 if q + 1 < len(cuts) else end
                        s = f.add("ChannelSet", Name=self.name("set") if r.random() < 0.9 else "", DMXFrom=str(c), DMXTo=str(lim if not o["api"] or r.random() < 0.5 else r.randint(c, lim)))
                        if r.random() < 0.5:
                            s.a["PhysicalFrom"], s.a["PhysicalTo"] = self.dbl(), self.dbl()
                        if r.random() < 0.5:
                            s.a["WheelSlotIndex"] = str(r.randint(0, 20))
                    spus = []
                    if "Attribute" in f.a:
                        fa = int(f.a["Attribute"].split(":")[1])
                        spus = ["spu:%d.%d" % (fa, q) for q in range(len(attrs[fa].kids("SubPhysicalUnit")))]
                    if spus and r.random() < 0.5:
                        for _ in range(r.randint(1, 2)):
                            s = self.fill(f.add("SubChannelSet", Name=self.name("sub"), SubPhysicalUnit=r.choice(spus)))
                            t = self.pick(profs)
                            if t:
                                s.a["DMXProfile"] = t
        ix = Index(root)
        chs = [t for t in ix.by_tok if t.startswith("ch:%d." % m)]
        fns = [t for t in ix.by_tok if t.startswith("fn:%d." % m)]
        for t in chs:
            own = [f for f in fns if f.startswith("fn:" + t[3:] + ".")]
            if own and r.random() < 0.5:
                ix.by_tok[t].a["InitialFunction"] = r.choice(own)
        for t in fns:
            if r.random() < 0.25:
                mt = r.choice(chs if r.random() < 0.5 else fns)
                by = ch_bytes(ix.channel_of(mt))
                lo, hi = sorted((self.dmx(by), self.dmx(by)))
                ix.by_tok[t].a.update(ModeMaster=mt, ModeFrom=str(lo), ModeTo=str(hi))
        if chs and fns:
            for _ in range(r.choice([0, 0, 1, 2])):
                md.add("Relation", Name=self.name("rel"), Master=r.choice(chs), Follower=r.choice(fns), Type=str(r.choice([1, 2])))
            for _ in range(r.choice([0, 0, 1])):
                ma = md.add("FTMacro", Name=self.name("macro"))
                t = self.pick(fns, 0.3)
                if t:
                    ma.a["ChannelFunction"] = t
                if r.random() < 0.7:
                    x = ma.add("MacroDMX")
                    for _ in range(r.randint(0, 2)):
                        s = x.add("MacroDMXStep", Duration=self.dbl())
                        for _ in range(r.randint(0, 2)):
                            c = r.choice(chs)
                            s.add("MacroDMXValue", Value=str(self.dmx(ch_bytes(ix.by_tok[c]))), DMXChannel=c)
                if r.random() < 0.7:
                    x = ma.add("MacroVisual")
                    for _ in range(r.randint(0, 2)):
                        s = self.fill(x.add("MacroVisualStep"))
                        for _ in range(r.randint(0, 2)):
                            c = r.choice(fns)
                            s.add("MacroVisualValue", Value=str(self.dmx(ch_bytes(ix.channel_of(c)))), ChannelFunction=c)


# ---------------------------------------------------------------------------------------------------------------
# What the interface must show
def thin(root, r):
    """Leaves out optional attributes here and there, whatever the generator chose for them."""
    def go(n, parent):
        for a in attrs_of(n, parent.tag if parent is not None else None):
            if a.key in n.a and not a.req and a.default not in (None, "") and a.typ[0] not in "nrxB" and a.key not in ("Coarse", "Fine", "Ultra", "Uber", "Mode", "DMXFrom") and not (a.key == "Color" and a.typ == "d") and r.random() < 0.15:
                del n.a[a.key]
        for k in n.c:
            go(k, n)
    go(root, None)


def with_defaults(root, api=True):
    """Content with the defaults of everything not given: of objects made through the interface, or of documents."""
    root = root.copy()
    spus = {}
    for i, a in enumerate(root.kids("Attribute")):
        for j, s in enumerate(a.kids("SubPhysicalUnit")):
            spus["spu:%d.%d" % (i, j)] = s
    root.a.setdefault("CanHaveChildren", "0" if api else "1")

    def rec(n, parent):
        if n.tag == "ChannelFunction":
            n.a.setdefault("Name", "")
        if n.tag == "Facet" and not api:
            n.a.setdefault("Color", WHITE2)
        if n.tag == "ChannelSet":
            n.a["~UseParent"] = "0" if "PhysicalFrom" in n.a else "1"
            n.a.setdefault("PhysicalFrom", "0")
            n.a.setdefault("PhysicalTo", "1")
        if n.tag == "SubChannelSet":
            u = spus[n.a["SubPhysicalUnit"]].a if api else {}
            n.a.setdefault("PhysicalFrom", u.get("PhysicalFrom", "0"))
            n.a.setdefault("PhysicalTo", u.get("PhysicalTo", "0" if api else "1"))
        for a in attrs_of(n, parent):
            if a.key not in n.a and a.default is not None:
                n.a[a.key] = a.default
        for k in n.c:
            rec(k, n.tag)
    rec(root, None)
    for el, x, k, d in FXPROPS:
        root.a.setdefault(k, d)
    return root


def expected_read(model, written_by_api):
    """What a reader must observe of a document with the content of `model`."""
    root = with_defaults(model, written_by_api)
    if any(f.tag == "ChannelFunction" and "Attribute" not in f.a for f in root.walk()):
        ia = len(root.kids("Attribute"))
        pos = [i for i, k in enumerate(root.c) if k.tag == "FeatureGroup"]
        grp = root.kids("FeatureGroup")
        ctl = next((i for i, g in enumerate(grp) if g.a["Name"] == "Control"), None)
        if ctl is None:
            root.c.insert(pos[-1] + 1 if pos else 0, Node("FeatureGroup", dict(Name="Control", Pretty="Control")))
            ctl = len(grp)
        g = root.kids("FeatureGroup")[ctl]
        fi = next((i for i, f in enumerate(g.kids("Feature")) if f.a["Name"] == "Control"), None)
        if fi is None:
            fi = len(g.kids("Feature"))
            g.add("Feature", Name="Control")
        pos = [i for i, k in enumerate(root.c) if k.tag == "Attribute"]
        root.c.insert(pos[-1] + 1, Node("Attribute", dict(Name="NoFeature", Pretty="NoFeature", Feature="feat:%d.%d" % (ctl, fi), PhysicalUnit="0")))
        for f in root.walk():
            if f.tag == "ChannelFunction" and "Attribute" not in f.a:
                f.a["Attribute"] = "attr:%d" % ia
    for m, md in enumerate(root.kids("DMXMode")):
        for i, ch in enumerate(md.kids("DMXChannel")):
            mx = 256 ** ch_bytes(ch) - 1
            for j, lc in enumerate(ch.kids("LogicalChannel")):
                fs = lc.kids("ChannelFunction")
                for k, f in enumerate(fs):
                    st = int(f.a["DMXFrom"])
                    end = int(fs[k + 1].a["DMXFrom"]) - 1 if k + 1 < len(fs) else mx
                    f.a["~End"] = str(end)
                    f.a["~Resolution"] = str(ch_bytes(ch))
                    f.a["~Parent"] = "lc:%d.%d.%d" % (m, i, j)
                    sets = sorted(f.kids("ChannelSet"), key=lambda s: int(s.a["DMXFrom"]))
                    others = [x for x in f.c if x.tag != "ChannelSet"]
                    new = []
                    pos = st

                    def gap(a, b):
                        new.append(Node("ChannelSet", dict(Name="", DMXFrom=str(a), DMXTo=str(b), WheelSlotIndex="0")))
                    for s in sets:
                        a, b = int(s.a["DMXFrom"]), int(s.a["DMXTo"])
                        if written_by_api and a > pos:
                            gap(pos, a - 1)
                        new.append(s)
                        pos = b + 1
                    if written_by_api and sets and pos <= end:
                        gap(pos, end)
                    for q, s in enumerate(new):
                        s.a["DMXTo"] = str(int(new[q + 1].a["DMXFrom"]) - 1 if q + 1 < len(new) else end)
                        s.a.setdefault("~UseParent", "1")
                        s.a.setdefault("PhysicalFrom", "0")
                        s.a.setdefault("PhysicalTo", "1")
                    f.c = new + others
                if j == 0 and fs and "InitialFunction" not in ch.a:
                    ch.a["InitialFunction"] = "fn:%d.%d.0.0" % (m, i)
    derive(root)
    ix = Index(root)
    for t, n in ix.by_tok.items():
        if t.startswith("fn:") and n.a["Name"] == "":
            n.a["Name"] = ix.name[t].split(".", 2)[2]
    root.a["~Version"] = "1.2"
    return root


def derive(root):
    ix = Index(root)
    back = {}
    for t, n in ix.by_tok.items():
        if t.startswith("attr:"):
            for k in ("ActivationGroup", "Feature"):
                if k in n.a:
                    back.setdefault(n.a[k], []).append(t)
    for i, n in enumerate(root.kids("ActivationGroup")):
        n.a["~Attributes"] = "".join(x + ";" for x in back.get("act:%d" % i, []))
    for i, g in enumerate(root.kids("FeatureGroup")):
        for j, f in enumerate(g.kids("Feature")):
            f.a["~Group"] = "fg:%d" % i
            f.a["~Attributes"] = "".join(x + ";" for x in back.get("feat:%d.%d" % (i, j), []))
    for t, g in ix.by_tok.items():
        if t.startswith("geo:"):
            p = g.x[1]
            g.a["~Parent"] = p.x[0] if p.tag == "Geometry" else ""
            g.a["~Channels"] = "".join(c + ";" for c, n in ix.by_tok.items() if c.startswith("ch:") and n.a.get("Geometry") == t)
    for m, md in enumerate(root.kids("DMXMode")):
        for i, ch in enumerate(md.kids("DMXChannel")):
            t = "ch:%d.%d" % (m, i)
            ch.a["~Name"] = ix.name[t]
            ch.a["~Resolution"] = str(ch_bytes(ch))
            for j, lc in enumerate(ch.kids("LogicalChannel")):
                lc.a["~Name"] = ix.name.get(lc.a.get("Attribute"), "")
                lc.a["~Parent"] = t
        md.a["~Breaks"] = breaks_text(root, md, ix)


def subtree(n):
    return [g for g in n.walk() if g.tag == "Geometry"]


def breaks_text(root, md, ix):
    """Breaks used by the mode, ascending, each with the span of addresses its channels occupy in the geometry tree:
    a reference repeats the channels of the geometry it refers to, moved to the reference's address for that break
    (the n-th break of the reference belongs to the n-th break used below; the last one replaces 'Overwrite')."""
    chans = md.kids("DMXChannel")
    groot = ix.by_tok.get(md.a.get("Geometry"))
    tok = lambda g: g.x[0]

    def reach(g, acc):
        for x in subtree(g):
            if x.a["Type"] == "17" and x not in acc:
                acc.append(x)
                t = ix.by_tok.get(x.a.get("Geometry"))
                if t is not None:
                    reach(t, acc)
        return acc
    refs = reach(groot, []) if groot is not None else []
    below = {}
    for rf in refs:
        t = ix.by_tok.get(rf.a.get("Geometry"))
        below[id(rf)] = set(tok(g) for g in subtree(t)) if t is not None else set()
    used = set()
    for ch in chans:
        b = int(ch.a["DMXBreak"])
        if b != 0:
            used.add(b)
        else:
            for rf in refs:
                if ch.a["Geometry"] in below[id(rf)] and rf.kids("Break"):
                    used.add(int(rf.kids("Break")[-1].a["DMXBreak"]))

    def addrs(ch, off):
        return [int(ch.a[k]) + off for k in ("Coarse", "Fine", "Ultra", "Uber") if int(ch.a.get(k, "0"))]
    out = ""
    for b in sorted(used):
        occ = []
        for g in (subtree(groot) if groot is not None else []):
            occ += [x for ch in chans if ch.a["Geometry"] == tok(g) and int(ch.a["DMXBreak"]) == b for x in addrs(ch, 0)]
            if g.a["Type"] == "17" and g in refs:
                mine = [ch for ch in chans if ch.a["Geometry"] in below[id(g)]]
                ids = sorted(set(int(c.a["DMXBreak"]) for c in mine if int(c.a["DMXBreak"]) != 0))
                brk = g.kids("Break")
                if b in ids and ids.index(b) < len(brk):
                    off = int(brk[ids.index(b)].a["DMXOffset"]) - 1
                    occ += [x for ch in mine if int(ch.a["DMXBreak"]) == b for x in addrs(ch, off)]
                if brk and int(brk[-1].a["DMXBreak"]) == b:
                    off = int(brk[-1].a["DMXOffset"]) - 1
                    occ += [x for ch in mine if int(ch.a["DMXBreak"]) == 0 for x in addrs(ch, off)]
        out += "%d:%d;" % (b, max(occ) - min(occ) + 1 if occ else 0)
    return out


# ---------------------------------------------------------------------------------------------------------------
# Comparing what was dumped
def same(typ, e, g):
    if typ in ("d",):
        return num_eq(e, g)
    if typ in ("c", "m", "R", "V"):
        return nums_eq(e, g)
    if typ == "g":
        return e.upper() == g.upper()
    return e == g


def compare(exp, got, out, path="", parent=None, skip=(), limit=25):
    """out: list of (key, text). Keys name the place in the vocabulary, not the input."""
    if len(out) >= limit:
        return
    tag = exp.tag
    here = path + "/" + tag
    known = attrs_of(exp, parent)
    keys = [(a.key, a.typ) for a in known if a.dump]
    if tag in ("ColorSpace", "MainColorSpace") and exp.a.get("Mode") != "1":
        keys = [k for k in keys if k[1] != "c"]
    if tag == "FixtureType":
        keys += [(k, "d") for _, _, k, _ in FXPROPS]
    if tag == "ChannelSet":
        keys += [("DMXTo", "x")]
    keys += [(k, "~") for k in exp.a if k.startswith("~")]
    for k, typ in keys:
        if k in skip or tag + "." + k in skip:
            continue
        e, g = exp.a.get(k), got.a.get(k)
        if e is None:
            if g is not None and g not in ("(null)", "?"):
                out.append(("%s.%s:unexpected" % (tag, k), "%s: %s should be unset, is %r" % (here, k, g)))
        elif g is None:
            out.append(("%s.%s:missing" % (tag, k), "%s: %s should be %r, not available (%s)" % (here, k, e, got.a.get("!" + k))))
        elif not same(typ, e, g):
            out.append(("%s.%s" % (tag, k), "%s: %s should be %r, is %r" % (here, k, e[:200], g[:200])))
    tags = []
    for n in exp.c + got.c:
        if n.tag not in tags and not n.tag.startswith("~"):
            tags.append(n.tag)
    for t in tags:
        e, g = exp.kids(t), got.kids(t)
        if len(e) != len(g):
            out.append(("%s>%s:count" % (tag, t), "%s: %d of %s expected, %d found" % (here, len(e), t, len(g))))
            continue
        for i, (x, y) in enumerate(zip(e, g)):
            compare(x, y, out, here + "[%d]" % i if False else here, tag, skip, limit)


# ---------------------------------------------------------------------------------------------------------------
# Documents
def fmt_num(r, v):
    f = float(v)
    s = "%.6f" % f
    if r is None:
        return s
    k = r.random()
    if f == int(f) and abs(f) < 1e15 and k < 0.4:
        return str(int(f))
    if k < 0.7:
        t = s.rstrip("0")
        return t + "0" if t.endswith(".") else t
    return s


def dmx_text(r, v, by, style=None):
    return "%s/%d" % (v, by)


def value_text(r, a, v, ix, n, owner):
    t = a.typ
    if t in ("s", "n", "i", "u", "g", "t"):
        if t == "g" and r is not None and r.random() < 0.3:
            return v.lower()
        return v
    if t == "d":
        return fmt_num(r, v)
    if t == "b":
        return "true" if v == "1" else "false"
    if t == "y":
        return "Yes" if v == "1" else "No"
    if t == "u8":
        return v
    if t.startswith("e:"):
        return ENUMS[t[2:]][int(v)]
    if t == "c":
        return ",".join(fmt_num(r, x) for x in v.split(","))
    if t == "m":
        d = v.split(",")
        row = lambda i: "{%s}" % ",".join(fmt_num(r, x) for x in (d[3 * i], d[3 * i + 1], d[3 * i + 2], d[9 + i]))
        return row(0) + row(1) + row(2) + "{0,0,0,1}"
    if t == "R":
        d = v.split(",")
        return "".join("{%s}" % ",".join(fmt_num(r, x) for x in d[3 * i:3 * i + 3]) for i in range(3))
    if t == "V":
        return "{%s}" % ",".join(fmt_num(r, x) for x in v.split(","))
    if t == "h":
        return "0x%X" % int(v) if r is None or r.random() < 0.5 else "0x%x" % int(v)
    if t == "A":
        x = int(v)
        if r is not None and r.random() < 0.5:
            return "%d.%d" % ((x - 1) // 512 + 1, (x - 1) % 512 + 1)
        return str(x)
    if t == "B":
        return "Overwrite" if v == "0" else v
    if t[0] == "r":
        return ix.name[v]
    raise KeyError(t)


class X:  # an element
    def __init__(self, tag, attrs=()):
        self.tag, self.attrs, self.c = tag, list(attrs), []


def to_doc(model, r=None, version="1.2"):
    """Builds the element tree of a document. With a random generator the document varies in every way that does not
    change its meaning."""
    ix = Index(model)

    def elem(n, parent, ch):
        tag = GEO[int(n.a["Type"])][0] if n.tag == "Geometry" else "ColorSpace" if n.tag == "MainColorSpace" else n.tag
        e = X(tag)
        e.node = n
        if n.tag == "DMXChannel":
            ch = n
        for a in attrs_of(n, parent):
            v = n.a.get(a.key)
            if n.tag == "AnimationSystem" and a.key[0] == "P":
                continue
            if n.tag == "DMXChannel" and a.key in ("Coarse", "Fine", "Ultra", "Uber"):
                continue
            if v is None:
                if a.req and r is not None:
                    v = a.default
                if v is None:
                    continue
            if a.typ == "x":
                c = ix.channel_of(n.a["DMXChannel"]) if n.tag == "MacroDMXValue" else ix.channel_of(n.a["ChannelFunction"]) if n.tag == "MacroVisualValue" else ch
                e.attrs.append((a.x, dmx_text(r, v, ch_bytes(c))))
            elif a.typ == "mx":
                e.attrs.append((a.x, dmx_text(r, v, ch_bytes(ix.channel_of(n.a["ModeMaster"])))))
            else:
                e.attrs.append((a.x, value_text(r, a, v, ix, n, ch)))
        if n.tag == "AnimationSystem":
            for k in ("P1", "P2", "P3"):
                e.attrs.append((k, fmt_num(r, n.a[k + "X"]) + "," + fmt_num(r, n.a[k + "Y"])))
        if n.tag == "DMXChannel":
            v = [n.a.get(k, "0") for k in ("Coarse", "Fine", "Ultra", "Uber")]
            v = [x for x in v if x != "0"]
            if v or r is None or r.random() < 0.3:
                e.attrs.append(("Offset", ",".join(v) if v else ("" if r is None or r.random() < 0.5 else "None")))
            if "Highlight" not in n.a and r is not None and r.random() < 0.5:
                e.attrs.append(("Highlight", "None"))
        if n.tag == "Gamut":
            e.attrs.append(("Points", "".join("{%s}" % ",".join(fmt_num(r, x) for x in p.a["Color"].split(",")) for p in n.c)))
            return e
        if n.tag == "DMXMode":
            for cont, t in MODEC:
                ks = n.kids(t)
                if ks or r is None or r.random() < 0.7:
                    k = X(cont)
                    k.c = [elem(x, n.tag, None) for x in ks]
                    e.c.append(k)
            return e
        for k in n.c:
            e.c.append(elem(k, n.tag, ch))
        return e
    fx = X("FixtureType")
    fx.node = model
    for a in SPEC["FixtureType"]:
        if a.key in model.a:
            fx.attrs.append((a.x, value_text(r, a, model.a[a.key], ix, model, None)))
        elif a.req or (r is not None and a.key == "RefFT" and r.random() < 0.5):
            fx.attrs.append((a.x, a.default or ""))

    def cont(path):
        e = fx
        for p in path.split("/"):
            k = next((x for x in e.c if x.tag == p), None)
            if k is None:
                k = X(p)
                e.c.append(k)
            e = k
        return e
    done = False
    for path, t in TOP:
        if path.startswith("Models") and not done:
            done = True
            for x in model.kids("MainColorSpace"):
                if r is None or x.a["Mode"] != "0" or x.a["Name"] or r.random() < 0.5:
                    p = cont("PhysicalDescriptions")
                    p.c.append(elem(x, "FixtureType", None))
            pr = {}
            for el, x, k, d in FXPROPS:
                if k in model.a:
                    pr.setdefault(el, []).append((x, fmt_num(r, model.a[k])))
            for el, at in pr.items():
                p = cont("PhysicalDescriptions/Properties")
                q = X(el, at)
                p.c.append(q)
        ks = model.kids(t)
        if ks or r is None or r.random() < 0.6:
            p = cont(path)
            for x in ks:
                p.c.append(elem(x, "FixtureType", None))
    root = X("GDTF", [("DataVersion", version)])
    root.c.append(fx)
    return root


def xml_escape(s, q, r):
    o = []
    for ch in s:
        if ch == "&":
            o.append("&amp;")
        elif ch == "<":
            o.append("&lt;")
        elif ch == ">":
            o.append("&gt;" if r is None or r.random() < 0.5 else ">")
        elif ch == '"':
            o.append("&quot;" if q == '"' or (r is not None and r.random() < 0.3) else ch)
        elif ch == "'":
            o.append("&apos;" if q == "'" or (r is not None and r.random() < 0.3) else ch)
        elif r is not None and r.random() < 0.01:
            o.append("&#%d;" % ord(ch) if r.random() < 0.5 else "&#x%x;" % ord(ch))
        else:
            o.append(ch)
    return "".join(o)


def serialize(e, r=None, lines=None):
    """Text of the document; with `lines`, records the line on which each element's start tag begins."""
    out = []
    line = [1]

    def put(s):
        out.append(s)
        line[0] += s.count("\n")
    put('<?xml version="1.0" encoding="UTF-8"?>' + ("" if r is None or r.random() < 0.8 else "<!-- c -->") + "\n")

    def rec(x, d):
        ind = "  " * d
        if r is not None and r.random() < 0.03:
            put(ind + "<!-- comment %s -->\n" % r.choice(["x", "<Wheel/>", "ä"]))
        if lines is not None:
            lines[id(x)] = line[0]
        at = list(x.attrs)
        if r is not None:
            r.shuffle(at)
        s = ind + "<" + x.tag
        for k, v in at:
            q = '"' if r is None or r.random() < 0.85 else "'"
            s += " %s=%s%s%s" % (k, q, xml_escape(v, q, r), q)
        if not x.c:
            put(s + ("/>\n" if r is None or r.random() < 0.8 else "></%s>\n" % x.tag))
            return
        put(s + ">\n")
        for k in x.c:
            rec(k, d + 1)
        put(ind + "</%s>\n" % x.tag)
    rec(e, 0)
    return "".join(out).encode("utf-8")


# ---------------------------------------------------------------------------------------------------------------
# Strict reading of a written document
class Bad(Exception):
    pass


def parse_value(a, s, where):
    t = a.typ
    try:
        if t in ("s", "n"):
            return s
        if t in ("i", "u", "u8"):
            int(s)
            return s
        if t == "d":
            float(s)
            return s
        if t == "b":
            return {"true": "1", "false": "0"}[s]
        if t == "y":
            return {"Yes": "1", "No": "0"}[s]
        if t.startswith("e:"):
            return next(str(k) for k, v in ENUMS[t[2:]].items() if v == s)
        if t == "c":
            p = s.split(",")
            assert len(p) == 3
            [float(x) for x in p]
            return s
        if t in ("m", "R", "V"):
            assert s[0] == "{" and s[-1] == "}"
            rows = [[float(x) for x in q.split(",")] for q in s[1:-1].split("}{")]
            if t == "V":
                assert len(rows) == 1 and len(rows[0]) == 3
                return ",".join(map(repr, rows[0]))
            if t == "R":
                assert len(rows) == 3 and all(len(q) == 3 for q in rows)
                return ",".join(repr(x) for q in rows for x in q) + ",0,0,0"
            assert len(rows) == 4 and all(len(q) == 4 for q in rows) and rows[3] == [0, 0, 0, 1]
            return ",".join(repr(x) for q in rows[:3] for x in q[:3]) + "," + ",".join(repr(q[3]) for q in rows[:3])
        if t == "g":
            assert len(s) == 36 and [len(x) for x in s.split("-")] == [8, 4, 4, 4, 12]
            int(s.replace("-", ""), 16)
            return s.upper()
        if t == "t":
            import datetime
            datetime.datetime.strptime(s, "%Y-%m-%dT%H:%M:%S")
            return s
        if t == "h":
            assert s[:2] in ("0x", "0X")
            return str(int(s, 16))
        if t == "A":
            if "." in s:
                u, x = s.split(".")
                return str((int(u) - 1) * 512 + int(x))
            return str(int(s))
        if t == "B":
            return "0" if s == "Overwrite" else str(int(s))
        if t in ("x", "mx"):
            v, b = s.split("/")
            int(v), int(b)
            return s
        if t[0] == "r":
            return s
    except Exception:
        raise Bad("%s: %r is not a valid %s" % (where, s, t))
    raise KeyError(t)


def from_doc(data):
    """Reads a document strictly; returns (model with tokens, list of problems)."""
    probs = []
    try:
        rt = ET.fromstring(data)
    except ET.ParseError as ex:
        return None, ["not well formed: %s" % ex]
    if rt.tag != "GDTF" or rt.get("DataVersion") != "1.2" or len(rt) != 1 or rt[0].tag != "FixtureType":
        probs.append("root element %s %s" % (rt.tag, rt.attrib))
    fx = rt[0]

    def attrs(e, n, parent):
        seen = dict(e.attrib)
        for a in attrs_of(n, parent):
            if n.tag == "AnimationSystem" and a.key[0] == "P":
                continue
            if n.tag == "DMXChannel" and a.key in ("Coarse", "Fine", "Ultra", "Uber"):
                continue
            if a.x in seen:
                s = seen.pop(a.x)
                if n.tag == "FixtureType" and a.key == "RefFT" and s == "":
                    continue
                if n.tag == "DMXChannel" and a.key == "Highlight" and s == "None":
                    continue
                if n.tag == "Structure" and s == "":
                    continue
                try:
                    n.a[a.key] = parse_value(a, s, e.tag + "." + a.x)
                except Bad as b:
                    probs.append(str(b))
            elif a.req:
                probs.append("%s: mandatory attribute %s is missing" % (e.tag, a.x))
        if n.tag == "AnimationSystem":
            for k in ("P1", "P2", "P3"):
                p = seen.pop(k, ",").split(",")
                if len(p) != 2:
                    probs.append("AnimationSystem.%s" % k)
                else:
                    n.a[k + "X"], n.a[k + "Y"] = p
        if n.tag == "DMXChannel":
            o = seen.pop("Offset", "")
            p = [x for x in o.split(",") if x] if o != "None" else []
            for q, k in enumerate(("Coarse", "Fine", "Ultra", "Uber")):
                n.a[k] = p[q] if q < len(p) else "0"
        if n.tag == "Gamut":
            s = seen.pop("Points", "")
            if s:
                for q in s[1:-1].split("}{"):
                    n.add("GamutPoint", Color=q)
        for k in seen:
            probs.append("%s: unknown attribute %s" % (e.tag, k))

    def node(e, parent):
        if e.tag in GEOTAG:
            n = Node("Geometry", dict(Type=str(GEOTAG[e.tag])))
        else:
            n = Node(e.tag)
        attrs(e, n, parent)
        if n.tag == "DMXMode":
            for c in e:
                t = dict(MODEC).get(c.tag)
                if t is None:
                    probs.append("DMXMode: unknown element %s" % c.tag)
                    continue
                for k in c:
                    if k.tag != t:
                        probs.append("%s: unknown element %s" % (c.tag, k.tag))
                    else:
                        n.c.append(node(k, n.tag))
            return n
        allowed = CHILDREN.get(n.tag, [])
        if n.tag == "Geometry":
            allowed = GEO[int(n.a["Type"])][2] + list(GEOTAG)
        for c in e:
            if c.tag not in allowed:
                probs.append("%s: unknown element %s" % (e.tag, c.tag))
            else:
                n.c.append(node(c, n.tag))
        return n
    root = Node("FixtureType")
    attrs(fx, root, None)
    paths = {}
    for p, t in TOP:
        paths.setdefault(p, []).append(t)

    def walk(e, path):
        for c in e:
            p = (path + "/" if path else "") + c.tag
            if p in paths:
                for k in c:
                    if k.tag in paths[p] or (p == "Geometries" and k.tag in GEOTAG):
                        root.c.append(node(k, "FixtureType"))
                    else:
                        probs.append("%s: unknown element %s" % (p, k.tag))
            elif any(q.startswith(p + "/") for q in paths):
                walk(c, p)
            elif p == "PhysicalDescriptions/ColorSpace":
                n = Node("MainColorSpace")
                attrs(c, n, "FixtureType")
                root.c.append(n)
            elif p == "PhysicalDescriptions/Properties":
                for k in c:
                    for el, x, key, d in FXPROPS:
                        if k.tag == el and x in k.attrib:
                            root.a[key] = k.get(x)
            elif p == "FTPresets":
                pass
            else:
                probs.append("unknown element %s" % p)
    walk(fx, "")
    resolve_refs(root, probs)
    return root, probs


def resolve_refs(root, probs):
    """References: names to tokens."""
    kinds = {}

    def put(kind, name, tok):
        kinds.setdefault(kind, {}).setdefault(name, tok)
    top = {"ActivationGroup": "act", "Filter": "filter", "Emitter": "emit", "ColorSpace": "cs", "Gamut": "gam", "DMXProfile": "prof", "Wheel": "wheel", "Model": "model", "DMXMode": "mode", "Attribute": "attr"}
    for tag, p in top.items():
        for i, n in enumerate(root.kids(tag)):
            put(p, n.a.get("Name", ""), "%s:%d" % (p, i))
    for i, g in enumerate(root.kids("FeatureGroup")):
        for j, f in enumerate(g.kids("Feature")):
            put("feat", g.a.get("Name", "") + "." + f.a.get("Name", ""), "feat:%d.%d" % (i, j))

    def geos(n, tok):
        for i, g in enumerate(n.kids("Geometry")):
            put("geo", g.a.get("Name", ""), tok + str(i))
            geos(g, tok + str(i) + ".")
    geos(root, "geo:")

    def ref(n, k, kind, table=None):
        v = n.a.get(k)
        if v is None:
            return
        t = (table or kinds.get(kind, {})).get(v)
        if t is None:
            if not (k == "LinkedGeometry" and v == ""):
                probs.append("%s.%s: %r does not name a %s" % (n.tag, k, v, kind))
            del n.a[k]
        else:
            n.a[k] = t

    def rec(n, parent, tables):
        for a in attrs_of(n, parent):
            if a.typ[0] != "r" or a.typ[1:2] != ":":
                continue
            kind = a.typ[2:]
            if kind in ("ch", "fn", "chfn", "spu"):
                continue
            ref(n, a.key, kind)
        for k in n.c:
            rec(k, n.tag, tables)
    rec(root, None, None)
    attrn = [a.a.get("Name", "") for a in root.kids("Attribute")]
    nm = lambda t: attrn[int(t.split(":")[1])] if t else ""
    geon = {t: k for k, t in kinds.get("geo", {}).items()}
    for m, md in enumerate(root.kids("DMXMode")):
        chs, fns, owner = {}, {}, {}
        for i, ch in enumerate(md.kids("DMXChannel")):
            l0 = ch.kids("LogicalChannel")
            cn = geon.get(ch.a.get("Geometry"), "") + "_" + (nm(l0[0].a.get("Attribute")) if l0 else "")
            chs.setdefault(cn, "ch:%d.%d" % (m, i))
            owner["ch:%d.%d" % (m, i)] = ch
            for j, l in enumerate(l0):
                for k, f in enumerate(l.kids("ChannelFunction")):
                    fn = f.a.get("Name", "") or "%s %d" % (nm(f.a.get("Attribute")) or "NoFeature", k + 1)
                    t = "fn:%d.%d.%d.%d" % (m, i, j, k)
                    fns.setdefault(cn + "." + nm(l.a.get("Attribute")) + "." + fn, t)
                    owner[t] = ch

        def dmx(n, k, ch):
            v = n.a.get(k)
            if v is None:
                return
            x, b = v.split("/")
            if ch is not None and int(b) != ch_bytes(ch):
                probs.append("%s.%s: %s for a channel of %d bytes" % (n.tag, k, v, ch_bytes(ch)))
            if int(x) > 256 ** int(b) - 1 or int(x) < 0:
                probs.append("%s.%s: %s is out of range" % (n.tag, k, v))
            n.a[k] = x
        both = dict(fns)
        both.update(chs)
        for ch in md.kids("DMXChannel"):
            ref(ch, "InitialFunction", "fn", fns)
            dmx(ch, "Highlight", ch)
            for l in ch.kids("LogicalChannel"):
                for f in l.kids("ChannelFunction"):
                    ref(f, "ModeMaster", "chfn", both)
                    mc = owner.get(f.a.get("ModeMaster"))
                    dmx(f, "ModeFrom", mc)
                    dmx(f, "ModeTo", mc)
                    fa = f.a.get("Attribute", "attr:-1")
                    if not fa.startswith("attr:"):
                        fa = "attr:-1"
                    own = root.kids("Attribute")[int(fa[5:])].kids("SubPhysicalUnit") if fa != "attr:-1" else []
                    for s in f.kids("SubChannelSet"):
                        ref(s, "SubPhysicalUnit", "spu", {ENUMS["spu"].get(int(x.a.get("Type", "-1"))): "spu:%s.%d" % (fa[5:], q) for q, x in enumerate(own)})
                    dmx(f, "DMXFrom", ch)
                    dmx(f, "Default", ch)
                    for s in f.kids("ChannelSet"):
                        dmx(s, "DMXFrom", ch)
        for r in md.kids("Relation"):
            ref(r, "Master", "ch", chs)
            ref(r, "Follower", "fn", fns)
        for x in md.walk():
            if x.tag == "FTMacro":
                ref(x, "ChannelFunction", "fn", fns)
            if x.tag == "MacroDMXValue":
                ref(x, "DMXChannel", "ch", chs)
                dmx(x, "Value", owner.get(x.a.get("DMXChannel")))
            if x.tag == "MacroVisualValue":
                ref(x, "ChannelFunction", "fn", fns)
                dmx(x, "Value", owner.get(x.a.get("ChannelFunction")))


def expected_doc(model):
    """The model a written document must contain: API content with defaults, channel sets completed."""
    root = with_defaults(model)
    for ch in root.walk():
        if ch.tag != "DMXChannel":
            continue
        mx = 256 ** ch_bytes(ch) - 1
        for lc in ch.kids("LogicalChannel"):
            fs = lc.kids("ChannelFunction")
            for k, f in enumerate(fs):
                st = int(f.a["DMXFrom"])
                end = int(fs[k + 1].a["DMXFrom"]) - 1 if k + 1 < len(fs) else mx
                sets = sorted(f.kids("ChannelSet"), key=lambda s: int(s.a["DMXFrom"]))
                new, pos = [], st
                for s in sets:
                    if int(s.a["DMXFrom"]) > pos:
                        new.append(Node("ChannelSet", dict(Name="", DMXFrom=str(pos), WheelSlotIndex="0")))
                    new.append(s)
                    pos = int(s.a.pop("DMXTo")) + 1
                if sets and pos <= end:
                    new.append(Node("ChannelSet", dict(Name="", DMXFrom=str(pos), WheelSlotIndex="0")))
                f.c = new + [x for x in f.c if x.tag != "ChannelSet"]
    for s in root.walk():
        if s.tag == "ChannelSet" and s.a.pop("~UseParent", "1") == "1":
            s.a.pop("PhysicalFrom", 0), s.a.pop("PhysicalTo", 0)
        if s.tag == "Slot":
            for k in ("Duration", "Width", "Height", "FPS"):
                if num_eq(s.a[k], "0", 0):
                    del s.a[k]
            if s.a["MediaFileName"] == "":
                del s.a["MediaFileName"]
        if s.tag in ("ColorSpace", "MainColorSpace") and s.a.get("Mode") != "1":
            for k in ("Red", "Green", "Blue", "WhitePoint"):
                s.a.pop(k, None)
    return root


def fill_names(root):
    """Puts the documented default where a function has no name, a channel no initial function."""
    ix = Index(root)
    for t, n in ix.by_tok.items():
        if t.startswith("fn:") and n.a.get("Name", "") == "":
            n.a["Name"] = ix.name[t].split(".", 2)[2]
    for m, md in enumerate(root.kids("DMXMode")):
        for i, ch in enumerate(md.kids("DMXChannel")):
            if "InitialFunction" not in ch.a and ch.c and ch.c[0].c:
                ch.a["InitialFunction"] = "fn:%d.%d.0.0" % (m, i)
