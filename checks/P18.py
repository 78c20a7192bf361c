import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, xmsg
from tree import Node
from gcheck import rng

SIZES = [1, 27, 28, 29, 4096, 99999, 30 * 1024 * 1024 - 29, 30 * 1024 * 1024 - 28, 30 * 1024 * 1024 - 1, 30 * 1024 * 1024, 30 * 1024 * 1024 + 1, 31 * 1024 * 1024]


def plain(s):
    return s.replace("\ufffd", "")


def run():
    c = vlib.Check("P18", rule="a case encodes messages of every type and decodes what other implementations write; the header and the JSON on the wire are read by an independent reader, and every decoded field is compared; distinct: messages and wire texts", assumptions=["the meaning of members is the one of the MVR-xchange messages of the public interface", "strings are at most 1023 bytes long in the interface; longer ones of a peer are cut"])
    total = c.n(500, 8000)

    def make(i):
        r = rng(c, "xmsg", i)
        n = Node("xmsg")
        for _ in range(12):
            k = r.random()
            if k < 0.4:
                m = xmsg.gen(r)
                xmsg.to_node(n, "to", m).x = ("to", m)
            elif k < 0.5:
                m = xmsg.gen(r)
                for f in ("Provider", "Name", "Comment", "FileName", "Message"):
                    if m.get(f):
                        m[f] = cut_bad(r, m[f])
                xmsg.to_node(n, "to", m).x = ("bad text", m)
            elif k < 0.55:
                m = {"Type": xmsg.REQUEST_RET, "OK": True, "Message": "", "Buffer": r.randbytes(r.choice([1, 2, 100, 3000])).hex()}
                xmsg.to_node(n, "to", m).x = ("buffer", m)
            elif k < 0.58:
                m = {"Type": r.choice([xmsg.UNDEFINED, xmsg.HOST]), "OK": True, "Message": xmsg.gen_str(r)}
                xmsg.to_node(n, "to", m).x = ("undefined", m)
            else:
                m = xmsg.gen(r)
                j = xmsg.to_json(m)
                kind, exp = "read", m
                d = r.random()
                if d < 0.15 and "verMajor" in j:
                    if m["Type"] != xmsg.COMMIT:
                        j["verMajor"] = str(j["verMajor"])
                if d < 0.1 and "OK" in j:
                    j["OK"] = "true" if j["OK"] else r.choice(["false", "False", ""])
                if 0.1 < d < 0.2:
                    j[r.choice(["Extra", "verPatch", ""])] = r.choice([None, 1, "x", [1, {"a": []}], {"Type": "MVR_LEAVE"}])
                if 0.2 < d < 0.3 and m["Type"] == xmsg.LEAVE:
                    j["StationUUID"] = j.pop("FromStationUUID")
                if 0.7 < d < 0.85:                      # entries that are no UUID count for nothing, those around them do
                    lists = [x.get(k) for x in [j] + j.get("Commits", []) for k in ("ForStationsUUID", "FromStationUUID")]
                    for l in lists:
                        for _ in range(r.choice([1, 1, 2, 4]) if isinstance(l, list) else 0):
                            l.insert(r.randint(0, len(l)), r.choice(["", "x", "12345678", xmsg.uuid_text(xmsg.gen_uuid(r))[:-1], xmsg.uuid_text(xmsg.gen_uuid(r)) + "0", "{" + xmsg.uuid_text(xmsg.gen_uuid(r)) + "}"]))
                            c.count("entries that are no UUID")
                if 0.8 < d < 0.9:
                    for x in [j] + j.get("Commits", []):
                        for k in list(x):
                            if k.endswith("UUID"):
                                x[k] = [u.lower() for u in x[k]] if isinstance(x[k], list) else x[k].lower()
                if 0.3 < d < 0.4:
                    f = [k for k in ("Provider", "StationName", "Message", "Comment", "FileName") if k in j]
                    if f:
                        f = r.choice(f)
                        j[f] = r.choice(["x" * 1022 + "\u00e9", "y" * 1023 + "a", "\u4e2d" * 3000, "q" * 100000, "cut\0off"])
                        m = dict(m)
                        m["Name" if f == "StationName" else f] = xmsg.cut(j[f])
                        exp = m
                if 0.4 < d < 0.7:                       # not a message: refused, whatever it is
                    kind = "refused"
                    req = [k for k in j if k not in ("Type",) and not (k == "FromStationUUID" and m["Type"] == xmsg.LEAVE)]
                    x = r.random()
                    if req and x < 0.35:
                        del j[r.choice(req)]
                    elif x < 0.7:
                        f = r.choice(list(j))
                        w = {"verMajor": [-1, 1 << 32, 1e300, -0.5, None, [], {}, True, "x"], "verMinor": [-1, 1 << 40, 1e20, None, [], True, ""], "FileSize": [-1, 1e300, None, True, []], "Commits": [1, "x", [1], [{}], [None], [{"Type": "MVR_COMMIT"}]], "ForStationsUUID": [1, [1], [None], [[]]],
                             "OK": [None, 1, []]}.get(f, [None, 1, [], {}, True] + ([[1]] if f != "FromStationUUID" or m["Type"] != xmsg.REQUEST else []))
                        if f == "FromStationUUID" and m["Type"] == xmsg.REQUEST:
                            w = [1, [1], [None], [[]]]
                        j[f] = r.choice(w)
                    elif x < 0.8:
                        j["Type"] = r.choice(["MVR_UNDEFINED", "mvr_join", "", "MVR_JOIN ", "MVR_NEW_SESSION_HOST"])
                    elif x < 0.9:
                        j = r.choice([[], [j], 1, "x", None, True, {}, {"type": "MVR_JOIN"}])
                    elif "StationUUID" in j and m["Type"] in (xmsg.JOIN, xmsg.JOIN_RET):
                        j["StationUUID"] = r.choice(["", "x", "12345678"])
                    else:
                        j = {"Type": "MVR_JOIN"}
                b = xmsg.style(j, r)
                if kind == "read" and r.random() < 0.05:
                    b = r.choice([b"/* from a peer */ ", b"// line\n"]) + b
                if kind == "refused" and r.random() < 0.2:
                    b = r.choice([b[:-1], b + b"}", b[: len(b) // 2], b.replace(b'"', b"'"), b"", b"\xff" + b, b[:-1] + b",}"])
                h = r.random()
                if h < 0.8:
                    w, kind2 = xmsg.packet(b, version=r.choice([1, 1, 0, 2, 0xFFFFFFFF]), number=r.choice([0, 0, 1]), count=r.choice([1, 1, 2])), None
                elif h < 0.85:
                    w, kind2 = xmsg.packet(b, flag=r.choice([0, 1, 0xFFFFFFFF, 0xBAE10B00, xmsg.FLAG + 1])), "no header"
                elif h < 0.9:
                    w, kind2 = xmsg.packet(b, length=r.choice([1 << 41, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 29, (1 << 64) - 28, (1 << 64) - 1, (1 << 64) - (30 << 20)])), "no header"
                elif h < 0.95:
                    w, kind2 = xmsg.packet(b, typ=r.choice([2, 3, 0xFFFFFFFF, 0x01000000])), "refused"
                else:
                    w, kind2 = xmsg.packet(b, typ=1), "file"
                    if not b:
                        kind2 = "refused"
                n.add("wire", Bytes=w.hex()).x = (kind2 or kind, exp, w)
        if i % (total // len(SIZES) or 1) == 0 and i // (total // len(SIZES) or 1) < len(SIZES):
            z = SIZES[i // (total // len(SIZES) or 1)]
            m = {"Type": xmsg.REQUEST_RET, "OK": True, "Message": "", "Path": "f%d" % i, "Size": z}
            n.add("file", Name="f%d" % i, Size=str(z)).x = ("skip",)
            xmsg.to_node(n, "to", m).x = ("big", z)
            m = {"Type": xmsg.REQUEST_RET, "OK": True, "Message": "", "Path": "f%d" % i, "Size": z}
            xmsg.to_node(n, "to", m, Held="1").x = ("big", z)
            m = {"Type": xmsg.REQUEST_RET, "OK": True, "Message": "", "Path": "missing%d" % i}
            xmsg.to_node(n, "to", m).x = ("missing", m)
        return n

    def verify(i, s, t, rep):
        for o, g in zip(s.c, t.c):
            x = o.x
            bad = lambda k, d: c.violation(k, "%s: %s" % (d, o.text()[:1500]), rep)
            if x[0] == "skip":
                continue
            c.count("operations checked")
            c.count("checked: " + x[0])
            c.distinct("messages and texts", o.text())
            M = g.kid("M")
            if o.tag == "to":
                m = x[1]
                w = bytes.fromhex(g.get("Wire"))
                h, body = xmsg.split(w)
                exp = (xmsg.FLAG, 1, 0, 1, 1 if x[0] in ("buffer", "big", "missing") else 0)
                if h[:5] != exp:
                    bad("header", "header %s, expected %s" % (h, exp))
                if not g.get("Big") and h[5] != len(body):
                    bad("header length", "length %d of a body of %d" % (h[5], len(body)))
                if x[0] == "big":
                    if h[5] != m or (M.get("Buffer") != "same" if g.get("Big") else M.get("Buffer") != body.hex()):
                        bad("file", "%d bytes: announced %d, %s" % (m, h[5], M and M.text()[:200]))
                    continue
                if x[0] == "missing":
                    if h[5] != 0 or xmsg.from_node(M)["OK"]:
                        bad("missing file", M.text())
                    continue
                if x[0] == "buffer":
                    if body.hex() != m["Buffer"] or M.get("Buffer") != m["Buffer"] or M.get("Type") != str(xmsg.REQUEST_RET) or M.get("OK") != "1":
                        bad("buffer", M.text()[:300])
                    continue
                try:
                    j = json.loads(body.decode())
                except ValueError as e:
                    bad("json", "unreadable: %s" % e)
                    continue
                e = xmsg.to_json(m)
                if x[0] == "undefined":
                    if j.get("Type") in xmsg.NAMES.values() or xmsg.from_node(M)["Type"] != xmsg.UNDEFINED or xmsg.from_node(M)["OK"]:
                        bad("undefined", "%s" % j)
                    continue
                if x[0] == "bad text":
                    for k in e:
                        if isinstance(e[k], str) and plain(ustr(e[k])) != plain(j.get(k, "")) or not isinstance(e[k], str) and e[k] != j.get(k):
                            bad("malformed text", "%s: %r for %r" % (k, j.get(k), e[k]))
                    if M.get("OK") != ("1" if m["OK"] else "0"):
                        bad("malformed text read", M.text()[:300])
                    continue
                if j != e:
                    bad("json content", "%s, expected %s" % (j, e))
                got = xmsg.from_node(M)
                if got != m:
                    bad("round trip", "%s, expected %s" % (got, m))
            else:
                kind, m, w = x
                if kind == "no header":
                    if g.get("Header") != "0":
                        bad("header accepted", g.text()[:300])
                    continue
                if g.get("Header") != "1" or M is None:
                    bad("header refused", g.text()[:300])
                    continue
                got = xmsg.from_node(M)
                if kind == "file":
                    if got["Type"] != xmsg.REQUEST_RET or not got["OK"] or bytes.fromhex(got["Buffer"]) != w[28:]:
                        bad("file read", "%s" % got)
                elif kind == "refused":
                    if got["OK"] or not got["Message"].startswith("Parse Error"):
                        bad("accepted", "%s" % got)
                elif got != m:
                    bad("read", "%s, expected %s" % (got, m))
        c.sample("case %d: %s" % (i, s.text()[:400]))
    script.run(c, make, verify, total, per=20, env={"ASAN_OPTIONS": vlib.ASAN.replace("allocator_may_return_null=0", "allocator_may_return_null=1")})
    c.finish(["messages and texts"], 300, ["checked: to", "checked: bad text", "checked: buffer", "checked: undefined", "checked: big", "checked: missing", "checked: read", "checked: refused", "checked: no header", "checked: file"])


def ustr(s):
    return s.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


def cut_bad(r, s):
    b = bytearray(s.encode())
    for _ in range(r.randrange(1, 4)):
        b.insert(r.randrange(len(b) + 1), r.choice([0xFF, 0xC3, 0xE4, 0xB8, 0x80, 0xF0, 0xED]))
    return bytes(b)[:1023].decode("utf-8", "surrogateescape")

vlib.main(run)
