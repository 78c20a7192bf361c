"""The messages of MVR-xchange: a generator, and the bytes and fields they stand for (independent of the library)."""
import json, struct

UNDEFINED, JOIN, LEAVE, COMMIT, REQUEST, JOIN_RET, LEAVE_RET, COMMIT_RET, REQUEST_RET, HOST = range(10)
NAMES = {JOIN: "MVR_JOIN", LEAVE: "MVR_LEAVE", COMMIT: "MVR_COMMIT", REQUEST: "MVR_REQUEST", JOIN_RET: "MVR_JOIN_RET", LEAVE_RET: "MVR_LEAVE_RET", COMMIT_RET: "MVR_COMMIT_RET", REQUEST_RET: "MVR_REQUEST_RET"}
FLAG = 778682


def uuid_text(u):
    u = "".join(u[k:k + 8][j:j + 2] for k in (0, 8, 16, 24) for j in (6, 4, 2, 0))     # (the words hold their bytes in the order of the processor)
    return "-".join((u[:8], u[8:12], u[12:16], u[16:20], u[20:]))


def cut(s):
    b = (s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s).split(b"\0")[0][:1023]
    return b.decode("utf-8", "surrogateescape")


def gen_uuid(r):
    return "".join("%08X" % r.choice([r.getrandbits(32), r.getrandbits(32), r.choice([0, 1, 0xFFFFFFFF, 0x80000000, 0xABCDEF01])]) for _ in range(4))


WORDS = ["", "a", "My Station", "Pult \u00e4\u00f6\u00fc\u00df", "\u65e5\u672c\u8a9e", "\U0001f600 light", "quote\" back\\slash /", "tab\tnew\nline", "\x01\x1f\x7f", "{\"Type\":\"MVR_LEAVE\"}", "%s%n%x", "null", "true", "<xml/>"]


def gen_str(r, long=True):
    m = r.random()
    if m < 0.5:
        return r.choice(WORDS)
    if m < 0.9 or not long:
        return "".join(r.choice("abcXYZ019 _-.:/\\\"'\u00e9\u4e2d\U0001f4a1") for _ in range(r.randrange(1, 40)))
    n = r.choice([253, 255, 256, 1000, 1020, 1021, 1022, 1023])
    s = "".join(r.choice("ab\u00e9\u4e2d") for _ in range(n))
    while len(s.encode()) > n:
        s = s[:-1]
    return s + "z" * (n - len(s.encode()))


def num(r, bits=32):
    return r.choice([0, 1, 6, r.getrandbits(bits), (1 << bits) - 1, 1 << (bits - 1), r.getrandbits(8)])


def gen_commit(r):
    return {"FileName": gen_str(r), "Comment": gen_str(r), "Major": num(r), "Minor": num(r), "Size": num(r, 64), "File": gen_uuid(r), "Station": gen_uuid(r), "U": [gen_uuid(r) for _ in range(r.choice([0, 0, 1, 2, 5]))]}


def gen(r, kind=None):
    t = kind or r.choice(list(NAMES))
    m = {"Type": t, "OK": True, "Message": ""}
    if t in (JOIN, JOIN_RET):
        m.update(Provider=gen_str(r), Name=gen_str(r), Station=gen_uuid(r), Major=num(r), Minor=num(r), Commits=[gen_commit(r) for _ in range(r.choice([0, 0, 1, 2, 6]))])
    if t in (JOIN_RET, LEAVE_RET, COMMIT_RET, REQUEST_RET):
        m.update(OK=r.random() < 0.5, Message=gen_str(r))
    if t == REQUEST_RET:
        m["OK"] = False                                 # (an answered request is a file)
    if t == COMMIT:
        m.update(gen_commit(r))
    if t == REQUEST:
        m.update(File=gen_uuid(r), U=[gen_uuid(r) for _ in range(r.choice([0, 1, 2, 5]))])
    if t == LEAVE:
        m["Station"] = gen_uuid(r)
    return m


def to_node(parent, tag, m, **extra):
    n = parent.add(tag, **extra)
    put(n, m)
    return n


def put(n, m):
    for k, v in m.items():
        if k == "U":
            for u in v:
                n.add("U", V=u)
        elif k == "Commits":
            for c in v:
                put(n.add("Commit"), c)
        else:
            n.a[k] = ("1" if v else "0") if isinstance(v, bool) else str(v)


def from_node(n):
    """A dumped message as the generator makes it."""
    t = int(n.a["Type"])
    m = {"Type": t, "OK": n.a["OK"] == "1", "Message": n.a["Message"]}

    def commit(n):
        return {"FileName": n.a["FileName"], "Comment": n.a["Comment"], "Major": int(n.a["Major"]), "Minor": int(n.a["Minor"]), "Size": int(n.a["Size"]), "File": n.a["File"], "Station": n.a["Station"], "U": [u.a["V"] for u in n.kids("U")]}
    if t in (JOIN, JOIN_RET) and "Provider" in n.a:
        m.update(Provider=n.a["Provider"], Name=n.a["Name"], Station=n.a["Station"], Major=int(n.a["Major"]), Minor=int(n.a["Minor"]), Commits=[commit(k) for k in n.kids("Commit")])
    if t == COMMIT and "FileName" in n.a:
        m.update(commit(n))
    if t == REQUEST and "File" in n.a:
        m.update(File=n.a["File"], U=[u.a["V"] for u in n.kids("U")])
    if t == LEAVE and "Station" in n.a:
        m["Station"] = n.a["Station"]
    if "Buffer" in n.a:
        m["Buffer"] = n.a["Buffer"]
    return m


def commit_json(c):
    return {"Type": "MVR_COMMIT", "FileName": c["FileName"], "Comment": c["Comment"], "FileSize": c["Size"], "FileUUID": uuid_text(c["File"]), "StationUUID": uuid_text(c["Station"]), "verMajor": c["Major"], "verMinor": c["Minor"],
            "ForStationsUUID": [uuid_text(u) for u in c["U"]]}


def to_json(m):
    t = m["Type"]
    j = {"Type": NAMES.get(t, "MVR_UNDEFINED")}
    if t in (JOIN_RET, LEAVE_RET, COMMIT_RET, REQUEST_RET):
        j.update(OK=m["OK"], Message=m["Message"])
    if t in (JOIN, JOIN_RET):
        j.update(Provider=m["Provider"], StationName=m["Name"], StationUUID=uuid_text(m["Station"]), verMajor=m["Major"], verMinor=m["Minor"], Commits=[commit_json(c) for c in m["Commits"]])
    if t == COMMIT:
        j = commit_json(m)
    if t == REQUEST:
        j.update(FileUUID=uuid_text(m["File"]), FromStationUUID=[uuid_text(u) for u in m["U"]])
    if t == LEAVE:
        j["FromStationUUID"] = uuid_text(m["Station"])
    return j


def packet(body, typ=0, flag=FLAG, version=1, number=0, count=1, length=None):
    return struct.pack(">IIIIIQ", flag, version, number, count, typ, len(body) if length is None else length) + body


def split(w):
    """(header fields, body)"""
    return struct.unpack(">IIIIIQ", w[:28]), w[28:]


def style(j, r):
    """The JSON text another implementation could write."""
    def order(v):
        if isinstance(v, dict):
            k = list(v.items())
            r.shuffle(k)
            return {a: order(b) for a, b in k}
        return [order(x) for x in v] if isinstance(v, list) else v
    j = order(j)
    s = json.dumps(j, ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 2]), separators=r.choice([(",", ":"), (", ", ": "), (" ,\r\n", " :\t")]))
    return s.encode()
