"""Hostile MVR-xchange traffic: packets and connections that are damaged on purpose."""
import copy, json, struct
import xmsg
from gcheck import rng

VALS = [None, True, False, 0, 1, -1, 1 << 31, 1 << 32, (1 << 64) - 1, -(1 << 63), 1e300, -1e300, 0.5, -0.0, "", "x", "\0", "a" * 1023, "a" * 1024, "a" * 5000, "\u00e9" * 512, "\U0001f4a1" * 256, "0", "-1", "1e5", "0x10", "9" * 40, " 7", "true", "false", "MVR_JOIN", "MVR_LEAVE",
        [], {}, [[]], [{}], [None], [[[[[]]]]], {"": {}}, {"Type": "MVR_COMMIT"}, "g" * 36, "-" * 36, "F" * 32, "{00000000-0000-0000-0000-000000000000}", "00000000-0000-0000-0000-00000000000", "\ud7ff\ufffe", "%n%s"]
TOKENS = [b"{", b"}", b"[", b"]", b",", b":", b'"', b"\\", b"\\u", b"\\ud800", b"\\u0000", b"null", b"1e999", b"-", b"1e-999", b"\0", b"\xff", b"\xc3", b"\xf0\x9f", b"//", b"/*", b"\n", b"\xef\xbb\xbf", b"999999999999999999999999", b"NaN", b"-0", b'""', b"\\x"]
FILL = [0, 1, 2, 0x7F, 0x80, 0xFF]


def val(r):
    return copy.deepcopy(r.choice(VALS))


def json_of(r):
    j = xmsg.to_json(xmsg.gen(r))
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        nodes = []

        def walk(v):
            if isinstance(v, (dict, list)):
                nodes.append(v)
                for x in (v.values() if isinstance(v, dict) else v):
                    walk(x)
        walk(j)
        n = r.choice(nodes)
        keys = list(n) if isinstance(n, dict) else list(range(len(n)))
        k = r.random()
        if keys and k < 0.5:
            n[r.choice(keys)] = val(r)
        elif keys and k < 0.6:
            del n[r.choice(keys)]
        elif keys and k < 0.7:
            n[r.choice(keys)] = json.loads(json.dumps(j))
        elif keys and k < 0.8 and isinstance(n, dict):
            a, b = r.choice(keys), r.choice(keys)
            n[a], n[b] = n[b], n[a]
        elif isinstance(n, dict):
            n[r.choice(["Type", "Commits", "OK", "StationUUID", "verMajor", "", "Extra"])] = val(r)
        else:
            n.append(val(r))
    return j


def body(r):
    k = r.random()
    if k < 0.07:
        return r.randbytes(r.choice([0, 1, 2, 27, 28, 29, 300, 5000]))
    if k < 0.12:
        d = r.choice([1, 5, 100, 500])
        return r.choice([b"[" * d, b"[" * d + b"]" * d, b'{"a":' * d + b"1" + b"}" * d, b'{"Type":' * d, b'[{"Type":"MVR_JOIN","Commits":' * d])
    b = bytearray(xmsg.style(json_of(r), r))
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 5, 20])):
        m = r.randrange(6)
        i = r.randrange(len(b) + 1)
        if m == 0:
            b[i:i] = r.choice(TOKENS)
        elif m == 1:
            b[i:i + r.randrange(1, 8)] = b""
        elif m == 2 and i < len(b):
            b[i] ^= 1 << r.randrange(8)
        elif m == 3:
            b = b[:i]
        elif m == 4:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:2000]
        elif i < len(b):
            t = r.choice(TOKENS)
            b[i:i + len(t)] = t
    if r.random() < 0.03:
        b = b * r.choice([2, 50])
    return bytes(b[:2000000])


def header(r, b):
    """A header for the body b, mostly of the right length."""
    f = [xmsg.FLAG, 1, 0, 1, r.choice([0, 0, 0, 0, 1])]
    n = len(b)
    k = r.random()
    if k < 0.15:
        n = r.choice([0, 1, n - 1 if n else 0, n + 1, n * 2, 1 << 20, 31 << 20, 1 << 31, 1 << 32, 1 << 41, 1 << 60, 1 << 63, (1 << 64) - 1, (1 << 64) - 28, (1 << 64) - 29, (1 << 64) - 27, r.getrandbits(64), r.getrandbits(20)])
    if r.random() < 0.2:
        f[r.randrange(5)] = r.choice([0, 1, 2, 0xFFFFFFFF, 0x80000000, r.getrandbits(32)])
    return struct.pack(">IIIIIQ", *f, n)


def packet(r):
    b = body(r)
    h = header(r, b)
    if r.random() < 0.08:
        h = bytearray(h)
        h[r.randrange(28)] = r.choice(FILL)
        h = bytes(h)
    return h + b
