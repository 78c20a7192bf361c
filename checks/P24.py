import os, sys, re, string
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script
from tree import Node
from gcheck import rng

# ---- model: a string is a list of UTF-16 units


def units(t):
    b = t.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def hx(u):
    return ",".join("%x" % c for c in u)


def high(c):
    return 0xD800 <= c <= 0xDBFF


def low(c):
    return 0xDC00 <= c <= 0xDFFF


def points(u):
    o, i = [], 0
    while i < len(u):
        if high(u[i]) and i + 1 < len(u) and low(u[i + 1]):
            o.append(0x10000 + ((u[i] - 0xD800) << 10) + u[i + 1] - 0xDC00)
            i += 2
        else:
            o.append(63 if 0xD800 <= u[i] <= 0xDFFF else u[i])
            i += 1
    return o


def u8full(u):
    return "".join(map(chr, points(u))).encode("utf-8")


def u8(u):
    return u8full(u).split(b"\0")[0]


def st(b):
    return b.decode("utf-8", "surrogateescape")


def from8(b):
    b = b.split(b"\0")[0]
    o, i = "", 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                o += b[i:i + n].decode("utf-8")
                i += n
                break
            except UnicodeDecodeError:
                continue
        else:
            o += "?"
            i += 1
    return units(o)


def lower(u):
    return [c + 32 if 65 <= c <= 90 else c for c in u]


def upper(u):
    return [c - 32 if 97 <= c <= 122 else c for c in u]


def triml(u):
    return u[1:] if u and low(u[0]) else u


def trimr(u):
    return u[:-1] if u and high(u[-1]) else u


def find(u, s, p):
    for i in range(p, len(u) - len(s) + 1):
        if u[i:i + len(s)] == s:
            return i
    return -1


def rfind(u, s, p):
    for i in range(min(p, len(u) - len(s)), -1, -1):
        if u[i:i + len(s)] == s:
            return i
    return -1


def mid(u, p, n=1 << 60):
    return trimr(triml(u[p:p + n]))


def fixed(v, p):
    return "%.*f" % (p, v)


def num(u):
    t = u8(u).decode()
    m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", t, re.A)
    i = int(m.group(1)) if m else 0
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", t, re.A)
    f = float(m.group(1)) if m else 0.0
    odd = re.match(r"\s*[+-]?(inf|nan|0x)", t, re.I)
    return i, None if odd else f


ALPHA = "aAbBcCzZ019.-+/:,; \t%_xX" + "½÷¿" + "€あ→\uffff\ue000" + "😀𝄞\U0010ffff"


def text(r, n=None, simple=False):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 20]) if n is None else n
    a = "aAbB/" if simple or r.random() < 0.3 else ALPHA
    if r.random() < 0.01:
        n = r.choice([255, 256, 300, 1000])
    return units("".join(r.choice(a) for _ in range(n)))


def wild(r):
    u = text(r)
    if r.random() < 0.25:
        u.insert(r.randrange(len(u) + 1), r.choice([0xD800, 0xDBFF, 0xDC00, 0xDFFF]))
    return u


def bytes8(r):
    b = u8full(text(r))
    if r.random() < 0.4:
        i = r.randrange(len(b) + 1)
        b = b[:i] + bytes([r.choice([0x80, 0xBF, 0xC0, 0xC1, 0xC3, 0xE0, 0xE2, 0xED, 0xF0, 0xF4, 0xF8, 0xFF, 0xA0])]) + b[i + r.choice([0, 0, 1]):]
    return b.replace(b"\0", b"")


class Gen:
    def __init__(self, r):
        self.r, self.v, self.n, self.last = r, [[], [], [], []], Node("str"), None
        self.n.x = []

    def op(self):
        r = self.r
        R = r.randrange(4)
        s = self.v[R]
        a, w = {"R": R}, {}
        pos = lambda: r.choice([0, 1, 2, len(s) - 1, len(s), len(s) + 1, r.randrange(len(s) + 1), r.randrange(len(s) + 1), 2 ** 64 - 1, 10 ** 6])
        cnt = lambda: max(0, r.choice([0, 1, 2, len(s) - 1, len(s), len(s) + 1, r.randrange(len(s) + 1), 2 ** 64 - 1]))
        k = r.choice(["set", "set", "utf8", "utf8", "wide", "copy", "fill", "setlen", "setlench", "trunc", "clear", "at", "write", "add", "add", "add", "addch", "addnum", "insert", "insert", "del", "del", "dellast", "trim", "trim",
                      "replace", "replace", "replace", "case", "case", "get", "into", "into", "find", "find", "find", "find", "sub", "sub", "sub", "split", "split", "num", "class", "fromnum", "cmp", "cmp", "cmp"])

        def arg(simple=True):
            if r.random() < 0.3:
                a["Q"] = r.randrange(4)
                return self.v[a["Q"]]
            u = r.choice([wild(r), text(r, r.choice([1, 1, 2, 3]), True), s[r.randrange(len(s) + 1):][:r.choice([1, 2, 3])] if s else text(r)])
            a["U"] = hx(u)
            return u
        if k == "set":
            s = wild(r) if r.random() < 0.7 else units(r.choice(["12", "-7", "2147483647", "-2147483648", "9223372036854775807", "4294967296", "1.5", "-1e3", " 42 ", "12x", "0.000001", "123456789012", "  \t x \t ", "a,b", ",a,,b,", "aaa", "AbAbab"]))
            a["U"] = hx(s)
        elif k == "utf8":
            b = bytes8(r)
            s = from8(b)
            a.update(B=st(b), How=r.randrange(6))
        elif k == "wide":
            p = [ord(c) for c in "".join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 3, 9])))]
            s = units("".join(map(chr, p)))
            a.update(U=hx(p), How=r.randrange(5))
        elif k == "copy":
            q = r.randrange(4)
            s = list(self.v[q])
            a.update(Q=q, How=r.randrange(4))
        elif k == "fill":
            h = r.randrange(3)
            ch, n = r.choice([1, 65, 127, 128, 255] if h < 2 else [65, 0x20AC, 0xFFFF]), r.choice([0, 1, 3, 17])
            a.update(How=h, P=ch, N=n)
            s = [ch] * n
        elif k == "setlen":
            n = min(cnt(), len(s) + 3)
            a["N"] = n
            s = trimr(s[:n]) if n < len(s) else s + [0] * (n - len(s))
        elif k == "setlench":
            n, ch = min(cnt(), len(s) + 5), r.choice([0, 65, 0x20AC])
            a.update(N=n, P=ch)
            s = [] if ch == 0 else s[:n] + [ch] * (n - len(s))
        elif k == "trunc":
            n = cnt()
            a["N"] = n
            s = trimr(s[:n]) if n < len(s) else s
        elif k == "clear":
            s = []
        elif k == "at":
            q = r.choice([-1, -5, pos() % 2 ** 63])
            c = s[q] if 0 <= q < len(s) else 0
            a["P"] = q
            w = dict(A=str(c), B=str(c), C=str(c), D=str(c), L=str(s[-1] if s else 0), M=str(s[-1] if s else 0))
        elif k == "write":
            q, ch = r.choice([-1, pos() % 2 ** 63]), r.choice([65, 0x20AC, 0xD800])
            a.update(P=q, N=ch, How=r.randrange(3))
            if 0 <= q < len(s):
                s = s[:q] + [ch] + s[q + 1:]
        elif k == "add":
            h = r.randrange(5)
            a["How"] = h
            if h < 3:
                s = s + arg()
            elif h == 3:
                u = wild(r)
                a["U"] = hx(u)
                s = s + u
            else:
                b = bytes8(r)
                a["B"] = st(b)
                s = s + from8(b)
        elif k == "addch":
            h = r.randrange(5)
            ch = r.choice([1, 65, 127, 128, 255]) if h < 2 else r.choice([65, 0x20AC, 0xFFFF])
            a.update(How=h, P=ch)
            s = [ch] + s if h == 4 else s + [ch]
        elif k == "addnum":
            h = r.randrange(5)
            v = (r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31]), r.choice([0, -5, 2 ** 63 - 1, -2 ** 63, 10 ** 12]), r.choice([0, 7, 2 ** 32 - 1]), r.choice([0, 2 ** 64 - 1]), r.choice([0.0, 1.5, -2.25, 1e10, 1e-7, 123456.789]))[h]
            a.update(How=h, V=repr(v))
            s = s + units("%f" % v if h == 4 else str(v))
        elif k == "insert":
            h, p = r.randrange(6), pos() % 2 ** 64
            a.update(How=h, P=p)
            if h == 0:
                u = arg()
            elif h == 1:
                b = bytes8(r)
                a["B"] = st(b)
                u = from8(b)
            elif h == 2:
                u = wild(r)
                a["U"] = hx(u)
            else:
                u = [r.choice([1, 65, 127, 128, 255]) if h < 5 else r.choice([65, 0x20AC])]
                a["N"] = u[0]
            s = s[:p] + u + s[p:]
        elif k == "del":
            p = pos() % 2 ** 64
            a["P"] = p
            n = 2 ** 64
            if r.random() < 0.8:
                n = cnt()
                a["N"] = n
            s = s[:p] + s[p + n:]
        elif k == "dellast":
            s = s[:-1]
        elif k == "trim":
            h = r.randrange(6)
            a["How"] = h
            t = "".join(map(chr, s))
            if h < 3:
                t = t.lstrip(" \t") if h != 1 else t
                t = t.rstrip(" \t") if h != 0 else t
                s = [ord(c) for c in t]
            else:
                s = triml(s) if h != 4 else s
                s = trimr(s) if h != 3 else s
        elif k == "replace":
            o = arg()
            n = r.choice([[], text(r, 1, True), text(r), wild(r), o + o])
            ic = r.random() < 0.4
            a.update(U2=hx(n), IC=int(ic))
            src, pat, i, out = lower(s) if ic else s, lower(o) if ic else o, 0, []
            while i < len(s):
                if pat and src[i:i + len(pat)] == pat:
                    out += n
                    i += len(pat)
                else:
                    out.append(s[i])
                    i += 1
            if len(out) < 3000:
                s = out
            else:
                return
        elif k == "case":
            h = r.randrange(3)
            a["How"] = h
            s = (upper, lower, lambda u: u[::-1])[h](s)
        elif k == "get":
            p = points(s)
            cut = p[:p.index(0)] if 0 in p else p
            w = dict(Std=st(u8(s)), Chr=st(u8(s)), Chr2=st(u8(s)), Wide=hx(p), WPtr=hx(cut), Uc=hx(s[:s.index(0)] if 0 in s else s), Enc=str(len(u8(s))), Enc16=str(len(s)), Bytes=str(2 * len(s)), Pas=st(u8(s)[:255]))
        elif k == "into":
            h, n = r.randrange(4), r.choice([0, 1, 2, 3, len(s), len(s) + 1, 2 * len(s), 600])
            a.update(How=h, N=n)
            b, p = u8(s), points(s)
            cut = p[:p.index(0)] if 0 in p else p
            su = s[:s.index(0)] if 0 in s else s
            w = dict(V="" if n == 0 else st(b[:n - 1]) if h == 0 else st(b[:min(255, n - 1)]) if h == 1 else hx(su[:n - 1]) if h == 2 else hx(cut[:n - 1]))
        elif k == "find":
            h = r.randrange(10)
            rev = h in (3, 4, 5, 7, 9)
            p, ic = (2 ** 64 - 1 if rev else 0), False
            a["How"] = h
            if h in (0, 3, 6, 7, 8, 9):
                o = arg()
            else:
                o = [r.choice(s) if s and r.random() < 0.6 else r.choice([65, 97, 255, 0x20AC])]
                if h in (2, 5):
                    o = [o[0] & 255 or 65]
                if o == [0]:
                    return
                a["N"] = o[0]
            if r.random() < 0.7:
                p, ic = pos() % 2 ** 64, r.random() < 0.4
                a.update(P=p, IC=int(ic))
            if h >= 6:
                rs = range(min(p, len(s) - 1), -1, -1) if rev else range(p, len(s)) if p < len(s) else []
                v = next((i for i in rs if (s[i] in o) == (h < 8)), -1)
            else:
                x, y = (lower(s), lower(o)) if ic else (s, o)
                v = -1 if not o else (rfind(x, y, p) if rev else find(x, y, p) if p <= len(s) else -1)
            w = dict(V=str(v))
        elif k == "sub":
            h, p, n = r.randrange(4), pos() % 2 ** 64, cnt()
            a.update(How=h, P=p, N=n)
            v = mid(s, p, n) if h == 0 else trimr(s[:n]) if h == 1 else (s if n >= len(s) else triml(s[len(s) - n:])) if h == 2 else mid(s, p)
            w = dict(V=hx(v))
            if r.random() < 0.4:
                q = r.choice([x for x in range(4) if x != R])
                a["Q"] = q
                self.v[q] = v
        elif k == "split":
            h = r.randrange(2)
            a["How"] = h
            if h == 0:
                o = [r.choice(s) & 255 if s and r.random() < 0.7 else 44]
                if o == [0]:
                    return
                a["N"] = o[0]
            else:
                o = arg()
            out, i = [], 0
            while i < len(s):
                j = find(s, o, i) if o else -1
                if j < 0:
                    out.append(mid(s, i))
                    break
                out.append(mid(s, i, j - i))
                i = j + len(o)
            w = dict(V="".join("[%s]" % hx(x) for x in out))
        elif k == "class":
            u = [r.choice([32, 9, 46, 65, 0x20AC, 0xFFFF, 0x3000, r.randrange(1, 128), r.randrange(1, 0xD800)]) for _ in range(r.choice([1, 3, 8]))] if r.random() < 0.6 else [r.randrange(1, 128) for _ in range(20)]
            a["U"] = hx(u)
            w = dict()
            if all(c < 128 for c in u):
                w = dict(P="".join("01"[chr(c) in string.punctuation] for c in u), W="".join("01"[c == 32 or 9 <= c <= 13] for c in u))
        elif k == "num":
            i, f = num(s)
            w = dict(L=str(max(-2 ** 63, min(2 ** 63 - 1, i))), C="1" if s and all(48 <= c <= 57 for c in s) else "0")
            if -2 ** 31 <= i < 2 ** 31:
                w["I"] = str(i)
            if f is not None:
                w["F"] = "%.17g" % f
        elif k == "fromnum":
            h, p, n = r.randrange(7), r.choice([0, 1, 2, 3, 6, 12]), r.choice([32, 48, 120])
            v = r.choice([0, 5, -5, 99999, 2 ** 63 - 1, -2 ** 63, 10 ** 15]) if h in (0, 3, 4) else r.choice([0.0, 0.5, 1.0, -1.25, 2.675, 1e9, 1e-5, 123.456789, -0.0])
            a.update(How=h, P=p, N=n, V=repr(v))
            s = units(str(v) if h in (0, 3) else str(v).rjust(p, chr(n)) if h == 4 else "%f" % v if h in (1, 5) else fixed(v, p))
        elif k == "cmp":
            x = arg() if r.random() < 0.6 else None
            if x is None:
                x = r.choice([list(s), upper(s), lower(s), s[:-1], s + [65], s[1:], s[len(s) // 2:], s[:1] + s[2:]])
                a["U"] = hx(x)
            sg = lambda p, q: str((p > q) - (p < q))
            A, B = upper(s), upper(x)
            w = dict(Eq=str(int(s == x)), EqN=str(int(A == B)), Cmp=sg(s, x), CmpN=sg(A, B), Ends=str(int(s[len(s) - len(x):] == x if len(x) <= len(s) else False)))
            w["Ops"] = "".join(str(int(y)) for y in (A == B, A != B, A < B, A <= B, A > B, A >= B))
            C, Z = upper(from8(u8(x))), upper(x[:x.index(0)] if 0 in x else x)
            w["Ops2"] = "".join(str(int(y)) for y in (A == C, A == C, A != C, A != C, A == Z, A == Z))
        if len(s) > 3000:
            return
        self.v[R] = s
        w.update(S=hx(s), Len=str(len(s)), E=str(int(not s)), U8=st(u8(s)))
        self.n.add(k, **{x: str(y) for x, y in a.items()})
        self.n.x.append(w)


def make(c, i):
    g = Gen(rng(c, "str", i))
    for _ in range(g.r.choice([10, 40, 120])):
        g.op()
    return g.n


def run():
    c = vlib.Check("P24", rule="a case is a history of up to 120 operations on four strings (construction from UTF-8, UTF-16 and wide text, editing, searching, cutting, splitting, numbers, comparison, conversion and copying into buffers of any size) whose every result and resulting content is compared with a model on lists of UTF-16 units; distinct: operations with form, and contents reached",
                   assumptions=["case folding is looked at for ASCII letters and caseless other characters", "strings of up to 3000 units", "wide input holds valid code points"])

    def verify(i, s, t, rep):
        for j, (o, w, g) in enumerate(zip(s.c, s.x, t.c)):
            c.count("operations compared")
            c.distinct("operation forms", "%s:%s:%s" % (o.tag, o.get("How", ""), o.get("IC", "")))
            bad = [k for k in w if g.get(k) != w[k]] + [k for k in ("Hash", "Other") if k in g.a]
            if bad:
                k = bad[0]
                c.violation("%s:%s:%s%s" % (o.tag, o.get("How", ""), k, ":ic" if o.get("IC") == "1" else ""), "operation %d %s: %s is %r, expected %r" % (j, o.text().strip()[:300], k, (g.get(k) or "")[:200], w.get(k, "")[:200]), rep)
                break                                  # the rest of the history follows from other contents
            c.distinct("contents", hash(w["S"]))
        c.sample("case %d: %s" % (i, s.text()[:500]))
    script.run(c, lambda i: make(c, i), verify, c.n(2400, 120000), per=60)
    # an application may have another locale, with decimal commas and points between thousands
    script.run(c, lambda i: make(c, 10000000 + i), verify, c.n(600, 30000), per=60, env={"VR_LOCALE": "xx_XX.UTF-8", "LOCPATH": vlib.VERIF + "/lib/locale"})
    c.finish(["operation forms", "contents"], 1000, ["operations compared"])

vlib.main(run)
