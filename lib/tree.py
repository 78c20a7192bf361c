"""Generic trees exchanged with the harness: one line per node, "<depth> <tag> k=v k=v" with %XX escapes."""
import re


def esc(s):
    b = s.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 32 < c < 127 and c != 37 else "%%%02X" % c for c in b)


def unesc(s):
    return re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode()).decode("utf-8", "surrogateescape")


class Node:
    __slots__ = ("tag", "a", "c", "x")

    def __init__(self, tag, a=None, c=None):
        self.tag, self.a, self.c, self.x = tag, dict(a or {}), list(c or []), None

    def add(self, tag, **a):
        n = Node(tag, a)
        self.c.append(n)
        return n

    def kids(self, tag):
        return [k for k in self.c if k.tag == tag]

    def kid(self, tag):
        k = self.kids(tag)
        return k[0] if k else None

    def get(self, k, d=None):
        return self.a.get(k, d)

    def walk(self):
        yield self
        for k in self.c:
            yield from k.walk()

    def copy(self):
        n = Node(self.tag, self.a, [k.copy() for k in self.c])
        n.x = self.x
        return n

    def text(self, d=0):
        o = ["%d %s%s\n" % (d, self.tag, "".join(" %s=%s" % (k, esc(v)) for k, v in self.a.items()))]
        for k in self.c:
            o.append(k.text(d + 1))
        return "".join(o)


def parse(txt):
    root, st = None, []
    for ln in txt.splitlines():
        if not ln:
            continue
        f = ln.split(" ")
        d = int(f[0])
        n = Node(f[1])
        for kv in f[2:]:
            k, _, v = kv.partition("=")
            n.a[k] = unesc(v)
        if d == 0:
            root, st = n, [n]
        else:
            st = st[:d]
            st[d - 1].c.append(n)
            st.append(n)
    return root


def num_eq(a, b, tol=6e-7):
    try:
        x, y = float(a), float(b)
    except ValueError:
        return False
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    return abs(x - y) <= tol + 5e-16 * max(abs(x), abs(y))


def nums_eq(a, b, tol=6e-7):
    p, q = a.split(","), b.split(",")
    return len(p) == len(q) and all(num_eq(x, y, tol) for x, y in zip(p, q))
