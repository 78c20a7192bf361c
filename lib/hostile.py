"""Hostile documents and archives: valid ones damaged in structure, values, text and bytes."""
import struct, random, re, zlib
from gcheck import mkzip

NUMS = ["", " ", "-", "+", "0", "-0", "1", "-1", "2", "3", "4", "5", "7", "8", "9", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551615",
        "18446744073709551616", "9" * 40, "-" + "9" * 400, "1e308", "1e309", "-1e309", "1e-400", "nan", "-nan", "inf", "-inf", "infinity", "0x10", "0x1p3", "1.", ".5", ".", "1e", "1e+", "1,5", "1 2", "١", "1\u00a0", "00000000000001", "1.5.5", "--1", "1-1"]
TEXTS = ["", " ", ".", "..", "/", "//", "\\", ",", ",,", ",,,", ":", "::", ";", "{", "}", "{}", "{}{}{}{}", "{{{{", "%", "%s%n%s%n", "%00", "None", "none", "Yes", "No", "yes", "Overwrite", "Break", "A" * 300, "x" * 5000, "a.b.c.d.e.f", ".a", "a.", "a..b",
         "\u00e9\u706f", "\ufffd", "\u202e", "\U0001f4a1" * 50, "'\"<>&", "../../x", "/etc/passwd", "C:\\x", "CON", "-", "0/0", "1/0", "1/5", "1/255", "1/-1", "1/1s", "1/4s", "1/s", "/1", "//1", "1//1", "1/1/1", "4294967296/4", "-1/1", "255/1s,256/2",
         "0.0", "1.512", "1.513", "0.1", "-1.-1", "65536.1", "999999999.1", "1,2,3", "0.3,0.3", "0.3,0.3,", "0.3,,100", "0.3,0.3,100,1", "1,1", "-1,-1", "1,-1,3,x", "None,1", "{1,2,3}", "{1,2,3}{4,5,6}{7,8,9}{10,11,12}", "{1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1}",
         "{1,2}{3}{}{4,5,6,7,8}", "{a,b,c}{d,e,f}{g,h,i}{j,k,l}", "{1,0,0}{0,1,0}{0,0,1}", "{1,0,0}{0,1,0}", "{1,0,0,0}{0,1,0,0}{0,0,1,0}", "2020-01-01T00:00:00", "2020-13-45T25:61:61", "T", "-T:", "2020-01-01", "99999999-1-1T1:1:1", "::::", "----T",
         "00000000-0000-0000-0000-000000000000", "{00000000-0000-0000-0000-000000000000}", "0-0-0-0-0", "-" * 36, "g" * 36, "F" * 32, "F" * 36, "12345678-1234-1234-1234-12345678901", "12345678-1234-1234-1234-1234567890123", " " * 47, "FF " * 16, "0x01,0x02",
         "192.168.0.1", "256.256.256.256", "::1", "fe80::1%eth0", "1.2.3", "0,0,0", "Grid:1", "Universe 1", "ws:1", "1;2;3", "255,255,255", "0xFF", "FFFF", "10000", "FFFFFFFFFFFFFFFFFFFF", "-FF", "0x"]


def _list(r, old):
    ms = list(re.finditer(r"-?[0-9.]+[,;/ ]?", old))
    m = ms[-1] if r.random() < 0.2 else r.choice(ms)
    n = old[:m.start()] + r.choice(["", "", "", m.group(0) * 2]) + old[m.end():]
    return re.sub(r"[,;/ ]([}]|$)", r"\1", n) if r.random() < 0.8 else n


def value(r, doc_vals, old):
    k = r.random()
    if k < 0.3:
        return r.choice(NUMS)
    if k < 0.6:
        return r.choice(TEXTS)
    if k < 0.85 and doc_vals:
        return r.choice(doc_vals)                      # a value from elsewhere: references to other or wrong objects
    if old:
        j = r.random()
        if j < 0.4 and re.search(r"\d[,;{}/ ]+-?\d", old):   # a list with one member less or more
            return _list(r, old)
        j = r.random()
        if j < 0.3:
            return old[:r.randrange(len(old))]
        if j < 0.5:
            return old + r.choice([old, "x", "1", ".", ",", "/", " ", "}"])
        if j < 0.8:
            i = r.randrange(len(old))
            return old[:i] + r.choice([",", ".", "/", "{", "}", "-", "x", "9", " ", "", "é", "\x7f"]) + old[i + 1:]
        return re.sub(r"\d+", lambda m: r.choice(NUMS), old, count=r.choice([0, 1]))
    return r.choice(TEXTS)


def _attrs(e):
    return e.attrs if hasattr(e, "attrs") else e.a


def nodes(doc):
    out, st = [], [(doc, None)]
    while st:
        e, p = st.pop()
        out.append((e, p))
        for k in e.c:
            st.append((k, e))
    return out


def clone(e):
    n = e.__class__.__new__(e.__class__)
    for s in getattr(e, "__dict__", {}):
        setattr(n, s, getattr(e, s))
    for c in type(e).__mro__:
        for s in getattr(c, "__slots__", ()):
            if hasattr(e, s):
                setattr(n, s, getattr(e, s))
    if hasattr(e, "attrs"):
        n.attrs = list(e.attrs)
    else:
        n.a = list(e.a)
    n.c = [clone(k) for k in e.c]
    return n


def mutate_tree(doc, r, n=None):
    """Changes the element tree in place; returns the kinds of changes."""
    kinds = []
    for _ in range(n or r.choice([1, 1, 2, 3, 6, 15])):
        ns = nodes(doc)
        e, p = r.choice(ns)
        if r.random() < 0.5:                           # every kind of element alike, however rare
            tag = r.choice(sorted({x.tag for x, _ in ns}))
            e, p = r.choice([x for x in ns if x[0].tag == tag])
        at = _attrs(e)
        hastext = getattr(e, "text", None)
        k = r.choice(["val"] * 8 + ["lists", "deltag", "dup", "move", "rename", "delattr", "delattr", "addattr", "swapattr", "cross", "nest", "many", "text", "copyname", "copyname"])
        if k == "val":
            vals = [v for x, _ in ns for _, v in _attrs(x)]
            if hastext and (not at or r.random() < 0.6):
                e.text = value(r, vals + [x.text for x, _ in ns if getattr(x, "text", None)], hastext)
            elif at:
                i = r.randrange(len(at))
                at[i] = (at[i][0], value(r, vals, at[i][1]))
        elif k == "lists":                             # many of the lists with one member less or more
            for x, _ in ns:
                xa = _attrs(x)
                for i, (a, v) in enumerate(xa):
                    if v and re.search(r"\d[,;{}/ ]+-?\d", v) and r.random() < 0.3:
                        xa[i] = (a, _list(r, v))
        elif k == "text" and hasattr(e, "text"):
            e.text = r.choice(NUMS + TEXTS)
        elif k == "copyname":                          # the value of the same attribute of another element (cycles, clashes, self references)
            if at:
                i = r.randrange(len(at))
                vs = [v for x, _ in ns for a, v in _attrs(x) if a == at[i][0] or (a == "Name" and r.random() < 0.3) or (a == "uuid" and r.random() < 0.3)]
                at[i] = (at[i][0], r.choice(vs))
            elif hastext:
                vs = [v for x, _ in ns for a, v in _attrs(x) if a == "uuid"] + [x.text for x, _ in ns if getattr(x, "text", None)]
                if vs:
                    e.text = r.choice(vs)
        elif k == "deltag" and p is not None:
            p.c.remove(e)
        elif k == "dup" and p is not None and len(ns) < 3000:
            p.c.insert(r.randrange(len(p.c) + 1), clone(e))
        elif k == "move" and p is not None:
            q, _ = r.choice(ns)
            x = q
            sub = {id(y) for y, _ in nodes(e)}
            if id(q) not in sub:
                p.c.remove(e)
                q.c.insert(r.randrange(len(q.c) + 1), e)
        elif k == "rename":
            e.tag = r.choice([x.tag for x, _ in ns] + ["X", "a:b", "Geometry", "Axis", "GeometryReference", "Break", "Symbol", "GroupObject", "ChildList"])
        elif k == "delattr" and at:
            at.pop(r.randrange(len(at)))
        elif k == "addattr":
            a = r.choice([a for x, _ in ns for a, _ in _attrs(x)] or ["x"])
            at.append((a, r.choice(NUMS + TEXTS)))
        elif k == "swapattr" and len(at) > 1:
            i, j = r.sample(range(len(at)), 2)
            at[i], at[j] = (at[i][0], at[j][1]), (at[j][0], at[i][1])
        elif k == "cross" and p is not None:           # an element of one kind in place of another
            q, qp = r.choice(ns)
            if qp is not None and q is not doc:
                p.c[p.c.index(e)] = clone(q) if len(ns) < 3000 else e
        elif k == "nest" and p is not None and len(ns) < 2000:
            x, d, tpl = e, r.choice([2, 5, 40]), clone(e)
            if len(nodes(e)) * d < 4000:
                for _ in range(d):
                    c = clone(tpl)
                    x.c.append(c)
                    x = c
        elif k == "many" and p is not None and len(nodes(e)) < 40 and len(ns) < 2000:
            for _ in range(r.choice([5, 130])):
                p.c.append(clone(e))
        else:
            continue
        kinds.append(k)
    return kinds


def mutate_text(b, r):
    """Changes the text of an XML document."""
    s = bytearray(b)
    kinds = []
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not s:
            break
        i = r.randrange(len(s))
        k = r.choice(["flip", "del", "ins", "cut", "dupe", "ent", "tok", "trunc", "bom", "enc", "nul", "deep"])
        if k == "flip":
            s[i] = r.choice([s[i] ^ (1 << r.randrange(8)), r.randrange(256), ord(r.choice("<>&\"'/=;!?[]"))])
        elif k == "del":
            del s[i:i + r.choice([1, 1, 2, 8, 100])]
        elif k == "ins":
            s[i:i] = r.randbytes(r.choice([1, 2, 8]))
        elif k == "cut":
            j = s.find(b">", i)
            del s[i:j + 1 if j >= 0 else i + 1]
        elif k == "dupe":
            s[i:i] = s[i:i + r.choice([3, 20, 200])]
        elif k == "ent":
            s[i:i] = r.choice([b"&", b"&;", b"&#;", b"&#x;", b"&#0;", b"&#x110000;", b"&#xD800;", b"&#99999999999;", b"&amp", b"&lt;", b"&x;", b"&#x41;", b"&#xfffe;"])
        elif k == "tok":
            s[i:i] = r.choice([b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<!DOCTYPE x [<!ENTITY a 'b'>]>", b"</", b"/>", b"<a", b"<a b", b"<a b=", b"<a b='", b'" x="', b"< >", b"<>", b"</>", b"<!", b"\xc3", b"\xe2\x82", b"\xff\xfe"])
        elif k == "trunc":
            del s[i:]
        elif k == "bom":
            s[0:0] = r.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\n", b" ", b"\0"])
        elif k == "enc" and r.random() < 0.3:
            try:
                s = bytearray(bytes(s).decode("utf-8").encode(r.choice(["utf-16", "utf-16-le", "utf-32", "latin-1"]), "replace"))
            except UnicodeDecodeError:
                continue
        elif k == "nul":
            s[i] = 0
        elif k == "deep" and r.random() < 0.2:
            s[i:i] = b"<a>" * r.choice([10, 1000])
        kinds.append(k)
    return bytes(s), kinds


SIGS = [b"PK\3\4", b"PK\1\2", b"PK\5\6"]


def mutate_zip(b, r):
    """Changes the bytes of an archive, mostly in its headers."""
    s = bytearray(b)
    kinds = []
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        if len(s) < 4:
            break
        k = r.choice(["field"] * 8 + ["flip", "trunc", "del", "ins", "head", "tail", "swap", "dupdir"])
        if k == "field":
            sig = r.choice(SIGS)
            at = [m.start() for m in re.finditer(re.escape(sig), bytes(s))]
            if not at:
                continue
            o = r.choice(at) + r.randrange(0, {SIGS[0]: 30, SIGS[1]: 46, SIGS[2]: 22}[sig])
            w = r.choice([1, 2, 4])
            v = r.choice([0, 1, 2, 8, 12, 0xFF, 0xFFFF, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x1000000, len(s), len(s) - 1, len(s) - 22, len(s) + 1, len(s) * 2, r.randrange(2 ** 32), r.randrange(len(s))])
            if o + w <= len(s):
                s[o:o + w] = (v & ((1 << (8 * w)) - 1)).to_bytes(w, "little")
        elif k == "flip":
            s[r.randrange(len(s))] ^= 1 << r.randrange(8)
        elif k == "trunc":
            del s[r.choice([r.randrange(len(s)), max(0, len(s) - r.randrange(1, 60))]):]
        elif k == "del":
            i = r.randrange(len(s))
            del s[i:i + r.choice([1, 4, 40, 1000])]
        elif k == "ins":
            i = r.randrange(len(s))
            s[i:i] = r.choice([r.randbytes(4), b"PK\5\6", b"PK\1\2" + b"\0" * 42, b"\0" * 40])
        elif k == "head":
            s[0:0] = r.randbytes(r.choice([1, 30]))
        elif k == "tail":
            s += r.choice([b"\0", b"PK\5\6", b"PK\5\6" + b"\0" * 18, r.randbytes(30), b"PK\5\6" + b"\xff" * 18])
        elif k == "swap":
            i, j = sorted((r.randrange(len(s)), r.randrange(len(s))))
            s = s[j:] + s[i:j] + s[:i]
        elif k == "dupdir":
            i = s.find(b"PK\1\2")
            if i > 0:
                s[i:i] = s[i:i + 46 + r.choice([0, 15])]
        kinds.append(k)
    return bytes(s), kinds


def hostile_archive(doc, ser, main, r, extra):
    """(bytes, kinds): an archive whose main document or bytes are damaged."""
    how = r.random()
    kinds = []
    if how < 0.6:
        kinds += ["tree:" + k for k in mutate_tree(doc, r)]
    txt = ser(doc)
    if 0.6 <= how < 0.8 or r.random() < 0.05:
        txt, ks = mutate_text(txt, r)
        kinds += ["text:" + k for k in ks]
    es = [(main, txt)] + extra
    if r.random() < 0.1:
        r.shuffle(es)
    if r.random() < 0.03:
        es = [x for x in es if x[0] != main]
        kinds.append("nomain")
    b = mkzip(es, r)
    if how >= 0.8 or r.random() < 0.05:
        b, ks = mutate_zip(b, r)
        kinds += ["zip:" + k for k in ks]
    return b, kinds
