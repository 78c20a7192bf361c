"""The same work done in two surroundings: what comes out may depend on the input alone."""
import os, io, re, zlib, zipfile, base64, copy
import vlib

# every surrounding differs in one respect from the plain one; "all" in all of them at once
PLAIN = dict(variant="zero", env={"GLIBC_TUNABLES": "glibc.malloc.perturb=255", "TZ": "UTC"})
DIMS = {
    "memory": dict(variant="fill", env={"GLIBC_TUNABLES": "glibc.malloc.perturb=90"}),
    "locale": dict(env={"VR_LOCALE": "xx_XX.UTF-8", "LOCPATH": vlib.VERIF + "/lib/locale"}),
    "order": dict(env={"VR_REVERSE": "1"}),
    "surroundings": dict(env={"TZ": "Pacific/Chatham", "VR_CLOCK": "951782399", "LANG": "tr_TR.UTF-8", "COLUMNS": "7", "X": "y" * 3000}),
}


def setting(names):
    v, e = PLAIN["variant"], dict(PLAIN["env"])
    for n in names:
        v = DIMS[n].get("variant", v)
        e.update(DIMS[n]["env"])
    return v, e


def archive(b):
    """What an archive holds, without its dates."""
    try:
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            return "\n".join("%s %d %d %d %08x" % (vlib.esc(i.filename), i.compress_type, i.compress_size, i.file_size, i.CRC) for i in z.infolist()) + "\n" + "\n".join(
                z.read(i).decode("utf-8", "replace") for i in z.infolist() if i.filename.endswith(".xml") and i.file_size < 3000000)
    except Exception as ex:
        return "unreadable %s %d %08x" % (type(ex).__name__, len(b), zlib.crc32(b))


def outputs(w, i, names):
    out = {}
    for n in names:
        p = os.path.join(w, n.replace("#", str(i)))
        if os.path.exists(p):
            with open(p, "rb") as f:
                b = f.read()
            if b[:2] == b"PK":
                t = archive(b)
            else:
                t = b.decode("utf-8", "surrogateescape")
            out[n] = t.replace(w, "@W@").replace(vlib.esc(w), "@W@")
    return out


def first_diff(a, b):
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            x, y = (a.get(n) or "(nothing)").split("\n"), (b.get(n) or "(nothing)").split("\n")
            for k in range(max(len(x), len(y))):
                p, q = (x[k] if k < len(x) else "(end)"), (y[k] if k < len(y) else "(end)")
                if p != q:
                    m = 0
                    ps, qs = p.split(" "), q.split(" ")
                    for m in range(max(len(ps), len(qs))):
                        u, v = (ps[m] if m < len(ps) else ""), (qs[m] if m < len(qs) else "")
                        if u != v:
                            tag = ps[1] if len(ps) > 1 and ps[0].isdigit() else ps[0][:20]
                            name = (u or v).split("=")[0][:40]
                            return n, re.sub(r"[^A-Za-z0-9_.~!]+", "", "%s.%s" % (tag, name))[:60], "%s line %d: %s | %s" % (n, k + 1, p[:300], q[:300])
    return None


def run(c, kind, total, make, cmd, names, per, extra=(), minutes=60):
    """make(i) gives {file name: bytes}; cmd is run on the cases in every surrounding and the files in names are compared."""
    for v in {setting(d)[0] for d in ([], ["memory"])}:
        c.exe(v, "pub")

    def once(i0, cnt, dims, inp, keep=True):
        v, e = setting(dims)
        res = {}

        def prep(w, s, k):
            for i in range(s, s + k):
                if i not in inp:
                    inp[i] = make(i)
                for n, b in inp[i].items():
                    os.makedirs(os.path.dirname(os.path.join(w, n)), exist_ok=True)
                    with open(os.path.join(w, n), "wb") as f:
                        f.write(b)
            for d, ds, fs in os.walk(w):
                os.chown(d, vlib.NOBODY, vlib.NOBODY)

        def post(w, cases):
            for i in cases:
                res[i] = outputs(w, i, names)
        c.shard(v, "pub", cmd, cnt, start=i0, per=cnt, jobs=1, env=e, extra=extra, prep=prep, post=post, case_timeout=minutes,
                attach=lambda i: "surroundings %s\n%s" % ("+".join(dims) or "plain", text(inp.get(i))))
        return res

    def text(files):
        return "\n".join("%s (base64): %s" % (n, base64.b64encode(b).decode()[:100000]) for n, b in (files or {}).items())

    def chunk(item):
        a, cnt = item
        inp = {}
        p = once(a, cnt, [], inp)
        q = once(a, cnt, list(DIMS), inp)
        for i in range(a, a + cnt):
            if i not in p or i not in q:
                continue
            c.count("pairs of executions compared")
            c.count("characters compared", sum(map(len, p[i].values())))
            for n in p[i]:
                c.count("outputs compared: " + n.replace("#", ""))
            c.distinct("inputs", "%s%d" % (kind, zlib.crc32(repr(sorted(inp[i].items())).encode())))
            d = first_diff(p[i], q[i])
            if d:
                who = []
                for x in DIMS:
                    if x == "order":
                        f = first_diff(p[i], once(a, cnt, [x], inp).get(i, {}))
                    else:
                        f = first_diff(p[i], once(i, 1, [x], inp).get(i, {}))
                    if f:
                        who.append(x)
                alone = first_diff(once(i, 1, [], inp).get(i, {}), p[i])
                if alone and "order" not in who:
                    who.append("order")
                c.violation("depends:%s:%s:%s" % ("+".join(who) or "all", kind, d[1]), "case %d: the outcome depends on %s: %s" % (i, " and ".join(who) or "the surroundings", d[2]),
                            "%s %s case=%d of %d..%d seed=%d\n%s\n%s" % (kind, cmd, i, a, a + cnt - 1, c.seed, d[2], text(inp[i])))
    c.pmap(chunk, [(a, min(per, total - a)) for a in range(0, total, per)])
