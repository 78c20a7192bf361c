"""Histories of whole MVR-xchange services on the xfull handler of the harness, and the model of their groups."""
import re, json
import dns, xmsg
from tree import Node
from gcheck import rng

SVC = "_mvrxchange._tcp.local."
GROUPS = ["Default", "Default", "Default", "Stage A", "Stage-A_2", "Gr\u00fcn", "1", "default", "Default.x", "a" * 60]
NAMES = ["A", "Console", "Pult \u00fc", "\u821e\u53f0", "k=v", "=", "x" * 150, "Station Name", "a.b,c;d"]


def filt(g):
    return re.sub(r"[^a-zA-Z0-9\-_]", "", g)


def maker(c, key="xfull", ms=150):
    def external(r, k, group):
        ip = "10.88.%d.%d" % (k, r.randrange(1, 255))
        u = xmsg.gen_uuid(r)
        nm = r.choice(NAMES)
        t = xmsg.uuid_text(u)
        e = ["StationName=" + nm, "StationUUID=" + r.choice([t, t.lower()])]
        e += r.sample(["", "x", "a=", "version=1.6", "Name=other", "XStationName=no", "y=" + "z" * 180], r.choice([0, 0, 1, 3]))
        if r.random() < 0.5:
            r.shuffle(e)
        inst = filt(group) + "." + SVC
        ips = [ip] + (["10.89.%d.%d" % (k, r.randrange(1, 255))] if r.random() < 0.3 else [])
        port = r.randrange(1, 1000)
        tgt = r.choice([filt(group) + ".local.", "host%d.local." % k])
        rest = [(inst, dns.SRV, 0x8001, 120, (0, 0, port, tgt)), (inst, dns.TXT, 0x8001, 120, dns.txt(*[x.encode() for x in e]))] + [(tgt, dns.A, 0x8001, 120, bytes(int(y) for y in x.split("."))) for x in ips]
        if r.random() < 0.4:
            r.shuffle(rest)
        b = dns.message(0, 0x8400, (), [(SVC, dns.PTR, 1, 120, inst)], (), rest, r, 1)
        return dict(From="%s:5353" % ip, Bytes=b.hex()), dict(station=u, name=nm, ips=ips, port=port, group=filt(group))

    def make(i):
        r = rng(c, key, i)
        n = Node("xfull")
        net = n.add("net", Ms=str(ms))
        ips = ["10.77.%d.%d" % (k, r.choice([1, 127, 200])) for k in range(r.choice([1, 1, 2, 2, 4]))]
        ifs = [("eth%d" % k, a + ":0") for k, a in enumerate(ips)] + [("lo", "127.0.0.1:0")] + ([("eth9", "[fe80::1234]:0")] if r.random() < 0.3 else [])
        if r.random() < 0.5:
            ifs = ifs[::-1]
        for nm, a in ifs:
            net.add("If", Name=nm, Addr=a)
        ips = [a[:-2] for _, a in ifs if a.startswith("10.")]
        ids = "abcde"[:r.choice([2, 2, 3, 3, 4, 5])]
        n.x = {"ips": ips}
        st = {}
        for k in ids:
            n.add("svc", Id=k, CallbackDelay=str(r.choice([0, 0, 0, 20])))
            st[k] = dict(id=k, station=xmsg.gen_uuid(r), name=r.choice(NAMES), provider=r.choice(["P", "Prov \u00e4", ""]), on=None, group={}, commits=[xmsg.gen_commit(r) for _ in range(r.choice([0, 0, 1, 3]))])
        for a in st.values():
            a["station"] = "%08X" % r.getrandbits(32) + a["station"][8:]
        groups = r.sample(GROUPS, r.choice([1, 1, 2]))
        if len(groups) == 2 and r.random() < 0.5:       # a name that begins with the other one
            groups[1] = groups[0][:50] + r.choice(["2", "x", "_B"])
        ext = []
        inc = [0]

        def conn_node(p, a, g, tag="connect"):
            o = p.add(tag, Id=a["id"], Service=g, Name=a["name"], Station=a["station"], Provider=a["provider"])
            for k in a["commits"]:
                xmsg.put(o.add("Commit"), k)
            return o

        def left(a):
            """the messages of leaving; changes the groups"""
            exp = []
            if a["on"]:
                for u, e in a["group"].items():
                    if e.get("id") and st[e["id"]]["on"] == e["inc"]:
                        exp.append((e["id"], {"Type": xmsg.LEAVE, "OK": True, "Message": "", "Station": a["station"]}, {"Type": xmsg.LEAVE_RET, "OK": True, "Message": ""}))
                        st[e["id"]]["group"].pop(a["station"], None)
            a["on"], a["group"] = None, {}
            return exp

        def joined(a, g):
            exp = left(a)
            inc[0] += 1
            a["on"], a["filt"] = inc[0], filt(g)
            a["group"] = {b["station"]: dict(id=b["id"], inc=b["on"]) for b in st.values() if b is not a and b["on"] and b["filt"] == a["filt"]}
            for e in ext:
                if e["group"] == a["filt"]:
                    a["group"][e["station"]] = dict(ext=e)
            m = {"Type": xmsg.JOIN, "OK": True, "Message": "", "Provider": a["provider"], "Name": a["name"], "Station": a["station"], "Major": 1, "Minor": 6, "Commits": a["commits"]}
            for b in st.values():
                if b is not a and b["on"] and b["filt"] == a["filt"]:
                    exp.append((b["id"], m, dict(m, Type=xmsg.JOIN_RET, Provider="srv", Message=a["provider"], Commits=[])))
                    b["group"][a["station"]] = dict(id=a["id"], inc=a["on"])
            return exp

        def check(exp, a=None, loose=False):
            for b in st.values():
                if b["on"]:
                    live = [e["id"] for e in b["group"].values() if e.get("id") and st[e["id"]]["on"] == e["inc"]]
                    n.add("group", Id=b["id"], N=str(len(b["group"])), Ids=",".join(live), Settle=str(r.choice([0, 0, 0, 200]))).x = ("group", json.loads(json.dumps(b["group"])))
                elif r.random() < 0.3:
                    n.add("group", Id=b["id"], N="0", Ids="").x = ("group", {})
            L = n.add("log")
            L.x = ("log", exp, a["id"] if a else None, loose, {b["id"]: b["on"] for b in st.values()}, {b["station"]: b["id"] for b in st.values()})

        for _ in range(r.randrange(5, 10)):
            k = r.random()
            a = st[r.choice(ids)]
            if k < 0.4 or not any(b["on"] for b in st.values()):
                off = [b for b in st.values() if not b["on"]]
                if off and r.random() < 0.8:
                    a = r.choice(off)
                g = r.choice(groups)
                if r.random() < 0.2:
                    a["name"] = r.choice(NAMES)
                conn_node(n, a, g)
                check(joined(a, g), a)
            elif k < 0.55:
                on = [b for b in st.values() if b["on"]]
                a = r.choice(on) if r.random() < 0.9 else a
                n.add("leave", Id=a["id"])
                check(left(a), a)
            elif k < 0.62:
                if a["on"]:
                    n.add("free", Id=a["id"])
                    n.add("svc", Id=a["id"])
                    a["on"], a["group"] = None, {}
                    check([], None)
            elif k < 0.72:
                if ext and r.random() < 0.3:
                    n.add("nopkts")
                    ext = []
                else:
                    for _ in range(r.choice([1, 1, 2, 9])):
                        p, e = external(r, len(n.c) * 8 % 250 + len(ext) % 8, r.choice(groups + ["Other"]))
                        n.add("pkt", **p)
                        ext.append(e)
            elif k < 0.8:
                exp = []
                for b in st.values():
                    if b is not a and b["on"]:
                        exp.append(dict(id=b["id"], station=b["station"], name=b["name"], service=b["filt"] + "." + SVC))
                n.add("query", Id=a["id"]).x = ("query", exp, list(ext))
            elif k < 0.9:
                m = {"Type": xmsg.COMMIT, "OK": True, "Message": "", **xmsg.gen_commit(r)}
                m["U"] = [] if r.random() < 0.5 else r.sample([b["station"] for b in st.values()] + [e["station"] for e in ext], r.choice([1, 2]))
                xmsg.to_node(n, "send", m, Id=a["id"])
                exp = []
                for u, e in a["group"].items():
                    if (not m["U"] or u in m["U"]) and e.get("id") and st[e["id"]]["on"] == e["inc"]:
                        exp.append((e["id"], m, {"Type": xmsg.COMMIT_RET, "OK": bool(m["Size"] & 1), "Message": m["Comment"]}))
                check(exp, a)
            else:
                many = n.add("many")
                for b in r.sample(list(st.values()), r.choice([2, len(st), len(st)])):
                    # (one that changes its group just when others look for the old one is missed by the protocol itself)
                    g = [x for x in groups if not b["on"] or filt(x) == b["filt"]]
                    g = r.choice(g)
                    o = conn_node(many, b, g)
                    if r.random() < 0.3:
                        o.add("query", Id=b["id"], Loose="1")
                    if r.random() < 0.3:
                        o.add("leave", Id=b["id"])
                        conn_node(o, b, g)
                    many.x = many.x or []
                    many.x.append((b, g))
                # those that change at once know each other in the end (and keep nothing of before)
                for b, g in many.x:
                    for s in st.values():
                        if b["on"]:
                            e = s["group"].get(b["station"])
                            if e and e.get("inc") == b["on"]:
                                s["group"].pop(b["station"])
                for b, g in many.x:
                    b["on"] = None
                for b, g in many.x:
                    joined(b, g)
                many.x = None
                check(None, None, True)
        c.distinct("histories", n.text())
        return n
    return make
