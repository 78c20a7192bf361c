"""Histories of MVR-xchange connections on the xnet handler of the harness."""
import xmsg as X
from tree import Node
from gcheck import rng


def maker(c, key="xnet"):
    def packet_of(r, m):
        p = X.packet(X.style(X.to_json(m), r), version=r.choice([1, 1, 2]), number=r.choice([0, 0, 1]))
        return p

    def chunks(r, n):
        k = r.random()
        if k < 0.4:
            return ""
        if k < 0.5:
            return "28"
        if k < 0.6:
            return "27,1,1"
        if k < 0.65 and n < 400:
            return ",".join(["1"] * n)
        return ",".join(str(r.randrange(1, 200)) for _ in range(r.randrange(1, 12)))

    def peer(r, g, stations):
        k = r.random()
        m = X.gen(r, r.choice([X.JOIN, X.COMMIT, X.COMMIT, X.REQUEST, X.REQUEST, X.COMMIT_RET]))
        p = packet_of(r, m)
        a = dict(Chunks=chunks(r, len(p)), Delay=str(r.choice([0, 0, 0, 1, 3])), Start=str(r.choice([0, 0, 0, 1, 5])))
        if k < 0.6:
            a.update(End=r.choice(["read", "read", "read", "half", "slowread"]))
            x = ("full", m, 1, 1)
        elif k < 0.68:
            a.update(End="close")
            x = ("closed", m, 1, 1)
        elif k < 0.74:
            a.update(End="rst")
            x = ("reset", m, 0, 1)
        elif k < 0.82:
            p = p[:r.choice([0, 1, 27, 28, len(p) - 1, r.randrange(len(p))])]
            a.update(End=r.choice(["half", "close", "rst"]))
            x = ("cut", m, 0, 0)
        elif k < 0.9:
            p = bytes([p[0] ^ r.choice([0, 1, 128])]) + bytes([p[1], p[2], p[3] ^ r.choice([1, 2, 64])]) + p[4:] if r.random() < 0.8 else r.choice([b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n", b"\0" * 28, b"\xff" * 100])
            a.update(End=r.choice(["half", "read"]))
            x = ("foreign", m, 0, 0)
        else:
            p += r.choice([b"\0", p, b"x" * 100])
            a.update(End=r.choice(["read", "half"]))
            x = ("more", m, 1, 1)
        if k >= 0.82 and k < 0.9 and len(p) < 28:
            a["End"] = "half"
        g.add("peer", Bytes=p.hex(), **a).x = x

    def make(i):
        r = rng(c, key, i)
        n = Node("xnet")
        cb = r.random() < 0.93
        n.add("server", Callback="1" if cb else "0", CallbackDelay=str(r.choice([0, 0, 0, 1])))
        n.x = cb
        # stations with listeners
        ls = []
        for l in range(r.choice([0, 1, 2, 3, 5])):
            st = X.gen_uuid(r)
            mode = r.choice(["", "", "", "", "", "open", "close", "rst", "half", "early", "refuse", "replyrst"])
            m = X.gen(r, r.choice([X.JOIN_RET, X.LEAVE_RET, X.COMMIT_RET, X.REQUEST_RET]))
            k = r.random()
            p = packet_of(r, m)
            ok = True
            if k < 0.1:
                m = {"Type": X.REQUEST_RET, "OK": True, "Message": "", "Buffer": r.randbytes(r.choice([1, 10, 5000])).hex()}
                p = X.packet(bytes.fromhex(m["Buffer"]), typ=1)
            elif k < 0.2:
                p, ok = p[:r.choice([0, 1, 27, 28, len(p) - 1])], False
            elif k < 0.25:
                p, ok = b"x" + p[1:], False
            ips = r.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2", "127.0.0.1,127.0.0.2", "localhost", "256.1.1.1,127.0.0.1"])
            n.add("listen", Mode=mode, Reply=p.hex(), Chunks=chunks(r, len(p)), Delay=str(r.choice([0, 0, 1])), Wait=str(r.choice([0, 0, 0, 5])))
            n.add("known", Station=st, Name="n%d" % l, Listener=str(l), IPs=ips)
            ls.append(dict(st=st, mode=mode, m=m, ok=ok, ips=[x for x in ips.split(",") if x != "256.1.1.1"], l=l))
        members = []
        for l in ls:
            if r.random() < 0.3:
                n.add("member", Station=l["st"], Name="n%d" % l["l"], Listener=str(l["l"]), IPs=next(k.a["IPs"] for k in n.c if k.tag == "known" and k.a["Station"] == l["st"]))
                members.append(l)
        for _ in range(r.randrange(2, 7)):
            k = r.random()
            if k < 0.4 or not ls:
                g = n.add("many")
                for _ in range(r.choice([1, 2, 4, 8])):
                    peer(r, g, ls)
            elif k < 0.65:
                l = r.choice(ls)
                if r.random() < 0.65:
                    m = X.gen(r, X.JOIN)
                    m["Station"] = l["st"]
                    if l not in members:
                        members.append(l)
                else:
                    m = X.gen(r, X.LEAVE)
                    m["Station"] = l["st"] if r.random() < 0.9 else X.gen_uuid(r)
                    members = [x for x in members if x["st"] != m["Station"]]
                p = packet_of(r, m)
                n.add("peer", Bytes=p.hex(), Chunks=chunks(r, len(p)), End="read").x = ("full", m, 1, 1)
            else:
                g = n.add("many")
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    m = X.gen(r)
                    if m["Type"] in (X.COMMIT, X.REQUEST) and r.random() < 0.7:
                        m["U"] = [r.choice([l["st"] for l in ls] + [X.gen_uuid(r)]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                    cust = r.random() < 0.3
                    to = members if not (m["Type"] in (X.COMMIT, X.REQUEST) and m["U"]) else [x for x in members if x["st"] in m["U"]]
                    X.to_node(g, "send", m, Custom="1" if cust else "0").x = ("send", m, cust, list(to))
                for _ in range(r.choice([0, 0, 0, 2])):
                    peer(r, g, ls)
            n.add("log")
        return n
    return make
