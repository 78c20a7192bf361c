import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, dns
from tree import Node
from gcheck import rng

SVC = "_mvrxchange._tcp.local."
SERVICES = [SVC, SVC, SVC, "_http._tcp.local.", "_a._udp.local."]
INST = ["Default", "Default2", "Def", "Console", "Stage-A", "x", "a_b", "B\u00fchne 1", "\u821e\u53f0", "1", "Studio 1.5"]
DISC = "_services._dns-sd._udp.local."


def b2(s):
    return s if isinstance(s, bytes) else s.encode()


def hexs(b):
    return b2(b).hex()


def v4(r):
    return "%d.%d.%d.%d" % (r.choice([10, 192, 172, 169, 1]), r.randrange(256), r.randrange(256), r.choice([0, 1, 127, 128, 255, r.randrange(256)]))


def raw4(t):
    return bytes(int(x) for x in t.split("."))


def raw6(r):
    return b"\xfe\x80" + bytes(6) + r.randbytes(8)


def text6(b):
    import ipaddress
    return str(ipaddress.ip_address(b))


def run():
    c = vlib.Check("P27", rule="a case looks for services among generated answers of several hosts, interfaces and packets, or asks a responder generated questions; both are compared with an encoder and decoder of DNS of their own; other cases damage the datagrams and let socket calls fail; distinct: datagrams", assumptions=["the network is in memory: sockets, interfaces and datagrams are handed to the library in place of the ones of the system", "labels of at most 63 bytes, a TXT record of at most 255"])
    total = c.n(2400, 12000)

    def services(r):
        """Hosts with services: [(sender, [packets of records])]"""
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            ip = v4(r)
            sender = "%s:%d" % (ip, r.choice([5353, 5353, 5353, 5354]))
            if r.random() < 0.15:
                sender = "[%s]:5353" % text6(raw6(r))
            pk = []
            host = r.choice(INST) + ".local."
            for _ in range(r.choice([1, 1, 2, 3])):
                svc = r.choice(SERVICES)
                inst = r.choice(INST)
                name = inst + "." + svc
                target = r.choice([host, inst + ".local.", host])
                ttl = r.choice([10, 60, 120, 4500])
                cl = r.choice([1, 0x8001])
                t = dns.txt(*[b2(x) for x in r.sample(["StationName=" + r.choice(INST), "StationUUID=%032X" % r.getrandbits(128), "", "x", "a=", "=b", "k=" + "v" * r.choice([0, 1, 200])], r.randrange(0, 4))]) or r.choice([b"", b"\0"])
                ptr = (svc, dns.PTR, 1, ttl, name)
                rest = [(name, dns.SRV, cl, ttl, (r.choice([0, 1, 65535]), 0, r.choice([0, 1, 80, 5353, 65535, r.randrange(65536)]), target))]
                if r.random() < 0.9:
                    rest.append((name, dns.TXT, cl, ttl, t))
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    rest.append((target, dns.A, cl, ttl, raw4(v4(r))))
                for _ in range(r.choice([0, 0, 1, 2])):
                    rest.append((target, dns.AAAA, cl, ttl, raw6(r)))
                if r.random() < 0.2:
                    rest.append((r.choice([name, target]), r.choice([47, 13, 41, 255]), cl, ttl, r.randbytes(r.choice([0, 1, 5]))))
                if r.random() < 0.3:
                    r.shuffle(rest)
                pk.append([ptr] + rest)
            if len(pk) > 1 and r.random() < 0.3:
                pk = [sum(pk, [])]
            if len(pk) == 1 and r.random() < 0.15 and len(pk[0]) > 1:
                k = r.randrange(1, len(pk[0]))
                pk = [pk[0][:k], pk[0][k:]]
            out.append((sender, pk))
        return out

    def encode(r, recs):
        k = r.random()
        q = [(SVC, dns.PTR, r.choice([1, 0x8001]))] if r.random() < 0.3 else []
        a = len(recs) if k < 0.3 else r.choice([1, r.randrange(len(recs) + 1)])
        u = r.choice([0, 0, 0, len(recs) - a])
        return dns.message(0, 0x8400, q, recs[:a], recs[a:a + u], recs[a + u:], r, r.choice([0, 0.5, 1, 1]))

    def nets(r, n):
        s = n.add("net")
        ifs = []
        for k in range(r.choice([1, 1, 1, 2, 3, 6, 40])):
            x = r.random()
            if x < 0.1:
                s.add("If", Name="nul%d" % k, Addr="")
            elif x < 0.2:
                s.add("If", Name="lo", Addr="127.0.0.1:0")
            elif x < 0.3:
                s.add("If", Name="lo", Addr="[::1]:0")
            elif x < 0.8 or not k:
                a = v4(r)
                s.add("If", Name="eth%d" % k, Addr=a + ":0")
                ifs.append(("eth%d" % k, a, 4))
            else:
                a = text6(raw6(r))
                s.add("If", Name="eth%d" % k, Addr="[%s]:0" % a)
                ifs.append(("eth%d" % k, a, 6))
        n.add("interfaces").x = [x for x in ifs if x[2] == 4]
        return ifs[:32]

    def damage(r, b):
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.random()
            i = r.randrange(len(b)) if b else 0
            if not b or k < 0.15:
                b = b[:i]
            elif k < 0.35:
                b[i] = r.choice([0, 1, 0x3F, 0x40, 0x80, 0xBF, 0xC0, 0xC1, 0xFF, r.randrange(256)])
            elif k < 0.5:
                b[i:i + 2] = struct.pack(">H", 0xC000 | r.choice([0, 11, 12, i, i + 1, max(0, i - 1), len(b) - 1, len(b), len(b) + 1, 0x3FFF, r.randrange(len(b))]))
            elif k < 0.7:
                j = r.choice([2, 4, 6, 8, 10])
                b[j:j + 2] = struct.pack(">H", r.choice([0, 1, 2, 3, 255, 0x7FFF, 0xFFFF]))
            elif k < 0.85:
                b[i:i + 2] = struct.pack(">H", r.choice([0, 1, 4, 12, 16, 28, 33, 0xFFFF, len(b), len(b) - i, max(0, len(b) - i - 2)]))
            else:
                b[i:i] = r.choice([b"\0", b"\xff", r.randbytes(r.randrange(1, 300)), b"\x3f" * 64, b"\1a" * 130, bytes(b[i:i + 100])])
        return bytes(b[:9000])

    def make(i):
        r = rng(c, "mdns", i)
        n = Node("xmdns")
        m = r.random()
        n.x = "query" if m < 0.4 else "serve" if m < 0.75 else "bad query" if m < 0.88 else "bad serve"
        ifs = nets(r, n)
        if "query" in n.x:
            for _ in range(r.choice([1, 2])):
                fails = n.x == "bad query" and r.random() < 0.3
                if fails:
                    n.add("fail", Nth=str(r.randrange(1, 6)), Op=r.choice(["getifaddrs", "socket", "setsockopt", "bind", "getsockname", "sendto", "recvfrom", "select"])).x = None
                q = n.add(r.choice(["query", "query", "query", "discover"]) if n.x == "bad query" else "query", Service=SVC)
                q.x = []
                for sender, pks in services(r):
                    for pk in pks:
                        for sk in r.choice([[0], [0], [0, 0], list(range(min(len(ifs), 3))) or [0]]):
                            b = encode(r, pk)
                            if n.x == "bad query":
                                for _ in range(r.choice([1, 3])):
                                    q.add("Pkt", From=sender, Sock=str(sk), Bytes=(damage(r, b) if r.random() < 0.8 else b).hex())
                                continue
                            if len(b) > 2048:
                                continue
                            q.add("Pkt", From=sender, Sock=str(sk), Bytes=b.hex())
                            q.x.append((sender, sk, b, pk))
                            c.distinct("datagrams", b)
                q.x = (fails, ifs, q.x)
        else:
            svc = r.choice([SVC, SVC, "_mvrxchange._tcp.local.", "_x._udp.local.", "_" + "s" * r.choice([14, 60]) + "._tcp.local."])
            ip = v4(r)
            host = r.choice(INST[:7] + ["h" * r.choice([1, 62, 63]), "H"] + (["a" * 63 + "." + "b" * 63 + "." + "c" * 63, "d." * r.choice([50, 150, 220]) + "d", "e" * 64, "f" * 300] if n.x == "bad serve" else []))
            txt = dns.txt(b"StationName=" + b2(r.choice(INST)), b"StationUUID=00112233-4455-6677-8899-AABBCCDDEEFF") if r.random() < 0.8 else r.choice([b"", b"\0", dns.txt(b"x" * 200), bytes([254]) + b"y" * 254])
            o = n.add("serve", Host=host, Port=str(r.choice([0, 1, 5353, 65535, r.randrange(65536)])), IP=ip, Service=svc, Txt=txt.hex())
            v6 = [a for _, a, k in nets_all(n) if k == 6]
            o.x = (host, int(o.a["Port"]), ip, svc, txt, v6[0] if v6 else None)
            for _ in range(r.choice([2, 5, 8])):
                qs, k = [], r.random()
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    nm = r.choice([svc, svc, svc, svc, DISC, "_other._tcp.local.", "x" + svc, svc[1:], "local.", "_tcp.local.", ".", svc + "local."])
                    qs.append((nm, r.choice([dns.PTR] * 6 + [dns.SRV, dns.A, dns.TXT, 255]), r.choice([1, 1, 0x8001, 0x8001, 1] + ([255, 2] if k < 0.1 else []))))
                flags = 0 if r.random() < 0.85 else r.choice([0x8400, 0x8000, 0x8180])
                an = [(svc, dns.PTR, 1, 60, "Known." + svc)] if r.random() < 0.2 else []
                qid = r.choice([0, 0, 1, 0x1234, 0xFFFF])
                b = dns.message(qid, flags, qs, an, (), (), r, r.choice([0, 1]))
                six = r.random() < 0.3
                fr = ("[%s]:%d" % (text6(raw6(r)), r.choice([5353, 40000]))) if six else "%s:%d" % (v4(r), r.choice([5353, 40000]))
                if n.x == "bad serve":
                    b = damage(r, b)
                n.add("ask", Bytes=b.hex(), From=fr, V6="1" if six else "0").x = (qid, flags, qs, fr, six)
                c.distinct("datagrams", b)
            n.add("unserve")
        return n

    def nets_all(n):
        out = []
        for k in n.c[0].c:
            a = k.a["Addr"]
            if a and a not in ("127.0.0.1:0", "[::1]:0"):
                out.append((k.a["Name"], a[1:-3] if a[0] == "[" else a[:-2], 6 if a[0] == "[" else 4))
        return out

    def verify(i, s, t, rep):
        bad = lambda k, d: c.violation(k, d[:700], rep)
        c.count("cases: " + s.x)
        cfg = None
        for o, g in zip(s.c, t.c):
            if o.tag == "interfaces":
                got = [(k.a["Name"], k.a["Addr"]) for k in g.kids("If")]
                if got != [x[:2] for x in o.x]:
                    bad("interfaces", "%s, expected %s" % (got, o.x))
            elif o.tag in ("query", "discover"):
                fails, ifs, pk = o.x
                if g.get("Open") != "0":
                    bad("sockets left open", "after a query: " + g.get("Open"))
                if s.x == "bad query":
                    c.count("damaged datagrams", len(o.c))
                    continue
                sent = g.kids("Sent")
                if len(sent) != len(ifs):
                    bad("queries", "%d queries on %d interfaces" % (len(sent), len(ifs)))
                for k, (nm, a, fam) in zip(sent, ifs):
                    m = None
                    try:
                        m = dns.parse(bytes.fromhex(k.a["Bytes"]))
                    except dns.Bad as e:
                        bad("query unreadable", "%s: %s" % (e, k.a["Bytes"]))
                        continue
                    c.count("queries decoded")
                    if k.a["To"] != ("224.0.0.251:5353" if fam == 4 else "[ff02::fb]:5353") or m["flags"] or m["questions"] != [(SVC.encode(), dns.PTR, 1)] or m["rest"] or m["answers"] or m["additional"] or k.a["Bound"].rsplit(":", 1)[1] != "5353":
                        bad("query", "%s %s" % (k.a, m))
                found(o, g, [p for p in pk if p[1] < len(ifs)], bad)
            elif o.tag == "serve":
                cfg = o.x
                if g.get("IPPort") != "%s:%d" % (cfg[2], cfg[1]) or g.get("Running") != "1":
                    bad("service", g.text())
            elif o.tag == "unserve":
                if g.get("Open") != "0" or g.get("Running") != "0":
                    bad("sockets left open", "after the service: " + g.text())
            elif o.tag == "ask":
                if s.x == "bad serve":
                    c.count("damaged questions")
                    for k in g.kids("Sent"):
                        c.count("answers to damaged questions")
                else:
                    answers(o, g, cfg, bad)

    def found(o, g, pk, bad):
        recs = []
        for n, (sender, sk, b, _) in enumerate(pk):
            m = dns.parse(b)
            recs += [(n, sender) + x for x in m["answers"] + m["authority"] + m["additional"]]
        exp = {}
        for n, sender, name, t, cl, ttl, d in recs:
            if t == dns.SRV:
                exp.setdefault((sender, name, d[2], d[3]), n)
        for k in g.kids("R"):
            pass
        got = list(g.kids("R"))
        c.count("services compared", len(exp))
        if len(got) != len(exp):
            bad("services found", "%d, expected %d: %s" % (len(got), len(exp), [k.a for k in got]))
        for (sender, name, port, target) in exp:
            ns = {x[0] for x in recs if x[1] == sender and x[2] == name and x[3] == dns.SRV and x[6][2:] == (port, target)}
            txt = {x[6] for x in recs if x[1] == sender and x[3] == dns.TXT and x[2] == name}
            same = {x[6] for x in recs if x[0] in ns and x[3] == dns.TXT and x[2] == name}
            a_all = {".".join(str(y) for y in x[6]) for x in recs if x[1] == sender and x[3] == dns.A}
            a = {".".join(str(y) for y in x[6]) for x in recs if x[1] == sender and x[3] == dns.A and x[2] == target}
            q_all = {text6(x[6]) for x in recs if x[1] == sender and x[3] == dns.AAAA}
            q = {text6(x[6]) for x in recs if x[1] == sender and x[3] == dns.AAAA and x[2] == target}
            svc = {x[6] for x in recs if x[1] == sender and x[3] == dns.PTR and name.endswith(x[2])}
            ok = [k for k in got if k.a["Host"] == name.hex() and k.a["Port"] == str(port) and k.a["Addr"] == sender]
            if not ok:
                bad("service missing", "%s port %d of %s: %s" % (name, port, sender, [k.a for k in got]))
                continue
            why = None
            for k in ok:
                g4, g6 = set(filter(None, k.a["V4"].split(","))), set(filter(None, k.a["V6"].split(",")))
                tx, sv = bytes.fromhex(k.a["Txt"]), bytes.fromhex(k.a["Service"])
                if (same and tx not in same) or (not same and txt and tx not in txt):
                    why = ("text of another service", "%s, expected %s" % (tx, same or txt))
                elif not a <= g4 <= a_all:
                    why = ("addresses", "%s, expected %s" % (g4, a))
                elif not q <= g6 <= q_all:
                    why = ("addresses", "%s, expected %s" % (g6, q))
                elif svc and sv not in {x[6] for x in recs if x[1] == sender and x[3] == dns.PTR}:
                    why = ("service name", "%s, expected %s" % (sv, svc))
                else:
                    why = None
                    break
            if why:
                bad(why[0], "%s port %d of %s: %s" % (name, port, sender, why[1]))

    def answers(o, g, cfg, bad):
        host, port, ip, svc, txt, v6 = cfg
        qid, flags, qs, fr, six = o.x
        exp = []
        n = 0
        for nm, t, cl in qs:
            if nm == DISC and (flags or len(qs) != 1):
                break
            if (cl & 0x7FFF) != 1:
                break
            if t == dns.PTR and nm == DISC:
                exp.append("discovery")
            elif t == dns.PTR and nm == svc:
                exp.append("unicast" if cl & 0x8000 else "multicast")
        if flags & 0x8000:
            exp = []
            c.count("responses not answered")
        got = g.kids("Sent")
        c.count("questions asked")
        if any(e != "discovery" for e in exp) and 81 + len(svc) + 2 * len(host) + (28 if v6 else 0) + len(txt) > 500:
            c.count("answers that may not fit")
            if len(got) > len(exp):
                bad("answers", "%d answers, expected %s to %s flags %x" % (len(got), exp, qs, flags))
            return
        if len(got) != len(exp):
            bad("answers", "%d answers, expected %s to %s flags %x" % (len(got), exp, qs, flags))
            return
        for e, k in zip(exp, got):
            b = bytes.fromhex(k.a["Bytes"])
            try:
                m = dns.parse(b)
            except dns.Bad as x:
                bad("answer unreadable", "%s: %s" % (x, b.hex()))
                continue
            c.count("answers: " + e)
            S = svc.encode()
            if e == "discovery":
                if k.a["To"] != fr or m["flags"] != 0x8400 or m["id"] or [x[:3] + x[4:] for x in m["answers"]] != [(DISC.encode(), dns.PTR, 1, S)]:
                    bad("discovery answer", "%s" % m)
                continue
            name, target = (host + "." + svc).encode(), (host + ".local.").encode()
            u = e == "unicast"
            cl = 0x8001 if u else 1
            to = fr if u else "[ff02::fb]:5353" if six else "224.0.0.251:5353"
            add = [(name, dns.SRV, cl, (0, 0, port, target)), (target, dns.A, cl, raw4(ip))]
            if v6:
                import ipaddress
                add.append((target, dns.AAAA, cl, ipaddress.ip_address(v6).packed))
            if txt:
                add.append((name, dns.TXT, cl, txt))
            w = [k.a["To"] == to, m["flags"] == 0x8400, m["id"] == (qid if u else 0), m["questions"] == ([(S, dns.PTR, 0x8001)] if u else []), [x[:3] + x[4:] for x in m["answers"]] == [(S, dns.PTR, cl, name)],
                 sorted((x[:3] + x[4:] for x in m["additional"]), key=repr) == sorted(add, key=repr), not m["authority"], not m["rest"], all(x[3] for x in m["answers"] + m["additional"])]
            if not all(w):
                bad("answer", "%s %s to %s, expected %s to %s" % (w, m, k.a["To"], add, to))
    script.run(c, make, verify, total, per=25)
    c.finish(["datagrams"], 400, ["cases: query", "cases: serve", "cases: bad query", "cases: bad serve", "queries decoded", "services compared", "questions asked", "answers: discovery", "answers: unicast", "answers: multicast", "responses not answered", "damaged datagrams", "damaged questions"])

vlib.main(run)
