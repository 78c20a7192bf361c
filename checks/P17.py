import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, xmsg, xhost
from tree import Node
from gcheck import rng


def run():
    c = vlib.Check("P17", rule="a case sends damaged packets through the decoder, to a running server in any pieces, and as answers to the messages a service sends; the sanitizers and the end of the case are the oracle, and a sound request after the hostile ones has to be answered; distinct: packets",
                   assumptions=["JSON nested up to 500 deep", "an announced length that the machine can allocate is allocated"])
    total, nets = c.n(1500, 30000), c.n(120, 2500)

    def make(i):
        r = rng(c, "xhost", i)
        if i < nets:
            return net(r)
        n = Node("xmsg")
        if i % 125 == 0:                               # packets around and beyond what is set aside at first
            big = lambda: max(1, 30 * 1024 * 1024 + r.choice([-29, -28, -27, -1, 0, 1, 1000, 2 << 20]))
            z = big()
            n.add("file", Name="f", Size=str(z))
            xmsg.to_node(n, "to", {"Type": xmsg.REQUEST_RET, "OK": True, "Message": "", "Path": "f"}, **({"Held": "1"} if r.random() < 0.5 else {}))
            z = big()
            n.add("wire", Bytes=xmsg.packet(b"", typ=r.choice([0, 1, 1, 7]), length=z).hex(), Fill=str(z - r.choice([0, 0, 0, 1])))
            b = n.add("body")
            for _ in range(r.choice([1, 2])):
                b.add("P", Bytes=r.choice(["", "7b"]), Fill=str(big()))
            n.c[0].x = n.c[1].x = None
        for _ in range(12):
            if r.random() < 0.25:
                b = n.add("body")
                for _ in range(r.randrange(1, 5)):
                    b.add("P", Bytes=xhost.body(r).hex())
            else:
                n.add("wire", Bytes=xhost.packet(r).hex())
        return n

    def net(r):
        n = Node("xnet")
        n.add("server", Callback=r.choice("1111110"))
        for _ in range(r.choice([1, 2, 3])):
            g = n.add("many")
            for _ in range(r.randrange(2, 7)):
                p = xhost.packet(r)
                if r.random() < 0.15:
                    p = p[:r.randrange(len(p) + 1)]
                elif r.random() < 0.1:
                    p += xhost.packet(r)
                end = r.choice(["half", "half", "half", "close", "rst", "rst"])
                g.add("peer", Bytes=p.hex(), End=end, Chunks=",".join(str(r.choice([1, 3, 27, 28, 29, 100])) for _ in range(r.choice([0, 0, 1, 3, 30]))), Delay=str(r.choice([0, 0, 0, 1])), Start=str(r.choice([0, 0, 0, 2])))
        k = r.randrange(0, 4)
        for l in range(k):
            a = xhost.packet(r)
            if r.random() < 0.3:
                a = a[:r.randrange(len(a) + 1)]
            n.add("listen", Mode=r.choice(["", "", "", "", "half", "rst", "early", "close", "replyrst", "refuse"]), Reply=a.hex(), Chunks=r.choice(["", "", "1,27", "28", "3,5,100"]))
            n.add("member", Station=xmsg.gen_uuid(r), Name="m", Listener=str(l), IPs="127.0.0.1")
        if k:
            for _ in range(r.choice([1, 1, 2])):
                xmsg.to_node(n, "send", xmsg.gen(r), Custom=r.choice("01"))
        q = xmsg.gen(r, xmsg.COMMIT)
        n.add("peer", Bytes=xmsg.packet(xmsg.style(xmsg.to_json(q), r)).hex(), End="read").x = q
        n.add("log")
        if r.random() < 0.5:
            n.add("stop")
        return n

    def verify(i, s, t, rep):
        for o, g in zip(s.c, t.c):
            if o.tag in ("wire", "body"):
                c.count("hostile packets decoded", max(1, len(o.c)))
                c.count("messages read from them", len(g.kids("M")))
                if "Fill" in o.a or any("Fill" in k.a for k in o.c):
                    c.count("large packets")
                c.distinct("packets", o.text())
                for m in g.kids("M"):
                    if m.a["OK"] == "0" and m.a["Message"].startswith("Parse Error"):
                        c.count("messages refused")
            elif o.tag == "many":
                c.count("hostile connections", len(o.c))
                for k in o.c:
                    c.distinct("packets", k.a["Bytes"])
            elif o.tag == "listen":
                c.count("hostile answers", 1)
                c.distinct("packets", o.a["Reply"])
            elif o.tag == "peer":
                h = bytes.fromhex(g.get("Reply") or "")
                if g.get("Eof") != "1" or len(h) < 28 or xmsg.split(h)[0][0] != xmsg.FLAG or xmsg.split(h)[0][5] != len(h) - 28:
                    c.violation("server silent", "a sound message after hostile ones is not answered: %s" % g.text()[:300], rep)
                c.count("sound messages answered")
            elif o.tag == "log":
                if g.get("Running") != "1":
                    c.violation("server ended", "the server does not run after hostile peers", rep)
                c.count("callbacks observed", len(g.kids("In")) + len(g.kids("Ret")) + len(g.kids("CustomRet")))
    script.run(c, make, verify, total, per=20, env={"ASAN_OPTIONS": vlib.ASAN.replace("allocator_may_return_null=0", "allocator_may_return_null=1")})
    c.finish(["packets"], 1000, ["hostile packets decoded", "messages read from them", "messages refused", "hostile connections", "hostile answers", "sound messages answered", "callbacks observed", "large packets"])

vlib.main(run)
