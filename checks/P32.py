import os, sys, json
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, xmsg, xfullgen

SVC = xfullgen.SVC


def canon(m):
    return json.dumps(m, sort_keys=True)


def run():
    c = vlib.Check("P32", rule="a case is a history of connecting, leaving, failing, renaming, joining again and sending on services of the library (2 to 5 stations, 1 to 4 interfaces) and hosts of other makers, one after another or at once; after each step the groups, the found services and the received messages are compared with a model; distinct: histories", assumptions=["the datagrams are in memory and lossless; the TCP connections are real ones over the loopback interface", "a time-out of discovery is as short as 0.15 s, and a case that fails is repeated with 1 s before it counts"])
    total = c.n(96, 1600)

    make = xfullgen.maker(c)

    def verify(i, s, t, rep):
        bad = lambda k, d: c.violation(k, d[:900], rep)
        ips = s.x["ips"]
        ports = {}
        pend = []
        for o, g in zip(s.c, t.c):
            if o.tag == "connect":
                c.count("connected")
                if g.get("R") != "0":
                    bad("connect", g.text())
            elif o.tag == "leave":
                c.count("left")
            elif o.tag == "many":
                c.count("connected at once", len(o.c))
            elif o.tag == "group":
                pend.append((o, g))
            elif o.tag == "log":
                _, exp, sender, loose, on, owner = o.x
                for k in g.kids("Svc"):
                    if on.get(k.a["Id"]):
                        ports[(k.a["Id"], on[k.a["Id"]])] = k.get("Port")
                for go, gg in pend:
                    members(go, gg, ips, ports, bad)
                pend = []
                ret = Counter()
                ins = {k.a["Id"]: Counter() for k in g.kids("Svc")}
                rets = {k.a["Id"]: Counter() for k in g.kids("Svc")}
                for k in g.kids("Svc"):
                    for x in k.c:
                        (ins if x.tag == "In" else rets)[k.a["Id"]][canon(xmsg.from_node(x))] += 1
                if loose:
                    c.count("histories at once")
                    continue
                ei = {k: Counter() for k in ins}
                er = {k: Counter() for k in ins}
                for to, m, back in exp:
                    ei[to][canon(m)] += len(ips)
                    er[sender][canon(back)] += len(ips)
                for k in ins:
                    c.count("messages compared", sum(ins[k].values()))
                    if ins[k] != ei[k]:
                        bad("messages received", "%s lacks %s, has too %s" % (k, list((ei[k] - ins[k]).items())[:3], list((ins[k] - ei[k]).items())[:3]))
                    if rets[k] != er[k]:
                        bad("answers received", "%s lacks %s, has too %s" % (k, list((er[k] - rets[k]).items())[:3], list((rets[k] - er[k]).items())[:3]))
            elif o.tag == "query":
                _, exp, ext = o.x
                got = sorted((k.a["Service"], k.a["Name"], k.a["Station"], tuple(sorted(k.a["IPs"].split(",")))) for k in g.kids("S"))
                want = sorted([(e["service"], e["name"], e["station"], tuple(sorted(ips))) for e in exp] + [(e["group"] + "." + SVC, e["name"], e["station"], tuple(sorted(e["ips"]))) for e in ext])
                c.count("services listed", len(got))
                if got != want or g.get("R") != "0" or g.get("N") != str(len(want)):
                    bad("services listed", "lacks %s, has too %s" % ([x for x in want if x not in got][:3], [x for x in got if x not in want][:3]))
                for k in g.kids("S"):
                    for e in ext:
                        if e["station"] == k.a["Station"] and k.a["Port"] != str(e["port"]):
                            bad("services listed", "port %s, expected %d" % (k.a["Port"], e["port"]))

    def members(o, g, ips, ports, bad):
        exp = []
        for u, e in o.x[1].items():
            if e.get("ext"):
                exp.append((u, str(e["ext"]["port"]), tuple(sorted(e["ext"]["ips"]))))
            else:
                exp.append((u, ports.get((e["id"], e["inc"])), tuple(sorted(ips))))
        got = [(k.a["Station"], k.a["Port"], tuple(sorted(k.a["IPs"].split(",")))) for k in g.kids("M")]
        c.count("groups compared")
        c.count("members compared", len(got))
        # (the port of a station that failed before it was looked at is not known)
        w, x = sorted(exp, key=str), sorted(got, key=str)
        if len(w) != len(x) or any(p[0] != q[0] or (p[1] and p[1] != q[1]) or p[2] != q[2] for p, q in zip(w, x)):
            bad("members of a group", "of %s: has %s, expected %s" % (o.a["Id"], x[:6], w[:6]))
    script.run(c, make, verify, total, per=3, timeout=90, jobs=32, confirm={"VR_MS": "1000"})
    c.finish(["histories"], c.n(60, 1000), ["connected", "left", "connected at once", "groups compared", "members compared", "messages compared", "services listed", "datagrams multicast"])

vlib.main(run)
