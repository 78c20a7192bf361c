import os, sys, json
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, script, xmsg, xnetgen

X = xmsg
BODY = {True: "ok", False: "no"}


def canon(m):
    return json.dumps(m, sort_keys=True)


def answer(m):
    """The message the callback of the harness answers with: (message, buffer)"""
    a = {"OK": True, "Message": ""}
    t = m["Type"]
    if t == X.JOIN:
        return dict(a, Type=X.JOIN_RET, Provider="srv", Name=m["Name"], Station=m["Station"], Major=1, Minor=6, Commits=[], Message=m["Provider"])
    if t == X.COMMIT:
        return dict(a, Type=X.COMMIT_RET, OK=bool(m["Size"] & 1), Message=m["Comment"])
    if t == X.LEAVE:
        return dict(a, Type=X.LEAVE_RET)
    if t == X.REQUEST:
        f = int(m["File"][:8], 16)
        if f % 4 < 2:
            n = int(m["File"][8:16], 16) % 70000 + 1
            return dict(a, Type=X.REQUEST_RET, Buffer=bytes(((f + i * 31) ^ (i >> 7)) & 255 for i in range(n)).hex())
        if f % 4 == 2:
            return dict(a, Type=X.REQUEST_RET, OK=False, Message="not here")
        return dict(a, Type=X.UNDEFINED, OK=False)
    return dict(a, Type=X.COMMIT_RET, OK=False, Message="no request")


def wire(m):
    """(type of the packet, body as bytes or as JSON)"""
    if "Buffer" in m:
        return 1, bytes.fromhex(m["Buffer"])
    return 0, X.to_json(m)


def same(w, m):
    """Does a packet w carry the message m?"""
    if len(w) < 28:
        return False
    h, b = X.split(w)
    t, e = wire(m)
    if h != (X.FLAG, 1, 0, 1, t, len(b)):
        return False
    if t:
        return b == e
    try:
        j = json.loads(b.decode())
    except ValueError:
        return False
    if m["Type"] == X.UNDEFINED:
        return j.get("Type") == "MVR_UNDEFINED" or j.get("Type") not in X.NAMES.values()
    return j == e


def run():
    c = vlib.Check("P19", rule="a case is a history of a service on loopback sockets: concurrent peers that send sound, cut and foreign packets in pieces and end their connection in any way, stations that join and leave, and messages sent to listeners of any behaviour; what every callback and every peer saw is compared with a model of the protocol; distinct: histories", assumptions=["a peer that resets its connection may or may not have been heard", "TCP delivers in order"])
    total = c.n(500, 8000)

    make = xnetgen.maker(c)

    def verify(i, s, t, rep):
        bad = lambda k, d: c.violation(k, d[:600], rep)
        c.distinct("histories", s.text())
        c.count("histories")
        pend, sends, seen = [], [], Counter()
        for o, g in zip(s.c, t.c):
            if o.tag in ("peer", "many"):
                for k, h in zip(o.c if o.tag == "many" else [o], g.c if o.tag == "many" else [g]):
                    x = k.x
                    if k.tag == "send":
                        sends.append(x)
                        c.count("messages sent")
                        continue
                    pend.append(x)
                    c.count("peers: " + x[0])
                    if h.get("Sent") is None:
                        bad("no connection", "the server does not accept: " + h.text())
                        continue
                    if k.a["End"] not in ("read", "half", "slowread"):
                        continue
                    w = bytes.fromhex(h.get("Reply") or "")
                    e = answer(x[1]) if s.x else {"Type": X.UNDEFINED, "OK": False, "Message": ""}
                    if x[0] == "full":
                        if h.get("Eof") != "1":
                            bad("left open", "the connection is not closed after the answer")
                        if not same(w, e):
                            bad("answer", "%s answered with %r, expected %s" % (canon(x[1])[:150], w[:200], canon(e)[:200]))
                        else:
                            c.count("answers compared")
                    elif x[0] == "more":
                        if w and len(w) > 28 and X.split(w)[0][5] == len(w) - 28 and not same(w, e):
                            bad("answer", "%s answered with %r" % (canon(x[1])[:150], w[:200]))
                    else:
                        if w:
                            bad("answer to no message", "%s packet answered with %r" % (x[0], w[:200]))
                        if h.get("Eof") == "0":
                            bad("left open", "the connection of a %s packet stays open" % x[0])
            elif o.tag == "log":
                if g.get("Running") != "1" or g.get("Sessions") != "0":
                    bad("sessions", "%s sessions left, running %s" % (g.get("Sessions"), g.get("Running")))
                got = Counter(canon(X.from_node(k)) for k in g.kids("In"))
                lo, hi = Counter(), Counter()
                for x in pend:
                    if s.x:
                        lo[canon(x[1])] += x[2]
                        hi[canon(x[1])] += x[3]
                for k in set(got) | set(lo):
                    if not lo[k] <= got[k] <= hi[k]:
                        bad("delivered %s" % ("twice" if got[k] > hi[k] else "not"), "message %s: %d callbacks, expected %d to %d" % (k[:300], got[k], lo[k], hi[k]))
                c.count("callbacks compared", sum(got.values()))
                # what the service sent
                exp = {}
                rets = {"Ret": (Counter(), Counter()), "CustomRet": (Counter(), Counter())}
                for _, m, cust, to in sends:
                    for l in to:
                        for _ in l["ips"]:
                            exp.setdefault(l["l"], []).append((m, l))
                            if l["ok"] and l["mode"] in ("", "open", "replyrst"):
                                e = canon((l["m"], m["Type"]))
                                if l["mode"] != "replyrst":
                                    rets["CustomRet" if cust else "Ret"][0][e] += 1
                                rets["CustomRet" if cust else "Ret"][1][e] += 1
                for j, l in enumerate(g.kids("Listener")):
                    e = list(exp.get(j, []))
                    mode = [k for k in s.c if k.tag == "listen"][j].a["Mode"]
                    ws = [bytes.fromhex(k.a["Bytes"]) for k in l.kids("Got")]
                    if mode in ("refuse", "early", "half"):
                        continue
                    for w in ws:
                        k = next((k for k in e if same(w, k[0])), None)
                        if k is None:
                            bad("sent to another", "listener %d got a message that is not for it, or another time: %r" % (j, w[:200]))
                        else:
                            e.remove(k)
                            c.count("messages arrived")
                    for k in e:
                        bad("not sent", "listener %d did not get %s" % (j, canon(k[0])[:300]))
                for tag, (lo, hi) in rets.items():
                    if tag == "Ret" and not s.x:
                        lo, hi = Counter(), Counter()
                    got = Counter(canon((X.from_node(k), int(k.a["Sent"]))) for k in g.kids(tag))
                    for k in set(got) | set(lo):
                        if not lo[k] <= got[k] <= hi[k]:
                            bad("return callback", "%s for %s: %d, expected %d to %d" % (tag, k[:300], got[k], lo[k], hi[k]))
                    c.count("return callbacks compared", sum(got.values()))
                pend, sends = [], []
        c.sample("case %d: %s" % (i, s.text()[:400]))
    script.run(c, make, verify, total, per=10)
    c.finish(["histories"], 300, ["peers: full", "peers: closed", "peers: reset", "peers: cut", "peers: foreign", "peers: more", "answers compared", "callbacks compared", "messages sent", "messages arrived", "return callbacks compared"])

vlib.main(run)
