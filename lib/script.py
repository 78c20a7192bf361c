"""Runs scripts (harness/script.h) and hands the results to a verifier."""
import os
from gcheck import rd, rdtree


def run(c, make, verify, total, per=20, variant="asan", group="int", timeout=60, env=None, jobs=None, confirm=None):
    """make(i) -> Node of operations (x holds what the verifier expects); verify(i, script, results, replay).
    confirm: with this environment a case that fails is run again alone, and only what fails again is reported
    (for workloads that need a thread of the library to answer in time)."""
    c.exe(variant, group)

    def chunk(item):
        a, cnt = item
        ss = {}

        def prep(w, s, k):
            for i in range(s, s + k):
                if i not in ss:
                    ss[i] = make(i)
                with open(os.path.join(w, "s%d.ops" % i), "w") as f:
                    f.write(ss[i].text())

        def post(w, cases):
            for i in cases:
                rep = "script case=%d seed=%d\n%s" % (i, c.seed, ss[i].text()[:20000])
                t = rdtree(w, "s%d.res" % i)
                if t is None or len(t.c) != len(ss[i].c):
                    c.violation("no-result", "no or incomplete results", rep)
                elif not confirm:
                    verify(i, ss[i], t, rep)
                else:
                    got = c.held.got = []
                    try:
                        verify(i, ss[i], t, rep)
                        if got:
                            c.count("cases run again")
                            del got[:]
                            w2 = c.scratch()
                            with open(os.path.join(w2, "s%d.ops" % i), "w") as f:
                                f.write(ss[i].text())
                            rc, lines, err = c.run_raw(c.exe(variant, group), ["script", c.seed, i, 1], w2, timeout=timeout * 4, env=dict(env or {}, **confirm))
                            c.absorb(lines, "confirm")
                            t2 = rdtree(w2, "s%d.res" % i)
                            if rc is None:
                                c.inconclusive += 1
                            elif rc:
                                got.append((c.crash_key(rc, err), err[:3000], rep))
                            elif t2 is None or len(t2.c) != len(ss[i].c):
                                got.append(("no-result", "no or incomplete results", rep))
                            else:
                                verify(i, ss[i], t2, rep)
                    finally:
                        c.held.got = None
                    for a in got:
                        c.violation(*a)
        c.shard(variant, group, "script", cnt, start=a, per=cnt, jobs=1, prep=prep, post=post, case_timeout=timeout, env=env,
                attach=lambda i: ss[i].text()[:20000] if i in ss else "")
    c.pmap(chunk, [(a, min(per, total - a)) for a in range(0, total, per)], jobs)
