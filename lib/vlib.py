"""Runner of the checks: starts the instrumented harness in a scratch directory as an unprivileged user,
collects what its monitors reported, classifies sanitizer reports, and writes the evidence."""
import os, sys, re, json, time, shutil, subprocess, tempfile, threading, hashlib, signal, concurrent.futures, atexit, multiprocessing

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
REPO = B.REPO
NOBODY = 65534
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def unesc(s):
    return re.sub(r"(?:%[0-9A-Fa-f]{2})+", lambda m: bytes.fromhex(m.group(0).replace("%", "")).decode("utf-8", "replace"), s)


def esc(s):
    b = s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")
    return "".join(chr(c) if 32 < c < 127 and c != 37 else "%%%02X" % c for c in b)


FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ )?(?:in )?(.+?) (/\S+?):(\d+)(?::\d+)?\)?(?: \(\S+\+0x[0-9a-f]+\))?(?: \(BuildId: \w+\))?\s*$")
FRAME2 = re.compile(r"^\s*#(\d+) 0x[0-9a-f]+ (?:in )?(.+?) \((\S+?)\+0x")


def func_short(f):
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"<.*>", "<>", f)
    return "::".join(f.split("::")[-2:]).replace(" ", "_")


def races(text):
    """The reports of ThreadSanitizer: {key: text}; a key names the first frames of the library in both stacks."""
    out = {}
    for rep in re.split(r"(?m)^={10,}$", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([a-zA-Z() -]+?) \(pid", rep)
        if not m:
            continue
        tops = []
        for part in re.split(r"\n\s*\n", rep):
            if re.search(r"(?i)^\s*(WARNING|Previous|Read|Write|Atomic|Mutex M\d+ acquired|Mutex|Cycle)", part.lstrip("\n")) and "#0" in part:
                fr = []
                for ln in part.splitlines():
                    f = FRAME.match(ln)
                    if f and (f.group(3).startswith(REPO + "/src") or f.group(3).startswith(REPO + "/mdns_cpp")) and "/asio/" not in f.group(3):
                        x = func_short(f.group(2))
                        if not fr or fr[-1] != x:
                            fr.append(x)
                        if len(fr) == 2:
                            break
                tops.append("<".join(fr) or "-")
        key = "race:" + m.group(1).strip().replace(" ", "-") + ":" + "|".join(sorted(set(tops[:2])))
        out.setdefault(key, rep)
    return out


def signature(text):
    """A key for a sanitizer report: kind and the first library frames."""
    kind = None
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([A-Za-z0-9-]+)", text)
    if m:
        kind = m.group(2)
        if kind == "attempting":
            kind = "bad-free"
    m = re.search(r"runtime error: (.*)", text)
    if m and (kind is None):
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|'[^']*'|inf|nan", "#", m.group(1)).strip().replace(" ", "-")[:70]
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z A-Z()-]+)", text)
    if m and kind is None:
        kind = "tsan:" + m.group(1).strip().replace(" ", "-").replace("-(pid", "")
    if kind is None and "terminate called" in text:
        mm = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        kind = "uncaught:" + (mm.group(1) if mm else "?")
    if kind is None and "Assertion '" in text:
        kind = "glibcxx-assert"
    fr = []
    for ln in text.splitlines():
        m = FRAME.match(ln)
        if m and (m.group(3).startswith(REPO + "/src") or m.group(3).startswith(REPO + "/mdns_cpp")):
            if "/asio/" in m.group(3):
                continue
            f = func_short(m.group(2))
            if not fr or fr[-1] != f:
                fr.append(f)
            if len(fr) >= 2:
                break
        elif fr and re.match(r"^\s*$", ln):
            break
    return kind, fr


ASAN = ("abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=2:handle_sigfpe=1:detect_stack_use_after_return=1:"
        "allocator_may_return_null=0:max_allocation_size_mb=6000:hard_rss_limit_mb=3500:quarantine_size_mb=32:malloc_context_size=12:fast_unwind_on_malloc=1:"
        "detect_container_overflow=1:strict_string_checks=1:print_summary=0")


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.counts, self.dist, self.samples = {}, {}, []
        self.viol = {}      # key -> (detail, replay content)
        self.evaluations = 0
        self.inconclusive = 0
        self.notes = {}
        self.lock = threading.Lock()
        self.held = threading.local()   # .got: what this thread found and does not report yet
        self.root = tempfile.mkdtemp(prefix="vmvr.%s." % pid, dir="/tmp")
        os.chmod(self.root, 0o755)
        atexit.register(self._cleanup)
        self._n = 0

    def _cleanup(self):
        if self.root.startswith("/tmp/vmvr."):
            shutil.rmtree(self.root, ignore_errors=True)

    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        v = q if self.quick() else t
        return max(1, int(v * float(os.environ.get("VERIF_SCALE", "1"))))

    def exe(self, variant="asan", group="pub"):
        e = B.build(variant, group)
        # run a copy: the build directory may be replaced, and an unprivileged user may not reach it
        d = os.path.join(self.root, "bin")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s" % (variant, group))
        if not os.path.exists(p):
            shutil.copy2(e, p)
            os.chmod(p, 0o755)
        return p

    def scratch(self):
        with self.lock:
            self._n += 1
            d = os.path.join(self.root, "w%d.%d" % (os.getpid(), self._n))
        os.makedirs(d + "/home")
        for x in (d, d + "/home"):
            os.chown(x, NOBODY, NOBODY)
            os.chmod(x, 0o700 if x == d else 0o755)
        return d

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def distinct(self, k, v):
        with self.lock:
            self.dist.setdefault(k, set()).add(v if isinstance(v, (str, int)) else repr(v))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 4:
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")

    def violation(self, key, detail, replay=""):
        got = getattr(self.held, "got", None)
        if got is not None:
            got.append((key, detail, replay))
            return
        with self.lock:
            if key not in self.viol:
                self.viol[key] = [detail, replay, 0]
            self.viol[key][2] += 1

    # --- running the harness ------------------------------------------------------------------------------
    def run_raw(self, exe, args, work, timeout=300, env=None, rlimits=None, stdin=None, uid=NOBODY):
        e = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=work + "/home", VR_ROOT=work, VR_HOME=work + "/home",
                 LC_ALL="C.UTF-8", TMPDIR=work, TZ="UTC")
        e["ASAN_OPTIONS"] = ASAN
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77:print_summary=0"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1"
        if env:
            e.update(env)
        rfd, wfd = os.pipe()
        e["VR_FD"] = str(wfd)
        errp = os.path.join(work, "stderr.txt")
        lines = []

        def rd():
            with os.fdopen(rfd, "r", errors="replace") as f:
                for ln in f:
                    lines.append(ln.rstrip("\n"))
        th = threading.Thread(target=rd)
        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for k, v in (rlimits or {}).items():
                resource.setrlimit(k, v)
            os.setsid()
        with open(errp, "wb") as ef:
            p = subprocess.Popen([exe] + [str(a) for a in args], cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                                 pass_fds=(wfd,), preexec_fn=pre, user=uid, group=uid, extra_groups=[])
            os.close(wfd)
            th.start()
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        th.join(30)
        with open(errp, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(0)
            err = f.read(400000).decode("utf-8", "replace")
            if sz > 400000:
                f.seek(sz - 300000)
                err += "\n...\n" + f.read().decode("utf-8", "replace")
        return rc, lines, err

    def absorb(self, lines, ctx, on_line=None):
        """Takes the report lines; returns (last case begun and not ended, done, failures)."""
        cur, done, fails = None, False, []
        for ln in lines:
            t = ln.split("\t")
            k = t[0]
            if k == "CASE":
                cur = int(t[1])
                with self.lock:
                    self.evaluations += 1
            elif k == "END":
                cur = None
            elif k == "FAIL":
                fails.append((unesc(t[1]), unesc(t[2]) if len(t) > 2 else "", cur))
            elif k == "COUNT":
                self.count(unesc(t[1]), int(t[2]))
            elif k == "DIST":
                self.distinct(unesc(t[1]), t[2])
            elif k == "SAMPLE":
                self.sample(unesc(t[1]))
            elif k == "ESCAPE":
                fails.append(("escape:" + unesc(t[1]).split(" ")[0], "destructive call outside the scratch directory: " + unesc(t[1]), cur))
            elif k == "DONE":
                done = True
            elif on_line:
                on_line(t)
        for key, det, c in fails:
            self.violation(key, det, "%s case=%s\n%s: %s" % (ctx, c, key, det))
        return cur, done, fails

    def crash_key(self, rc, err):
        kind, fr = signature(err)
        if kind is None:
            if rc is not None and rc < 0:
                kind = "signal-%d" % -rc
            elif "rss limit" in err:
                kind = "rss-limit"
            else:
                kind = "exit-%s" % rc
        return "crash:" + kind + (":" + "<".join(fr) if fr else "")

    def shard(self, variant, group, cmd, total, extra=(), case_timeout=60, per=None, jobs=None, env=None, start=0, max_restarts=60,
              on_line=None, prep=None, post=None, rlimits=None, attach=None):
        """Runs cases start..start+total of a generator command, in parallel, continuing after a crashed case.
        prep(work, start, count) puts input files in the scratch directory, post(work, cases) looks at what the
        cases that came to their end left there."""
        exe = self.exe(variant, group)
        jobs = jobs or JOBS
        per = per or max(1, min(500, (total + jobs * 4 - 1) // (jobs * 4)))
        chunks = [(a, min(per, start + total - a)) for a in range(start, start + total, per)]

        def work(ch):
            a, cnt = ch
            restarts = 0
            while cnt > 0:
                w = self.scratch()
                if prep:
                    prep(w, a, cnt)
                args = [cmd, self.seed, a, cnt] + list(extra)
                ctx = "%s %s %s" % (variant, group, " ".join(map(str, args)))
                rc, lines, err = self.run_raw(exe, args, w, timeout=case_timeout + 2 * cnt + 60, env=env, rlimits=rlimits)
                cur, done, fails = self.absorb(lines, ctx, on_line)
                if post:
                    post(w, [int(l.split("\t")[1]) for l in lines if l.startswith("END\t")])
                if rc == 0 and done:
                    shutil.rmtree(w, ignore_errors=True)
                    return
                if rc == 90:
                    raise RuntimeError("harness usage error: " + err[-500:])
                ran = [int(l.split("\t")[1]) for l in lines if l.startswith("CASE\t")]
                c = cur if cur is not None else (ran[-1] if ran else a)
                key = None
                extra_text = "\n" + attach(c) if attach else ""
                if rc is None:
                    # re-run that case alone before calling it a hang
                    w2 = self.scratch()
                    if prep:
                        prep(w2, c, 1)
                    rc2, l2, e2 = self.run_raw(exe, [cmd, self.seed, c, 1] + list(extra), w2, timeout=max(120, case_timeout * 4), env=env, rlimits=rlimits)
                    if rc2 is None:
                        key = "hang"
                        st = ""
                        self.violation("hang:" + cmd, "case %d does not finish" % c, "%s %s %s %s %d 1 %s\nhang" % (variant, group, cmd, self.seed, c, " ".join(map(str, extra))) + extra_text)
                    elif rc2 != 0:
                        key = self.crash_key(rc2, e2)
                        self.violation(key, e2[:3000], "%s %s %s %s %d 1 %s\n%s" % (variant, group, cmd, self.seed, c, " ".join(map(str, extra)), e2[:8000]) + extra_text)
                    else:
                        with self.lock:
                            self.inconclusive += 1
                    shutil.rmtree(w2, ignore_errors=True)
                elif rc in (66, 77) and "WARNING: ThreadSanitizer" in err:
                    for key, text in races(err).items():
                        self.violation(key, text[:3000], "%s %s %s %s %d %d %s\n%s" % (variant, group, cmd, self.seed, a, cnt, " ".join(map(str, extra)), text[:16000]) + extra_text)
                    if not races(err):
                        self.violation("race:unreadable", err[:3000], err[:16000])
                    if done:
                        shutil.rmtree(w, ignore_errors=True)
                        return
                else:
                    key = self.crash_key(rc, err)
                    self.violation(key, err[:3000], "%s %s %s %s %d 1 %s\n%s" % (variant, group, cmd, self.seed, c, " ".join(map(str, extra)), err[:8000]) + extra_text)
                shutil.rmtree(w, ignore_errors=True)
                nxt = c + 1
                cnt = a + cnt - nxt
                a = nxt
                restarts += 1
                if restarts > max_restarts:
                    with self.lock:
                        self.notes["cut_short"] = self.notes.get("cut_short", 0) + cnt
                    return
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for f in [ex.submit(work, c) for c in chunks]:
                f.result()

    def pmap(self, fn, items, jobs=None):
        """Runs fn(item) in forked processes and merges what they observed."""
        global _CUR
        items = list(items)
        _CUR = (self, fn)
        with multiprocessing.get_context("fork").Pool(min(jobs or JOBS, max(1, len(items)))) as pool:
            for r in pool.imap_unordered(_pmap_one, items):
                if isinstance(r, str):
                    raise RuntimeError(r)
                counts, dist, samples, viol, ev, inc, notes = r
                for k, v in counts.items():
                    self.counts[k] = self.counts.get(k, 0) + v
                for k, v in dist.items():
                    self.dist.setdefault(k, set()).update(v)
                for s in samples:
                    self.sample(s)
                for k, v in viol.items():
                    if k in self.viol:
                        self.viol[k][2] += v[2]
                    else:
                        self.viol[k] = v
                self.evaluations += ev
                self.inconclusive += inc
                for k, v in notes.items():
                    self.notes[k] = self.notes.get(k, 0) + v

    # --- verdict --------------------------------------------------------------------------------------------
    def known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", ln.strip())
                if m and m.group(1) == self.pid:
                    res.append((re.compile(m.group(2) + r"\Z"), m.group(3), m.group(2)))
        return res

    def finish(self, distinct_of=None, min_eval=1, require=()):
        """Writes the evidence and exits. `distinct_of`: names of the distinct sets that count as non-trivial cases."""
        known = self.known()
        hits, new = {}, {}
        for key, (det, rep, cnt) in self.viol.items():
            k = esc(key)
            for rx, text, raw in known:
                if rx.match(k):
                    hits.setdefault(raw, [text, 0])[1] += cnt
                    break
            else:
                new[key] = (det, rep, cnt)
        names = distinct_of or list(self.dist)
        dn = sum(len(self.dist.get(x, ())) for x in names)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=dn, rule=self.rule, samples=self.samples or ["(none)"],
                   monitors_observed=dict(sorted(self.counts.items())), distinct={k: len(v) for k, v in sorted(self.dist.items())},
                   inconclusive=self.inconclusive)
        cov.update(self.notes)
        if hits:
            cov["known_findings_hit"] = {k: v[1] for k, v in hits.items()}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        for rx, text, raw in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, text, "" if raw in hits else " (listed; not hit in this run)"))
        if new:
            d = VERIF + "/replays/" + self.pid
            os.makedirs(d, exist_ok=True)
            first = None
            for i, (key, (det, rep, cnt)) in enumerate(sorted(new.items(), key=lambda kv: -kv[1][2])):
                if i >= 12:
                    break
                p = os.path.join(d, hashlib.sha1(key.encode()).hexdigest()[:12] + ".txt")
                with open(p, "w") as f:
                    f.write("property %s\nkey %s\ncount %d\n%s\n\ndetail: %s\n" % (self.pid, key, cnt, rep, det))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  key=%s count=%d %s" % (esc(key), cnt, det[:400].replace("\n", " | ")))
            sys.exit(1)
        missing = [r for r in require if not self.counts.get(r)]
        if self.evaluations < min_eval or missing:
            print("check error: observed too little (evaluations=%d, unobserved=%s)" % (self.evaluations, missing))
            sys.exit(3)
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" %
              (self.pid, self.tier, self.seed, self.evaluations, dn, self.inconclusive, time.time() - self.t0))
        sys.exit(0)


_CUR = None


def _pmap_one(item):
    c, fn = _CUR
    c.counts, c.dist, c.samples, c.viol, c.evaluations, c.inconclusive, c.notes = {}, {}, [], {}, 0, 0, {}
    try:
        fn(item)
    except Exception:
        import traceback
        return traceback.format_exc()
    return c.counts, c.dist, c.samples, c.viol, c.evaluations, c.inconclusive, c.notes


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("check error: %s" % e)
        sys.exit(4)
