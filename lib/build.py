#!/usr/bin/env python3
"""Builds the harness and /repo's library sources, per sanitizer variant, from /repo's current tree.

Objects are cached by content: an object is reused only when its source, every header the compiler
reported for it and its flags are byte-identical to what it was compiled from."""
import os, sys, json, hashlib, subprocess, fcntl, glob, concurrent.futures, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMVR_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
DEFS = ("-std=gnu++14 -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE "
        "-DDONT_USE_XERCES_AS_XMLLIB -DIS_UNITTEST -DLIBMVRGDTF_VERIF -w -include algorithm -gline-tables-only -fno-omit-frame-pointer").split()
CHK = ["-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "asan": ("clang++", # (ignore.txt: miniz reads words at any address on purpose, where the processor allows it)
                         ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-ignorelist=" + VERIF + "/lib/ignore.txt", "-fno-sanitize-recover=all",
                          "-D_GLIBCXX_SANITIZE_VECTOR=1"] + CHK, ["-fsanitize=address,undefined,float-cast-overflow"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "zero": ("clang++", ["-O1", "-ftrivial-auto-var-init=zero"], []),
    "fill": ("clang++", ["-O2", "-ftrivial-auto-var-init=pattern"], []),
    "plain": ("g++", ["-O1"], []),
}
WRAPS = ["fopen", "fopen64", "fread", "fwrite", "fclose", "fflush", "fsync", "remove", "mkdir", "rmdir", "unlink", "rename",
         "getifaddrs", "freeifaddrs", "socket", "setsockopt", "bind", "getsockname", "select", "recvfrom", "sendto", "close", "connect", "time"]
CTYPE = ["isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "ispunct", "isxdigit", "isprint"]
WRAPS += CTYPE
DEFS += ["-fno-builtin-" + f for f in CTYPE]


def _h(path, memo):
    if path not in memo:
        try:
            with open(path, "rb") as f:
                memo[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            memo[path] = "missing"
    return memo[path]


def _lib_sources():
    s = [p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True)]
    s += [REPO + "/mdns_cpp/src/%s.cpp" % n for n in ("mdns", "logger", "utils")]
    return sorted(s)


def _deps(dfile):
    with open(dfile) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.normpath(p.replace("\\ ", " ")) for p in txt.replace("\\ ", "\0").split() for p in [p.replace("\0", " ")]]


def _compile(src, cc, flags, odir, memo):
    key = hashlib.sha256(("|".join([cc, src] + flags)).encode()).hexdigest()[:24]
    obj, man = os.path.join(odir, key + ".o"), os.path.join(odir, key + ".json")
    if os.path.exists(obj) and os.path.exists(man):
        try:
            with open(man) as f:
                m = json.load(f)
            if all(_h(p, memo) == h for p, h in m.items()):
                return obj, None, m
        except Exception:
            pass
    tmp = obj + ".tmp.%d" % os.getpid()
    r = subprocess.run([cc] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        for x in (tmp, tmp + ".d"):
            if os.path.exists(x):
                os.unlink(x)
        return None, src + "\n" + r.stdout[-3000:], None
    m = {p: _h(p, memo) for p in _deps(tmp + ".d") if not p.startswith("/usr/")}
    os.unlink(tmp + ".d")
    os.replace(tmp, obj)
    with open(man, "w") as f:
        json.dump(m, f)
    return obj, None, m


def build(variant, group="pub"):
    """Returns the path of the harness binary (group: pub uses only the public interface, int the
    library's internal classes) for the variant; raises RuntimeError if it does not build."""
    cc, cf, lf = VARIANTS[variant]
    odir = os.path.join(OUT, variant)
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(OUT, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = ["-I" + REPO + "/src", "-I" + REPO + "/mdns_cpp/include"]
        flags = DEFS + cf + inc
        hflags = flags + ["-I" + VERIF + "/harness"]
        jobs = [(p, flags) for p in _lib_sources()]
        for g in ("common", group):
            jobs += [(p, hflags) for p in sorted(glob.glob(VERIF + "/harness/%s_*.cpp" % g))]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        memo, errs, res = {}, [], {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(_compile, p, cc, f, odir, memo): p for p, f in jobs}
            for fu in concurrent.futures.as_completed(futs):
                o, e, m = fu.result()
                if e:
                    errs.append(e)
                else:
                    res[futs[fu]] = o
        if errs:
            raise RuntimeError("build failed: " + "\n".join(errs[:3]))
        objs = [res[p] for p, _ in sorted(jobs)]
        sig = hashlib.sha256("|".join([_h(o, memo) for o in objs] + lf + WRAPS).encode()).hexdigest()
        exe, sigf = os.path.join(odir, "drv_" + group), os.path.join(odir, group + ".sig")
        if not (os.path.exists(exe) and os.path.exists(sigf) and open(sigf).read() == sig):
            r = subprocess.run([cc] + lf + ["-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in WRAPS]
                               + ["-Wl,--export-dynamic-symbol=getpwuid", "-luuid", "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError("link failed: " + r.stdout[-3000:])
            os.replace(exe + ".tmp", exe)
            os.chmod(exe, 0o755)
            with open(sigf, "w") as f:
                f.write(sig)
        # drop objects that have not been used for a day
        for o in objs:
            os.utime(o)  # (mtime is only a last-used mark; validity is by content)
        for p in glob.glob(odir + "/*.o"):
            if time.time() - os.path.getmtime(p) > 86400:
                for q in (p, p[:-2] + ".json"):
                    if os.path.exists(q):
                        os.unlink(q)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        v, g = (v.split(":") + ["pub"])[:2]
        t = time.time()
        try:
            print(v, g, build(v, g), "%.1fs" % (time.time() - t), flush=True)
        except RuntimeError as e:
            # a group that does not build is an error of the checks that need it, not of setup
            print(v, g, e, flush=True)
