#!/usr/bin/env python3
"""Decides one property of libkripto by deterministic simulation with fault injection.

  check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py replay FILE         re-execute a replay file
  check.py setup               build everything once
"""
import glob, hashlib, itertools, json, os, re, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSIM_REPO", "/repo")
B = os.path.join(V, "build")
NP = 8
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        sys.stdout.write(" ".join(cmd) + "\n" + r.stdout)
        print("check.py: build step failed")
        sys.exit(2)
    return r.stdout


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode() + b"\0")
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO if p.startswith(REPO) else V).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def project_cflags():
    t = open(os.path.join(REPO, "build.sh"), encoding="utf-8").read()
    m = re.search(r'^CFLAGS="(.*)"\s*$', t, re.M)
    fl = m[1] if m else "-std=c99 -fPIC -D_ANSI_SOURCE -D_ISOC99_SOURCE -D_LARGEFILE64_SOURCE -D_FILE_OFFSET_BITS=64"
    fl = [x for x in shlex.split(fl) if "$" not in x and not x.startswith("-W") and not x.startswith("-I") and x != "-pedantic"]
    return [x for i, x in enumerate(fl) if not (x.endswith("include/") and not x.startswith("-"))]


# ---- build variants -------------------------------------------------------------------------
COMMON = ["-w", "-fPIC"]
_ub = ["bounds", "alignment", "null", "object-size", "vla-bound"]
NOFORT = ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
UB = ["-fsanitize=" + ",".join(_ub), "-fsanitize-trap=" + ",".join(_ub)]
VARIANTS = {
    # the shipped configuration
    "fast": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O2"]),
    # instrumented: every edge, load and store is a tick and a preemption point
    "pre": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O2", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize",
                                 "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"] + NOFORT, mem=True, std=True),
    "asan": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-recover=address"] + NOFORT, link=["-fsanitize=address"], std=True),
    # accesses the language leaves undefined: index outside its array, word access at an unaligned address, null, object too small
    "ub": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O1"] + UB + NOFORT, std=True),
    "uble": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O1", "-DKRIPTO_LITTLE_ENDIAN"] + UB + NOFORT, std=True),
    "fb": dict(cc="gcc", opt=["-O2", "-DKRIPTO_RESEED_OUTPUT=4096", "-DKRIPTO_RESEED_TIME=300"], fb=True),
    # Windows: the system functions are stand-ins (sim/win) over the same simulated device
    "winrtl": dict(cc="gcc", opt=["-O2", "-DKRIPTO_WINDOWS", "-I" + V + "/sim/win"], win=True),
    "wincry": dict(cc="gcc", opt=["-O2", "-DKRIPTO_WINDOWS", "-DKRIPTO_CRYPTGENRANDOM", "-I" + V + "/sim/win"], win=True),
    "o0": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O0"] + NOFORT),
    "le": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O2", "-DKRIPTO_LITTLE_ENDIAN"]),
    "gen": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O2", "-include", V + "/sim/nox86.h"] + NOFORT),
    "o3": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O3", "-march=x86-64-v2", "-funroll-loops"] + NOFORT),
    "os": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-Os", "-DNDEBUG"] + NOFORT),
    "clang": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O2"] + NOFORT),
    "clang0": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O0"] + NOFORT),
    "cle": dict(cc="clang", opt=["-DKRIPTO_UNIX", "-O3", "-DKRIPTO_LITTLE_ENDIAN"] + NOFORT),
    "wrapv": dict(cc="gcc", opt=["-DKRIPTO_UNIX", "-O2", "-fwrapv", "-fno-strict-aliasing", "-funsigned-char"] + NOFORT),
}
SEAMS = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup", "getenv", "secure_getenv", "time", "clock",
         "clock_gettime", "gettimeofday", "getpid", "fopen", "open", "read", "close", "getrandom", "getentropy", "abort", "exit"]
ALIAS = {"fopen64": "fopen", "open64": "open", "__assert_fail": "assert_fail", "__stack_chk_fail": "stack_chk_fail", "_exit": "exit",
         "__getrandom_chk": "getrandom"}
MEM = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strcmp", "strncmp"]


def cached(key, name, make):
    """build products are kept by content; make(dir) fills a fresh directory"""
    d = os.path.join(B, name + "-" + key)
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(d)
        return d
    for old in glob.glob(os.path.join(B, name + "-*")):
        try:
            if time.time() - os.path.getmtime(old) > 7200 or len(glob.glob(os.path.join(B, name + "-*"))) > 6:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:
            pass
    t = d + ".tmp%d" % os.getpid()
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    make(t)
    open(os.path.join(t, "ok"), "w").close()
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return d


def pmap(fn, items):
    with ThreadPoolExecutor(NP) as ex:
        return list(ex.map(fn, items))


def build_model():
    src = glob.glob(V + "/model/**/*", recursive=True)
    src = [p for p in src if os.path.isfile(p)]
    cpp = [V + "/sim/model_hash.cpp", V + "/sim/model_cipher.cpp", V + "/sim/model_block.cpp", V + "/sim/model_plug.cpp"]

    def make(d):
        def cc(p):
            o = os.path.join(d, os.path.basename(p) + ".o")
            if p.endswith(".c"):
                must(["gcc", "-std=c99", "-w", "-O2", "-fPIC", "-D_ISOC99_SOURCE", "-U_FORTIFY_SOURCE", "-I" + V + "/model/include", "-c", p, "-o", o])
            else:
                must(["g++", "-std=c++17", "-w", "-O2", "-c", p, "-o", o])
            return o
        cs = sorted(p for p in src if p.endswith(".c"))
        objs = pmap(cc, cpp + cs)
        frz = objs[len(cpp):]
        must(["ld", "-r", "-o", d + "/frz0.o"] + frz)
        must(["objcopy", "--prefix-symbols=frz_", d + "/frz0.o", d + "/frz1.o"])
        und = [l.split()[-1] for l in must(["nm", "-u", d + "/frz1.o"]).splitlines() if l.strip()]
        with open(d + "/map", "w") as f:
            for u in und:
                f.write("%s %s\n" % (u, u[4:]))
        must(["objcopy", "--redefine-syms=" + d + "/map", d + "/frz1.o", d + "/frz.o"])
        must(["ld", "-r", "-o", d + "/model.o", d + "/frz.o"] + objs[:len(cpp)])
        for o in frz + [d + "/frz0.o", d + "/frz1.o"]:
            os.unlink(o)
    return cached(digest(src + cpp + glob.glob(V + "/sim/*.inc") + [V + "/sim/model.h"], "m2"), "model", make) + "/model.o"


def lib_sources():
    return sorted(glob.glob(REPO + "/lib/*.c") + glob.glob(REPO + "/lib/*/*.c"))


def build_variant(name):
    v = VARIANTS[name]
    model = build_model()
    libs = lib_sources()
    heads = [p for p in glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/lib/**/*", recursive=True) if os.path.isfile(p)]
    flags = project_cflags()
    harness = [V + "/sim/" + x for x in ("rt.cpp", "ops.cpp", "gen.cpp", "main.cpp", "plug.cpp")] + ([V + "/sim/fb.cpp"] if v.get("fb") else [])
    hdrs = glob.glob(V + "/sim/*.h") + glob.glob(V + "/sim/*.inc") + glob.glob(V + "/sim/win/*")
    key = digest(heads + harness + hdrs + [model], v, flags, SEAMS, ALIAS, MEM, "b5")

    def make(d):
        def cc(p):
            if p.startswith(V):
                o = os.path.join(d, "h_" + os.path.basename(p) + ".o")
                must(["g++", "-std=c++17", "-w", "-O1", "-I" + REPO + "/include", '-DKSIM_VARIANT="%s"' % name]
                     + (["-DKSIM_FB"] + [x for x in v["opt"] if x.startswith("-DKRIPTO_RESEED")] if v.get("fb") else [])
                     + (["-DKSIM_WIN"] if v.get("win") else [])
                     + (["-D__SANITIZE_ADDRESS__=1"] if name == "asan" and p.endswith("rt.cpp") else []) + ["-c", p, "-o", o])
                return o
            o = os.path.join(d, os.path.relpath(p, REPO).replace("/", "_") + ".o")
            fl = list(flags)
            if v["cc"] == "clang":
                fl = [x for x in fl if x not in ("-fstack-protector-all",)] if v.get("std") else fl
            if v["cc"] == "clang":  # what gcc only warns about
                fl += ["-Wno-error=" + x for x in ("int-conversion", "incompatible-function-pointer-types", "implicit-function-declaration", "implicit-int", "return-type")]
            must([v["cc"]] + fl + COMMON + v["opt"] + ["-I" + REPO + "/include", "-c", p, "-o", o], cwd=REPO)
            if v.get("fb") and os.path.basename(p) != "scrypt.c":
                must(["objcopy", "--redefine-sym", "kripto_scrypt=sim_scrypt", o])
            return o
        objs = pmap(cc, harness + libs)
        h, l = objs[:len(harness)], objs[len(harness):]
        must(["ld", "-r", "-o", d + "/lib0.o"] + l)
        with open(d + "/map", "w") as f:
            for s in SEAMS:
                f.write("%s sim_%s\n" % (s, s))
            for a, s in ALIAS.items():
                f.write("%s sim_alias_%s\n" % (a, a))
            if v.get("mem"):
                for s in MEM:
                    f.write("%s sim_%s\n" % (s, s))
        must(["objcopy", "--redefine-syms=" + d + "/map", "--rename-section", ".data=kdata", "--rename-section", ".data.rel=kdata_rel", "--rename-section", ".data.rel.local=kdata_rell",
              "--rename-section", ".bss=kbss", d + "/lib0.o", d + "/lib1.o"])
        # writable relocated data is merged into kdata
        must(["objcopy", "--rename-section", "kdata_rel=kdata", "--rename-section", "kdata_rell=kdata", d + "/lib1.o", d + "/lib.o"])
        cxx = "clang++" if v["cc"] == "clang" else "g++"
        must([cxx, "-no-pie", "-o", d + "/ksim"] + v.get("link", []) + h + ["-Wl,--defsym=sim_alias_%s=sim_%s" % x for x in ALIAS.items()] + [d + "/lib.o", model, "-lm"])
        for o in objs + [d + "/lib0.o", d + "/lib1.o", d + "/lib.o"]:
            os.unlink(o)
    return cached(key, "v_" + name, make) + "/ksim"


def build_fresh(names):
    build_model()
    exes = {}
    for n in names:
        try:
            exes[n] = build_variant(n)
        except SystemExit:
            if not VARIANTS[n].get("win"):
                raise
            # code for Windows may use more of its interface than the stand-ins offer
            print("NOTE: build %s left out: it does not compile against sim/win" % n)
    return exes


# ---- running --------------------------------------------------------------------------------
ENV = dict(os.environ, ASAN_OPTIONS="halt_on_error=0:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:log_path=/dev/null:handle_segv=1:detect_stack_use_after_return=0:symbolize=0:print_summary=0")


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_ksim(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, preexec_fn=limits)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace"), "timeout"


VIOL = re.compile(r"(?:^|\r)VIOL (\S+) (\S+) (\d+) (.*)$", re.M)
F = ("FUNC", "CRASH", "HANG", "BADFREE")
# property -> builds, classes counted (class or class@phase), plans per build for quick and thorough
P = {
    "C01": dict(b=["fast"], c=F, q=160000, t=9600000),
    "C02": dict(b=["fast"], c=F, q=60000, t=3600000),
    "C03": dict(b=["fast"], c=F, q=240000, t=14400000),
    "C04": dict(b=["fast"], c=F, q=160000, t=9600000),
    "C05": dict(b=["fast"], c=F, q=60000, t=3600000),
    "C06": dict(b=["fast"], c=F, q=600000, t=14400000),
    "C07": dict(b=["pre"], c=[x + "@interleaved" for x in F], q=9000, t=540000),
    "C08": dict(b=["pre"], c=[x + "@interleaved" for x in F] + ["SHARED"], q=9000, t=540000),
    "C09": dict(b=["fast"], c=[x + "@faulted" for x in F], q=24000, t=1440000),
    "C10": dict(b=["fast", "asan", "winrtl", "wincry"], c=["LEAK", "BADFREE", "UAF"], q=16000, t=480000),
    "C11": dict(b=["asan", "ub", "uble"], c=["OOB", "UAF"], q=80000, t=2400000),
    "C12": dict(b=["fast", "o0"], c=["FUNC@twin"], q=42000, t=840000),
    "C13": dict(b=["fast"], c=["SECRET"], q=20000, t=1200000),
    "C14": dict(b=["pre"], c=["TIMING", "FUNC", "HANG"], q=24000, t=1440000),
    "C15": dict(b=["fast", "winrtl", "wincry"], c=F, q=120000, t=7200000),
    "C16": dict(b=["fast"], c=F, q=100000, t=3600000),
    "C17": dict(b=["fb"], c=F + ("LEAK",), q=5000, t=300000),
    "C18": dict(b=["fast"], c=F + ("LEAK",), q=3600, t=216000),
    "C19": dict(b=["fast"], c=F + ("OOB",), q=400000, t=9600000),
    "C20": dict(b=["pre"], c=["HANG"], q=100000, t=2400000),
    "C21": dict(b=["fast", "le", "gen", "o0", "clang", "os", "wrapv"], c=["DIFF"], q=24000, t=360000,
                tb=["fast", "le", "gen", "o0", "clang", "o3", "os", "clang0", "cle", "wrapv"]),
    "C22": dict(b=["fast"], c=F + ("LEAK", "UAF"), q=90000, t=2400000),
    "C23": dict(b=["fast"], c=F, q=24000, t=1440000),
}


def counts(prop, cls, phase):
    for c in P[prop]["c"]:
        a, _, ph = c.partition("@")
        if a == cls and (not ph or ph == phase):
            return True
    return False


def parse_viol(out):
    m = VIOL.search(out)
    return (m[1], m[2], int(m[3]), m[4]) if m else None


class Tmp:
    def __init__(self):
        self.d = os.path.join(B, "run-%d" % os.getpid())
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)

    def f(self, n):
        return os.path.join(self.d, n)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def worker(exe, prop, seed, w, total, seconds, tmp, tag, want_obs):
    """one of NP workers: indexes w, w+NP, ...; goes on behind executions that stop for another property's reason"""
    res = dict(stats=[], viol=None, other={}, err=None)
    n = (total - w + NP - 1) // NP
    at, part = 0, 0
    end = time.time() + seconds
    while at < n:
        left = end - time.time()
        if left < 1:
            res["cut"] = True
            break
        vf, hf, of = tmp.f("%s-v%d" % (tag, w)), tmp.f("%s-h%d-%d" % (tag, w, part)), tmp.f("%s-o%d-%d" % (tag, w, part))
        part += 1
        rc, out, err = run_ksim(exe, ["batch", prop, str(seed), str(w + at * NP), str(NP), str(n - at), "%.1f" % left, vf, hf] + ([of] if want_obs else []), left + 90)
        m = re.search(r"^STATS (.*)$", out, re.M)
        if rc == 0 and m:
            res["stats"].append(json.loads(m[1]))
            if res["stats"][-1]["plans"] < n - at:
                res["cut"] = True
            break
        v = parse_viol(out)
        if v is None:
            idx = re.findall(r"@(\d+)\r", out)
            res["err"] = "worker ended with %s at index %s: %s%s" % (rc, idx[-1] if idx else "?", out[-300:], err[-300:])
            break
        if counts(prop, v[0], v[1]):
            shutil.copy(vf, vf + ".hit")
            res["viol"] = (v, vf + ".hit")
            break
        k = "%s@%s" % (v[0], v[1])
        res["other"][k] = res["other"].get(k, 0) + 1
        res.setdefault("other_msg", v[3])
        res["done_before"] = res.get("done_before", 0) + (v[2] - (w + at * NP)) // NP
        at = (v[2] - w) // NP + 1
        if sum(res["other"].values()) > 400:
            res["cut"] = True
            break
    return res


def run_batches(exe, prop, seed, total, seconds, tmp, tag, want_obs=False):
    with ThreadPoolExecutor(NP) as ex:
        return list(ex.map(lambda w: worker(exe, prop, seed, w, total, seconds, tmp, tag, want_obs), range(NP)))


# ---- reproduction and minimisation -----------------------------------------------------------
def outcome(exes, prop, path, tmp, n=0):
    """class@phase a plan file produces, or None"""
    if prop == "C21":
        hs = []
        for i, e in enumerate(exes):
            of = tmp.f("x%s-%d" % (n, i))
            rc, out, _ = run_ksim(e, ["exec", path, "", of], 60)
            hs.append(open(of).read().split()[1] if rc == 0 and os.path.exists(of) and open(of).read() else "none")
            if os.path.exists(of):
                os.unlink(of)
        return "DIFF@run" if "none" not in hs and hs[0] != hs[1] else None, "results differ between builds: %s" % hs
    rc, out, _ = run_ksim(exes[0], ["exec", path], 400)
    v = parse_viol(out)
    return ("%s@%s" % (v[0], v[1]), v[3]) if v else (None, out[-200:])


def minimise(exes, prop, path, key, tmp, budget):
    end = time.time() + budget
    lines = [l for l in open(path, errors="replace").read().splitlines() if l and not l.startswith("#")]
    num = itertools.count(1)

    def test(cand):
        n = next(num)
        f = tmp.f("min-%d" % n)
        open(f, "w").write("\n".join(cand) + "\n")
        k, _ = outcome(exes, prop, f, tmp, n)
        os.unlink(f)
        return k == key

    def first(cands):
        cands = list(cands)
        for i in range(0, len(cands), NP):
            if time.time() > end:
                return None
            chunk = cands[i:i + NP]
            for c, ok in zip(chunk, pmap(test, chunk)):
                if ok:
                    return c
        return None

    for kind in ("s", "l", "f", "d", "s", "l"):
        n = 2
        while time.time() < end:
            idx = [i for i, l in enumerate(lines) if l.startswith(kind + " ")]
            if not idx:
                break
            n = min(n, len(idx))
            size = -(-len(idx) // n)
            groups = [set(idx[i:i + size]) for i in range(0, len(idx), size)]
            c = first([l for i, l in enumerate(lines) if i not in g] for g in groups)
            if c is not None:
                lines = c
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(2 * n, len(idx))
    changed = True
    while changed and time.time() < end:
        changed = False
        for i, l in enumerate(lines):
            if not l.startswith("s ") or time.time() > end:
                continue
            for m in re.findall(r" (len|n|klen|ilen|tl|out|r|al|ip|pos|val|kind)=(-?\d+)", l):
                v = int(m[1])
                vals = sorted({0, 1, 8, 16, v // 2, v - 1} - {v})
                c = first(lines[:i] + [re.sub(r" %s=-?\d+" % m[0], " %s=%d" % (m[0], x), lines[i], count=1)] + lines[i + 1:] for x in vals if 0 <= x < v)
                if c is not None:
                    lines = c
                    changed = True
                if time.time() > end:
                    break
    return lines


def known_findings(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def check(prop):
    cfg = P[prop]
    builds = cfg.get("tb", cfg["b"]) if TIER == "thorough" else cfg["b"]
    exes = build_fresh(builds)
    builds = [b for b in builds if b in exes]
    tb = time.time() - T0
    tmp = Tmp()
    try:
        return explore(prop, cfg, builds, exes, tb, tmp)
    finally:
        tmp.close()


def report(prop, exes, build, v, path, tmp):
    """v was seen in a batch: reproduce in fresh processes, minimise, reproduce again"""
    key = "%s@%s" % (v[0], v[1])
    got = pmap(lambda i: outcome(exes, prop, path, tmp, "r%d" % i), range(2))
    if not all(g[0] == key for g in got):
        print("check.py: an execution reported %s (%s) but its replay gives %s" % (key, v[3], [g for g in got]))
        shutil.copy(path, os.path.join(V, "evidence", prop + ".unreproduced"))
        return 2
    lines = minimise(exes, prop, path, key, tmp, (40 if TIER == "quick" else 200) if v[0] != "HANG" or prop == "C20" else 0)
    body = "\n".join(lines) + "\n"
    rd = os.path.join(V, "replays")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, "%s-%s.plan" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(rp, "w") as f:
        f.write("# property %s, seed %d, build %s\n# expect %s\n# %s\n%s" % (prop, SEED, build, key, v[3], body))
    k, msg = outcome(exes, prop, rp, tmp, "z")
    if k != key:
        print("check.py: the minimised plan does not reproduce")
        return 2
    txt = open(rp).read().replace("# " + v[3] + "\n", "# " + msg + "\n", 1)
    open(rp, "w").write(txt)
    print("%s: %s" % (key, msg))
    print("replay with: python3 check.py replay %s" % os.path.relpath(rp, V))
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, V)))
    return 1


RULE = {
    "C07": "one evaluation is one execution of a plan: each task alone, then the tasks under a seeded preemptive schedule; non-trivial: at least one preemption inside a library call; distinct by (plan shape, sequence of preemption points)",
    "C08": "one evaluation is one execution of a plan: each task alone with the shared objects, then all tasks under a seeded preemptive schedule; non-trivial: at least one preemption inside a library call; distinct by (plan shape, sequence of preemption points)",
    "C09": "one evaluation is one execution of a plan without faults or with one set of allocation failures; non-trivial: an allocation really failed; distinct by (plan shape, failed allocations)",
    "C10": "one evaluation is one execution of a plan without faults or with one set of allocation failures; non-trivial: an allocation really failed; distinct by (plan shape, failed allocations)",
    "C12": "one evaluation is one execution under one filling of fresh heap and stack; non-trivial: at least two calls with results; distinct by plan shape",
    "C13": "one evaluation is one execution under one assignment of secrets; non-trivial: blocks were released; distinct by (plan shape, failed allocations)",
    "C14": "one evaluation is one execution with one candidate; non-trivial: 14 candidates were traced; distinct by plan shape",
    "C15": "one evaluation is one execution against the simulated device; non-trivial: a device fault, a refused open, a finite device or a device named by the environment; distinct by whole plan",
    "C16": "one evaluation is one execution against the simulated device; non-trivial: at least two calls with results; distinct by whole plan",
    "C21": "one evaluation is one execution of a plan on one build; non-trivial: at least two calls with results; distinct by plan shape",
}
DEFRULE = "one evaluation is one simulated execution (seeded histories of calls by 1-3 tasks over all algorithms, lengths drawn around block boundaries); non-trivial: at least two calls with results; distinct by plan shape (operations, algorithms, lengths, faults; data seeds ignored)"


def explore(prop, cfg, builds, exes, tb, tmp):
    total = cfg["q"] if TIER == "quick" else cfg["t"]
    seconds = (240 if TIER == "quick" else 1500) / (len(builds) if prop != "C21" else len(builds))
    allst, other, errs, hashes, cut = [], {}, [], set(), False
    per_build = {}
    viols = []
    obs = {}
    t1 = time.time()
    for b in builds:
        rs = run_batches(exes[b], prop, SEED, total, seconds, tmp, b, prop == "C21")
        per_build[b] = sum(s["plans"] for r in rs for s in r["stats"]) + sum(r.get("done_before", 0) for r in rs)
        for r in rs:
            allst += r["stats"]
            cut |= bool(r.get("cut"))
            for k, n in r["other"].items():
                other[k] = other.get(k, 0) + n
            if r["err"]:
                errs.append("%s: %s" % (b, r["err"]))
            if r["viol"]:
                viols.append((b, r["viol"][0], r["viol"][1]))
        for h in glob.glob(tmp.f(b + "-h*")):
            d = open(h, "rb").read()
            hashes.update(d[i:i + 8] for i in range(0, len(d), 8))
        if prop == "C21":
            o = obs[b] = {}
            for f in glob.glob(tmp.f(b + "-o*")):
                for l in open(f):
                    p = l.split()
                    if len(p) == 2:
                        o[int(p[0])] = p[1]
            for i in sorted(set(o) & set(obs[builds[0]])):
                if o[i] != obs[builds[0]][i]:
                    path = tmp.f("diff.plan")
                    open(path, "w").write(must([exes[b], "plan", prop, str(SEED), str(i)]))
                    viols.append((b, ("DIFF", "run", i, "results of build '%s' differ from those of the default build" % b), path))
                    break
        if viols:
            break
    t2 = time.time()
    rc = 0
    if viols:
        b, v, path = sorted(viols, key=lambda x: x[1][2])[0]
        ex = [exes[builds[0]], exes[b]] if prop == "C21" else [exes[b]]
        rc = report(prop, ex, b, v, path, tmp)
    # determinism: the same indexes executed again in another process give the same statistics
    redo = 0
    if not viols and not errs:
        n = 4 * NP
        def once(w):
            _, o, _ = run_ksim(exes[builds[0]], ["batch", prop, str(SEED), str(w), str(NP * 40), "4", "60"], 150)
            m = re.search(r"^STATS (.*)$", o, re.M)
            s = json.loads(m[1]) if m else {"x": parse_viol(o)}
            s.pop("seconds", None)
            return s
        a, c = pmap(once, range(NP)), pmap(once, range(NP))
        redo = n
        if a != c:
            errs.append("two executions of the same seed differ")
    st = {}
    cover = {}
    for s in allst:
        for k, x in s["stats"].items():
            st[k] = st.get(k, 0) + x
        for k, x in s["cover"].items():
            cover[k] = cover.get(k, 0) + x
    ssum = lambda k: sum(s[k] for s in allst)
    evals = ssum("evals")
    faults = {k: x for k, x in sorted(st.items())}
    wall = max(t2 - t1, 0.01)
    cov = {
        "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": RULE.get(prop, DEFRULE),
        "samples": [x for s in allst for x in s["samples"]][:3],
        "plans_per_build": per_build, "runs_per_hour": int(evals / wall * 3600), "seeds_per_hour": int(sum(per_build.values()) / wall * 3600),
        "simulated_ticks": ssum("ticks"), "simulated_clock_seconds": ssum("sim_seconds"),
        "context_switches": ssum("switches"), "preemptions_inside_library_calls": ssum("preempt_in_lib"),
        "injected_and_observed_events": faults, "coverage_points": len(cover), "coverage": coverage_summary(cover),
        "stopped_for_other_reasons": other, "determinism_rechecked_plans": redo, "complete": not cut,
        "longest_history_calls": max([s["max_steps"] for s in allst] or [0]),
        "real_components": "the whole of /repo/lib compiled from the working tree" + ("; kripto_scrypt inside the fallback generator is a stand-in" if prop == "C17" else "") + ("; the primitives under the constructions are seeded stand-ins" if prop == "C22" else ""),
        "simulated_components": "task scheduler, allocator, heap and stack contents, random device (stdio backend), environment, clock, process exit, the channel between sender and receiver",
        "build_seconds": round(tb, 1),
    }
    if prop == "C20":
        cov["largest_fraction_of_step_budget_used"] = max([s["worst_budget"] for s in allst] or [0])
        cov["largest_growth_over_proportional_growth"] = max([s.get("worst_scaling", 0) for s in allst] or [0])
    kf = known_findings(prop)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration", coverage=cov,
              assumptions=["compilers, libc and the reference models are correct", "exploration is a sample: absence of a violation is not a proof"],
              wall_s=round(time.time() - T0, 2), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d executions of %s plans, %d distinct non-trivial, %.0f s%s%s" % (prop, evals, per_build, len(hashes), time.time() - T0, ", cut short by time" if cut else "", ", other: %s" % other if other else ""))
    if rc == 0 and errs:
        print("check.py: " + "; ".join(errs[:3]))
        return 2
    if rc == 0 and evals == 0:
        print("check.py: nothing was executed")
        return 2
    return rc


def coverage_summary(c):
    out = {}
    for k, n in c.items():
        a = k.rsplit(".", 1)[0] if "." in k else k
        o = out.setdefault(a, [0, 0])
        o[0] += 1
        o[1] += n
    return {k: "%d kinds, %d times" % tuple(v) for k, v in sorted(out.items())}


def replay(path):
    t = open(path).read()
    prop = re.search(r"^prop (\S+)", t, re.M)[1]
    m = re.search(r"^# property \S+ seed -?\d+, build (\S+)", t, re.M) or re.search(r"build (\S+)$", t, re.M)
    b = m[1] if m and m[1] in VARIANTS else P[prop]["b"][0]
    names = [P[prop]["b"][0], b] if prop == "C21" else [b]
    exes = build_fresh(names)
    tmp = Tmp()
    k, msg = outcome([exes[n] for n in names], prop, path, tmp)
    tmp.close()
    print("%s: %s" % (k, msg))
    if k and counts(prop, *k.split("@")):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    if a and a[0] == "setup":
        build_fresh(["fast", "pre", "asan", "ub", "uble", "fb", "o0", "winrtl", "wincry"])
        sys.exit(0)
    if len(a) == 2 and a[0] == "replay":
        sys.exit(replay(a[1]))
    if len(a) == 1 and a[0] in P:
        sys.exit(check(a[0]))
    print(__doc__)
    sys.exit(2)
