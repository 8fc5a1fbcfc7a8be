#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: build from /repo, explore, write evidence, report."""
import sys, os, atexit, json, time, hashlib, subprocess, glob, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
B = os.environ.get("MC_BUILD", os.path.join(V, ".build"))
sys.path.insert(0, V)
SKIP = {"StringId.cpp", "stdio_64.cpp", "drawRandomLogNormal.cpp"}   # not part of the built libraries
COMMON = ["-w", "-g1", "-DNDEBUG", "-DSYS_POSIX", "-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype", '-DLIBLINTEL_VERSION="0.0"']
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset", "memcmp")), "-rdynamic"]
VARIANTS = {
    "asan": (["g++", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "plain": (["g++", "-O1"], []),
    "fast": (["g++", "-O2"], []),
    "tsan": (["g++", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp", "-fno-builtin-malloc", "-U_FORTIFY_SOURCE"],
        WRAP),
}
LIBS = ["-lboost_program_options", "-lboost_thread", "-lboost_filesystem", "-lboost_system", "-lxml2", "-lpthread", "-ldl", "-lm"]

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def read(p):
    with open(p, "rb") as f: return f.read()
class BuildError(Exception): pass

def headers_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src")):
        for d, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".h", ".in", ".tpp", ".ipp")): p = os.path.join(d, f); h.update(p.encode() + b"\0" + read(p))
    return h.hexdigest()

def gen_headers():
    """PThread.hpp as cmake generates it on this platform"""
    inc = os.path.join(B, "inc", "Lintel"); os.makedirs(inc, exist_ok=True)
    t = read(os.path.join(REPO, "include/Lintel/PThread.hpp.in")).decode()
    t = t.replace("@HAS_PTHREAD_ISLOCKED@", "1").replace("@PTHREAD_ISLOCKED_EXPR@", "m.__data.__lock != 0")
    p = os.path.join(inc, "PThread.hpp")
    if not os.path.exists(p) or read(p).decode() != t:
        with open(p + ".%d" % os.getpid(), "w") as f: f.write(t)
        os.replace(p + ".%d" % os.getpid(), p)

def compile_one(src, variant, hd, extra, hard=True):
    cc, _ = VARIANTS[variant]
    inc = ["-I" + os.path.join(B, "inc"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/libxml2", "-I" + os.path.join(V, "harness")]
    cmd = cc + COMMON + extra + inc
    hh = hashlib.sha256((repr(cmd) + hd).encode() + src.encode() + read(src))
    if src.startswith(V):
        for f in sorted(glob.glob(os.path.join(V, "harness", "*.hpp"))): hh.update(read(f))
    o = os.path.join(B, "obj", hh.hexdigest()[:24] + "-" + os.path.basename(src) + ".o")
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode:
            if hard: raise BuildError("compile of %s failed:\n%s" % (src, r.stdout[-4000:]))
            return None
        os.replace(tmp, o)
    return o

def build(spec):
    variant = spec.get("variant", "asan"); extra = spec.get("cflags", [])
    gen_headers(); hd = headers_digest()
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if os.path.basename(s) not in SKIP]
    omit = set(spec.get("omit", []))
    srcs = [s for s in srcs if os.path.basename(s) not in omit]
    srcs += [s for pat in spec.get("also", []) for s in sorted(glob.glob(os.path.join(REPO, pat)))]
    hs = [os.path.join(V, "harness", h) for h in spec["sources"]]
    hvar = spec.get("harness_variant", variant)
    raw = [os.path.join(V, "harness", h) for h in spec.get("engine_sources", [])]
    if raw and variant != "tsan": spec.setdefault("ldflags", []); spec["ldflags"] = WRAP + spec["ldflags"]
    with ThreadPoolExecutor(8) as ex:
        fh = [ex.submit(compile_one, h, hvar, hd, extra) for h in hs]
        fr = [ex.submit(compile_one, h, "plain", hd, []) for h in raw]
        fl = [ex.submit(compile_one, s, variant, hd, spec.get("lib_cflags", []), False) for s in srcs]
        ho = [f.result() for f in fh]; ro = [f.result() for f in fr]; lo = [f.result() for f in fl]
    missing = [os.path.basename(s) for s, o in zip(srcs, lo) if not o]
    lo = [o for o in lo if o]
    key = hashlib.sha256("|".join(ho + ro + lo).encode()).hexdigest()[:24]
    exe = os.path.join(B, "bin", key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        ar = os.path.join(B, "bin", key + ".%d.a" % os.getpid())
        if lo:
            r = sh(["ar", "rcs", ar] + lo)
            if r.returncode: raise BuildError(r.stdout)
        r = sh(["g++"] + VARIANTS[variant][1] + spec.get("ldflags", []) + ho + ro + ([ar] if lo else []) + LIBS + ["-o", exe + ".%d" % os.getpid()])
        if os.path.exists(ar): os.unlink(ar)
        if r.returncode: raise BuildError("link failed (sources that did not compile: %s):\n%s" % (missing, r.stdout[-4000:]))
        os.replace(exe + ".%d" % os.getpid(), exe)
    if "program" in spec:   # a program of the repository, run by the harness
        po = compile_one(os.path.join(REPO, spec["program"]), variant, hd, []); pk = os.path.join(B, "bin", hashlib.sha256("|".join(["n", po] + lo).encode()).hexdigest()[:24] + "-prog")
        if not os.path.exists(pk):
            ar2 = pk + ".%d.a" % os.getpid(); sh(["ar", "rcs", ar2] + lo)
            r = sh(["g++"] + VARIANTS[variant][1] + ["-Wl,--as-needed", po, "-Wl,--start-group", ar2, "-Wl,--end-group"] + LIBS + ["-o", pk + ".%d" % os.getpid()])
            os.unlink(ar2)
            if r.returncode: raise BuildError("link of %s failed:\n%s" % (spec["program"], r.stdout[-4000:]))
            os.replace(pk + ".%d" % os.getpid(), pk)
        os.environ["MC_PROGRAM"] = pk
    return exe

def known_findings(pid):
    known, p = [], os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=<<(.*?)>> (.*)", l.strip())
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3)))
    return known

def main():
    import checks
    a = sys.argv[1:]; pid = a[0]
    tier = "quick"
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]; t0 = time.time()
    rdir = os.path.join(V, "replays", pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    ev = os.path.join(V, "evidence", pid + ".json"); os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev): os.unlink(ev)
    known = known_findings(pid); env = dict(os.environ)
    env["MC_KNOWN"] = "\n".join(k for k, _ in known)
    hits = os.path.join(rdir, "known-hits"); env["MC_KNOWN_HITS"] = hits
    env["LC_ALL"] = "C.UTF-8"; env.pop("PERL5LIB", None); env.pop("LINTEL_LOG_DEBUG", None)
    env["MC_SCRATCH"] = tempfile.mkdtemp(prefix="mcs%s." % pid, dir="/tmp"); atexit.register(shutil.rmtree, env["MC_SCRATCH"], True)
    viol, configs, errors = [], [], []
    jobs = str(min(8, max(2, os.cpu_count() or 2)))
    for part in spec["parts"]:
        out = os.path.join(rdir, part["name"] + ".json")
        try:
            if part["kind"] == "cpp":
                exe = build(part); env["MC_PROGRAM"] = os.environ.get("MC_PROGRAM", ""); cmd = [exe, "explore", tier, out, rdir, jobs]
            else:
                cmd = [c.replace("{V}", V).replace("{REPO}", REPO) for c in part["cmd"]] + [tier, out, rdir, jobs]
                env["MC_REPO"] = REPO
        except BuildError as e:
            print("BUILD ERROR in part %s: %s" % (part["name"], e)); errors.append("build"); continue
        tb = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=part.get("timeout", 780 if tier == "quick" else 6 * 3600))
        except subprocess.TimeoutExpired as e:
            print("part %s ran out of time" % part["name"]); errors.append("timeout"); continue
        for l in p.stdout.split("\n"):
            m = re.match(r"FOUND config=(\S+) key=(.*?) msg=(.*) replay=(\S+)$", l)
            if m: viol.append(m.groups())
            print(l[:1500])
        if os.path.exists(out):
            d = json.load(open(out, errors="replace"))
            for c in d["configs"]:
                c["part"] = part["name"]
                if c.get("violated") and not any(v[0] == c["name"] for v in viol): viol.append((c["name"], c.get("key", ""), c.get("msg", ""), os.path.join(rdir, c["name"] + ".replay")))
            configs += d["configs"]
        else: errors.append("no result from part " + part["name"])
        if p.returncode not in (0, 1) or (p.returncode == 1 and not viol): errors.append("part %s exit %d" % (part["name"], p.returncode))
    hitset = set(open(hits).read().split("\n")) if os.path.exists(hits) else set()
    for k, what in known: print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if k in hitset else " (not reproduced in this run)"))
    for cfg, key, msg, rp in viol: print("VIOLATION property=%s replay=%s" % (pid, rp))
    cov = dict(states=sum(c["states"] for c in configs), transitions=sum(c["transitions"] for c in configs),
               traces_validated_against_impl=sum(c["executions"] for c in configs),
               distinct_outcomes=sum(c["outcomes"] for c in configs), exhaustive=all(c["exhaustive"] for c in configs) and not errors,
               samples=[s for c in configs for s in c["samples"][-1:]][:40],
               configs=[{k: c[k] for k in c if k not in ("samples", "violated")} for c in configs],
               rule="each execution is one distinct choice sequence of a configuration, run on the code compiled from /repo and compared step by step with the reference; states are distinct reference-model states, outcomes distinct observations")
    json.dump(dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
                   assumptions=spec.get("assumptions", [])), open(ev, "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %.1fs, %d violation(s)%s" % (pid, tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], time.time() - t0, len(viol), " ERRORS " + str(errors) if errors else ""))
    if viol: return 1
    return 2 if errors else 0
if __name__ == "__main__": sys.exit(main())
