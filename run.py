#!/usr/bin/env python3
"""Driver: run.py <property> <quick|thorough> | run.py --setup | run.py --replay FILE

Builds the checked sources from /repo's working tree together with the harness of one
property, runs the exploration and reports."""
import sys, os, subprocess, hashlib, json, time, shutil, glob, concurrent.futures, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
os.environ["MC_REPO"] = REPO
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
import checks as C

CFLAGS = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fexceptions", "-fasynchronous-unwind-tables",
          "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-ftrivial-auto-var-init=pattern", "-fPIC", "-w",
          "-DTRAX_BUILD_VERSION=\"mc\"", "-DTRAX_BUILD_DATE=\"mc\"", "-DTRAX_STATIC_DEFINE"]
HFLAGS = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-std=c++17", "-w", "-DTRAX_STATIC_DEFINE"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:24]

def readall(paths):
    out = []
    for p in sorted(paths):
        with open(p, "rb") as f: out.append(p.encode() + b"\0" + f.read())
    return b"".join(out)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stdout.write("build step failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[:8000]))
        raise SystemExit(2)
    return r.stdout

_hdr = {}
def headers():
    """content of every header in the repository (any of them may matter to any object)"""
    if "h" not in _hdr:
        fs = []
        for d in ("include", "src", "support"):
            for r, _, n in os.walk(os.path.join(REPO, d)):
                fs += [os.path.join(r, x) for x in n if x.endswith((".h", ".hpp", ".inc", ".inl"))]
        _hdr["h"] = readall(fs)
    return _hdr["h"]

def libheaders():
    return readall(glob.glob(HERE + "/lib/*.h*") + glob.glob(HERE + "/lib/mex/**/*.h*", recursive=True) + glob.glob(HERE + "/harness/*.h*"))

def obj(src, flags, deps, redef=None, cxx=None):
    """compile one file to a cached object"""
    cxx = cxx if cxx is not None else src.endswith((".cpp", ".cc"))
    with open(src, "rb") as f: body = f.read()
    key = sha(src, " ".join(flags), body, deps, "\n".join(redef or []))
    out = os.path.join(BUILD, "o", key + ".o")
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp.o" % os.getpid()
    run(["g++" if cxx else "gcc"] + flags + ["-c", src, "-o", tmp])
    if redef:
        run(["objcopy"] + sum([["--redefine-sym", r] for r in redef], []) + [tmp])
    os.rename(tmp, out)
    return out

ALLOC = ["%s=mc_%s" % (s, s) for s in "malloc calloc realloc free strdup strndup".split()]
IO = ["%s=mc_%s" % (s, s) for s in "read write recv send recvfrom sendto shutdown close listen setsockopt accept select socket connect".split()]

def build(prop, spec):
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/support/client/include", "-iquote" + REPO + "/support/client", "-iquote" + REPO + "/support/matlab",
           "-I" + REPO + "/support/opencv/include", "-I" + HERE + "/lib", "-I" + HERE + "/harness"]
    jobs = []
    redef = ["%s=%s" % kv for kv in dict(r.split("=") for r in ALLOC + IO + list(spec.get("redef", []))).items()]
    extra = list(spec.get("cflags", []))
    srcs = []
    for pat in spec.get("repo", ["src/*.c", "src/*.cpp"]):
        m = sorted(glob.glob(os.path.join(REPO, pat)))
        if not m:
            sys.stdout.write("no source matches %s\n" % pat); raise SystemExit(2)
        srcs += m
    hdr, lib = headers(), libheaders()
    inc_srcs = readall(p for p in [os.path.join(REPO, s) for s in spec.get("includes", [])] if os.path.exists(p))   # sources that a harness includes
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s in srcs:
            fl = [f for f in CFLAGS if f not in spec.get("drop", [])] + inc + extra + (["-std=gnu++14"] if s.endswith(".cpp") else [])
            jobs.append(ex.submit(obj, s, fl, hdr, redef))
        for s in ["lib/shim.cpp"] + ["harness/" + h for h in spec["harness"]]:
            jobs.append(ex.submit(obj, os.path.join(HERE, s), HFLAGS + inc + list(spec.get("hflags", [])), hdr + lib + inc_srcs, list(spec.get("hredef", [])) or None))
        objs = [j.result() for j in jobs]
    exe = os.path.join(BUILD, "x", prop + "-" + sha(*objs, " ".join(spec.get("libs", []))))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run(["g++", "-fsanitize=address", "-rdynamic", "-o", tmp] + objs + list(spec.get("libs", [])) + ["-lpthread", "-lm", "-ldl"])
        os.rename(tmp, exe)
    return exe

def check(prop, tier):
    spec = C.CHECKS[prop]
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if "runner" in spec:
        mod = importlib.import_module("harness." + spec["runner"])
        return mod.main(prop, tier, sys.modules[__name__], spec)
    exe = build(prop, spec)
    print("built in %.1f s" % (time.time() - t0)); sys.stdout.flush()
    args = [exe, "--tier", tier, "--evidence", HERE + "/evidence/%s.json" % prop, "--known", HERE + "/known_findings.txt",
            "--replaydir", HERE + "/replays", "--cap", "600" if tier == "quick" else "780"]
    os.makedirs(HERE + "/replays", exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="", MALLOC_PERTURB_="0")
    for k in list(env):
        if k.startswith("TRAX"): del env[k]
    r = subprocess.run(args + sys.argv[3:], env=env)
    return r.returncode

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # warm the object cache; every check rebuilds what it needs anyway
        for p, s in C.CHECKS.items():
            if "runner" not in s: build(p, s)
        return 0
    if a and a[0] == "--replay":
        lines = dict(l.split(" ", 1) for l in open(a[1]).read().split("\nreport")[0].split("\n") if " " in l)
        prop = lines["property"]
        if "runner" in C.CHECKS[prop]: return importlib.import_module("harness." + C.CHECKS[prop]["runner"]).replay(a[1], sys.modules[__name__], C.CHECKS[prop])
        exe = build(prop, C.CHECKS[prop])
        return subprocess.run([exe, "--tier", lines.get("tier", "quick"), "--replay", a[1]]).returncode
    prop, tier = a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    rc = check(prop, tier)
    return rc

if __name__ == "__main__":
    sys.exit(main())
