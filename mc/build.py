"""Content-hashed builds of /repo's working tree for the checkers.

Objects live in /verif/build/<flavour>/ (git-ignored).  An object is reused only when the compiler
command and the SHA-256 of every file it was compiled from (from the compiler's own dependency
output) are unchanged, so a check always runs the code that is in the working tree.
"""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8

CXX = "/usr/bin/clang++"
COMMON = ["-std=gnu++17", "-DNDEBUG", "-pipe", "-w"]
INC = ["-I" + REPO + "/src", "-I" + REPO + "/third_party", "-I" + VERIF + "/mc"]
FLAVOURS = {
    # value checks: same source, address sanitizer, library without exceptions as the real build does
    "asan": dict(cxx=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address"]),
    "fast": dict(cxx=["-O1", "-g1"], ld=[]),
    # schedules: code under test and harness report their memory accesses to mc/sim_race.cpp
    "sim": dict(cxx=["-O1", "-g1"], ld=["-rdynamic", "-ldl", "-Wl,--allow-multiple-definition"],
                icxx=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]),
    # the same with the whole library reporting its accesses
    "simlib": dict(cxx=["-O1", "-g1"], ld=["-rdynamic", "-ldl", "-Wl,--allow-multiple-definition"],
                icxx=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], libcxx=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]),
    # every source of the library, CUDA files included, on the emulated GPU (mc/cuemu.h); device code reports its accesses
    "cuda": dict(cxx=["-O1", "-g1"], ld=["-rdynamic", "-ldl"],
                 dcxx=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D__CUDACC__=1"]),
    "tsan": dict(cxx=["-O1", "-g1", "-fsanitize=thread"], ld=["-fsanitize=thread"]),
}
_hash_lock = threading.Lock()
_hash_cache = {}

def sha(path):
    with _hash_lock:
        if path in _hash_cache: return _hash_cache[path]
    try:
        with open(path, "rb") as f: h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock: _hash_cache[path] = h
    return h

class BuildError(Exception): pass

def compile_one(src, obj, cmd):
    meta = obj + ".json"
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    try:
        m = json.load(open(meta))
        if m["key"] == key and os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return m["objhash"]
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    text = open(dep).read().replace("\\\n", " ")
    deps = [d for d in text.split(":", 1)[1].split() if not d.startswith("/usr/")]
    os.unlink(dep)
    oh = hashlib.sha256(open(obj, "rb").read()).hexdigest()
    json.dump({"key": key, "objhash": oh, "deps": {d: sha(d) for d in deps}}, open(meta, "w"))
    return oh

def slow_o0(flags, src):
    # one file of ~1000 kernel instantiations takes 30 s to optimise under the sanitizer; it is compiled as is
    if src.endswith("OpElemWiseCpu.cpp") and "-fsanitize=address" in flags:
        return ["-O0" if f == "-O1" else f for f in flags]
    return flags

def lib_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        if "/Distributed" in d: continue
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)

def link(exe, objs, hashes, ldflags):
    meta = exe + ".json"
    key = hashlib.sha256(json.dumps([sorted(hashes), ldflags]).encode()).hexdigest()
    try:
        if json.load(open(meta))["key"] == key and os.path.exists(exe): return exe
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run([CXX, "-fuse-ld=lld", *ldflags, "-o", exe + ".tmp", *objs, *[f for f in ldflags if f.startswith("-l")]],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise BuildError("linking %s failed:\n%s" % (exe, r.stdout[-4000:]))
    os.replace(exe + ".tmp", exe)
    json.dump({"key": key}, open(meta, "w"))
    return exe

def build(name, harness, flavour="asan", lib=True, extra_repo=(), defines=(), ldflags=(), incs=(), extra_inc_first=(), overlay=()):
    """Compiles the harness files and (lib) the whole library; links build/<flavour>/bin/<name>."""
    fl = FLAVOURS[flavour]
    base = os.path.join(BUILD, flavour)
    jobs = []
    first = ["-I" + i for i in extra_inc_first]
    if overlay:  # (repo header, stand-in) pairs
        y = os.path.join(base, "overlay_%s.yaml" % name)
        os.makedirs(base, exist_ok=True)
        text = json.dumps({"version": 0, "roots": [{"name": os.path.join(REPO, a), "type": "file", "external-contents": os.path.join(VERIF, b)} for a, b in overlay]})
        if not os.path.exists(y) or open(y).read() != text: open(y, "w").write(text)
        first += ["-ivfsoverlay", y]
    if lib:
        for s in lib_sources():
            o = os.path.join(base, "lib", os.path.relpath(s, REPO + "/src").replace("/", "__") + ".o")
            jobs.append((s, o, [CXX, *COMMON, *(slow_o0([*fl["cxx"], *fl.get("libcxx", [])], s)), "-fno-exceptions", *INC]))
    if flavour == "cuda":
        import cuda_src
        m = os.path.join(base, "src")
        plain, dev = cuda_src.mirror(REPO, m)
        INC_ = ["-I" + m + "/src", "-I" + VERIF + "/cuda", "-I" + REPO + "/third_party", "-I" + VERIF + "/mc"]
        for s in plain + dev:
            o = os.path.join(base, "lib", os.path.relpath(s, m + "/src").replace("/", "__") + ".o")
            jobs.append((s, o, [CXX, *COMMON, *fl["cxx"], *(fl["dcxx"] if s in dev else []), "-DUSE_CUDA", *defines, "-fno-exceptions", *INC_]))
    else: INC_ = INC
    for s in extra_repo if flavour == "cuda" else ():
        o = os.path.join(base, "x_" + name, s.replace("/", "__") + ".o")
        jobs.append((os.path.join(m, s), o, [CXX, *COMMON, *fl["cxx"], "-DUSE_CUDA", *defines, "-fno-exceptions", *INC_]))
    for s in extra_repo if flavour != "cuda" else ():
        o = os.path.join(base, "x_" + name, s.replace("/", "__") + ".o")
        jobs.append((os.path.join(REPO, s), o, [CXX, *COMMON, *fl["cxx"], *fl.get("icxx", []), *defines, *first, *INC, *["-I" + i for i in incs]]))
    for s in harness:
        o = os.path.join(base, "h_" + name, s.replace("/", "__") + ".o")
        inst = fl.get("icxx", []) if s.startswith("checks/") else []
        jobs.append((os.path.join(VERIF, s), o, [CXX, *COMMON, *fl["cxx"], *inst, *(["-DUSE_CUDA"] if flavour == "cuda" else []), *defines, *first, *INC_, *["-I" + i for i in incs]]))
    # harness first: they are the slow ones
    jobs.sort(key=lambda j: 0 if "/h_" in j[1] or "ElemWiseCpu" in j[1] or "Tensor.cpp" in j[1] or "Cuda" in j[1] else 1)
    with ThreadPoolExecutor(JOBS) as ex:
        hashes = list(ex.map(lambda j: compile_one(*j), jobs))
    os.makedirs(os.path.join(base, "bin"), exist_ok=True)
    order = [j[1] for j in jobs]
    # the first definition wins: instrumented objects before the others
    order.sort(key=lambda o: 0 if "/h_" in o and "__" in o and "checks__" in o else 1 if "/x_" in o else 2 if "/h_" in o else 3)
    return link(os.path.join(base, "bin", name), order, hashes, [*fl["ld"], *ldflags, "-lpthread"])
