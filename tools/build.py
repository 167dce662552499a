#!/usr/bin/env python3
"""Builds the harness flavours from /repo's working tree.  Objects are cached under /verif/build by the hash of
everything that goes into them, so a changed source always gives a new object."""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

PROPS = ["props_arith", "props_bits", "props_conv", "props_state"]
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]
ASAN = ["-fsanitize=address"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]

CHECKED = ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]  # accesses beyond a vector's size but within its storage (the fuzz flavour: assertions only, for libFuzzer comes with vectors compiled without the annotations)

FILL = ["-ftrivial-auto-var-init=pattern"]  # what a function forgot to initialise is not zero by chance

# flavour: (compiler, flags for the library, flags for the harness, link flags, harness files)
FLAVOURS = {
    "asan": ("clang++", ["-O1"] + FILL + ASAN, ["-O1"] + ASAN, ASAN, PROPS + ["engine", "gen"]),
    "rel": ("g++", ["-O2", "-DNDEBUG"], ["-O1", "-DGIANT"], [], PROPS + ["engine", "gen"]),
    "ubsan": ("clang++", ["-O1"] + FILL + ASAN + UBSAN + CHECKED, ["-O1"] + ASAN + CHECKED, ASAN + UBSAN, PROPS + ["props_safety", "engine", "gen"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link"] + ASAN + UBSAN + CHECKED[:1], ["-O1"] + ASAN + CHECKED[:1], ["-fsanitize=fuzzer"] + ASAN + UBSAN,
             PROPS + ["props_safety", "fuzz", "gen"]),
    "fault": ("g++", ["-O1"], ["-O1"], [], ["props_fault", "engine", "gen"]),
    "effects": ("g++", ["-O2"], ["-O1"], ["-pthread"], PROPS + ["props_effects", "engine", "gen"]),
    "cost": ("g++", ["-O2", "-fno-tree-vectorize", "-fsanitize-coverage=trace-pc"], ["-O1"], [], ["props_cost", "engine", "gen"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"], ["-fsanitize=thread", "-pthread"], ["props_threads", "engine", "gen"]),
    "fault-cold": ("g++", ["-O1"], ["-O1", "-DCOLD"], [], ["props_fault", "engine", "gen"]),
    "stress": ("g++", ["-O2"], ["-O1", "-DSTRESS"], ["-pthread"], ["props_threads", "engine", "gen"]),
    "cov": ("clang++", ["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"], ["-O1"], ["-fprofile-instr-generate"], PROPS + ["engine", "gen"]),
}
# configurations compared with one another by C22
CONFIGS = {
    "gcc-O0": ("g++", ["-O0"]), "gcc-O2": ("g++", ["-O2"]), "gcc-O3-ndebug": ("g++", ["-O3", "-DNDEBUG"]),
    "clang-O0": ("clang++", ["-O0"]), "clang-O2": ("clang++", ["-O2"]), "clang-O3-ndebug": ("clang++", ["-O3", "-DNDEBUG"]),
    "gcc-Os-ndebug": ("g++", ["-Os", "-DNDEBUG"]), "gcc-O3-unsigned-char": ("g++", ["-O3", "-funsigned-char"]),
    "gcc-O2-pic-strict": ("g++", ["-O2", "-fPIC", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"]),
    "gcc-O2-filled": ("g++", ["-O2"] + FILL), # run with a filled heap as well
}
for k, (cc, fl) in CONFIGS.items():
    # the harness itself is always built the same way: only the library differs
    FLAVOURS["cfg-" + k] = ("g++", fl, ["-O1"], [], PROPS + ["engine", "gen"], cc)
FLAVOURS["cfg-preinit"] = ("g++", ["-O2"], ["-O1"], [], ["engine", "gen"] + PROPS + ["preinit"], "g++", "harness-first")


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_digest():
    files = []
    for d in ("src", "include"):
        for root, dirs, names in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            files += [os.path.join(root, n) for n in sorted(names) if n != "version.h"]
    parts = []
    for f in files:
        parts += [os.path.relpath(f, REPO), read(f)]
    return digest(parts)


_tool = {}


def tool_id(cc):
    if cc not in _tool:
        _tool[cc] = subprocess.run([cc, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _tool[cc]


def includes():
    return ["-I" + os.path.join(REPO, "include", "public"), "-I" + os.path.join(REPO, "include"), "-I" + H]


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout + r.stderr)


def compile_one(cc, flags, src, obj):
    if os.path.exists(obj):
        return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    run([cc] + COMMON + flags + includes() + ["-c", src, "-o", tmp])
    os.replace(tmp, obj)


def plan(flavour, rd):
    spec = FLAVOURS[flavour]
    cc, lib, har, link, files = spec[:5]
    libcc = spec[5] if len(spec) > 5 else cc
    hh = b"".join(read(p) for p in sorted(glob.glob(os.path.join(H, "*.h"))))
    jobs = []
    for s in repo_sources():
        jobs.append((libcc, lib, s, os.path.join(BUILD, "obj", digest([tool_id(libcc), rd, " ".join(lib), s]) + ".o")))
    nlib = len(jobs)
    pub = read(os.path.join(REPO, "include", "public", "bigintegercpp", "BigInteger.h")) + read(os.path.join(REPO, "include", "exceptions.h"))
    for f in files:
        p = os.path.join(H, f + ".cpp")
        jobs.append((cc, har, p, os.path.join(BUILD, "obj", digest([tool_id(cc), pub, hh, read(p), " ".join(har)]) + ".o")))
    if len(spec) > 6:
        jobs = jobs[nlib:] + jobs[:nlib]
    exe = os.path.join(BUILD, "bin", flavour + "-" + digest([j[3] for j in jobs] + link) + "/harness")
    return jobs, exe, [cc] + link


def build(flavours, workers=8):
    """Returns {flavour: path of the harness}."""
    rd = repo_digest()
    flavours = list(dict.fromkeys(flavours))
    plans = {f: plan(f, rd) for f in flavours}
    todo = {}
    for jobs, exe, _ in plans.values():
        if os.path.exists(exe):
            continue
        for j in jobs:
            todo[j[3]] = j
    with cf.ThreadPoolExecutor(workers) as ex:
        # biggest files first
        list(ex.map(lambda j: compile_one(*j), sorted(todo.values(), key=lambda j: -os.path.getsize(j[2]))))
        def lk(f):
            jobs, exe, link = plans[f]
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = exe + ".%d.tmp" % os.getpid()
                run(link + [j[3] for j in jobs] + ["-o", tmp, "-lgmpxx", "-lgmp", "-lpthread"])
                os.replace(tmp, exe)
        list(ex.map(lk, flavours))
    return {f: plans[f][1] for f in flavours}


PYBIND = "/opt/vp/venv/lib/python3.12/site-packages/pybind11/include"
PYFLAVOURS = {"py": ("g++", ["-O1"]), "py-asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]),
             "py-tsan": ("g++", ["-O1", "-fsanitize=thread"])}


def pybind_dir():
    import sysconfig
    for d in [PYBIND] + glob.glob("/opt/vp/venv/lib/python3*/site-packages/pybind11/include") + glob.glob("/usr/lib/python3/dist-packages/pybind11/include"):
        if os.path.isdir(d):
            return d
    return PYBIND


def build_py(flavour="py", workers=8):
    """Builds the Python module from /repo's sources; returns the directory to put on PYTHONPATH."""
    cc, flags = PYFLAVOURS[flavour]
    bdir = os.path.join(REPO, "bindings", "python")
    bsrc = sorted(glob.glob(os.path.join(bdir, "*.cpp")))
    bparts = [read(p) for p in sorted(glob.glob(os.path.join(bdir, "*.cpp")) + glob.glob(os.path.join(bdir, "*.h")))]
    rd = repo_digest()
    # the build writes version.h; where it is missing, python-bindings.cpp finds this one by the same relative path
    inc = os.path.join(BUILD, "pyinc", "a", "b")
    ver = os.path.join(BUILD, "pyinc", "include", "public", "bigintegercpp", "version.h")
    os.makedirs(inc, exist_ok=True)
    os.makedirs(os.path.dirname(ver), exist_ok=True)
    if not os.path.exists(ver):
        with open(ver, "w") as f:
            f.write('#pragma once\n\nstatic constexpr auto BIGINTEGERCPP_VERSION = "0.0.0";\n')
    fl = flags + ["-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-I" + pybind_dir(), "-I/usr/include/python3.12", "-I" + inc]
    jobs = [(cc, fl, s, os.path.join(BUILD, "obj", digest([tool_id(cc), rd, " ".join(fl), s] + bparts) + ".o")) for s in repo_sources() + bsrc]
    out = os.path.join(BUILD, "bin", flavour + "-" + digest([j[3] for j in jobs]))
    so = os.path.join(out, "pybiginteger.so")
    if not os.path.exists(so):
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda j: compile_one(*j), sorted(jobs, key=lambda j: "bindings" not in j[2])))
        os.makedirs(out, exist_ok=True)
        tmp = so + ".%d.tmp" % os.getpid()
        run([cc, "-shared"] + flags + [j[3] for j in jobs] + ["-o", tmp])
        os.replace(tmp, so)
    return out


if __name__ == "__main__":
    try:
        names = sys.argv[1:] or ["asan", "rel"]
        if names == ["all"]:
            names = list(FLAVOURS) + list(PYFLAVOURS)
        for f, p in build([n for n in names if n in FLAVOURS]).items():
            print(f, p)
        for n in names:
            if n in PYFLAVOURS:
                print(n, build_py(n))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
