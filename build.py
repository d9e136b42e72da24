#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.

build.py GROUP...      groups: core ta planet epoch
Object files are cached under /verif/build by a hash of everything that went
into them (compiler, flags, preprocessed text), so an unchanged file is not
compiled twice and a changed one always is.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("KEP3_REPO", "/repo")
OUT = os.environ.get("KEP3SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
BASE = ["-std=c++20", "-O2", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-fno-pie", "-w"]
INST = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-mmemcpy-strategy=libcall:-1:noalign",
        "-mmemset-strategy=libcall:-1:noalign"]
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"

EXCLUDED = {"src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/udpla/vsop2013.cpp",
            "src/leg/sims_flanagan_hf.cpp", "src/stark_problem.cpp", "src/ta/stark.cpp", "src/ta/cr3bp.cpp",
            "src/core_astro/flyby.cpp", "src/epoch.cpp"}
RUNTIME = ["rt.cpp", "main.cpp", "kinds.cpp", "scen.cpp", "simdisk.cpp", "gen.cpp"]
# extra: sources of /repo which the ordinary build leaves out (heyoka is missing here)
GROUPS = {
    "core": dict(extra=[], inst=["core_ops.cpp", "core_objs.cpp", "core_leg.cpp"], plain=["core_gen.cpp", "prop_core.cpp"], inc=[],
                 repo=True),
    "ta": dict(extra=["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/stark_problem.cpp", "src/leg/sims_flanagan_hf.cpp", "src/epoch.cpp"],
               inst=["ta_ops.cpp"], plain=["heyoka_stub.cpp", "core_gen.cpp", "prop_ta.cpp"], inc=["stub"], repo=True),
    "planet": dict(extra=["src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/udpla/vsop2013.cpp", "src/epoch.cpp",
                          "src/core_astro/flyby.cpp"],
                   inst=["pl_ops.cpp"], plain=["heyoka_stub.cpp", "core_gen.cpp", "prop_planet.cpp"], inc=["stub"], repo=True),
    "epoch": dict(extra=["src/epoch.cpp"], inst=["epoch_ops.cpp"], plain=["prop_epoch.cpp"], inc=[], repo=False),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def repo_sources():
    """The library's source list, as /opt/vp/cmake/CMakeLists.txt reads it."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    txt = re.sub(r"(^|\n)[ \t]*#[^\n]*", r"\1", txt)
    m = re.search(r"set\(kep3_SRC_FILES([^)]*)\)", txt)
    return re.findall(r"src/[A-Za-z0-9_/.-]+\.cpp", m.group(1))


def config_hpp():
    d = os.path.join(OUT, "gen", "kep3")
    os.makedirs(d, exist_ok=True)
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    ver = re.search(r"project\(kep3 VERSION ([0-9.]+)", txt).group(1)
    parts = (ver.split(".") + ["0", "0", "0"])[:3]
    s = open(os.path.join(REPO, "config.hpp.in")).read()
    for k, v in {"kep3_VERSION": ver, "kep3_VERSION_MAJOR": parts[0], "kep3_VERSION_MINOR": parts[1],
                 "kep3_VERSION_PATCH": parts[2]}.items():
        s = s.replace("@%s@" % k, v)
    s = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", s)
    s = re.sub(r"@\w+@", "", s)
    f = os.path.join(d, "config.hpp")
    if not os.path.exists(f) or open(f).read() != s:
        open(f, "w").write(s)
    return os.path.join(OUT, "gen")


def compile_one(src, flags):
    cmd = [CXX] + BASE + flags
    pre = sh(cmd + ["-E", src])
    if pre.returncode != 0:
        return None, pre.stderr
    text = re.sub(r'^# \d+ "[^"]*".*$', "", pre.stdout, flags=re.M)
    h = hashlib.sha256((" ".join(cmd) + "\0" + src + "\0" + text).encode()).hexdigest()[:24]
    obj = os.path.join(OUT, "obj", "%s-%s.o" % (os.path.basename(src)[:-4], h))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            return None, r.stderr
        os.replace(tmp, obj)
    return obj, ""


def build(group):
    g = GROUPS[group]
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    gen = config_hpp()
    listed = repo_sources()
    srcs = [s for s in listed if s not in EXCLUDED] if g["repo"] else []
    rinc = ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + SIM]
    inc = ["-I" + os.path.join(SIM, i) for i in g["inc"]] + rinc
    jobs = [(os.path.join(REPO, s), INST + rinc) for s in srcs]
    jobs += [(os.path.join(REPO, s), INST + inc) for s in g["extra"]]
    jobs += [(os.path.join(SIM, s), INST + inc) for s in g["inst"]]
    jobs += [(os.path.join(SIM, s), inc) for s in g["plain"]]
    jobs += [(os.path.join(SIM, s), ["-I" + SIM]) for s in RUNTIME]
    errs = []
    objs = [None] * len(jobs)
    with cf.ThreadPoolExecutor(int(os.environ.get("KEP3SIM_JOBS", "8"))) as ex:
        futs = {ex.submit(compile_one, *j): i for i, j in enumerate(jobs)}
        for f in cf.as_completed(futs):
            o, e = f.result()
            if o is None:
                errs.append((jobs[futs[f]][0], e))
            objs[futs[f]] = o
    if errs:
        for s, e in errs:
            sys.stderr.write("build of %s failed:\n%s\n" % (s, e[:6000]))
        return None
    h = hashlib.sha256(("\0".join(objs)).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "kep3sim-%s-%s" % (group, h))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([CXX, "-no-pie", "-rdynamic", "-o", tmp] + objs + [WRAP, "-Wl,-z,now", "-lboost_serialization", "-lfmt", "-llapack", "-lblas",
                "-ldl", "-lpthread"])
        if r.returncode != 0:
            sys.stderr.write("link failed:\n" + r.stderr[:6000] + "\n")
            return None
        os.replace(tmp, exe)
    return exe


def main():
    ok = True
    for g in sys.argv[1:] or GROUPS:
        exe = build(g)
        print(g, exe)
        ok &= exe is not None
    return 0 if ok else 3


if __name__ == "__main__":
    sys.exit(main())
