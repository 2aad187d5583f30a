"""Compile the checks against /repo's working tree (objects in /verif/build, keyed by content)."""
import os, hashlib, subprocess, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
class BuildError(Exception): pass

LIB = ["approx_config", "bravais", "bz", "bz_move", "bz_wedge", "comparisons", "debug", "hall_symbol", "hdf_interface",
       "neighbours", "pointgroup", "pointsymmetry", "polyhedron_faces", "process_id", "spg_database", "symmetry",
       "vertex_map_set"]

def sources():
    l = []
    for d, pats in ((os.path.join(REPO, "src"), ("*.hpp", "*.tpp", "*.cpp", "*.h")), (os.path.join(REPO, "lib", "tetgen"), ("*",)),
                    (os.path.join(VERIF, "shim", "highfive"), ("*",)), (HERE, ("*.hpp", "*.h")), (os.path.join(VERIF, "checks"), ("*.hpp",))):
        for p in pats: l += [f for f in glob.glob(os.path.join(d, p)) if os.path.isfile(f)]
    return sorted(l)

_tree = None
def treehash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for f in sources():
            h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
        _tree = h.hexdigest()
    return _tree

VERSION = '''#pragma once
#include <string>
namespace brille::version{
 static const std::string git_revision("0000000"), git_branch("verif"), build_datetime("now"), version_number("0.0.0"), build_hostname("localhost"), meta_version("0.0.0");
}
'''
def gen():
    d = os.path.join(OUT, "gen"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "version.hpp")
    if not os.path.exists(f): 
        t = f + f".{os.getpid()}"; open(t, "w").write(VERSION); os.replace(t, f)
    return d

VARIANTS = {
  "o1":   ["-O1", "-g0"],
  "o2":   ["-O2", "-g0"],
  "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
  "dpor": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-builtin"],
}
LINK = {"asan": ["-fsanitize=address,undefined"]}

def base_flags():
    return ["-std=c++17", "-fopenmp", "-w", "-DTETLIBRARY", "-D_USE_MATH_DEFINES", "-I" + os.path.join(VERIF, "shim"), "-I" + HERE,
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib", "tetgen"), "-I" + gen()]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[:6000])

def compile_one(src, variant, extra=()):
    flags = base_flags() + VARIANTS[variant] + list(extra)
    h = hashlib.sha256()
    h.update(treehash().encode()); h.update(repr(flags).encode()); h.update(open(src, "rb").read())
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    o = os.path.join(OUT, "obj", os.path.basename(src).replace(".", "_") + "-" + variant + "-" + h.hexdigest()[:20] + ".o")
    if not os.path.exists(o):
        t = f"{o}.{os.getpid()}.tmp"
        run(["g++"] + flags + ["-c", src, "-o", t]); os.replace(t, o)
    return o

def build(spec):
    gen(); treehash()
    variant = spec.get("variant", "o1")
    jobs = [(os.path.join(VERIF, s), variant, spec.get("flags", ())) for s in spec["src"]]
    lib = LIB if spec.get("lib") is True else spec.get("lib", [])
    for m in lib: 
        s = os.path.join(REPO, "src", m + ".cpp")
        if os.path.exists(s): jobs.append((s, spec.get("libvariant", variant), ()))
    if lib is LIB:   # further library sources that a change may have added
        skip = {"logger"}
        for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
            m = os.path.basename(s)[:-4]
            if m not in LIB and m not in skip: jobs.append((s, spec.get("libvariant", variant), ()))
    if spec.get("tetgen"):
        for s in ("tetgen.cxx", "predicates.cxx"):
            jobs.append((os.path.join(REPO, "lib", "tetgen", s), spec.get("tetvariant", "o1" if variant in ("asan", "dpor") else variant), ("-fno-strict-aliasing",) + (("-O0",) if s.startswith("pred") else ()) + (("-include", os.path.join(VERIF, "vf", "alloc.h")) if spec.get("tetvariant") == "dpor" else ())))
    for s in spec.get("plain", []): jobs.append((os.path.join(VERIF, s), "o1", ("-fno-sanitize=all", "-fno-builtin", "-O2")))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    h = hashlib.sha256("".join(objs).encode()).hexdigest()[:16]
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    exe = os.path.join(OUT, "bin", os.path.basename(spec["src"][0]).replace(".cpp", "") + "-" + variant + "-" + h)
    if not os.path.exists(exe):
        t = f"{exe}.{os.getpid()}.tmp"
        if variant == "dpor": link = ["-lpthread", "-ldl", "-Wl,--wrap=_Z14tetrahedralizeP14tetgenbehaviorP8tetgenioS2_S2_S2_"] + list(spec.get("link", []))
        else: link = ["-fopenmp"] + LINK.get(variant, []) + list(spec.get("link", []))
        run(["g++", "-o", t] + objs + link); os.replace(t, exe)
    return exe
