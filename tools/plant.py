#!/usr/bin/env python3
"""Plant a bug: plant.py SPECFILE  (a Python file defining id, property, needs, breaks, edits=[(file, old, new)], demo, lib=[...])
Applies it to /repo, builds, runs the stable tests, the demo and the check, undoes it, and keeps it in /verif/seeded/<id>."""
import sys, os, json, subprocess, shutil, stat
V="/verif"; R="/repo"
ns={}; exec(open(sys.argv[1]).read(), ns)
only_check = "--check" in sys.argv
d=f"{V}/seeded/{ns['id']}"; os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("repo not clean")
open(f"{d}/demo.cpp","w").write(ns["demo"])
SYM=["pointsymmetry","pointgroup","symmetry","spg_database","hall_symbol","bravais"]
ALL=["approx_config","bravais","bz","bz_move","bz_wedge","comparisons","debug","hall_symbol","hdf_interface","neighbours","pointgroup","pointsymmetry","polyhedron_faces","process_id","spg_database","symmetry","vertex_map_set"]
lib=ns.get("lib",["debug","process_id","comparisons"])
lib={"SYM":["debug","process_id","comparisons"]+SYM,"ALL":ALL}[lib] if isinstance(lib,str) else lib
tet=" lib/tetgen/tetgen.cxx lib/tetgen/predicates.cxx" if ns.get("tetgen", lib is ALL) else ""
shutil.copytree(f"{V}/shim/highfive", f"{d}/highfive", dirs_exist_ok=True)
open(f"{d}/version.hpp","w").write('#pragma once\n#include <string>\nnamespace brille::version{ static const std::string git_revision("0"), git_branch("b"), build_datetime("now"), version_number("0.0.0"), build_hostname("h"), meta_version("0.0.0"); }\n')
open(f"{d}/demo.sh","w").write(f'''#!/bin/bash
# run in the repository: builds and runs demo.cpp, which lies beside this file
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
P=""
for f in {' '.join('src/'+x+'.cpp' for x in lib)}{tet}; do g++ -std=c++17 -O1 -w -fopenmp -DTETLIBRARY {ns.get('flags','')} -I"$D" -Isrc -Ilib/tetgen -c "$f" -o "$T/$(basename "$f").o" & P="$P $!"; done
g++ -std=c++17 -O1 -w -fopenmp -DTETLIBRARY {ns.get('flags','')} -I"$D" -Isrc -Ilib/tetgen -c "$D/demo.cpp" -o "$T/demo.o" & P="$P $!"
for p in $P; do wait $p; done
g++ -fopenmp {ns.get('flags','')} "$T"/*.o -o "$T/demo"
cd "$T"
exec timeout 120 "$T/demo"
''')
os.chmod(f"{d}/demo.sh",0o755)
json.dump({"property":ns["property"],"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(f"{d}/meta.json","w"),indent=1)
r=subprocess.run(["bash",f"{d}/demo.sh"],cwd=R,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); ok=r.returncode==0
print("demo on unchanged:", r.returncode, r.stdout[-600:] if not ok else "")
if not ok: sys.exit(1)
try:
    for f,a,b in ns["edits"]:
        p=f"{R}/{f}"; s=open(p).read()
        if s.count(a)!=1: raise SystemExit(f"{f}: {s.count(a)} occurrences of {a!r}")
        open(p,"w").write(s.replace(a,b))
    open(f"{d}/patch.diff","w").write(sh("git -C /repo diff").stdout)
    b=sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.json"); print("build+tests:", b.returncode, b.stdout.strip().splitlines()[-1])
    r=subprocess.run(["bash",f"{d}/demo.sh"],cwd=R,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); print("demo with the change:", r.returncode, r.stdout[-300:])
    for P in sys.argv[2:] or [ns["property"]]:
        c=sh(f"python3 {V}/run.py {P} quick"); print("check", P, c.returncode, "\n".join(c.stdout.strip().splitlines()[:4])[:600]); 
finally:
    sh("git -C /repo checkout -- .")
