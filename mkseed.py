#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from a spec {id, property, needs, breaks, edits: [(file, old, new)], demo: C++ main} and checks that the
demonstration passes on /repo and fails with the change (in a scratch copy of /repo/src).  mkseed.py SPECFILE.py [id-regex]"""
import sys, os, re, json, subprocess, tempfile, shutil, difflib
HERE = os.path.dirname(os.path.abspath(__file__))
SH = r'''#!/bin/bash
# run in the repository root; compiles the demonstration against the sources there
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
V=/opt/ngs/6.2.2405; L=$V/lib/python3.12/site-packages/netgen_mesher.libs
D="HAVE_CXA_DEMANGLE HAVE_DLFCN_H HAVE_NETGEN_SOURCES LAPACK NETGEN_PYTHON NGS_PYTHON NG_MPI_WRAPPER NG_PYTHON NgsAMG_EXPORTS PARALLEL PYBIND11_SIMPLE_GIL_MANAGEMENT TCL USE_PARDISO USE_TIMEOFDAY _GLIBCXX_USE_CXX11_ABI=1 MIS_AGG SPW_AGG ELASTICITY STOKES_AMG NGS_COMPATIBILITY NDEBUG MAX_SYS_DIM=3"
I="base base/utils base/distributed base/mesh base/coarsening base/factory base/smoothers base/solve base/precond base/ngs_extension base/linalg base/python elasticity h1 stokes/common stokes/ncfes stokes/hdiv"
F=""; for x in $D; do F="$F -D$x"; done; for x in $I; do F="$F -Isrc/$x"; done
@CXX@ -O1 -w -std=c++17 $F -isystem /usr/include/python3.12 -isystem $V/include/netgen -isystem $V/include/netgen/include "$here/demo.cpp" -o "$d/demo" \
  @SO@-L$L -Wl,-rpath,$L:$V/lib:/opt/ngs/6.2.2405/lib -lngcomp -lngfem -lngla -lngbla -lngcore @END@ || exit 2
LD_LIBRARY_PATH=$V/lib:$L timeout 120 "$d/demo"
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
rx = sys.argv[2] if len(sys.argv) > 2 else ""
for s in spec["SEEDS"]:
    if not re.search(rx, s["id"]): continue
    out = f"{HERE}/seeded/{s['id']}"; os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(prefix="seed_")
    try:
        shutil.copytree("/repo/src", work + "/src")
        patch = ""
        for f in dict.fromkeys(e[0] for e in s["edits"]):
            p = f"{work}/{f}"; a = open(p, newline="").read(); b = a
            for (g, old, new) in s["edits"]:
                if g != f: continue
                if b.count(old) != 1: print(s["id"], "edit matches", b.count(old), "times in", f, repr(old[:60])); raise SystemExit(1)
                b = b.replace(old, new)
            open(p, "w", newline="").write(b)
            dl = []
            for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
                dl.append(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
            patch += f"diff --git a/{f} b/{f}\n" + "".join(dl)
        open(out + "/patch.diff", "w", newline="").write(patch)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], capture_output=True, text=True)
        if r.returncode: print(s["id"], "patch does not apply", r.stderr); continue
        open(out + "/demo.cpp", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write(SH.replace("@CXX@", "g++" if s.get("so") else "clang++-18").replace("@SO@", '"$PWD/_build/NgsAMG.so" -Wl,-rpath,"$PWD/_build" ' if s.get("so") else "")
            .replace("@END@", "-Wl,--no-as-needed -lpython3.12 -Wl,--allow-shlib-undefined" + ("" if s.get("so") else " -Wl,--unresolved-symbols=ignore-all")))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=work, capture_output=True, text=True)
        print(s["id"], "unchanged:", r0.returncode, "changed:", r1.returncode, "OK" if r0.returncode == 0 and r1.returncode not in (0, 2) else "BAD " + (r0.stdout + r0.stderr + r1.stderr)[-600:])
    finally: shutil.rmtree(work)
