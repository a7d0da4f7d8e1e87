#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads OLD/NEW pairs and texts from a python spec file; see usage below.
spec: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=text of demo.cpp or None, kind=real|complex, sh=optional demo.sh)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# compiles demo.cpp against the library built in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
k=%(kind)s
b=/repo/_build; [ $k = real ] && b=/repo/_build_real
def=-DHPGEM_USE_COMPLEX_PETSC; [ $k = real ] && def=-DHPGEM_USE_PETSC
p=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-$k; s=/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-$k
m=/usr/lib/x86_64-linux-gnu/openmpi
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMP_NUM_THREADS=1 TMPDIR=$d
g++ -std=gnu++17 -O1 -w $def -DHPGEM_USE_ANY_PETSC -DHPGEM_USE_SLEPC -DHPGEM_USE_MPI -DHPGEM_USE_METIS -DHPGEM_FORCE_ASSERTS \\
  -I/repo/kernel -I/repo/kernel/Geometry %(inc)s -isystem $m/include -isystem $m/include/openmpi -isystem $p/include -isystem $s/include \\
  "$here/demo.cpp" -o "$d/demo" %(lib)s $b/kernel/libHPGEM.a $b/kernel/libLogger.a $p/lib/libpetsc_$k.so $s/lib/libslepc_$k.so \\
  -lmetis -L$m/lib -lmpi_cxx -lmpi -llapack -lblas -lpthread -ldl || exit 3
cd "$d" && timeout 200 ./demo
'''
def make(id, prop, edits, needs, breaks, demo=None, kind="real", sh=None, inc="", lib=""):
    w = "/tmp/mkseed-" + id
    subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", w, "HEAD"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    if demo: open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or SH % dict(kind=kind, inc=inc, lib=lib)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    for f in sys.argv[1:]:
        g = {}; exec(open(f).read(), g)
        for s in g["SEEDS"]: make(**s); print(s["id"])
