#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the edit lists in seed_bugs.py (against /repo's HEAD)."""
import os, subprocess, sys, tempfile, shutil, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed_bugs import BUGS, PRELUDE
OUT = os.path.join(os.path.dirname(HERE), "seeded")

DEMO = """#!/bin/bash
# exit 0: the property holds for the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -pthread -I src/cpp "$here/demo.cpp" -o "$tmp/demo" \\
   _build/src/cpp/libpolylogarithm_cpp.a _build/src/c/libpolylogarithm_c.a \\
   _build/src/fortran/libpolylogarithm_fortran.a -lgfortran -lquadmath -lm || exit 3
timeout 120 "$tmp/demo"
"""

def main(ids):
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s/ && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (tmp, tmp), shell=True)
            for f, old, new in b["edits"]:
                p = os.path.join(tmp, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %s: %d matches of %r" % (b["id"], f, s.count(old), old))
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=tmp, stdout=subprocess.PIPE, text=True, check=True).stdout
        finally:
            shutil.rmtree(tmp)
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(b.get("script", DEMO))
        for f, text in b.get("files", {}).items():
            open(os.path.join(d, f), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(PRELUDE + b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", b["id"])

main(sys.argv[1:])
