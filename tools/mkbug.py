#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE OLD NEW NEEDS BREAKS [DEMO.c]  (authoring helper; not used by any check)
Creates seeded/ID from one textual substitution in /repo/FILE, in a scratch copy."""
import json, os, shutil, subprocess, sys
def make(id, prop, subs, needs, breaks, demo, extra=""):
    d = os.environ.get("SEED_DIR", "/verif/seeded") + "/" + id; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkbug_" + id
    subprocess.run(["rm", "-rf", w]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in subs:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaviour as promised; 1: broken
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$R/include -I$R/_build/dev-debug/include -I$R/src/internal -I$R/src/external/pffft -I$R"
gcc -O1 -w -std=gnu11 %s $I "$D/demo.c" $R/src/*/*.c $R/src/external/pffft/*.c -DPFFFT_SIMD_DISABLE=1 -o "$T/demo" -lm || exit 3
"$T/demo"
''' % extra)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", w])
