#!/usr/bin/env python3
"""mkseed.py <spec.py>: writes /verif/seeded/<id>/ from SEEDS = [(id, property, file, [(old, new)], needs, breaks, demo source)].
The patch is made from /repo's HEAD in a scratch directory; nothing in /repo changes."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Compiles and runs demo.cpp against the current tree: 0 when the property holds.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++17 -O1 -include array -I"$PWD/include" -I"$PWD/_build/libygopen.a.p" \\
\t"$here/demo.cpp" "$PWD/_build/libygopen.a" -lprotobuf-lite -lpthread -o "$out/demo"
"$out/demo"
"""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for sid, prop, edits, needs, breaks, src in ns["SEEDS"]:
        if only and sid not in only:
            continue
        d = os.path.join(ROOT, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as tmp:
            patch = ""
            byfile = {}
            for f, old, new in edits:
                byfile.setdefault(f, []).append((old, new))
            for f, prs in byfile.items():
                s = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
                n = s
                for old, new in prs:
                    if n.count(old) < 1:
                        sys.exit("%s: text not found in %s: %r" % (sid, f, old[:80]))
                    n = n.replace(old, new, 1)
                for side, c in (("a", s), ("b", n)):
                    p = os.path.join(tmp, side, f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "w").write(c)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, capture_output=True, text=True)
            patch = r.stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        sh = DEMO
        if isinstance(src, dict):                # a demonstration with a script of its own
            sh, src = src["sh"], src.get("cpp")
        if src:
            open(os.path.join(d, "demo.cpp"), "w").write(src.lstrip("\n"))
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(sh)
        os.chmod(p, 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(sid)


main()
