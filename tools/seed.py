#!/usr/bin/env python3
"""seed.py ID PROP NEEDS BREAKS DEMO_CPP FILE OLD NEW [FILE OLD NEW ...]
Creates seeded/ID with patch.diff, meta.json, demo.cpp and a demo.sh compiling demo.cpp (first line '// flags: ...')."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(sid, prop, needs, breaks, demo, edits, flags="", sh=None, files=None):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C ${CLER_REPO:-/repo} archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (d, d), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        o = os.path.join(V, "seeded", sid); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        open(o + "/demo.cpp", "w").write(demo)
        for n, t in (files or {}).items(): open(o + "/" + n, "w").write(t)
        open(o + "/demo.sh", "w").write(sh or """#!/bin/bash
# exit 0 on the unchanged tree, non-zero with the patch
here="$(cd "$(dirname "$0")" && pwd)"; w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/include" -I"$PWD/desktop_blocks" "$here/demo.cpp" %s -o "$w/demo" -pthread || exit 3
cd "$w" && timeout 120 ./demo
""" % flags)
        os.chmod(o + "/demo.sh", 0o755)
        # local confirmation: demo on clean tree and on the patched one
        for f, old, new in edits: pass
        b = subprocess.run(["git", "-C", d, "stash", "-q"], check=True)
        a = subprocess.run(["bash", o + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.run(["git", "-C", d, "stash", "pop", "-q"], check=True)
        b = subprocess.run(["bash", o + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("%s: clean=%d patched=%d %s" % (sid, a.returncode, b.returncode, "OK" if a.returncode == 0 and b.returncode != 0 else "BAD\n" + a.stdout[-800:] + "\n--\n" + b.stdout[-800:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
