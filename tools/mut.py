#!/usr/bin/env python3
"""mut.py ID[,ID] FILE OLD NEW [check.py options]: runs checks against a scratch copy of /repo with OLD replaced by NEW.
   mut.py ID[,ID] --patch FILE: the same with a patch."""
import sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut_")
try:
    subprocess.run("git -C /repo ls-files -z | (cd /repo && tar c --null -T -) | tar x -C %s" % d, shell=True, check=True)
    if sys.argv[2] == "--patch":
        subprocess.run(["git", "init", "-q", d]); subprocess.run(["git", "-C", d, "apply", os.path.abspath(sys.argv[3])], check=True); rest = sys.argv[4:]
    else:
        f, old, new = os.path.join(d, sys.argv[2]), sys.argv[3].encode().decode("unicode_escape"), sys.argv[4].encode().decode("unicode_escape")
        s = open(f).read()
        if s.count(old) == 0: sys.exit("OLD not found")
        open(f, "w").write(s.replace(old, new, 1)); rest = sys.argv[5:]
    for i in ids:
        out = os.path.join(d, "out")
        r = subprocess.run([sys.executable, V + "/check.py", i] + (rest or ["quick"]), env=dict(os.environ, CLER_REPO=d, CLER_OUT=out), stdout=subprocess.PIPE, text=True)
        lines = r.stdout.strip().splitlines()
        print("%s -> %d  %s" % (i, r.returncode, " | ".join(l[:220] for l in (lines[:2] + lines[-1:]))))
finally:
    shutil.rmtree(d, ignore_errors=True)
