#!/usr/bin/env python3
"""each fix: commit of /repo undone in a scratch copy; the check of its property must report it"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
fx = {}
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(P\d+) ([0-9a-f]+) ", l)
    if m:
        fx.setdefault(m.group(2), []).append(m.group(1))


def one(c):
    d = tempfile.mkdtemp(prefix="revert.")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        p = subprocess.run("git -C /repo show --format= %s | patch -R -p1 -F3 -d %s" % (c, d), shell=True, capture_output=True, text=True)
        if p.returncode:
            return c, "does not revert on its own: " + p.stdout.strip().replace("\n", " ")[:150]
        r = []
        for i in fx[c]:
            x = subprocess.run([sys.executable, V + "/checks/run.py", i], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
            r.append("%s exit %d" % (i, x.returncode))
        return c, ", ".join(r)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for c, t in ex.map(one, [c for c in fx if not sys.argv[1:] or c in sys.argv[1:]]):
        print(c, t, flush=True)
