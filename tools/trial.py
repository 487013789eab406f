#!/usr/bin/env python3
"""development aid: apply textual edits to scratch copies of /repo and run checks on them.
trial.py FILE.json [-j N] [-k SUBSTR]   entries: {"name","file","old","new","checks":[...],"expect":"bad"|"quiet"[, "edits":[[file,old,new],...]]}"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(m):
    d = tempfile.mkdtemp(prefix="trial.")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        edits = [[m["file"], m["old"], m["new"]]] if "old" in m and [m["file"], m["old"], m["new"]] not in (m.get("edits") or []) else []
        edits += [e if len(e) == 3 else [m["file"]] + e for e in m.get("edits") or []]
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return m, "BADEDIT", "%s: %r not found" % (f, a)
            open(p, "w").write(s.replace(a, b, 1) if not m.get("all") else s.replace(a, b))
        out = []
        verdict = []
        for c in m["checks"]:
            ev = tempfile.mkdtemp(prefix="ev.")
            r = subprocess.run([sys.executable, os.path.join(VERIF, "checks/run.py"), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev))
            shutil.rmtree(ev)
            verdict.append((c, r.returncode))
            out.append(r.stdout[-3000:] + r.stderr[-1500:])
        rcs = [x for _, x in verdict]
        if m.get("expect", "bad") == "bad":
            good = 1 in rcs
        else:
            good = all(x == 0 for x in rcs)
        return m, ("ok" if good else "MISS") + " " + str(verdict), "\n".join(out)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ms = json.load(open(sys.argv[1]))
    n = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 6
    if "-k" in sys.argv:
        k = sys.argv[sys.argv.index("-k") + 1]
        ms = [m for m in ms if k in m["name"]]
    with ThreadPoolExecutor(n) as ex:
        for m, v, o in ex.map(one, ms):
            print("%-40s %-6s %s" % (m["name"], m.get("expect", "bad"), v))
            if "-v" in sys.argv or not v.startswith("ok"):
                print("      " + o.replace("\n", "\n      ")[:1800])
            sys.stdout.flush()
