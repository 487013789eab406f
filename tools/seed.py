#!/usr/bin/env python3
"""create and confirm a planted change: seed.py SPEC.py [ID...]
SPEC.py defines SEEDS = [dict(id, property, edits=[[file, old, new]], demo="c++ source", srcs=[...], needs, breaks, [san], [ska], [libs], [checks])]"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
LIBS = "$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) -lfmt -lspdlog -lcurl -lz -lssl -lcrypto -lxxhash -lPocoNet -lPocoJSON -lPocoFoundation -lpthread"
SETS = {
    "meters": "spectator/common_refs.cc spectator/string_pool.cc spectator/counter.cc spectator/gauge.cc spectator/max_gauge.cc spectator/timer.cc spectator/dist_summary.cc spectator/monotonic_counter.cc spectator/monotonic_counter_uint.cc spectator/monotonic_sampled.cc util/logger.cc",
}
SETS["registry"] = SETS["meters"] + " spectator/registry.cc spectator/http_client.cc spectator/compressed_buffer.cc spectator/gzip.cc spectator/smile.cc spectator/strings.cc spectator/percentile_buckets.cc spectator/sample_config.cc metatron/metatron_sample.cc util/files.cc"
SETS["server"] = SETS["registry"] + " server/spectatord.cc server/proc_utils.cc server/udp_server.cc server/local_server.cc"
SETS["admin"] = SETS["registry"] + " admin/admin_server.cc"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def demo_sh(s):
    srcs = []
    for x in s["srcs"]:
        srcs += SETS.get(x, x).split()
    srcs = [x for x in srcs if os.path.exists("/repo/" + x)]
    return """#!/bin/bash
# exit 0 exactly if the property's instance shown by demo.cc holds; run in the repository after its build
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
mkdir "$out/inc" "$out/ska"
[ -f "$here/flat_hash_map.hpp" ] && cp "$here/flat_hash_map.hpp" "$out/ska/"
export FLAGS="-std=c++17 -w -g %s -I_build/gen -I$out/inc -I. %s" OUT="$out"
for f in "$here/demo.cc" %s; do echo "$f"; done | xargs -P8 -I{} sh -c 'g++ $FLAGS -c {} -o "$OUT/$(echo {} | tr / _).o"' || exit 2
g++ %s "$out"/*.o -o "$out/demo" %s || exit 2
cd "$out" && timeout 250 "$out/demo"
""" % (s.get("opt", "-O1"), s.get("san", ""), " ".join(srcs), s.get("san", ""), LIBS)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in g["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = os.path.join(V, "seeded", s["id"])
        if os.path.exists(os.path.join(d, "meta.json")) and not want:
            continue
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cc", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(demo_sh(s))
        os.chmod(d + "/demo.sh", 0o755)
        if s.get("ska"):
            shutil.copy(os.path.join(V, "stubs/ska/flat_hash_map.hpp"), d)
        log = []
        try:
            sh("bash /opt/vp/build.sh")
            r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
            for f, a, b in s["edits"]:
                t = open("/repo/" + f).read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open("/repo/" + f, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            sh("bash /opt/vp/test.sh /tmp/seed_tests.json")
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
            passed = set(json.load(open("/tmp/seed_tests.json"))["passed"])
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            r2 = sh("bash %s/demo.sh" % d, cwd="/repo") if s.get("race") else r1
            cr = {}
            for cn in s.get("checks", [s["property"]]):
                x = sh("python3 checks/run.py " + cn, cwd=V, env=dict(os.environ, VERIF_EVIDENCE="/tmp/seed_ev"))
                cr[cn] = x.returncode
            # which of the patched lines are the original's
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and r2.returncode not in (0, 2) and len(passed) >= 66 and not (base - passed)
        print("%-28s clean %d patched %d/%d tests %d %s  checks %s" % (s["id"], r0.returncode, r1.returncode, r2.returncode, len(passed), "OK" if good else "NOT GOOD", cr))
        if not good:
            print((r0.stdout + r0.stderr)[-1500:] if r0.returncode else "", (r1.stdout + r1.stderr)[-800:])
            shutil.rmtree(d)
        else:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sys.stdout.flush()


main()
