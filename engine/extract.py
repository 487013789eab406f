"""Builds the exporter if needed and exports the type-checked program of every
production translation unit of /repo's working tree (memoised by content)."""
import concurrent.futures as cf
import hashlib, json, os, pickle, time, re, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
EXP_SRC = os.path.join(VERIF, "exporter", "exporter.cc")
EXP_BIN = os.path.join(CACHE, "exporter")
SKIP_DIRS = {"_build", "bench", "tools", "test-resources", ".git", "docs", "sanitized"}
# test drivers that live next to the production sources
SKIP_FILES = {"spectator/http_server.cc", "spectator/test_utils.cc", "bin/test_main.cc"}


class AnalysisBroken(Exception):
    pass


class Exhausted(AnalysisBroken):
    """the analysis gives up on a function: undecided, unlike a subject that is not there"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def llvm_lib(name):
    for d in ("/usr/lib/llvm-18/lib", "/usr/lib/x86_64-linux-gnu"):
        p = os.path.join(d, name)
        if os.path.exists(p):
            return p
    raise AnalysisBroken("cannot find " + name)


def build_exporter():
    os.makedirs(CACHE, exist_ok=True)
    stamp = hashlib.sha256(open(EXP_SRC, "rb").read()).hexdigest()
    sfile = EXP_BIN + ".stamp"
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(EXP_BIN) and os.path.exists(sfile) and open(sfile).read() == stamp:
            return EXP_BIN
        flags = run(["llvm-config-18", "--cppflags"]).stdout.split()
        r = run(["clang++", "-O0", "-std=c++17", "-fno-rtti", *flags, EXP_SRC, "-o", EXP_BIN + ".tmp",
                 llvm_lib("libclang-cpp.so.18.1"), llvm_lib("libLLVM.so.18.1")])
        if r.returncode:
            raise AnalysisBroken("exporter does not build:\n" + r.stdout[-3000:])
        os.replace(EXP_BIN + ".tmp", EXP_BIN)
        open(sfile, "w").write(stamp)
    return EXP_BIN


def sources(repo):
    out, hdr = [], []
    for d, ds, fs in os.walk(repo):
        rel = os.path.relpath(d, repo)
        if rel == ".":
            ds[:] = [x for x in ds if x not in SKIP_DIRS and not x.startswith(".")]
        for f in fs:
            p = os.path.normpath(os.path.join(rel, f))
            if f.endswith((".cc", ".cpp", ".cxx")):
                if f.endswith("_test.cc") or p in SKIP_FILES:
                    continue
                out.append(p)
            elif f.endswith((".h", ".hpp", ".inc")):
                hdr.append(p)
    return sorted(out), sorted(hdr)


GEN = {"gen_perc_bucket_tags": "percentile_bucket_tags",
       "gen_perc_bucket_values": "percentile_bucket_values",
       "gen_valid_chars": "valid_chars"}


def gen_tables(repo, gen):
    """the three generated headers are part of the build's inputs: produce them
    with the repository's own generators, as its build does"""
    os.makedirs(gen, exist_ok=True)

    def one(tool):
        b = os.path.join(gen, tool)
        r = run(["g++", "-std=c++17", "-O0", os.path.join(repo, "tools", tool + ".cc"), "-o", b])
        if r.returncode:
            raise AnalysisBroken("generator %s does not build:\n%s" % (tool, r.stdout[-2000:]))
        o = os.path.join(gen, GEN[tool] + ".inc")
        r = run([b, o], timeout=60)
        if r.returncode or not os.path.exists(o):
            raise AnalysisBroken("generator %s failed" % tool)
        os.unlink(b)
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, GEN))


def flags(gen):
    return ["-std=c++17", "-DNDEBUG", "-DCURL_DISABLE_TYPECHECK", "-w", "-fsyntax-only",
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
            "-I" + gen, "-I" + os.path.join(VERIF, "stubs", "inc")]


def mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:
        return 0


def export_all(repo=None):
    # one export of a tree at a time: each runs a compiler front end per core
    os.makedirs(CACHE, exist_ok=True)
    which = hashlib.sha256(os.path.abspath(repo or REPO).encode()).hexdigest()[:8]
    with open(os.path.join(CACHE, "export-%s.lock" % which), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return export_one(repo)


def export_one(repo=None):
    repo = os.path.abspath(repo or REPO)
    exp = build_exporter()
    srcs, hdrs = sources(repo)
    if not srcs:
        raise AnalysisBroken("no sources under " + repo)
    h = hashlib.sha256()
    h.update(open(EXP_SRC, "rb").read())
    for d, _, fs in sorted(os.walk(os.path.join(VERIF, "stubs"))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(__file__, "rb").read())
    static = h.digest()
    for p in srcs + hdrs + ["tools/" + t + ".cc" for t in GEN]:
        h.update(p.encode() + b"\0" + open(os.path.join(repo, p), "rb").read())
    key = h.hexdigest()[:24]
    cfile = os.path.join(CACHE, "prog-%s.pickle" % key)
    if os.path.exists(cfile):
        try:
            return pickle.load(open(cfile, "rb"))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="vexp")
    try:
        gen = os.path.join(tmp, "gen")
        gen_tables(repo, gen)
        fl = flags(gen)
        hh = hashlib.sha256(static)
        for f in sorted(os.listdir(gen)):
            hh.update(open(os.path.join(gen, f), "rb").read())
        hh = hh.digest()
        txts = {p: open(os.path.join(repo, p), "rb").read() for p in hdrs}
        byname = {}
        for p in hdrs:
            byname.setdefault(os.path.basename(p), []).append(p)

        def closure(p, seen):
            # every repository header whose base name is included, transitively
            for m in re.findall(rb'include\s*[<"]([^>"]+)[>"]', txts.get(p) or open(os.path.join(repo, p), "rb").read()):
                for q in byname.get(os.path.basename(m.decode("latin1")), ()):
                    if q not in seen:
                        seen.add(q)
                        closure(q, seen)
            return seen

        def one(i_src):
            i, s = i_src
            o = os.path.join(tmp, "%d.json" % i)
            th = hashlib.sha256(hh + s.encode() + b"\0" + open(os.path.join(repo, s), "rb").read() +
                                b"".join(q.encode() + b"\0" + txts[q] for q in sorted(closure(s, set())))).hexdigest()[:24]
            tf = os.path.join(CACHE, "tu-%s.pickle" % th)
            if os.path.exists(tf):
                try:
                    os.utime(tf)
                    return s, pickle.load(open(tf, "rb"))
                except Exception:
                    pass
            r = run([exp, o, repo + "/:" + gen + "/", os.path.join(repo, s), "--", *fl])
            if r.returncode or not os.path.exists(o):
                raise AnalysisBroken("cannot parse %s:\n%s" % (s, r.stdout[-3000:]))
            # locations as if the tree were /repo
            txt = open(o).read().replace(json.dumps(repo + "/")[1:-1], "/repo/").replace(json.dumps(gen + "/")[1:-1], "/generated/")
            j = json.loads(txt)
            t = tf + ".%d" % os.getpid()
            pickle.dump(j, open(t, "wb"))
            os.replace(t, tf)
            return s, j
        # big translation units first
        big = sorted(enumerate(srcs), key=lambda x: -("admin" in x[1]) - ("spectatord" in x[1]) - ("registry" in x[1]) - ("http_client" in x[1]) - ("server" in x[1]))
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(one, big))
        tus = sorted(res)
        out = {"repo": "/repo", "gen": "/generated", "tus": tus}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    have = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
    olds = sorted((f for f in have if f.endswith(".pickle") and os.path.basename(f).startswith("prog-")), key=mtime)[:-12]
    olds += sorted((f for f in have if f.endswith(".pickle") and os.path.basename(f).startswith("tu-")), key=mtime)[:-400]
    # leftovers of runs that were stopped while writing
    olds += [f for f in have if (".pickle." in f or f.endswith(".lock")) and mtime(f) < time.time() - 3600 and not f.endswith("build.lock")]
    for f in olds:
        try:
            os.unlink(f)
        except OSError:
            pass
    t = cfile + ".%d" % os.getpid()
    pickle.dump(out, open(t, "wb"))
    os.replace(t, cfile)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    r = export_all(sys.argv[1] if len(sys.argv) > 1 else None)
    for s, j in r["tus"]:
        print(s, "funcs", len(j["funcs"]), "fns", len(j["fns"]), "types", len(j["types"]))
    print(time.time() - t)
