"""Shared frame of the checks: obligations, findings, evidence, verdict."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))

from extract import AnalysisBroken, Exhausted          # noqa: E402
from prog import Prog                       # noqa: E402
from terms import show                      # noqa: E402

FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known(pid):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("finding: "):
                parts = l[len("finding: "):].split(" ", 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == pid:
                    out.append((d["key"], parts[2] if len(parts) > 2 else ""))
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.prog = Prog()
        self.rules = {}
        self.items = []          # (verdict, rule, where, detail, key)
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.notes = []
        self.anchors = {}
        self._seen = set()
        self.count = {}          # (verdict, rule) -> instances decided

    # ---- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def _add(self, v, rule, where, detail="", key=None):
        k = (v, rule, where, detail)
        self.count[(v, rule)] = self.count.get((v, rule), 0) + 1
        if k in self._seen:
            return
        self._seen.add(k)
        self.items.append((v, rule, where, detail, key or "%s:%s" % (rule, where.split(" ")[0])))

    def ok(self, rule, where, detail=""):
        self._add("ok", rule, where, detail)

    def bad(self, rule, where, detail, key=None):
        self._add("bad", rule, where, detail, key)

    def und(self, rule, where, why=""):
        self._add("und", rule, where, why)

    def check(self, cond, rule, where, detail="", key=None):
        """cond True / False / None (undecided)"""
        if cond is True:
            self.ok(rule, where)
        elif cond is False:
            self.bad(rule, where, detail, key)
        else:
            self.und(rule, where, detail)

    def anchor(self, what, n):
        """number of instances found for a rule; none means the analysis no longer sees its subject"""
        self.anchors[what] = self.anchors.get(what, 0) + n

    def fn(self, f):
        self.functions.add(f.qn)

    def need(self, what, n, least=1):
        self.anchor(what, n)
        if n < least:
            raise AnalysisBroken("%s: %d instances, at least %d expected" % (what, n, least))


def finish(ctx, level, explanation, assumptions, wall, broken=None):
    pid = ctx.pid
    bad = [i for i in ctx.items if i[0] == "bad"]
    und = [i for i in ctx.items if i[0] == "und"]
    ok = [i for i in ctx.items if i[0] == "ok"]
    kn = known(pid)
    new, old = [], []
    for i in bad:
        m = [k for k in kn if k[0] == i[4]]
        (old if m else new).append((i, m[0] if m else None))
    ev = {
        "property": pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": sum(ctx.count.values()),
            "discharged": sum(n for (v, _), n in ctx.count.items() if v == "ok"),
            "undecided": sum(n for (v, _), n in ctx.count.items() if v == "und"),
            "violated": sum(n for (v, _), n in ctx.count.items() if v == "bad"),
            "functions_analysed": len(ctx.functions), "paths": ctx.paths, "calls_interpreted": ctx.calls,
            "anchors": ctx.anchors,
            "rules": {r: {"text": ctx.rules.get(r, ""), "instances": sum(n for (v, q), n in ctx.count.items() if q == r)}
                      for r in sorted({i[1] for i in ctx.items} | set(ctx.rules))},
            "samples": [{"verdict": v, "rule": r, "where": w, "detail": d[:400]} for v, r, w, d, _ in (bad + und + ok)[:60]],
            "functions": sorted(ctx.functions)[:200],
            "translation_units": sorted(ctx.prog.tus),
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if broken:
        ev["coverage"]["analysis_broken"] = broken
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for i, k in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k[1] or i[3], i[4]))
    for i in und:
        print("undecided: %s %s: %s" % (i[1], i[2], i[3][:200]))
    if new:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for i, _ in new:
                fh.write("rule %s: %s\n  at %s\n  %s\n  key %s\n\n" % (i[1], ctx.rules.get(i[1], ""), i[2], i[3], i[4]))
            fh.write("re-run: cd /verif && python3 checks/run.py %s\n" % pid)
        for i, _ in new[:20]:
            print("  [%s] %s: %s" % (i[1], i[2], i[3][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 2
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings; %d functions, %d paths, %.1fs" %
          (pid, sum(ctx.count.values()), ev["coverage"]["discharged"], len(und), len(old), len(ctx.functions), ctx.paths, wall))
    return 0


def main(pid, tier):
    import importlib
    t = time.time()
    try:
        ctx = Ctx(pid, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    m = importlib.import_module(pid.lower())
    if tier == "thorough":          # the analysis is the same; it gives up later
        import absint
        absint.MAXPATHS *= 10
    broken = None
    try:
        m.run(ctx)
    except Exhausted as e:
        print("analysis exhausted: %s" % e)
        ctx.rule("analysis", "the analysis follows every construct it meets")
        ctx.und("analysis", pid, str(e))
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        # a construct the analysis cannot follow: what was decided before stands, the rest is undecided
        tb = traceback.format_exc()
        print(tb)
        ctx.rule("analysis", "the analysis follows every construct it meets")
        ctx.und("analysis", pid, tb[-1500:])
    return finish(ctx, getattr(m, "LEVEL", "other"), m.EXPLANATION, m.ASSUMPTIONS, time.time() - t, broken)
