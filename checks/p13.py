"""P13: shared tables are only touched under their lock; the locks cannot deadlock."""
import re
from common import *
from locks import *

EXPLANATION = (
    "A lockset and lock-order analysis of every function body of the repository. Guarded state is what the source annotates with GUARDED_BY "
    "plus a fixed list (so that dropping the annotation does not drop the obligation). Each body is walked in evaluation order with the locks "
    "held (scoped guards, manual Lock/Unlock, guards handed out by repository functions); references, iterators and structured bindings stand "
    "for the location they name. What a function needs, acquires and blocks on is substituted into its callers; an access is safe when the "
    "lock of the same object is held on every path at the access or at every call that reaches it. Lambdas run where they are called: under "
    "the caller's locks when passed to an algorithm, under none when handed to another thread.")
ASSUMPTIONS = [
    "absl and std mutexes and guards behave as documented; std algorithms call their function arguments before returning",
    "objects are not shared with another thread before their constructor returns or after their destructor starts",
    "a function pointer can be any function of its type whose address is taken in the repository",
]
RULES = {
    "guarded": "every access to guarded state happens with its lock held",
    "order": "no two locks are taken in opposite orders",
    "reacquire": "a lock that is held is not taken again",
    "leave": "no function returns with a lock it took still held",
    "block": "nothing blocks while a lock is held (a condition variable may wait with its own)",
    "escape": "no reference, pointer or iterator into guarded state outlives the lock",
    "tasks": "what concurrently running tasks share is only changed under one common lock",
}
EXTRA = [
    ("spectator::detail::meter_map", "meters_", "meters_mutex_"),
    ("spectator::StringPool", "table_", "table_mutex_"),
    ("spectator::StringPool", "stats_", "table_mutex_"),
    ("spectatord::expiring_cache", "cache_", "cache_mutex_"),
    ("spectator::MonotonicSampled", "value_", "mutex_"),
    ("spectator::MonotonicSampled", "prev_value_", "mutex_"),
    ("spectator::MonotonicSampled", "ts_", "mutex_"),
    ("spectator::MonotonicSampled", "prev_ts_", "mutex_"),
]


def pnorm(s):
    return s.replace('(*)', '').replace('(&)', '').replace(' noexcept', '').replace(' ', '')


def nm(p):
    return ".".join(str(x) for x in p if not isinstance(x, int) and x not in ("this", "d"))


class Closure:
    """transitive facts, substituted into the caller's terms"""

    def __init__(self, L, ptrs):
        self.L, self.ptrs = L, ptrs
        self.memo = {}
        self.busy = set()
        self.odd = []

    def bind(self, callee, c, p, W):
        if c.get("lam") or p is None:
            return p
        return W.subst(p, c["b"])

    def of(self, fn):
        r = self.memo.get(fn.key)
        if r is not None:
            return r
        if fn.key in self.busy or fn.body is None:
            return ([], {}, {})
        self.busy.add(fn.key)
        S = self.L.summary(fn)
        W = Walk(self.L, S)
        need, acq, blk = [], {}, {}
        for lock, data, w, how, strict in S.need:
            need.append((lock, data, w, how, strict, ()))
        for p, cls, w, held, rec in S.acq:
            acq.setdefault((p, cls), w)
        for what, w, held, cv in S.blk:
            blk.setdefault(what, w)
        for callee, c, held, w in S.calls:
            if callee.body is None:
                continue
            n2, a2, b2 = self.of(callee)
            for lock, data, w2, how, strict, ch in n2:
                if "final" in ch:
                    continue            # reported where it was found
                q = self.bind(callee, c, lock, W)
                if c.get("defer"):
                    need.append((lock, data, w2, how, strict, ch + (w, "final")))
                    continue
                if q is not None and not strict and q in held and held[q].must:
                    continue
                if q is not None and S.fn.ctor and q[0] == "this":
                    continue
                d = self.bind(callee, c, data, W)
                if q is None:
                    # the object is not named in the caller: no lock of its kind is held there
                    if any(h.cls.split("::")[-1] == lock[-1] for h in held.values()):
                        self.odd.append((w, "%s is reached on an object that is not resolved, under a lock of its kind" % nm(data)))
                    else:
                        need.append((lock, data, w2, how, strict, ch + (w, "final")))
                elif len(ch) < 6:
                    need.append((q, d if d is not None else data, w2, how, strict, ch + (w,)))
            if c.get("defer"):
                continue
            for (p, cls), w2 in a2.items():
                q = self.bind(callee, c, p, W)
                acq.setdefault((q, cls), w2)
            for k, v in b2.items():
                blk.setdefault(k, v)
            for d, lam in (c.get("lb") or {}).items():
                self.lam(S, W, callee, c, held, d, lam, need, acq, blk)
        for ts, held, w in S.pcall:
            for t in self.ptrs.get(pnorm(ts), []):
                n2, a2, b2 = self.of(t)
                for (p, cls), w2 in a2.items():
                    acq.setdefault((p if p[0] == "g" else None, cls), w2)
                for k, v in b2.items():
                    blk.setdefault(k, v)
        self.busy.discard(fn.key)
        self.memo[fn.key] = (need, acq, blk)
        return self.memo[fn.key]

    def lam(self, S, W, callee, c, held, d, lam, need, acq, blk):
        """a lambda that the callee invokes: under the caller's locks and the callee's"""
        if lam.body is None:
            return
        n2, a2, b2 = self.of(lam)
        for dd, h, w in self.L.summary(callee).pinv:
            if dd != d:
                continue
            hh = {p for p, x in held.items() if x.must} | {W.subst(p, c["b"]) for p, x in h.items() if x.must}
            for lock, data, w2, how, strict, ch in n2:
                if strict or lock not in hh:
                    need.append((lock, data, w2, how, strict, ch + (w,)))
        for k, v in a2.items():
            acq.setdefault(k, v)
        for k, v in b2.items():
            blk.setdefault(k, v)


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    P = ctx.prog
    extra = list(EXTRA)
    L = Locks(P, extra)
    if any(r.qn == "spectator::Config" and "common_tags" in r.ft for r in P.records.values()):
        rr = P.record("spectator::Registry")
        cf = [n for n, t in rr.ft.items() if "spectator::Config" in t.s]
        ms = [n for n, t in rr.ft.items() if t.s.startswith("absl::Mutex") or t.s.startswith("std::shared_mutex")]
        m = "common_tags_mutex_" if "common_tags_mutex_" in rr.ft else ms[0] if len(ms) == 1 else "common_tags_mutex_"
        if cf:
            L.gb[("spectator::Config", "common_tags")] = "..%s@%s" % (m, cf[0])
    ctx.anchor("guarded fields", len(L.gb))
    ctx.need("guarded fields", len(L.gb), 4)
    fns = [f for f in P.bodies() if not f.dflt]
    for f in fns:
        L.summary(f)
        ctx.fn(f)
    callers, taken, ptrs = {}, set(), {}
    for f in fns:
        for callee, c, held, w in L.sums[f.key].calls:
            if callee.key != f.key:
                callers.setdefault(callee.key, set()).add(f.key)
        for root in (f.body, f.inits):
            for n in P.walk(root):
                if n.get("k") == "FnRef" and isinstance(n.get("fn"), int):
                    t = f.tu.fns[n["fn"]]
                    taken.add(t.key)
                elif n.get("k") == "Ref" and isinstance(n.get("fn"), int):
                    taken.add(f.tu.fns[n["fn"]].key)
                if n.get("k") in ("Cast", "Un", "FnRef") and "t" in n:
                    for x in P.walk(n):
                        if isinstance(x.get("fn"), int) and x.get("k") in ("FnRef", "Lam"):
                            ptrs.setdefault(pnorm(f.tu.types[n["t"]].s), []).append(f.tu.fns[x["fn"]])
    C = Closure(L, ptrs)
    tab = {}
    for (rec, f), m in L.gb.items():
        tab[(rec, f)] = [0, 0]
    nacc = 0
    reported = set()
    for f in fns:
        S = L.sums[f.key]
        nacc += S.naccess
        ctx.paths += 1
        ctx.calls += len(S.calls)
        here = "%s (%s:%s)" % (f.qn, f.file, f.line)
        for what, w in S.odd:
            ctx.und("guarded", w, what)
        if not (f.ctor and f.rect is not None and L.guardrec.get(f.rect.s)):
            ps = {}
            for p, h, w in S.leave:
                ps.setdefault(p, []).append((h, w))
            for p, xs in ps.items():
                if f.key in callers and len(xs) == S.exits and all(h.must for h, w in xs):
                    continue        # a function that hands the lock over: its callers are judged
                ctx.bad("leave", xs[0][1], "%s leaves with %s held (taken at %s)" % (f.qn, nm(p), xs[0][0].where))
        for p, cls, w, w0, must in S.reacq:
            ctx.bad("reacquire", w, "%s takes %s, which it holds since %s" % (f.qn, nm(p), w0))
        for data, w in S.esc:
            ctx.bad("escape", w, "%s returns a reference into %s, which it only reads under the lock it releases on return" % (f.qn, nm(data)))
        for base, name, w, w0 in S.lowrite:
            ctx.bad("tasks", w, "%s uses %s while a task started at %s may still change it" % (f.qn, name, w0))
        held_blk(ctx, C, S, f)
        tasks(ctx, L, C, S, f)
        # roots: nobody in the repository calls them, or they are handed out as addresses
        need, acq, blk = C.of(f)
        root = f.key not in callers or f.key in taken
        for lock, data, w, how, strict, ch in need:
            if not (strict or "final" in ch or root and not f.lam):
                continue            # judged in the callers
            k = (w, nm(data))
            if k in reported:
                continue
            reported.add(k)
            via = " (reached through %s)" % ", ".join(x for x in ch if x != "final") if ch else ""
            ctx.bad("guarded", w, "%s %s without %s held%s" % (nm(data), how, nm(lock) if lock else "its lock", via))
    for w, what in C.odd:
        ctx.und("guarded", w, what)
    ctx.anchor("accesses to guarded state", nacc)
    for (rec, f), m in sorted(L.gb.items()):
        if any(d.split(".")[-1] == f for w, d in reported):
            continue
        ctx.ok("guarded", "%s::%s" % (rec, f), "every access in the repository holds %s" % m.split("@")[0].lstrip("."))
    order(ctx, L, C, fns)
    ctx.ok("escape", "repository", "no function returns a reference, pointer or iterator into guarded state")
    ctx.ok("leave", "repository", "%d functions return with the locks they entered with" % len(fns))


def held_blk(ctx, C, S, f):
    for what, w, held, cv in S.blk:
        hs = [h for h in held.values()]
        if hs:
            ctx.bad("block", w, "%s %s while holding %s" % (f.qn, what, ", ".join(sorted(nm(p) for p in held))))
        else:
            ctx.ok("block", w, "%s %s with no other lock held" % (f.qn, what))
    for callee, c, held, w in S.calls:
        if not held or c.get("defer") or callee.body is None:
            continue
        n, a, b = C.of(callee)
        for what, w2 in b.items():
            ctx.bad("block", w, "%s calls %s, which %s (%s), while holding %s" % (
                f.qn, callee.qn, what, w2, ", ".join(sorted(nm(p) for p in held))))
    for ts, held, w in S.pcall:
        if not held:
            continue
        for t in C.ptrs.get(pnorm(ts), []):
            for what, w2 in C.of(t)[2].items():
                ctx.bad("block", w, "%s calls %s, which %s (%s), while holding %s" % (
                    f.qn, t.qn, what, w2, ", ".join(sorted(nm(p) for p in held))))


def order(ctx, L, C, fns):
    edges = {}     # (class held, class taken) -> (where, path held, path taken)
    for f in fns:
        S = L.sums[f.key]
        W = Walk(L, S)
        for p, cls, w, held, rec in S.acq:
            for q, h in held.items():
                if q != p:
                    edges.setdefault((h.cls, cls), (w, f, q, p))
        for callee, c, held, w in S.calls:
            if c.get("defer") or callee.body is None or not held:
                continue
            for (p, cls), w2 in C.of(callee)[1].items():
                t = p if c.get("lam") else (W.subst(p, c["b"]) if p is not None else None)
                for q, h in held.items():
                    if t is not None and q == t:
                        ctx.bad("reacquire", w, "%s holds %s and calls %s, which takes it again (%s)" % (f.qn, nm(q), callee.qn, w2))
                    else:
                        edges.setdefault((h.cls, cls), (w, f, q, t))
            for d, lam in (c.get("lb") or {}).items():
                for (p, cls), w2 in C.of(lam)[1].items():
                    for q, h in held.items():
                        if q == p:
                            ctx.bad("reacquire", w, "%s holds %s while the function it passes to %s takes it (%s)" % (f.qn, nm(q), callee.qn, w2))
                        else:
                            edges.setdefault((h.cls, cls), (w, f, q, p))
        for callee, c, held, w in S.calls:
            # what a callee holds while it invokes the function passed to it
            for d, lam in (c.get("lb") or {}).items():
                if callee.body is None:
                    continue
                for dd, h, w3 in L.summary(callee).pinv:
                    if dd != d:
                        continue
                    for (p, cls), w2 in C.of(lam)[1].items():
                        for q, x in h.items():
                            qq = W.subst(q, c["b"])
                            if qq is not None and qq == p:
                                ctx.bad("reacquire", w, "%s invokes its argument holding %s, which it takes again (%s)" % (callee.qn, nm(q), w2))
                            else:
                                edges.setdefault((x.cls, cls), (w, f, qq, p))
                    for what, w2 in C.of(lam)[2].items():
                        if h:
                            ctx.bad("block", w, "%s invokes its argument, which %s (%s), holding %s" % (
                                callee.qn, what, w2, ", ".join(sorted(nm(p) for p in h))))
        for ts, held, w in S.pcall:
            for t in C.ptrs.get(pnorm(ts), []):
                for (p, cls), w2 in C.of(t)[1].items():
                    for q, h in held.items():
                        edges.setdefault((h.cls, cls), (w, f, q, None))
    g = {}
    for (a, b) in edges:
        g.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in g.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    for (a, b), (w, f, q, p) in sorted(edges.items(), key=lambda x: str(x[0])):
        if a == b:
            ctx.und("order", w, "%s takes %s of one object while it holds that of another" % (f.qn, b))
        elif reach(b, a):
            back = [v for (x, y), v in edges.items() if x == b]
            ctx.bad("order", w, "%s takes %s while holding %s; the opposite order occurs at %s" % (f.qn, b, a, back[0][0]), key=w.split(":")[0] + a + b)
        else:
            ctx.ok("order", w, "%s before %s" % (a, b))
    ctx.anchor("nested acquisitions", len(edges))


def tasks(ctx, L, C, S, f):
    for lam, n, w, many, alias in S.pool:
        sub = L.summary(lam)
        names = {}
        for x in L.P.walk(n):
            if x.get("k") == "Lam":
                for c in x.get("caps") or []:
                    if c.get("ref") and "d" in c:
                        names[("d", c["d"])] = c.get("n")
        if not many:
            continue
        for base, name in sorted(names.items()):
            A = [a for a in sub.acc if a[0] == base]
            if not any(a[2] for a in A):
                continue
            common = None
            for a in A:
                hs = {p for p, h in a[3].items() if h.must}
                common = hs if common is None else common & hs
            shared = {p for p in common if p[0] == "this" or p[:2] in names}
            if shared:
                ctx.ok("tasks", w, "%s is only used under %s" % (name, ", ".join(sorted(names.get(p[:2], nm(p)) for p in shared))))
            else:
                bad = [a for a in A if not any(h.must for h in a[3].values())] or A
                ctx.bad("tasks", bad[0][4], "tasks running at the same time share %s and change it without a common lock" % name)
        # members of the object the tasks run on
        for fl, (w2, ty) in sorted(member_writes(L, lam, 0).items()):
            ctx.bad("tasks", w2, "tasks started at %s run at the same time and change member %s without a lock" % (w, fl))


def plain(P, t, depth=0):
    """a class without any synchronisation of its own"""
    for r in P.records.values():
        if r.qn == t.rec and r.ft:
            return depth < 4 and all(not any(w in T.s for w in ("atomic", "mutex", "condition_variable", "asio"))
                                     and (not T.repo or plain(P, T, depth + 1)) for T in r.ft.values())
    return False


def member_writes(L, fn, depth, seen=None):
    """non-atomic members of this that a function (or one it calls on this) changes with no lock held"""
    seen = set() if seen is None else seen
    if fn.key in seen or fn.body is None or depth > 4:
        return {}
    seen.add(fn.key)
    S = L.summary(fn)
    out = {}
    for base, p, write, held, w, what in S.acc:
        if base[0] == "this" and len(base) == 2 and len(p) == 2 and write and not any(h.must for h in held.values()):
            t = None
            for r in L.P.records.values():
                if p[1] in r.ft and (fn.rect is None or fn.rect.lam or r.qn == fn.rect.rec):
                    t = r.ft[p[1]]
                    if fn.rect is not None and not fn.rect.lam:
                        break
            if t is None or "atomic" in t.s or "mutex" in t.s or "condition_variable" in t.s or t.k == "ptr" or t.repo and not plain(L.P, t) or "shared_ptr" in t.s:
                continue
            out.setdefault(p[1], (w, t.s))
    for callee, c, held, w in S.calls:
        if any(h.must for h in held.values()) or c.get("defer"):
            continue
        if c.get("lam") or (c.get("b") or {}).get(("this",)) == ("this",):
            for k, v in member_writes(L, callee, depth + 1, seen).items():
                out.setdefault(k, v)
    return out
