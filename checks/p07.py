"""P07: the work done for one line is bounded by its length."""
from sline import *
import p04

EXPLANATION = (
    "The loops of the text entries and line parsers are interpreted abstractly. Each loop needs a witness: a cursor in the text (or an index with a "
    "proved bound by the text's length) that every iteration moves strictly in one direction, or a constant number of iterations. A loop whose bound "
    "contains a number read from the line, or an iteration that moves nothing, is a violation. Functions of the program that the parsers reach "
    "(the meters' update methods, interning, registry lookups) are interpreted one by one: their loops must be bounded by the size of a container, by "
    "the length of a text or by a retry of a failed compare-and-swap, not by an amount passed to them.")
ASSUMPTIONS = ["cursors stay inside the text (P04)", "a compare-and-swap that fails spuriously or by contention is eventually successful",
               "library calls (strtod, strchr, hashing of the meter tables) do work bounded by the length of their text"]
RULES = {
    "progress": "every iteration of a loop moves its cursor or index strictly towards its bound",
    "bound": "no loop runs a number of times taken from a number in the line",
    "callee": "no loop of a function that a parser reaches runs a number of times taken from an amount passed to it",
}


def ivar(T):
    return T is not None and (T.k in ('int', 'ptr') or T.k == 'enum')


def numbers(t, amounts):
    """numbers of the line that a term depends on"""
    out = []
    for x in subterms(t):
        if isinstance(x, tuple) and x:
            if x[0] == 'parse' or x in amounts:
                out.append(x)
    return out


def lengthlike(t):
    for x in p04.atoms(t):
        if x[0] not in ('strlen', 'size', 'find', 'choff', 'numend', 'end', 'svn', 'lp', 'init', 'c', 'vecn'):
            return False
    return True


def judge(I, L, cl, good, amounts):
    """(verdict, rule, detail) for one loop"""
    head, W = L['head'], L['W']
    n0 = len(head.conds())
    if not L['backs']:
        return True, "progress", ""
    xs = []
    for k in W:
        if k[0] == 'ref':
            continue
        x = head.mem.get(k)
        if x is not None and x[0] == 'lp' and (ivar(I.loctype.get(k)) or I.loctype.get(k) is None):
            xs.append((x, k))
    best = (None, "progress", "no cursor or index is known to move in one direction")
    for x, k in xs:
        dirs = set()
        for b in L['backs']:
            v = decast(I.raw(b, k[0], k[1]))
            if v is None:
                dirs.add(None)
            elif I.truth(b, I.le(add(x, ONE), v)) is True:
                dirs.add(1)
            elif I.truth(b, I.le(add(v, ONE), x)) is True:
                dirs.add(-1)
            else:
                dirs.add(None)
        if len(dirs) != 1 or None in dirs:
            continue
        d = dirs.pop()
        if cl is not None and I.loctype.get(k) is not None and I.loctype[k].k == 'ptr' and cl.mine(x) or x in good:
            return True, "progress", "moves %s" % show(x)
        bs = []
        for b in L['backs']:
            g = [t for t, v in b.conds()[n0:] if v and t[0] == 'le0' and lin_of(t[1])[1].get(x, 0) * d > 0]
            g += [('le0', sub(ONE, t[1]) if False else scale(add(t[1], c(-1)), -1)) for t, v in b.conds()[n0:] if not v and t[0] == 'le0' and lin_of(t[1])[1].get(x, 0) * d < 0]
            g += [('le0', sub(t[1], ZERO)) for t, v in b.conds()[n0:] if not v and t[0] == 'eq0' and lin_of(t[1])[1].get(x, 0)]
            bs.append(g)
        if not all(bs):
            # a number compared in another way (floating point)
            for b in L['backs']:
                ns = [y for t, v in b.conds()[n0:] if x in subterms(t) for y in numbers(t, amounts)]
                if ns:
                    return False, "bound", "the number of iterations depends on %s" % show(ns[0])[:100]
            continue
        x0 = I.raw(L['entry'], k[0], k[1])
        ns = numbers(x0, amounts) if x0 is not None else []
        if ns:
            return False, "bound", "the number of iterations is taken from %s" % show(ns[0])[:100]
        rest = [[sub(t[1], scale(x, lin_of(t[1])[1][x])) for t in g] for g in bs]
        if all(any(isc(r) or lengthlike(r) and not numbers(r, amounts) for r in g) for g in rest):
            return True, "bound", "bounded by %s" % show(rest[0][0])[:80]
        ns = [y for g in rest for r in g for y in numbers(r, amounts)]
        if ns:
            if all(any(constlike(r) for r in g) for g in rest):
                return True, "bound", ""
            return False, "bound", "the number of iterations is taken from %s" % show(ns[0])[:100]
        best = (None, "bound", "bounded by %s" % show(rest[0][0])[:80])
    if best[0] is None and best[1] == "progress":
        fx = floats(I, L, amounts)
        if fx is not None:
            return fx
        if all(any(e[0] in ('acas', 'acasfail') for e in after_loop(b, L['id'])) for b in L['backs']):
            return True, "progress", "retry of a compare-and-swap"
        for b in L['backs']:
            ev = after_loop(b, L['id'])
            moved = [k for k in W if k[0] != 'ref' and I.raw(b, k[0], k[1]) != head.mem.get(k)]
            if not moved and not any(e[0] in ('op', 'call', 'pcall', 'line', 'acas', 'acasfail', 'aload', 'axchg', 'loop') for e in ev[1:]):
                return False, "progress", "an iteration changes nothing: it repeats for ever (path %s)" % pathstr(b, 6)
            if cl is not None and any(cl.mine(x) for x, k in xs) and not any(e[0] in ('pcall', 'loop') for e in ev[1:]):
                ys = [(x, I.raw(b, k[0], k[1])) for x, k in xs]
                if all(v is not None and v == x for x, v in ys) and not any(k[0][0] == 'mem' and cl.mine(I.addr(k[0], k[1])) for k in moved if len(k[1]) == 1 and isinstance(k[1][0], tuple)):
                    return False, "progress", "an iteration moves no cursor: it may repeat for ever (path %s)" % pathstr(b, 6)
    return best


ZERO = Z


def constlike(r):
    return isc(r)


def floats(I, L, amounts):
    """a loop over a floating point variable whose end is a number of the line"""
    n0 = len(L['head'].conds())
    for k in L['W']:
        if k[0] == 'ref':
            continue
        x = L['head'].mem.get(k)
        T = I.loctype.get(k)
        if x is None or x[0] != 'lp' or T is None or T.k != 'float':
            continue
        for b in L['backs']:
            for t, v in b.conds()[n0:]:
                if x in subterms(t):
                    ns = numbers(t, amounts) or (numbers(I.raw(L['entry'], k[0], k[1]) or Z, amounts))
                    if ns:
                        return False, "bound", "the number of iterations depends on %s" % show(ns[0])[:100]
    # an integer counted down from a number of the line
    for k in L['W']:
        if k[0] == 'ref':
            continue
        x, x0 = L['head'].mem.get(k), I.raw(L['entry'], k[0], k[1])
        if x is None or x[0] != 'lp' or x0 is None or not numbers(x0, amounts):
            continue
        if L['backs'] and all(any(x in subterms(t) for t, v in b.conds()[n0:]) for b in L['backs']):
            return False, "bound", "the number of iterations is taken from %s" % show(numbers(x0, amounts)[0])[:100]
    return None


def stable(where):
    return where


def shape(I, L, amounts):
    """how the number of the line enters the number of iterations"""
    n0 = len(L['head'].conds())
    out = set()
    ts = [I.raw(L['entry'], k[0], k[1]) for k in L['W'] if k[0] != 'ref']
    ts = [t for t in ts if t is not None]
    for b in L['backs']:
        for t in [t for t, v in b.conds()[n0:]] + ts:
            for x in subterms(t):
                if isinstance(x, tuple) and x and x[0] in ('lround', 'f2i', 'poly') and numbers(x, amounts):
                    p = poly_of(x[-1] if x[0] != 'poly' else x)
                    if p is not None and len(p) == 1:
                        (m, k), = p.items()
                        out.add("inverse" if len(m) == 1 and m[0][1] == -1 and m[0][0][0] == 'parse' and k == 1.0 else "other")
    return out.pop() if len(out) == 1 else "other"


def loops(ctx, I, cl, good, amounts, rule=None):
    worst = {}
    for lid, L in I.loops.items():
        L['id'] = lid
        v, r, d = judge(I, L, cl, good, amounts)
        k = (L['fn'].qn, L['loc'])
        o = worst.get(k)
        if o is None or (o[0] is True and v is not True) or (o[0] is None and v is False):
            us = sorted({e[1].qn for b in L['backs'] for e in after_loop(b, lid) if e[0] == 'op'})
            worst[k] = (v, r, d, "+".join(us) + ("" if v is not False or r != "bound" else ":" + shape(I, L, amounts)))
    return worst


def report(ctx, worst, rule=None, who=None):
    byfn = {}
    for (qn, loc), (v, r, d, u) in sorted(worst.items()):
        i = byfn[qn] = byfn.get(qn, 0) + 1
        ctx.check(v, rule or r, "%s loop %d (%s)" % (qn, i, loc), d, key="%s:%s:%s" % (rule or r, who or qn, u or "%s#%d" % (qn, i)))


def entry(ctx, fn, nonempty):
    base = ('init', ('p', fn.ps[0]["n"] or '0'), ())
    cl = Text(base, nonempty, bool(fn.pt[0].noref().to.const), False)
    I = Interp(ctx.prog, cl)
    res = I.run(fn, setup=cl.setup(I))
    ctx.fn(fn)
    ctx.paths += len(res)
    ctx.calls += I.ncalls
    cl.good = p04.settle_loops(I, cl)
    return loops(ctx, I, cl, cl.good, ()), {L['fn'].key for L in I.loops.values()} | {fn.key}, I


def reach(P, ent):
    out, work = {}, list(ent)
    while work:
        f = work.pop()
        f = f if f.body is not None else P.fns.get(f.key, f)
        if f.key in out:
            continue
        out[f.key] = f
        if f.body is None:
            continue
        for x in P.walk(f.body):
            if isinstance(x.get('fn'), int):
                work.append(f.tu.fns[x['fn']])
    return out


def hasloop(P, f):
    return any(x.get('k') in ('While', 'Do', 'For') for x in P.walk(f.body))


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    ent = text_entries(P)
    ctx.need("functions of the server that take one text", len(ent), 2)
    lf = {f.key for f in line_parsers(P, ent)}
    done = set()
    n = 0
    for fn in ent:
        worst = {}
        w, keys, I = entry(ctx, fn, fn.key in lf)
        for k, v in w.items():
            o = worst.get(k)
            if o is None or (o[0] is True and v[0] is not True) or (o[0] is None and v[0] is False):
                worst[k] = v
        done |= keys
        report(ctx, worst, None, fn.qn)
        n += len(worst)
    ctx.need("loops of the parsers", n, 3)
    n = 0
    for f in sorted(reach(P, ent).values(), key=lambda f: (str(f.file), f.line)):
        if f.body is None or f.key in done or f.lam or '/usr/' in str(f.file):
            continue
        n += 1
        if not hasloop(P, f):
            ctx.ok("callee", f.qn, "no loop")
            continue
        amounts = set()
        for p, T in zip(f.ps, f.pt):
            u = T.noref()
            if p["n"] and (u.k == 'float' or (u.k == 'int' and not (u.s.endswith('size_t') or u.s == 'unsigned long' and p["n"].lower().endswith(('len', 'size', 'length', 'hash')))) or (u.k == 'rec' and 'duration' in u.s)):
                amounts.add(('init', ('p', p["n"]), ()))
                if u.k == 'rec':
                    amounts |= {('init', ('p', p["n"]), (q,)) for q in ('#ns', '__r')}
        try:
            r, I = runfn(ctx, f, Rec(lambda g: False))
        except AnalysisBroken as e:
            ctx.und("callee", f.qn, str(e)[:100])
            continue
        report(ctx, loops(ctx, I, None, frozenset(), amounts), "callee")
    ctx.anchor("functions a parser reaches", n)
