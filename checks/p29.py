"""P29: the number of registered age gauges never exceeds its limit."""
from tables import *

EXPLANATION = (
    "Every method of the registry is interpreted abstractly with the hash tables opaque. On each path that inserts into the table of age gauges the path's conditions must "
    "imply that the size of that very table, taken in the insertion's critical section, is below the configured limit (or that the key was already there); a path that "
    "returns a gauge that is not in the table must have failed to find the identity and have found the table full.")
ASSUMPTIONS = ["size() of the table is its number of elements (tsl::hopscotch_map)", "P13: the table is only accessed under its mutex"]
RULES = {
    "limit": "an age gauge is registered only while fewer than the limit exist",
    "atomic": "the number is compared and the gauge registered in one critical section",
    "refuse": "an unregistered gauge is handed out only when the limit is reached and the identity is not registered",
}
REG = 'spectator::Registry'
AGE = 'spectator::AgeGauge'


def tables_below(P, T, depth=0):
    """[(path, is it of age gauges)]"""
    T = T.noref()
    out = []
    if T.k != 'rec' or depth > 4:
        return out
    s = T.s
    if T.rec and 'map' in T.rec and T.rec.startswith(('tsl::', 'std::', 'ska::', 'absl::')):
        return [((), 'AgeGauge' in s or any(hasattr(a, 's') and 'AgeGauge' in a.s for a in T.ta or ()))]
    r = rec_of(P, T)
    for n, F in (r.ft if r is not None else {}).items():
        out += [((n,) + p, a) for p, a in tables_below(P, F, depth + 1)]
    return out


def rec_of(P, T):
    if T.rec is None or not T.rec.startswith('spectator'):
        return None
    return P.records.get(T.s) or next((r for r in P.records.values() if r.qn == T.rec and not T.ta), None)


def islimit(x):
    return isinstance(x, tuple) and x and x[0] in ('init', 'fld') and x[2] and x[2][-1] == 'age_gauge_limit'


def bound(t, v, size):
    """k when the condition says size - limit + k <= 0 (or its negation); else (None, why)"""
    if t[0] == 'not':
        t, v = t[1], not v
    if t[0] not in ('le0', 'eq0') or lin_of(t[1]) is None:
        return None
    l = lin_of(decast(t[1]))
    if l is None:
        return None
    k, d = l
    if size not in d:
        return None
    rest = {x: q for x, q in d.items() if x != size}
    if t[0] == 'eq0':
        return ('odd', rest) if rest or not v else ('const', rest)
    if not v:
        k, d = 1 - k, {x: -q for x, q in d.items()}
        rest = {x: q for x, q in d.items() if x != size}
    if len(rest) == 1 and islimit(next(iter(rest))) and d[size] in (1, -1) and next(iter(rest.values())) == -d[size]:
        return ('below' if d[size] == 1 else 'full', k)
    if rest and all(x[0] in ('init', 'fld') or last(x[1]) == 'size' for x in rest):
        return ('other', " and ".join(".".join(map(str, x[2])) if x[0] in ('init', 'fld') else show(x) for x in list(rest)[:2]))
    return ('odd', rest) if rest else ('const', k)


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    fns = [f for f in P.fns.values() if f.body is not None and not f.lam and f.rect is not None and f.rect.rec == REG and not f.ctor and not f.dtor]
    ctx.need("registry methods", len(fns), 10)
    n = 0
    for fn in sorted(fns, key=lambda f: (f.file, f.line, f.key)):
        hands = fn.rt is not None and 'AgeGauge' in fn.rt.s and 'shared_ptr' in fn.rt.s
        if not hands and not mentions(P, fn):
            continue
        n += hands
        method(ctx, fn, hands)
    ctx.need("lookups of age gauges", n, 1)


def mentions(P, fn):
    """may the method reach an insertion into a table of age gauges?"""
    seen, todo = set(), [fn]
    while todo:
        f = todo.pop()
        if f.key in seen or f.body is None:
            continue
        seen.add(f.key)
        for x in P.walk(f.body):
            if isinstance(x.get('fn'), int):
                g = f.tu.fns[x['fn']]
                if g.name in INS + ('insert_or_assign', 'operator[]') and 'AgeGauge' in str(g.rect.s if g.rect is not None else ''):
                    return True
                if g.qn.startswith('spectator::'):
                    h = P.fns.get(g.key)
                    if h is not None:
                        todo.append(h)
    return False


def method(ctx, fn, hands):
    P = ctx.prog
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Rec(lambda f: False))
    T = P.record(REG)
    tabs = {('addr', ('this', REG), (n,) + p): a for n, F in T.ft.items() for p, a in tables_below(P, F)}
    ctx.anchor("tables of age gauges", sum(tabs.values()))
    if not any(tabs.values()):
        ctx.und("limit", w, "the table of age gauges is not recognised")
        return
    for st, fl in res:
        if fl[0] not in ('R', 'N'):
            continue
        acc = accesses(st)
        if nullelement(st, acc):
            continue
        p = " (path %s)" % pathstr(st, 4)
        conds = st.conds()
        hid = hidden(st)
        age = [a for a in acc if tabs.get(a.table) is True]
        szs = [a for a in acc if a.op == 'size']

        def sized(a_ins):
            """verdicts about the comparison that precedes an insertion"""
            got = []
            for z in szs:
                if z.ret is None or acc.index(z) > acc.index(a_ins):
                    continue
                forms = {z.ret, decast(z.ret)} | {x for t, v in conds for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'size' and len(x) > 1 and same_table(x[1], z.table)}
                for size in forms:
                    for t, v in conds:
                        b = bound(t, v, size)
                        if b is not None:
                            got.append((z, b))
            return got
        for a in acc:
            if a.op not in INS + ('insert_or_assign', 'operator[]'):
                continue
            if tabs.get(a.table) is None and 'AgeGauge' not in str(a.table):
                continue
            if tabs.get(a.table) is False:
                continue
            if any(present(st, acc, b) is True and b.key == a.key and (b.locks & a.locks) for b in age if b.op in ('find', 'contains', 'count')):
                ctx.ok("limit", a.where, "already there")
                continue
            g = [x for x in sized(a) if tabs.get(x[0].table) is True]
            wrong = [x for x in sized(a) if tabs.get(x[0].table) is not True]
            good = [x for x in g if x[1][0] == 'below' and x[1][1] == 1]
            if good:
                z = good[-1][0]
                between = [b for b in acc[acc.index(z):acc.index(a)] if b.op in INS + ('operator[]', 'insert_or_assign') and b.table == a.table]
                if between:
                    ctx.und("limit", a.where, "something else is inserted after the comparison" + p)
                else:
                    ctx.check(bool(z.locks & a.locks), "atomic", a.where, "the number of gauges is read at %s in a critical section of its own: others may register in between%s" % (z.where, p), key="atomic")
                    ctx.ok("limit", a.where, "")
            elif any(x[1][0] in ('below', 'full') for x in g):
                b = [x[1] for x in g if x[1][0] in ('below', 'full')][-1]
                ctx.bad("limit", a.where, "a gauge is registered when the number is %s the limit%s" % (
                    "at most %d below" % b[1] if b[0] == 'below' and b[1] > 1 else "up to %d above" % (1 - b[1]) if b[0] == 'below' else "at least", p), key="limit")
            elif any(x[1][0] in ('other', 'const') for x in g):
                b = [x[1] for x in g if x[1][0] in ('other', 'const')][-1]
                ctx.bad("limit", a.where, "the number of gauges is compared with %s, not the limit%s" % (b[1], p), key="limit:other")
            elif g:
                ctx.und("limit", a.where, "what the number of gauges is compared with is not known" + p)
            elif wrong:
                ctx.bad("limit", a.where, "the limit is compared with the size of another table%s" % p, key="limit:table")
            else:
                ctx.check(None if hid else False, "limit", a.where, "a gauge is registered without a look at how many there are" + p, key="limit:none")
        if not hands:
            continue
        # ---- the one returned
        v = fl[1]
        made = {e[3]: e for e in st.events() if e[0] == 'make' and len(e) > 4}
        ins = [a for a in age if a.op in INS and a.val is not None and (a.val == v or a.val[0] == 'agg' and any(x == v for _, x in a.val[2]))]
        if v in made and not ins:
            full = []
            for z in szs:
                forms = {z.ret, decast(z.ret)}
                for size in forms:
                    full += [(z, b) for b in [bound(t, vv, size) for t, vv in conds] if b is not None and tabs.get(z.table) is True]
            ok = any(b == ('full', 0) for z, b in full) or any(
                t[0] in ('eq0', 'le0') and vv and lin_of(t[1])[0] == 0 and len(lin_of(t[1])[1]) == 1 and islimit(next(iter(lin_of(t[1])[1]))) for t, vv in conds if t[0] in ('eq0', 'le0'))
            if ok:
                ctx.ok("refuse", w, "")
            elif any(b[0] in ('below', 'full') for z, b in full):
                b = [b for z, b in full if b[0] in ('below', 'full')][-1]
                ctx.bad("refuse", w, "a gauge is refused %s%s" % ("although fewer than the limit exist" if b[0] == 'below' or b[1] > 0 or b[1] < 0 else "", p), key="refuse")
            else:
                ctx.check(None if full or hid else False, "refuse", w, "an unregistered gauge is returned without regard to the limit" + p, key="refuse:none")
            miss = [a for a in age if a.op in ('find', 'contains', 'count') and present(st, acc, a) is False]
            there = [a for a in age if a.op in ('find', 'contains', 'count') and present(st, acc, a) is True]
            ctx.check(False if there and not miss else True if miss else None if hid or [a for a in age if a.op in ('find', 'contains', 'count')] else False, "refuse", w, "an unregistered gauge is returned without a look whether the identity is registered" + p, key="refuse:known")
        elif v is not None and v == Z:
            ctx.bad("refuse", w, "no gauge is returned" + p, key="refuse:null")


def same_table(t, table):
    return t == table or t[0] in ('init',) and table[0] == 'addr' and (t[1], t[2]) == (table[1], table[2])
