"""P11: every kind of meter is measured, expired and counted."""
from common import *

EXPLANATION = (
    "The per-kind tables are taken from the fields of the registry's meter collection (every field whose type is an instantiation of the "
    "meter table, so a new kind is included by itself). size(), measure() and remove_expired() of the collection are abstractly interpreted "
    "with the tables' own methods opaque: every path must call the table method exactly once per kind and combine the results as specified. "
    "The tables' own counters are compared, over one iteration of the expiry loop, with what the iteration did.")
ASSUMPTIONS = ["the table container visits each element once per iteration (tsl::hopscotch_map)"]
RULES = {
    "size": "the size is the sum of the sizes of all kinds",
    "measure": "every kind appends its measurements to the one result, once",
    "expire": "every kind but age gauges is swept once per sweep",
    "totals": "the sweep returns the sums over all kinds of expired and of present meters",
    "tally": "a table's sweep counts each element once and each erased element once",
    "published": "the registry publishes and sweeps that collection",
}
COLL = 'spectator::detail::all_meters'
MAP = 'spectator::detail::meter_map'
AGE = 'spectator::AgeGauge'


def kinds(ctx):
    r = ctx.prog.record(COLL)
    out = {}
    for n, t in r.ft.items():
        if t.rec == MAP and t.ta and t.ta[0] is not None:
            out[n] = t.ta[0].rec
    ctx.need("meter kinds", len(out), 9)
    return out


def ismap(fn):
    return fn.rect is not None and fn.rect.rec == MAP


def per_kind(evs):
    d = {}
    for e in evs:
        if e[2] is not None and e[2][0] == 'addr' and e[2][2]:
            d.setdefault(e[2][2][-1], []).append(e)
        else:
            d.setdefault(None, []).append(e)
    return d


def coll_fn(ctx, name):
    return ctx.prog.one(COLL + "::" + name)


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    K = kinds(ctx)
    # ---- size
    fn = coll_fn(ctx, "size")
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Rec(ismap))
    for st, fl in res:
        if fl[0] != 'R':
            continue
        d = per_kind(ops(st, 'size'))
        if None in d or I.loops:
            ctx.und("size", w, "a table call on an object not understood")
            continue
        tot = Z
        for k in K:
            n = len(d.get(k, []))
            ctx.check(seen(n >= 1, st), "size", w + " " + k, "the size of %s is not counted (path %s)" % (K[k], pathstr(st)), key="size:" + k)
            if n:
                tot = add(tot, d[k][0][4])
        v = decast(fl[1])
        if all(k in d and len(d[k]) == 1 for k in K):
            ctx.check(True if v == tot else False if lin_of(v) is not None and set(lin_of(v)[1]) <= set(lin_of(tot)[1]) else None, "size", w,
                      "returns %s, specified the sum %s" % (show(v), show(tot)))
    # ---- measure
    fn = coll_fn(ctx, "measure")
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Rec(ismap))
    for st, fl in res:
        if fl[0] != 'R':
            continue
        d = per_kind(ops(st, 'measure'))
        if None in d or I.loops:
            ctx.und("measure", w, "a table call on an object not understood")
            continue
        dst = {e[3][0] for es in d.values() for e in es}
        for k in K:
            n = len(d.get(k, []))
            ctx.check(seen(n == 1, st), "measure", w + " " + k, "%s are reported %d times (path %s)" % (K[k], n, pathstr(st)), key="measure:" + k)
        ctx.check(len(dst) == 1, "measure", w, "kinds append to different results: %s" % [show(x) for x in dst])
    # ---- remove_expired
    fn = coll_fn(ctx, "remove_expired")
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Rec(ismap))
    for st, fl in res:
        if fl[0] != 'R':
            continue
        d = per_kind(ops(st, 'remove_expired'))
        z = per_kind(ops(st, 'size'))
        if None in d or None in z or I.loops:
            ctx.und("expire", w, "a table call on an object not understood")
            continue
        for k, T in K.items():
            n = len(d.get(k, []))
            if T == AGE:
                ctx.check(n == 0, "expire", w + " " + k, "age gauges are swept", key="expire:" + k)
            else:
                ctx.check(seen(n == 1, st), "expire", w + " " + k, "%s are swept %d times (path %s)" % (T, n, pathstr(st)), key="expire:" + k)
        if not all(len(d.get(k, [])) == (0 if K[k] == AGE else 1) for k in K):
            continue
        first, second = Z, Z
        for k, T in K.items():
            if T == AGE:
                if k in z:
                    second = add(second, z[k][0][4])
                continue
            r = d[k][0][4]
            lv = I.deref(r) if r[0] == 'addr' else None
            a, b = comp(I, st, r, 0), comp(I, st, r, 1)
            first, second = add(first, a), add(second, b)
        v = fl[1]
        got = parts(v)
        if got is None:
            ctx.und("totals", w, "result not understood: %s" % show(v))
            continue
        for g, want, what in ((got[0], first, "expired"), (got[1], second, "present")):
            ctx.check(True if norm(g) == norm(want) else False if is_sum(norm(g), [norm(want)], I) else None, "totals", w + " " + what,
                      "returns %s as the number of %s meters, specified %s" % (show(g), what, show(want)), key="totals:" + what)
        ctx.check(any(T == AGE and k in z for k, T in K.items()), "totals", w + " age gauges", "age gauges are not in the number of present meters")
    # ---- one table's tally
    for fn in ctx.prog.bodies(MAP + "::remove_expired"):
        el = fn.rect.ta[0].rec
        w = "meter_map<%s>::remove_expired (%s:%s)" % (el, fn.file, fn.line)
        I = Interp(ctx.prog, Rec(lambda f: f.name == 'Measure'))
        res = I.run(fn)
        ctx.fn(fn)
        ctx.paths += len(res)
        for st, fl in res:
            got = parts(fl[1]) if fl[0] == 'R' else None
            if got is None or len(I.loops) != 1:
                ctx.und("tally", w, "result not understood: %s" % (show(fl[1]) if fl[0] == 'R' else fl[0]))
                continue
            lid, L = next(iter(I.loops.items()))
            for what, g in (("expired", got[0]), ("present", got[1])):
                keys = [k for k in L['W'] if isinstance(k, tuple) and len(k) == 2 and L['head'].mem.get(k) == g]
                if not keys:
                    ctx.check(False if isc(g) else None, "tally", w + " " + what, "returns %s" % show(g))
                    continue
                k = keys[0]
                ctx.check(True if L['entry'].mem.get(k) == Z else False if isc(L['entry'].mem.get(k, ('?',))) else None, "tally", w + " " + what,
                          "the count starts at %s" % show(L['entry'].mem.get(k, ('?',))))
                for b in L['backs']:
                    ev = after_loop(b, lid)
                    erased = sum(1 for e in ev if e[0] in ('call', 'pcallee') and str(e[1]).endswith('::erase'))
                    d = sub(b.mem.get(k), g)
                    want = erased if what == "expired" else 1
                    ctx.check(d == c(want) if isc(d) else None, "tally", w + " " + what,
                              "the count of %s elements grows by %s in an iteration that %s (path %s)" % (
                                  what, show(d), "erases" if erased else "does not erase", pathstr(b)))
    # ---- the registry uses the collection
    for qn, m in (("spectator::Registry::Measurements", "measure"), ("spectator::Registry::remove_expired_meters", "remove_expired"), ("spectator::Registry::Size", "size")):
        fn = ctx.prog.one(qn)
        res, I = runfn(ctx, fn, Rec(lambda f: f.rect is not None and f.rect.rec == COLL))
        for st, fl in res:
            if fl[0] != 'R':
                continue
            es = ops(st, m)
            ctx.check(seen(len(es) == 1, st), "published", qn, "%s of the collection is called %d times (path %s)" % (m, len(es), pathstr(st)))
            if len(es) == 1 and m == "size":
                ctx.check(fl[1] == es[0][4] if fl[1][0] in ('ret', 'c', 'lin') else None, "published", qn, "returns %s" % show(fl[1]))


def comp(I, st, r, i):
    n = ('first', 'second')[i]
    return ('fld', r, (n,))


def parts(v):
    if v[0] == 'agg':
        d = {k[-1]: x for k, x in v[2]}
        if 'first' in d and 'second' in d:
            return d['first'], d['second']
    return None


def norm(t):
    return decast(t)


def is_sum(g, wants, I):
    l = lin_of(g)
    if l is None:
        return False
    w = set()
    for x in wants:
        w |= set(lin_of(x)[1])
    return all(a in w or a[0] in ('fld', 'ret') for a in l[1])
