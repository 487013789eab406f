"""P16: which measurements are added up and which are maximised by the backend."""
from payload import *

EXPLANATION = (
    "The function that writes a batch is interpreted abstractly. In the loop over the measurements the number appended right before the value is the "
    "operation; on every path it is compared with the operation the specification gives for the statistic tags that the path's own comparisons leave "
    "possible (interned strings compared by reference are resolved to their text). Paths whose remaining statistics would need different operations are "
    "violations.")
ASSUMPTIONS = ["interned strings compare equal exactly when their texts are equal (P08)", "Tags::at gives the value of a key, or an empty reference (P09)"]
RULES = {
    "op": "the operation sent is 0 for the statistics count, totalAmount, totalTime, totalOfSquares and percentile, and 10 for any other or none",
    "own": "the statistic looked at is the one of the measurement that is sent",
}
ADD = {"count", "totalAmount", "totalTime", "totalOfSquares", "percentile"}


def stat_of(t):
    """(the tags, the key) of a lookup in a tag set"""
    if t[0] == 'call' and last(t[1]) == 'at' and 'Tags' in str(t[1]) and len(t) >= 4:
        k = t[3]
        while k[0] == 'agg' and len(k[2]) == 1:
            k = k[2][0][1]
        return t[2], (k[1][1] if k[0] == 'intern' and k[1][0] == 's' else None)
    return None


def outcome(I, st, conds, lid):
    """(texts the statistic may be: ('only', set) or ('not', set), tags terms, all understood?, is any other condition about it?)"""
    only, nots, tags, clear = None, set(), set(), True
    for t, v in conds:
        y = t
        while y[0] == 'not':
            y, v = y[1], not v
        look = [x for x in subterms(y) if isinstance(x, tuple) and x and x[0] == 'call' and stat_of(x)]
        if not look:
            continue
        tg, key = stat_of(look[0])
        tags.add(tg)
        if key is not None and key != 'statistic':
            clear = 'wrong' if clear is True else clear
            continue
        if key is None:
            clear = False
            continue
        if y[0] == 'eq0' and len(lin_of(y[1])[1]) == 1 and lin_of(y[1])[0] == 0:
            # no statistic at all
            if v:
                only = {None} if only is None else only & {None}
            else:
                nots.add(None)
            continue
        if y[0] != 'eq0' or len(lin_of(y[1])[1]) != 2:
            clear = False
            continue
        other = [x for x in lin_of(y[1])[1] if x != look[0]]
        if len(other) != 1 or other[0][0] != 'intern' or other[0][1][0] != 's':
            clear = False
            continue
        s = other[0][1][1]
        if v:
            only = {s} if only is None else only & {s}
        else:
            nots.add(s)
    for e in after_loop(st, lid)[1:]:
        if e[0] == 'loop' and e[1] in I.loops:
            for x, _ in [(b, 0) for b in I.loops[e[1]]['backs']] + I.loops[e[1]]['exits']:
                if any(isinstance(y, tuple) and y and y[0] == 'call' and stat_of(y) for t, v in x.conds()[len(I.loops[e[1]]['head'].conds()):] for y in subterms(t)):
                    clear = False
    return only, nots, tags, clear


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    ws = writers(ctx.prog)
    ctx.need("functions that write a payload", len(ws), 1)
    n = 0
    for fn in ws:
        R = Run(ctx, fn)
        I = R.I
        for lid, L in I.loops.items():
            n0 = len(L['head'].conds())
            for b in L['backs']:
                its = [x for x in R.items(b, lid) if x[0] == 'out']
                # the value of a measurement, and what comes right before it
                for i, x in enumerate(its):
                    sc = R.schema(x[1]) if x[1] is not None else None
                    if not (sc and sc[0] == 'm' and sc[-1] == 'value' and len(sc) == 2):
                        continue
                    n += 1
                    path = " (path %s)" % [(show(t)[:90], v) for t, v in b.conds()[n0:]][-8:]
                    if i == 0 or its[i - 1][1] is None or not isc(its[i - 1][1]):
                        ctx.und("op", x[3], "the operation before the value is not a known number" + path)
                        continue
                    op = its[i - 1][1][1]
                    only, nots, tags, clear = outcome(I, b, b.conds()[n0:], lid)
                    if clear == 'wrong':
                        ctx.bad("op", x[3], "the operation depends on another tag than statistic" + path)
                        continue
                    if only is not None:
                        only -= nots
                        if not only:
                            continue
                        want = {0 if s in ADD else 10 for s in only}
                    else:
                        want = {10} | ({0} if ADD - nots else set())
                        if len(want) == 2:
                            ctx.check(False if clear and not hidden(b) else None, "op", x[3], "the statistics %s get the same operation (%d) as others" % (sorted(ADD - nots), op) + path)
                            continue
                    ctx.check(want == {op} if clear or want == {op} else None, "op", x[3], "operation %d instead of %s for statistic %s" % (op, sorted(want), sorted(map(str, only)) if only else "not in %s" % sorted(map(str, nots))) + path)
                    m = x[1]
                    for tg in tags:
                        ctx.check(True if tg[0] in ('init',) and tg[1] == m[1] and tg[2][-2:] == ('id', 'tags_') else None if tg[0] != 'init' else (tg[1] == m[1] or None) and None if tg[1] == m[1] else False,
                                  "own", x[3], "the statistic is taken from %s" % show(tg)[:80] + path)
    ctx.need("paths that send a measurement", n, 2)
