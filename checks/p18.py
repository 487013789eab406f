"""P18: the payload's string table, indices and counts agree."""
from payload import *

EXPLANATION = (
    "The function that writes a batch is interpreted abstractly and turned into the sequence of what it appends, with each loop summarised by what it visits "
    "(a whole container, or a range of measurements) and by what every path of one iteration appends or inserts. From this the check compares: the set of "
    "strings put into the table (over all measurements and common tags) with the set of strings looked up; the numbering loop, the announced size and the "
    "listing loop of the table; and, for every path of one measurement, the announced number of tags as a symbolic sum with the pairs that follow, each "
    "made of the positions of a key and of its own value, then the operation and the measurement's value.")
ASSUMPTIONS = ["an unmodified hash table is always iterated in the same order", "the table's find returns the entry of the key it is given",
               "a tag set iterates over exactly its pairs (P09)"]
RULES = {
    "start": "the payload is started exactly once, before anything is appended",
    "table": "every string whose position is written is in the table: inserted for every measurement of the batch, every tag, or unconditionally",
    "numbering": "the table's entries are numbered 0, 1, 2 ... in iteration order, by one loop over all of it, after the last insertion",
    "listing": "the payload announces the table's size and then lists every string of it, in the same order",
    "batch": "the loops over measurements visit exactly the batch handed in",
    "count": "the announced number of tags is the number of pairs that follow",
    "pairs": "common tags, own tags and name follow, each exactly once and as position of the key, position of its own value",
    "value": "the operation and the measurement's own value end its record",
}


def keyof(s):
    """schema of a key -> (owner, 'key'|'value'|'name'...)"""
    return s


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    ws = writers(ctx.prog)
    ctx.need("functions that write a payload", len(ws), 1)
    for fn in ws:
        one(ctx, fn)


def one(ctx, fn):
    R = Run(ctx, fn)
    I, w = R.I, R.w
    normal = [(s, fl) for s, fl in R.res if fl[0] in ('R', 'N')]
    if len(normal) != 1:
        seqs = {repr(R.items(s)) for s, fl in normal}
        if len(seqs) != 1:
            ctx.und("start", w, "%d different ways to write a payload" % len(seqs))
    ctx.need("ways to write a payload", len(normal), 1)
    its_, i = [], 0
    for s, fl in normal:
        way(ctx, R, s)


def inner(R, items):
    """all items, loops opened: [(item, loops around it)]"""
    out = []

    def go(items, around):
        for x in items:
            if x[0] == 'loop':
                for b in R.bodies(x[1]):
                    go(b, around + (x[1],))
            else:
                out.append((x, around))
    go(items, ())
    return out


def skipped(R, lid, k):
    """False when an iteration without the insertion is taken for a reason that has nothing to do with the table"""
    L = R.I.loops[lid]
    b = L['backs'][k]
    cs = b.conds()[len(L['head'].conds()):]
    odd = any(e[0] in ('pcall', 'call') and not str(e[1]).startswith(('std::', 'spectator::intern')) for e in after_loop(b, lid)[1:])
    for t, v in cs[1:]:
        if any(isinstance(z, tuple) and z and z[0] in ('hv', 'sym', 'ret', 'call') for z in subterms(t)):
            odd = True
    return False if len(cs) > 1 and not odd else None


def way(ctx, R, s):
    I, w = R.I, R.w
    items = R.items(s)
    if any(x[0][0] == 'unknown' for x in inner(R, items)):
        ctx.und("start", w, "calls through pointers")
    # --- start
    inits = [i for i, x in enumerate(items) if x[0] == 'pay' and x[1] == 'Init']
    outs = [i for i, x in enumerate(items) if x[0] == 'out' or x[0] == 'loop' and any(y[0][0] == 'out' for y in inner(R, [x]))]
    nested = [x for x, a in inner(R, items) if x[0] == 'pay' and x[1] == 'Init' and a]
    ctx.check(len(inits) == 1 and not nested and (not outs or inits[0] < outs[0]), "start", w, "%d times started%s" % (len(inits), ", after something was appended" if inits else ""))
    for x, a in inner(R, items):
        if x[0] == 'pay' and x[1] not in ('Init', 'Result'):
            ctx.und("start", x[2], "another way to append: %s" % x[1])
    # --- classify the loops
    numbering, listing, records = [], [], []
    for i, x in enumerate(items):
        if x[0] == 'out':
            records.append((i, x))
        elif x[0] == 'loop':
            if any(y[0][0] == 'out' for y in inner(R, [x])):
                records.append((i, x))
            if numbers(R, x[1]) is not None:
                numbering.append((i, x, numbers(R, x[1])))
    # --- insertion
    ins, lastins, loopbad = {}, -1, False
    for i, x in enumerate(items):
        for y, a in inner(R, [x]):
            if y[0] == 'del':
                ctx.bad("table", y[2], "entries are taken out of the table (%s)" % y[1])
            if y[0] != 'ins':
                continue
            lastins = max(lastins, i)
            sc = R.schema(y[1]) if y[1] is not None else None
            if sc is None:
                ctx.und("table", y[3], "a string of unknown origin is inserted")
                loopbad = True
                continue
            if isinstance(sc[0], tuple):
                continue
            covs = [R.cover(l) for l in a]
            ok = True
            for l, cv in zip(a, covs):
                allb = R.bodies(l)
                j = a.index(l)
                for b in allb:
                    if j == len(a) - 1:
                        has = any(z[0] == 'ins' and R.schema(z[1]) == sc for z in b)
                    else:
                        has = any(z[0] == 'loop' and z[1] == a[j + 1] for z in b) or any(z[0] == 'loop' and any(q[0][0] == 'ins' and R.schema(q[0][1]) == sc for q in inner(R, [z])) for z in b)
                    if not has:
                        ok = False if ok is False or skipped(R, l, allb.index(b)) is False else None
            d = ins.setdefault(sc, set())
            d.add((ok, tuple(covs)))
    # --- the records of the measurements
    head, lists, meas = [], [], []
    for i, x in records:
        if x[0] == 'out':
            head.append((i, x))
        else:
            cv = R.cover(x[1])
            bs = R.bodies(x[1])
            if any(len([z for z in b if z[0] == 'out']) > 1 or any(z[0] == 'loop' for z in b) for b in bs):
                meas.append((i, x, cv, bs))
            else:
                lists.append((i, x, cv, bs))
    # numbering
    if len(numbering) != 1:
        ctx.check(None, "numbering", w, "%d loops number the table" % len(numbering))
    else:
        i, x, (v, tab) = numbering[0]
        cv = R.cover(x[1])
        loc = I.loops[x[1]]['loc']
        good = v and (cv is not None and cv[0] == 'all')
        ctx.check(True if good else None if cv == '?' or v is None else False, "numbering", loc, "the entries are not numbered 0, 1, 2 ... over the whole table")
        ctx.check(i > lastins, "numbering", loc, "strings are inserted after the table is numbered")
        first = min([j for j, _ in records] or [1 << 30])
        used = [j for j, y in enumerate(items) for z, a in inner(R, [y]) if z[0] == 'out' and z[1] is not None and R.index(z[1], s)]
        if used and min(used) < i:
            ctx.bad("numbering", loc, "positions are written before they are given")
    # listing
    sizes = [(i, x) for i, x in head if x[1] is not None and tabsize(x[1])]
    if len(lists) != 1:
        ctx.check(None if any(y[2] == '?' for y in lists) or hidden(s) or not lists and any(y[0][0] == 'out' and y[0][1] is None for y in inner(R, items)) else False, "listing", w, "%d loops list strings" % len(lists))
    else:
        i, x, cv, bs = lists[0]
        loc = I.loops[x[1]]['loc']
        okv = True
        for b in bs:
            o = [z for z in b if z[0] == 'out']
            if len(o) != 1:
                okv = False
                continue
            sc = R.schema(o[0][1])
            if sc is None:
                okv = None
            elif not (isinstance(sc[0], tuple) and sc[0][-1] == 'data' and 'first' in sc[0]):
                okv = False
        ctx.check(True if okv and cv not in (None, '?') and cv[0] == 'all' else None if okv is None or cv == '?' else False, "listing", loc, "not every string of the table is listed exactly once")
        ctx.check(i > lastins, "listing", loc, "strings are inserted after the table is listed")
        bef = [y for j, y in head if j < i]
        v = False
        if len(bef) == 1 and bef[0][1] is not None:
            sz = tabsize(bef[0][1])
            v = True if sz == 0 else False if sz is not None or isc(bef[0][1]) else None
        if len(bef) != 1 and any(y[1] is None for y in bef):
            v = None
        ctx.check(v, "listing", loc, "what precedes the strings (%s) is not the table's size" % ", ".join(show(y[1])[:60] for y in bef if y[1] is not None))
        if meas:
            ctx.check(i < meas[0][0], "listing", loc, "the strings are listed after measurements")
    # measurements
    ps = [p["n"] for p, T in zip(R.fn.ps, R.fn.pt) if 'iterator' in T.s]
    want = ('range', ('init', ('p', ps[0]), ()), ('init', ('p', ps[1]), ())) if len(ps) == 2 else None
    if len(meas) != 1:
        ctx.und("batch", w, "%d loops write measurements" % len(meas))
        return
    i, x, cv, bs = meas[0]
    loc = I.loops[x[1]]['loc']
    if want is None:
        ctx.und("batch", loc, "the batch is not handed in as two positions")
    else:
        ctx.check(True if cv == want else None if cv == '?' else False, "batch", loc, "the measurements written are %s" % (cv if cv in (None, '?') else [show(q) for q in cv[1:]]))
    looked = {}
    for st in I.loops[x[1]]['backs']:
        record(ctx, R, st, x[1], looked)
    for sc, where in sorted(looked.items(), key=str):
        if sc is None:
            continue
        got = ins.get(sc)
        if got is None:
            ctx.check(None if loopbad or hidden(s) else False, "table", where, "the position of %s is written but this string is not put into the table" % ".".join(sc))
            continue
        ok = False
        for uncond, covs in got:
            if '?' in covs or None in covs:
                ok = ok or (None if '?' in covs else False)
            elif uncond and (sc[0] != 'm' or not covs or want is None or covs[0] == want):
                ok = True
            elif uncond is None:
                ok = ok or None
        ctx.check(ok, "table", where, "%s is not put into the table for every measurement of the batch or every tag" % ".".join(sc))


def tabsize(t):
    """difference of a term to the size of a table; None when it has nothing to do with one"""
    for x, q in lin_of(t)[1].items():
        if q == 1 and (x[0] == 'size' or x[0] == 'call' and last(x[1]) == 'size' and 'map' in str(x[1])):
            d = sub(t, x)
            return d[1] if isc(d) else None
    if t[0] == 'cast':
        return tabsize(t[3])
    return None


def numbers(R, lid):
    """(numbers ascend from 0 and go to each entry, ...) for a loop that stores numbers into table entries"""
    I, L = R.I, R.I.loops[lid]
    hit = None
    for b in L['backs']:
        st = [(k, v) for k, v in b.mem.items() if k in L['W'] or True]
        mine = None
        for (root, path), v in b.mem.items():
            if path and path[-1] == 'second' and any(isinstance(p, tuple) and p[0] == 'i' and any(y[0] == 'lp' and y[1] == lid for y in lin_of(p[1])[1]) for p in path):
                mine = (root, v)
        if mine is None:
            continue
        v = decast(mine[1])
        good = False if isc(v) else None
        for k in L['W']:
            if k[0] == 'ref':
                continue
            x = L['head'].mem.get(k)
            if x is None or x[0] != 'lp':
                continue
            d = sub(v, x)
            if isc(d) and lin_of(v)[1].get(x) == 1:
                step = I.raw(b, *k)
                x0 = I.raw(L['entry'], *k)
                if step is not None and x0 is not None and isc(sub(decast(step), x)) and isc(x0):
                    good = sub(decast(step), x) == ONE and add(x0, d) == Z
        hit = (good if hit is None else hit[0] and good, mine[0])
    return hit


def record(ctx, R, st, lid, looked):
    I = R.I
    L = I.loops[lid]
    its = [x for x in R.items(st, lid) if x[0] in ('out', 'loop', 'unknown')]
    n0 = len(L['head'].conds())
    path = " (path %s)" % [(show(t)[:70], v) for t, v in st.conds()[n0:]][-5:]
    loc = L['loc']
    if any(x[0] == 'unknown' for x in its):
        ctx.und("pairs", loc, "calls through pointers" + path)
        return
    flat = []            # ('one', term, where) | ('many', container, [index, ...], where)
    for x in its:
        if x[0] == 'out':
            flat.append(('one', x[1], x[3]))
            continue
        bs = R.bodies(x[1])
        if not any(y[0][0] == 'out' for b in bs for y in inner(R, b)):
            continue
        cv = R.cover(x[1])
        lloc = I.loops[x[1]]['loc']
        if cv is None:
            ctx.bad("pairs", lloc, "the loop does not write every element" + path)
            return
        if cv == '?' or cv[0] != 'all':
            ctx.und("pairs", lloc, "what the loop visits is not known" + path)
            return
        seq = None
        for b, bst in zip(bs, I.loops[x[1]]['backs']):
            o = []
            for z in b:
                if z[0] == 'loop' and any(q[0][0] == 'out' for q in inner(R, [z])):
                    o.append(None)
                elif z[0] == 'out':
                    o.append((z[1], R.index(z[1], bst)))
            q = [y[1] if y is not None and y[1] is not None else ('elem',) if y is not None and elem(y[0], cv[1], x[1]) else None for y in o]
            if seq is not None and q != seq:
                ctx.und("pairs", lloc, "an iteration writes different things on different paths" + path) if None in q + seq else ctx.bad("pairs", lloc, "an iteration writes different things on different paths" + path)
                return
            seq = q
        if seq == [('elem',)]:
            vec = R.vector(cv[1])
            if vec is None:
                ctx.und("pairs", lloc, "how %s is filled is not known" % show(cv[1])[:60] + path)
                return
            if vec[0] == 'partial':
                ctx.bad("pairs", lloc, "%s does not hold every common tag" % show(cv[1])[:60] + path)
                return
            flat.append(('many', vec[1], vec[2], lloc, cv[1]))
        else:
            flat.append(('many', cv[1], seq, lloc, cv[1]))
    if len(flat) < 4 or flat[0][0] != 'one' or flat[-1][0] != 'one' or flat[-2][0] != 'one':
        ctx.check(False if not hidden(st) else None, "count", loc, "a measurement's record has %d parts" % len(flat) + path)
        return
    # value
    val = flat[-1][1]
    sc = R.schema(val) if val is not None else None
    cv = R.cover(lid)
    ctx.check(True if sc == ('m', 'value') else False if sc is not None or other(R, val) else None, "value", flat[-1][2], "the record ends with %s, not with the measurement's value" % (show(val)[:60] if val is not None else '?') + path)
    op = flat[-2][1]
    ctx.check(True if op is not None and isc(op) else None if op is None or not (R.index(op, st) or R.schema(op) == ('m', 'value')) else False, "value", flat[-2][2], "no operation before the value" + path)
    # pairs
    body = flat[1:-2]
    pairs, unk = [], False
    i = 0
    total = Z
    while i < len(body):
        x = body[i]
        if x[0] == 'many':
            if len(x[2]) % 2 or not x[2]:
                ctx.bad("pairs", x[3], "%d numbers for a tag" % len(x[2]) + path)
                return
            for j in range(0, len(x[2]), 2):
                pairs.append((x[1], x[2][j], x[2][j + 1], x[3]))
            total = add(total, scale(('size', canon(x[1])), len(x[2]) // 2))
            i += 1
        else:
            if i + 1 >= len(body) or body[i + 1][0] != 'one':
                ctx.bad("pairs", x[2], "a key without a value" + path)
                return
            pairs.append((None, R.index(x[1], st), R.index(body[i + 1][1], st), x[2]))
            total = add(total, ONE)
            i += 2
    want = {'common': 0, 'own': 0, 'name': 0}
    for T, k, v, where in pairs:
        ks = k[1] if k is not None and len(k) > 1 else None
        vs = v[1] if v is not None and len(v) > 1 else None
        if ks is None or vs is None:
            ctx.und("pairs", where, "a position of an unknown string" + path)
            unk = True
            continue
        looked[ks] = where
        looked[vs] = where
        if T is None and ks == ('lit', 'name') and vs == ('m', 'id', 'name_', 'data'):
            want['name'] += 1
        elif T is not None and ks[:-2] == vs[:-2] and ks[-2:] == ('key', 'data') and vs[-2:] == ('value', 'data'):
            own = ks[0] == 'm'
            want['own' if own else 'common'] += 1
            # the container visited must be the one the strings come from
            tn = tuple(p for p in T[2] if isinstance(p, str)) if T[0] == 'init' else None
            if tn is not None and (('m',) if own else ('this',)) + tn != ks[:-2]:
                ctx.bad("pairs", where, "the loop visits %s but writes strings of %s" % (show(T)[:50], ".".join(ks[:-2])) + path)
        else:
            ctx.bad("pairs", where, "the pair %s, %s is not a tag's key and its value" % (".".join(ks), ".".join(vs)) + path)
            unk = True
    if not unk:
        ctx.check(all(n == 1 for n in want.values()), "pairs", loc, "what follows the count: %s" % want + path)
    # count
    t = flat[0][1]
    if t is None:
        ctx.und("count", flat[0][2], "the announced count is not known" + path)
        return
    got = expand(R, decast(t), {x[4]: x for x in body if x[0] == 'many'})
    d = sub(got, total)
    ctx.check(True if d == Z else False if all(a[0] == 'size' or a[0] == 'idiv' for a in lin_of(d)[1]) else None, "count", flat[0][2],
              "the announced number of tags is %s but %s pairs follow" % (show(got)[:90], show(total)[:90]) + path)


def other(R, val):
    """a known term that is not the value itself"""
    if val is None:
        return False
    return isc(val) or val[0] not in ('cast', 'agg', 'sv') and any(isinstance(x, tuple) and x and x[0] in ('init', 'fld') and R.schema(x) == ('m', 'value') for x in subterms(val))


def canon(T):
    return T


def elem(t, T, lid):
    if t is None:
        return False
    if t[0] == 'cast':
        return elem(t[3], T, lid)
    p = t[2] if t[0] in ('fld', 'init') else ()
    idx = [q for q in p if isinstance(q, tuple) and q[0] == 'i']
    return bool(p) and len(idx) == 1 and p[-1] == idx[0] and idx[0][1][0] == 'lp' and idx[0][1][1] == lid


def expand(R, t, many):
    """sizes of vectors that a loop filled, in terms of the container the loop went over"""
    cst, d = lin_of(t)
    r = c(cst)
    for a, q in d.items():
        a2 = a
        if a[0] == 'idiv' and isc(a[2]):
            n = a[1]
            inner_ = expand(R, n, many)
            k0, dd = lin_of(inner_)
            if all(z % a[2][1] == 0 for z in dd.values()) and k0 % a[2][1] == 0:
                r = add(r, scale(scale2(inner_, a[2][1]), q))
                continue
        if a[0] == 'size':
            for vt, x in many.items():
                if a[1] == vt:
                    a2 = scale(('size', x[1]), len(x[2])) if vt != x[1] else a
            if a2 == a:
                v = R.vector(a[1]) if a[1][0] == 'lp' else None
                if v is not None and v[0] == 'seq':
                    a2 = scale(('size', v[1]), len(v[2]))
        r = add(r, scale(a2, q))
    return r


def scale2(t, k):
    cst, d = lin_of(t)
    r = c(cst // k)
    for a, q in d.items():
        r = add(r, scale(a, q // k))
    return r
