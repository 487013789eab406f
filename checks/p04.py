"""P04: the line parsers stay inside the received text."""
from lines import *

EXPLANATION = (
    "The parsing functions of the server are interpreted abstractly with the position of the terminator as a symbol: every cursor is kept as start + "
    "offset, a byte known not to be the terminator proves that the next position is still inside, the scanning functions (strchr, strtod, strtoll, "
    "string_view searches) contribute their result bounds, and loops get inductive bounds for each cursor (candidates checked on entry and on every "
    "iteration). Each read, write, scan and piece of text taken is then an obligation start <= position <= terminator. The functions called with one "
    "line are interpreted separately, for any non-empty line; that they are given one is an obligation at their call sites.")
ASSUMPTIONS = ["the received text ends with a terminator (P05)", "strchr, strto*, strlen and string_view searches keep their documented bounds",
               "an ignored character class function (isspace) reads its table only"]
RULES = {
    "read": "every byte read through a cursor lies between the start of the text and its terminator",
    "write": "every byte written lies before the terminator",
    "scan": "every scan for the terminator starts inside the text",
    "nonempty": "a line handed to a line parser is not empty",
    "extent": "every piece cut out of the text (name, key, value) lies inside it",
}


def norm(I, st, n):
    while n[0] == 'cast':
        x = n[3]
        if I.truth(st, I.le(Z, x)) is not True:
            return n
        n = x
    return n


def pieces(terms):
    out = set()
    for t in terms:
        if not isinstance(t, tuple):
            continue
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) == 3 and x[0] in ('bytes', 'sv') and isinstance(x[1], tuple) and isinstance(x[2], tuple):
                out.add((x[1], x[2]))
    return out


def extents(I, cl, st, terms, where):
    for p, n in sorted(pieces(terms), key=show):
        if not cl.mine(p):
            continue
        m = norm(I, st, n)
        if m[0] == 'cast':
            m = m[3]
        cl.oblige(I, st, "extent", where, [sub(cl.base, p), sub(Z, m), sub(add(p, m), cl.end)], "a piece of %s bytes at %s, not known to be inside the text" % (show(m), cl.at(p)))


def settle_loops(I, cl):
    """loop symbols with a proved bound from above by the end of the text or the length of a part of it"""
    good = set()
    for L in I.loops.values():
        for k in L['W']:
            x = L['head'].mem.get(k) if k[0] != 'ref' else None
            if x is None or x[0] != 'lp':
                continue
            if cl.inside(I, L['head'], x) is True:
                good.add(x)
            for t in L['inv']:
                if t[0] == 'le0':
                    d = lin_of(t[1])[1]
                    if d.get(x, 0) > 0 and any(q < 0 and (a == cl.end or a[0] == 'strlen') for a, q in d.items()):
                        good.add(x)
    return frozenset(good)


def atoms(t):
    out = []
    for x in lin_of(t)[1]:
        out += atoms(x[3]) if x[0] == 'cast' else [x]
    return out


def textbyte(cl, t):
    while t[0] == 'cast':
        t = t[3]
    return t[0] in ('init', 'hv') and (t[1] if t[0] == 'init' else t[2])[0] == 'mem'


def known(cl, xs, t):
    return all(x == cl.end or cl.atom(x) or x in xs or textbyte(cl, x) for x in atoms(t))


def resolve(I, cl, st, g):
    """g <= 0 could not be shown in st: False when it fails for a reason that is fully known, else None"""
    t = I.truth(st, ('le0', g))
    if t is not None:
        return t
    if all(x == cl.end or cl.atom(x) for x in atoms(g)):
        return False
    for L in I.loops.values():
        key = {}
        for k in L['W']:
            x = L['head'].mem.get(k) if k[0] != 'ref' else None
            if x is not None and x[0] == 'lp':
                key[x] = k
        if not any(x in key for x in atoms(g)):
            continue
        xs = set(key)
        n0 = len(L['head'].conds())
        for b in L['backs'] + [L['entry']]:
            s = b.clone()
            m = {}
            for x, k in key.items():
                v = I.raw(s, k[0], k[1])
                m[x] = v if v is not None else ('sym', '?', 0)
            g2 = I.subst_lin(g, m)
            if b is not L['entry']:
                if g2 == g or not I.assume(s, ('le0', g), True):
                    continue
                for c_, v in s.conds():
                    cl.assumed(I, s, c_, v)
            feasible = True
            for c_, v in st.conds():
                if c_[0] in ('le0', 'eq0') and any(x in xs for x in atoms(c_[1])) and all(x in xs or x == cl.base or x == cl.end for x in atoms(c_[1])):
                    feasible = feasible and I.assume(s, (c_[0], I.subst_lin(c_[1], m)), v)
            if not feasible or I.truth(s, ('le0', g2)) is True:
                continue
            if I.truth(s, ('le0', g2)) is False:
                return False
            if b is not L['entry'] and known(cl, xs, g2) and all(c_[0] in ('le0', 'eq0') and known(cl, xs, c_[1]) for c_, v in b.conds()[n0:]):
                return False
    return None


def analyse(ctx, fn, nonempty, hypo):
    """{(rule, where): (verdict, detail)}"""
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    base = ('init', ('p', fn.ps[0]["n"] or '0'), ())
    T = fn.pt[0].noref()
    cl = Text(base, nonempty, bool(T.to.const), hypo)
    I = Interp(ctx.prog, cl)
    res = I.run(fn, setup=cl.setup(I))
    ctx.fn(fn)
    ctx.paths += len(res)
    ctx.calls += I.ncalls
    n = len(cl.found)
    for st, fl in res:
        ts = [x for e in st.events() if e[0] in ('op', 'call', 'line') for x in e[1:] if isinstance(x, tuple)]
        ts += [v for v in st.mem.values() if isinstance(v, tuple)]
        extents(I, cl, st, ts, w)
    for L in I.loops.values():
        for b in L['backs']:
            extents(I, cl, b, [v for v in b.mem.values() if isinstance(v, tuple)], w)
            for t in L['forced']:
                g = I.subst_entry(t, b, L['head'], L['W'])[1]
                cl.oblige(I, b, "read", L['loc'], [g], "a cursor of this loop is not known to stay inside the text")
    cl.good = settle_loops(I, cl)
    worst = {}
    for v, rule, where, detail, goals, st in cl.found:
        k = (rule, where)
        o = worst.get(k)
        if v is True and not hypo:
            ctx.count[("ok", rule)] = ctx.count.get(("ok", rule), 0) + 1
        if v is None and not (o and o[0] is False):
            rs = [resolve(I, cl, st, g) for g in goals]
            v = False if False in rs else None if None in rs else True
        if o is None or (o[0] is True and v is not True) or (o[0] is None and v is False):
            worst[k] = (v, detail)
    return worst, n


def one(ctx, fn, nonempty):
    worst, n = analyse(ctx, fn, nonempty, False)
    if any(v is None for v, _ in worst.values()):
        w2, _ = analyse(ctx, fn, nonempty, True)
        for k, (v, d) in w2.items():
            if v is False:
                worst[k] = (v, d)
    for (rule, where), (v, detail) in worst.items():
        ctx.check(v, rule, where, detail)
    return n


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    ent = text_entries(ctx.prog)
    ctx.need("functions of the server that take one text", len(ent), 2)
    linefns = {f.key: f for f in line_parsers(ctx.prog, ent)}
    n = 0
    for fn in ent:
        if fn.key in linefns:
            continue
        k = one(ctx, fn, False)
        n += k
    for fn in linefns.values():
        k = one(ctx, fn, True)
        n += k
    ctx.anchor("line parsers", len(linefns))
    ctx.need("accesses through text cursors", n, 10)
