"""What the analyses of the line parsers share: the entry points, and a client that follows text cursors."""
from common import *

SRV = "spectatord::Server"
METERS = {'spectator::' + x for x in ('Counter Gauge AgeGauge MaxGauge MonotonicCounter MonotonicCounterUint MonotonicSampled Timer DistributionSummary '
                                      'PercentileTimer PercentileDistributionSummary Meter').split()}


def opaque(fn):
    """what a parser does to the outside: recorded, not entered"""
    q = fn.qn
    return (q.startswith(('spectator::Registry::', 'spectatord::expiring_cache', 'spectator::Id::', 'spectator::intern_str', 'spectatord::Logger', 'spectator::Logger'))
            or (fn.rect is not None and fn.rect.rec in METERS))


def charptr(T):
    T = T.noref()
    return T.k == 'ptr' and T.to is not None and T.to.noref().s.replace('const ', '').strip() in ('char',)


def text_entries(P):
    """methods of the server that take one text and report an optional error"""
    out = []
    for fn in P.fns.values():
        if fn.body is None or fn.lam or fn.ctor or fn.rect is None or fn.rect.rec != SRV:
            continue
        if sum(1 for t in fn.pt if charptr(t)) == 1 and len(fn.pt) == 1:
            out.append(fn)
    return sorted({f.key: f for f in out}.values(), key=lambda f: f.line)


def line_parsers(P, ent):
    """those of them that are called from a lambda: with one line"""
    keys = {f.key: f for f in ent}
    out = {}
    for fn in P.fns.values():
        if fn.body is None or not fn.lam:
            continue
        callers = None
        for x in P.walk(fn.body):
            if x.get('k') == 'MCall' and x.get('fn') is not None:
                g = fn.tu.fns[x['fn']]
                if g.key in keys and not any(splits(P, keys[g.key])):
                    out[g.key] = keys[g.key]
    return sorted(out.values(), key=lambda f: f.line)


def splits(P, fn):
    """does the function hand texts on to a callable (and so is not a parser of one line itself)?"""
    for x in P.walk(fn.body):
        if x.get('k') == 'Lam':
            yield True
        if x.get('k') in ('MCall', 'Call') and x.get('fn') is not None:
            g = fn.tu.fns[x['fn']]
            if any('function<' in t.s for t in g.pt):
                yield True


class Lines(Rec):
    """records, besides, every call from a lambda to a function that takes a text: a line handed to its parser"""

    def __init__(self):
        super().__init__(opaque)

    def is_line_call(self, fn, fr):
        return fr is not None and fr.fn.lam and fn.body is not None and len(fn.pt) == 1 and charptr(fn.pt[0]) and fn.rect is not None and fn.rect.rec == SRV

    def call(self, I, fn, obj, args, st, fr, node):
        if self.is_line_call(fn, fr):
            p = I.rval(st, args[0], fn.pt[0])
            self.line(I, st, fn, p, fr, node)
            I.n += 1
            t = ('ret', fn.qn, I.n)
            I.typed(t, fn.rt)
            st.event('line', fn, p, t, fr.tu.loc(node.get("l")) if node and node.get("l") else '?')
            return [(st, t)]
        return super().call(I, fn, obj, args, st, fr, node)

    def line(self, I, st, fn, p, fr, node):
        pass


def load(I, st, p):
    lv = I.deref(p)
    return I.raw(st, lv[1], lv[2])


class Text(Lines):
    """cursors inside one received text: base .. end, where the terminator is at end"""

    def __init__(self, base, nonempty=False, const=False, hypo=False):
        super().__init__()
        self.hypo = hypo         # bounds of cursors are taken as hypotheses of their loops, to be shown for each iteration afterwards
        self.const = const
        self.base, self.end = base, ('end', base)
        self.nonempty = nonempty
        self.found = []

    def setup(self, I):
        def f(st, av):
            I.dom.ranges[self.base] = (1, 1 << 62)
            I.dom.ranges[self.end] = (1, 1 << 62)
            I.ptratoms.add(self.base)
            I.assume(st, I.le(self.base, self.end), True)
            if self.nonempty:
                I.assume(st, I.le(add(self.base, ONE), self.end), True)
                I.assume(st, I.eq(load(I, st, self.base), Z), False)
        return f

    # ---- facts about cursors
    def inside(self, I, st, a, k=0):
        """is base <= a <= end - k?"""
        lo = I.truth(st, I.le(self.base, a))
        hi = I.truth(st, I.le(add(a, c(k)), self.end))
        if lo is True and hi is True:
            return True
        if lo is False or hi is False:
            return False
        return None

    def mine(self, a):
        """is the address a position in the text (by its base)?"""
        k, d = lin_of(a)
        return d.get(self.base) == 1 or any(x[0] == 'lp' and q == 1 for x, q in d.items())

    def settled(self, I, a):
        """only quantities this client knows everything about"""
        return all(self.atom(x) for x in lin_of(a)[1])

    def atom(self, x):
        if x == self.base:
            return True
        if x[0] in ('numend', 'choff', 'find', 'strlen', 'c'):
            return True
        if x[0] == 'lp':
            return x in self.good
        if x[0] == 'cast':
            return self.atom(x[3]) or (x[3][0] == 'lin' and all(self.atom(y) for y in lin_of(x[3])[1]))
        return False

    good = frozenset()

    def bytefact(self, I, st, x):
        if I.truth(st, I.eq(x, Z)) is False:
            root, path = (x[1], x[2]) if x[0] == 'init' else (x[2], x[3])
            a = I.addr(root, path)
            if self.mine(a) and self.inside(I, st, a) is True:
                I.assume(st, I.le(add(a, ONE), self.end), True)
            for p in st.x.get('stops', ()):
                e = add(p, ('strlen', p))
                if I.truth(st, I.le(p, a)) is True and I.truth(st, I.le(a, e)) is True:
                    I.assume(st, I.le(add(a, ONE), e), True)

    def assumed(self, I, st, t, val):
        if t[0] in ('eq0', 'le0'):
            for x in lin_of(t[1])[1]:
                y = x
                while y[0] == 'cast':
                    y = y[3]
                if y[0] in ('init', 'hv') and (y[1] if y[0] == 'init' else y[2])[0] == 'mem':
                    self.bytefact(I, st, y)
            if t[0] == 'eq0' or t[0] == 'le0':
                for x in lin_of(t[1])[1]:
                    if x[0] == 'lp':
                        self.fire(I, st, x)
        elif t[0] == 'lp':
            self.fire(I, st, t)
        return True

    def fire(self, I, st, x):
        for y, d in st.x.get('imps', ()):
            if y == x and I.truth(st, I.eq(x, Z)) is False and I.truth(st, ('le0', d)) is not True:
                I.assume(st, ('le0', d), True)

    # ---- hooks
    def oblige(self, I, st, rule, where, goals, detail):
        """goals: sums that must not be positive"""
        if not all(I.truth(st, ('le0', g)) is True for g in goals):
            self.found.append((None, rule, where, detail + " (path %s)" % pathstr(st, 8), [g for g in goals if I.truth(st, ('le0', g)) is not True], st.clone()))
        else:
            self.found.append((True, rule, where, detail, (), None))

    def within(self, a, k=0):
        return [sub(self.base, a), sub(add(a, c(k)), self.end)]

    def at(self, a):
        return show(sub(a, self.base))

    def access(self, I, st, root, path, write, fr, node):
        if I.quiet or root[0] != 'mem' or len(path) != 1 or not isinstance(path[0], tuple):
            return
        where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
        if isc(root[1]):
            # the position of something that was not found
            self.found.append((False, "write" if write else "read", where, "%s through a null pointer (path %s)" % ("write" if write else "read", pathstr(st, 8)), (), None))
            return
        a = I.addr(root, path)
        if not self.mine(a):
            return
        self.oblige(I, st, "write" if write else "read", where, self.within(a, 1 if write else 0), "%s of position %s, not known to be inside the text" % ("write" if write else "read", self.at(a)))

    def cstr(self, I, st, what, p, fr, node):
        if self.mine(p):
            if not I.quiet:
                where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
                self.oblige(I, st, "scan", where, self.within(p), "%s starts at position %s, not known to be inside the text" % (what, self.at(p)))
            if self.inside(I, st, p) is True:
                n = ('strlen', p)
                I.dom.ranges.setdefault(n, (0, 1 << 62))
                if self.const:
                    I.dom.defs[n] = sub(self.end, p)
                else:
                    I.assume(st, I.le(add(p, n), self.end), True)
                st.x['stops'] = st.x.get('stops', ()) + (p,)

    def strchr_hit(self, I, st, p, ch, q):
        if not self.mine(p):
            return
        if self.inside(I, st, p) is True and (isc(ch) and ch != Z or ch[0] == 's'):
            I.assume(st, I.le(add(q, ONE), self.end), True)
            b = load(I, st, p)
            if b is not None and isc(ch) and I.truth(st, I.eq(b, ch)) is False:
                I.assume(st, I.le(add(p, ONE), q), True)

    def strto_end(self, I, st, p, off):
        if self.mine(p) and self.inside(I, st, p) is True:
            I.assume(st, I.le(add(p, off), self.end), True)

    def bulk(self, I, st, dst, src, n, fr, node):
        if I.quiet:
            return
        where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
        for p, k, r in ((src, 0, "read"), (dst, 0, "write")):
            if isinstance(p, tuple) and p[0] != 'lv' and self.mine(p):
                self.oblige(I, st, r, where, [sub(self.base, p), sub(Z, n), sub(add(p, n), self.end)], "copy of %s bytes at %s, not known to be inside the text" % (show(n), self.at(p)))

    def line(self, I, st, fn, p, fr, node):
        if I.quiet:
            return
        where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
        self.oblige(I, st, "scan", where, self.within(p), "the line at position %s, not known to be inside the text" % self.at(p))
        b = load(I, st, p)
        ne = I.truth(st, I.eq(b, Z)) if b is not None else None
        if ne is False:
            for (root, path), v in st.mem.items():
                if v == Z and root[0] == 'mem' and len(path) == 1:
                    a = I.addr(root, path)
                    if self.mine(a) and I.truth(st, I.eq(a, p)) is not False and not (
                            I.truth(st, I.eq(('init', root, path), c(10))) is True and I.truth(st, I.eq(b, c(10))) is False):
                        ne = None       # a terminator was stored that may be this very byte
        self.found.append((True if ne is False else False, "nonempty", where, "a line may be empty when it is handed to %s (path %s)" % (fn.qn, pathstr(st, 8)), (), None))

    # ---- loops
    def loop_candidates(self, I, entry, head, W):
        out = []
        xs = []
        for k in W:
            if k[0] == 'ref':
                continue
            x, x0 = head.mem.get(k), I.raw(entry, k[0], k[1])
            if x is None or x0 is None or x[0] != 'lp':
                continue
            T = I.loctype.get(k)
            if T is not None and T.k in ('float', 'rec', 'ref'):
                continue
            xs.append((x, x0, T))
        for i, (x, x0, T) in enumerate(xs):
            for y, y0, T2 in xs[i + 1:]:
                if T is not None and T.k == 'ptr' and T2 is not None and T2.k == 'ptr':
                    continue
                d = add(sub(x, x0), sub(y, y0))
                out.append(('le0', d))
                out.append(('le0', scale(d, -1)))
        for x, x0, T in xs:
            a0 = lin_of(x0)[1]
            if a0:
                for t, v in entry.conds():
                    if t[0] == 'le0' and v:
                        d = sub(t[1], x0)
                        if not any(a in lin_of(d)[1] for a in a0) and lin_of(d)[1]:
                            for b in (-1, 0, 1):
                                out.append(('le0', add(add(x, d), c(b))))
            if T is not None and T.k == 'int':
                for p in entry.x.get('stops', ()):
                    for b in (0, 1):
                        out.append(('le0', add(sub(x, ('strlen', p)), c(b))))
            ptr = T is not None and T.k == 'ptr' or x0 in I.ptratoms
            if ptr or x0 == Z:
                out.append(('le0', sub(x, self.end)))
                out.append(('le0', sub(add(x, ONE), self.end)))
                out.append(('le0', sub(self.base, x)))
                if x0 != Z:
                    for b in (10, 0):
                        out.append(('cl', 'byte', x, c(b)))
            if T is not None and T.k == 'int':
                for b in (0, 1):
                    out.append(('le0', sub(add(add(self.base, x), c(b)), self.end)))
            if x0 == Z:
                for y, y0, T2 in xs:
                    if y is not x and T2 is not None and T2.k == 'ptr':
                        out.append(('cl', 'imp', x, sub(y, x)))
                        out.append(('cl', 'imp', x, sub(x, y)))
                        out.append(('cl', 'imp', x, sub(self.base, x)))
                        for z, z0, T3 in xs:
                            if z is not x and z is not y and T3 is not None and T3.k == 'ptr':
                                out.append(('cl', 'imp', x, sub(y, z)))
        return out

    def forced(self, t):
        if not self.hypo or t[0] != 'le0':
            return False
        d = dict(lin_of(t[1])[1])
        xs = [x for x in d if x[0] == 'lp']
        return len(xs) == 1 and len(d) == 2 and lin_of(t[1])[0] == 0 and (d.get(self.end) == -1 or d.get(self.base) == 1)

    def cand_holds(self, I, st, t):
        s = st.clone()
        if t[1] == 'imp':
            x, d = t[2], t[3]
            if x == Z or not I.assume(s, I.eq(x, Z), False):
                return True
            for a in lin_of(x)[1]:
                self.fire(I, s, a)
            return I.dom.prove_le0(s, d)
        if t[1] == 'byte':
            b = load(I, s, t[2]) if lin_of(t[2])[1] else None
            return b is not None and I.truth(s, I.eq(b, t[3])) is False
        return False

    def cand_assume(self, I, st, t):
        if t[1] == 'imp':
            st.x['imps'] = st.x.get('imps', ()) + ((t[2], t[3]),)
            return True
        if t[1] == 'byte':
            b = load(I, st, t[2])
            return I.assume(st, I.eq(b, t[3]), False) if b is not None else True
        return True
