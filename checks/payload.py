"""The publisher's payload: what the function that writes one batch appends, loop by loop."""
from common import *

PAY = "spectator::SmilePayload"
PUB = "spectator::Publisher"


def writers(P):
    """methods of the publisher that start a payload themselves; without any, those through which everything is appended"""
    out = {}
    direct, callees = set(), {}
    for fn in P.fns.values():
        if fn.body is None or fn.lam or fn.rect is None or fn.rect.rec != PUB:
            continue
        for x in P.walk(fn.body):
            if isinstance(x.get('fn'), int):
                g = fn.tu.fns[x['fn']]
                if g.rect is not None and g.rect.rec == PAY and g.name == 'Init':
                    out[fn.key] = fn
                elif g.rect is not None and g.rect.rec == PAY and g.name == 'Append':
                    direct.add(fn.key)
                callees.setdefault(fn.key, set()).add(g.key)
    if not out:
        mine = {k: f for f in P.fns.values() for k in [f.key] if k in callees}

        def reach(k):
            seen_, todo = set(), [k]
            while todo:
                x = todo.pop()
                if x not in seen_:
                    seen_.add(x)
                    todo += [y for y in callees.get(x, ()) if y in mine]
            return seen_
        cand = {k for k in mine if direct and direct <= reach(k)}
        out = {k: mine[k] for k in cand if not (callees[k] & cand)}
    return list(out.values())


def payfn(fn):
    return fn.rect is not None and fn.rect.rec == PAY and not fn.ctor and not fn.dtor


def last(qn):
    return str(qn).split('::')[-1]


class Run:
    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        self.res, self.I = runfn(ctx, fn, Rec(payfn))

    # ---- loops
    def cover(self, lid):
        """('all', container term) or ('range', first, last): what a loop visits, one element per iteration; None when not all of it, '?' if not known"""
        I, L = self.I, self.I.loops[lid]
        n0 = len(L['head'].conds())
        for s, fl in L['exits']:
            if fl[0] == 'N':
                if len(s.conds()) - n0 != 1 or [e for e in after_loop(s, lid)[1:] if e[0] not in ('static', 'new', 'pcallee')]:
                    return None
            else:
                return None
        if not L['backs'] or not L['exits']:
            return '?'
        t, v = L['exits'][0][0].conds()[n0]
        for k in L['W']:
            if k[0] == 'ref':
                continue
            x, x0 = L['head'].mem.get(k), I.raw(L['entry'], k[0], k[1])
            if x is None or x[0] != 'lp' or x0 is None or t[0] not in ('le0', 'eq0'):
                continue
            q = lin_of(t[1])[1].get(x)
            if q is None:
                continue
            if any(I.raw(b, k[0], k[1]) is None or sub(I.raw(b, k[0], k[1]), x) != ONE for b in L['backs']):
                return None if all(I.raw(b, k[0], k[1]) is not None and isc(sub(I.raw(b, k[0], k[1]), x)) for b in L['backs']) else '?'
            if t[0] == 'le0' and v is False and q == 1:
                end = sub(add(x, ONE), t[1])           # x + 1 - bound <= 0 fails at the end
            elif t[0] == 'eq0' and v is True:
                end = sub(x, scale(t[1], q)) if q in (1, -1) else None
            elif t[0] == 'le0' and v is True and q == -1:
                end = add(t[1], x)                     # bound - x <= 0 holds at the end
            else:
                end = None
            if end is None:
                return '?'
            d = lin_of(end)
            if len(d[1]) == 1 and d[0] == 0:
                (a, qa), = d[1].items()
                if qa == 1 and x0 == Z:
                    T = a[1] if a[0] == 'size' else a[2] if a[0] == 'call' and last(a[1]) == 'size' else None
                    return ('all', T) if T is not None else '?'
                if qa == 1:
                    return ('range', x0, end)
            elif x0[0] == 'addr' and x0[2] and x0[2][-1] == ('i', Z):
                # an iterator over all of a container
                n = lin_of(sub(end, x0))
                C = I.raw(L['entry'], x0[1], x0[2][:-1])
                if n is not None and n[0] == 0 and n[1] == {('size', C): 1}:
                    return ('all', C)
                return '?'
            elif len(d[1]) == 1 and x0 == Z:
                (a, qa), = d[1].items()
                if qa == 1 and a[0] == 'size':
                    return None                        # all but some
            return ('range', x0, end) if x0 != Z else '?'
        return '?'

    def bodies(self, lid):
        return [self.items(b, lid) for b in self.I.loops[lid]['backs']]

    def items(self, st, lid=None):
        """[(kind, ...)] in order"""
        ev = after_loop(st, lid)[1:] if lid is not None else st.events()
        out = []
        for e in ev:
            if e[0] == 'loop':
                out.append(('loop', e[1]))
            elif e[0] == 'op' and payfn(e[1]):
                if e[1].name == 'Append':
                    out.append(('out', e[3][0] if e[3] else None, e[1], e[5]))
                else:
                    out.append(('pay', e[1].name, e[5]))
            elif e[0] == 'call' and e[2] is not None and 'map' in str(e[1]):
                n = last(e[1])
                if n in ('operator[]', 'emplace', 'try_emplace', 'insert', 'insert_or_assign'):
                    out.append(('ins', e[3][0] if e[3] else None, e[4], e[5], e[2]))
                elif n in ('clear', 'erase', 'rehash', 'swap', 'extract', 'merge'):
                    out.append(('del', n, e[5]))
            elif e[0] == 'pcall':
                out.append(('unknown', 'call through a pointer'))
            elif e[0] in ('clear', 'resize', 'pop') and 'map' in str(e):
                out.append(('del', e[0], '?'))
        return out

    # ---- terms
    def schema(self, t):
        """which string a term is: (root, field names) without positions; None if not known"""
        if t is None:
            return None
        if t[0] == 'agg' and len(t[2]) == 1:
            return self.schema(t[2][0][1])
        if t[0] == 'agg':
            for p, v in t[2]:
                if p and p[-1] in ('data',):
                    return self.schema(v)
            if t[2] and t[2][0][0] and t[2][0][0][0] == 'first':
                return self.schema(t[2][0][1])
            return None
        if t[0] == 'sv':
            return self.schema(t[1])
        if t[0] == 'intern':
            return ('lit', t[1][1]) if t[1][0] == 's' else None
        if t[0] == 'fld':
            b = t[1]
            if b[0] == 'init':
                return self.schema(('init', b[1], b[2] + t[2]))
            return ('tab',) + tuple(p for p in t[2] if isinstance(p, str)), b
        if t[0] == 'init':
            names = tuple(p for p in t[2] if isinstance(p, str))
            if t[1][0] == 'this':
                return ('this',) + names
            if t[1][0] == 'mem':
                d = [x for x in subterms(t[1][1]) if isinstance(x, tuple) and x and x[0] == 'lp']
                if t[1][1][0] == 'lp' or (d and t[1][1][0] == 'lin' and len(lin_of(t[1][1])[1]) == 1):
                    return ('m',) + names
            return None
        return None

    def index(self, t, st=None):
        """('idx', schema of the key) when t is the number the table holds for a key"""
        if t[0] == 'cast':
            return self.index(t[3], st)
        path = t[2] if t[0] in ('init', 'fld') else ()
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) >= 4 and x[0] == 'call' and last(x[1]) in ('find', 'at') and 'map' in str(x[1]):
                if last(x[1]) == 'find' and not (path and path[-1] == 'second'):
                    return None
                return ('idx', self.schema(x[3]), x[2])
        if st is not None:
            rets = {e[4]: e for e in st.events() if e[0] == 'call' and last(e[1]) in ('operator[]', 'at')}
            for x in subterms(t):
                if x in rets:
                    e = rets[x]
                    return ('idx', self.schema(e[3][0]), None)
        return None

    def vector(self, t):
        """a vector filled by one loop: (container, [what one iteration pushes]) or None"""
        if t[0] != 'lp' or t[1] not in self.I.loops:
            return None
        L = self.I.loops[t[1]]
        cov = self.cover(t[1])
        if cov is None:
            return ('partial',)
        if cov == '?' or cov[0] != 'all':
            return None
        k = (t[2], t[3])
        x0 = self.I.raw(L['entry'], *k)
        if x0 is None or not (x0[0] in ('vec0',) or self.I.truth(L['entry'], ('eq0', ('size', x0))) is True):
            return None
        seq = None
        for b in L['backs']:
            v = self.I.raw(b, *k)
            out = []
            while v is not None and v[0] == 'vpush':
                out.append(v[2])
                v = v[1]
            if v != t:
                return None
            out.reverse()
            if seq is not None and (not seq) != (not out):
                return ('partial',)
            if seq is not None and [self.index(x, b) for x in seq] != [self.index(x, b) for x in out]:
                return None
            seq = out
        return ('seq', cov[1], [self.index(x, L['backs'][0]) for x in seq])
