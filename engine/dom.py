"""Abstract state: memory of value numbers, facts, linear-inequality domain, event trace."""
from math import gcd
from terms import *

INF = None
_cons = {}


def cons(prev, ev):
    """hash-consed event lists"""
    k = (id(prev), ev)
    try:
        r = _cons.get(k)
    except TypeError:
        return (prev, ev)
    if r is None or r[0] is not prev:
        r = _cons[k] = (prev, ev)
    return r


class State:
    __slots__ = ('mem', 'refs', 'ver', 'iv', 'ne', 'facts', 'ev', 'trail', 'locks', 'x')

    def __init__(self):
        self.mem, self.refs, self.ver = {}, {}, {}
        self.iv, self.ne, self.facts = {}, frozenset(), {}
        self.ev, self.trail, self.locks = None, None, ()
        self.x = {}

    def clone(self):
        s = State.__new__(State)
        s.mem, s.refs, s.ver = dict(self.mem), dict(self.refs), dict(self.ver)
        s.iv, s.ne, s.facts = dict(self.iv), self.ne, dict(self.facts)
        s.ev, s.trail, s.locks = self.ev, self.trail, self.locks
        s.x = dict(self.x)
        return s

    def event(self, *e):
        self.ev = cons(self.ev, e)

    def events(self, upto=None):
        r = []
        e = self.ev
        while e is not None and e is not upto:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def conds(self):
        r = []
        e = self.trail
        while e is not None:
            if e[1][0][0] != 'either':
                r.append(e[1])
            e = e[0]
        r.reverse()
        return r

    def alternatives(self, limit=256):
        """condition lists of the paths that were joined into this state; None when there are too many"""
        def expand(items):
            out = [[]]
            for t, v in items:
                if t[0] == 'either':
                    alts = []
                    for branch in t[1:]:
                        x = expand(branch)
                        if x is None:
                            return None
                        alts += x
                    out = [o + a for o in out for a in alts]
                else:
                    for o in out:
                        o.append((t, v))
                if len(out) > limit:
                    return None
            return out
        r, e = [], self.trail
        while e is not None:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return expand(r)


def homog(d):
    """normalise {atom: coef}: (key tuple, divisor with sign)"""
    items = sorted(d.items(), key=lambda x: key(x[0]))
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    s = g if items[0][1] > 0 else -g
    return tuple((a, k // s) for a, k in items), s


def fdivi(a, b):
    return a // b


def cdivi(a, b):
    return -((-a) // b)


class Dom:
    """the numeric part: bounds on linear combinations; one instance per interpreter (type ranges of atoms)"""

    def __init__(self):
        self.ranges = {}
        self.steps = 0
        self.defs = {}           # quantities that are sums of others

    def lin(self, t):
        cst, d = lin_of(t)
        if self.defs and any(a in self.defs for a in d):
            r = c(cst)
            for a, k in d.items():
                r = add(r, scale(self.defs.get(a, a), k))
            return lin_of(r)
        return cst, d

    # ---- structural ranges of atoms
    def rng(self, st, a, depth=3):
        r = self.ranges.get(a)
        k = a[0]
        q = None
        if k == 'band':
            his = []
            for x in a[1:]:
                lo, hi = self.bounds(st, x, depth - 1) if depth > 0 else (None, None)
                if lo is not None and lo >= 0 and hi is not None:
                    his.append(hi)
            q = (0, min(his)) if his else None
        elif k == 'shr' and depth > 0:
            lo, hi = self.bounds(st, a[1], depth - 1)
            if lo is not None and lo >= 0:
                q = (lo >> a[2], None if hi is None else hi >> a[2])
        elif k == 'cast':
            w, sg = a[1], a[2]
            q = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        elif k == 'f2i':
            w, sg = a[1], a[2]
            q = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        elif k == 'idiv' and depth > 0 and isc(a[2]) and a[2][1] > 0:
            lo, hi = self.bounds(st, a[1], depth - 1)
            tr = lambda x: None if x is None else (abs(x) // a[2][1]) * (1 if x >= 0 else -1)
            q = (tr(lo), tr(hi))
        elif k == 'mod' and isc(a[2]) and a[2][1] > 0 and depth > 0:
            lo, hi = self.bounds(st, a[1], depth - 1)
            m = a[2][1] - 1
            q = (0 if lo is not None and lo >= 0 else -m, m)
        elif k in ('size', 'strlen'):
            q = (0, 1 << 62)
        elif k == 'b2i':
            q = (0, 1)
        elif k == 'clz':
            q = (0, a[1] - 1)
        if q is None:
            return r or (None, None)
        if r is None:
            return q
        lo = q[0] if r[0] is None else (r[0] if q[0] is None else max(r[0], q[0]))
        hi = q[1] if r[1] is None else (r[1] if q[1] is None else min(r[1], q[1]))
        return lo, hi

    def atom_bounds(self, st, a, depth=3):
        lo, hi = self.rng(st, a, depth)
        b = st.iv.get(((a, 1),))
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    # ---- bounds of a term
    def bounds(self, st, t, depth=3):
        if t[0] == 'c':
            return t[1], t[1]
        if t[0] in ('le0', 'eq0', 'flt', 'fle', 'feq', 'not'):
            return 0, 1
        cst, d = self.lin(t)
        hi = self.ub(st, d, depth)
        lo = self.ub(st, {a: -k for a, k in d.items()}, depth)
        return (None if lo is None else cst - lo, None if hi is None else cst + hi)

    def ub(self, st, d, depth=3, goal=None):
        """upper bound of a homogeneous combination; the search stops at a bound that is at most goal"""
        return self._ub(st, d, depth, (), goal, [None])

    def index(self, st):
        """the constraints between several quantities, by each quantity"""
        r = {}
        for hk, b in st.iv.items():
            if len(hk) > 1:
                for x, q in hk:
                    r.setdefault(x, []).append((hk, q, b))
        return r

    def _ub(self, st, d, depth, seen, goal, idx):
        self.steps += 1
        if not d:
            return 0
        best = 0
        dd = min(depth, 2)
        for a, k in d.items():
            lo, hi = self.atom_bounds(st, a, dd)
            v = (hi if k > 0 else lo)
            if v is None:
                best = None
                break
            best += v * k
        if best is not None and goal is not None and best <= goal:
            return best
        hk, s = homog(d)
        b = st.iv.get(hk)
        if b:
            v = b[1] if s > 0 else b[0]
            if v is not None:
                v *= s
                if best is None or v < best:
                    best = v
                    if goal is not None and best <= goal:
                        return best
        if depth > 0 and len(d) <= 4:
            # eliminate the first atom with each constraint that mentions it
            a0 = min(d, key=key)
            if (best is None or goal is not None) and len(d) >= 2:
                lo, hi = self.atom_bounds(st, a0, dd)
                v = hi if d[a0] > 0 else lo
                if v is not None:
                    u = self._ub(st, {x: q for x, q in d.items() if x is not a0}, depth - 1, seen, None if goal is None else goal - v * d[a0], idx)
                    if u is not None:
                        u += v * d[a0]
                        if best is None or u < best:
                            best = u
                            if goal is not None and best <= goal:
                                return best
            if idx[0] is None:
                idx[0] = self.index(st)
            for hk2, k2, b2 in idx[0].get(a0, ()):
                if hk2 == hk or d[a0] % k2 or hk2 in seen:
                    continue
                m = d[a0] // k2      # d = m*hk2 + rest
                v = b2[1] if m > 0 else b2[0]
                if v is None:
                    continue
                rest = dict(d)
                for x, q in hk2:
                    r = rest.get(x, 0) - m * q
                    if r:
                        rest[x] = r
                    else:
                        rest.pop(x, None)
                if len(rest) > 3:
                    continue
                u = self._ub(st, rest, depth - 1, seen + (hk2,), None if goal is None else goal - v * m, idx)
                if u is not None:
                    u += v * m
                    if best is None or u < best:
                        best = u
                        if goal is not None and best <= goal:
                            return best
        return best

    def prove_le0(self, st, t, depth=4):
        cst, d = self.lin(t)
        if not d:
            return cst <= 0
        u = self.ub(st, d, depth, -cst)
        return u is not None and cst + u <= 0

    def prove_eq0(self, st, t):
        return self.prove_le0(st, t) and self.prove_le0(st, scale(t, -1))

    def prove_ne0(self, st, t):
        cst, d = self.lin(t)
        if not d:
            return cst != 0
        hk, s = homog(d)
        if cst % s == 0 and (hk, -(cst // s)) in st.ne:
            return True
        if cst % s:
            return True
        lo, hi = self.bounds(st, t)
        return (lo is not None and lo > 0) or (hi is not None and hi < 0)

    # ---- assumptions; return False when infeasible
    def assume_le0(self, st, t):
        cst, d = self.lin(t)
        if not d:
            return cst <= 0
        lo, hi = self.bounds(st, t)
        if lo is not None and lo > 0:
            return False
        hk, s = homog(d)
        lo, hi = st.iv.get(hk, (None, None))
        if s > 0:                       # s*h + cst <= 0 -> h <= floor(-cst/s)
            v = fdivi(-cst, s)
            while (hk, v) in st.ne:
                v -= 1
            hi = v if hi is None else min(hi, v)
        else:                           # h >= ceil(-cst/s)
            v = cdivi(-cst, s)
            while (hk, v) in st.ne:
                v += 1
            lo = v if lo is None else max(lo, v)
        if lo is not None and hi is not None and lo > hi:
            return False
        st.iv[hk] = (lo, hi)
        return True

    def assume_eq0(self, st, t):
        if self.prove_ne0(st, t):
            return False
        return self.assume_le0(st, t) and self.assume_le0(st, scale(t, -1))

    def assume_ne0(self, st, t):
        cst, d = self.lin(t)
        if not d:
            return cst != 0
        if self.prove_eq0(st, t):
            return False
        hk, s = homog(d)
        if cst % s:
            return True
        v = -(cst // s)
        st.ne = st.ne | {(hk, v)}
        lo, hi = self.bounds(st, lin(0, dict(hk)))
        l0, h0 = st.iv.get(hk, (None, None))
        ch = False
        while lo is not None and (hk, lo) in st.ne:
            lo += 1
            l0 = lo
            ch = True
        while hi is not None and (hk, hi) in st.ne:
            hi -= 1
            h0 = hi
            ch = True
        if ch:
            if lo is not None and hi is not None and lo > hi:
                return False
            st.iv[hk] = (l0 if l0 is None or lo is None else max(lo, l0), h0 if h0 is None or hi is None else min(hi, h0))
        return True
