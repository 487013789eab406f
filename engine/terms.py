"""Abstract values: canonical terms (value numbers), linear integer forms, float polynomials."""
from fractions import Fraction
import math

Z = ('c', 0)
ONE = ('c', 1)


def c(n):
    return ('c', int(n))


def isc(t):
    return t[0] == 'c'


_key_cache = {}


def key(t):
    k = _key_cache.get(t)
    if k is None:
        k = _key_cache[t] = repr(t)
    return k


# ---------------------------------------------------------------- integers
def lin_of(t):
    """term -> (const, {atom: coef})"""
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def lin(const, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return ('c', const)
    if const == 0 and len(d) == 1:
        a, k = next(iter(d.items()))
        if k == 1:
            return a
    return ('lin', const, tuple(sorted(d.items(), key=lambda x: key(x[0]))))


def add(a, b, s=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + s * k
    # addresses into the same object: their difference is one of offsets
    return lin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    ca, da = lin_of(a)
    return lin(ca * n, {t: k * n for t, k in da.items()})


# ---------------------------------------------------------------- floats: polynomials over atoms
def f(x):
    x = float(x)
    if math.isnan(x):
        return ('f', 'nan')
    return ('f', x)


def isf(t):
    return t[0] == 'f'


def rnd(x):
    if x == 0 or math.isinf(x) or math.isnan(x):
        return x
    return float('%.13g' % x)


def poly_of(t):
    """-> {monomial: coef}, monomial = ((atom, exp), ...) ; None if it has a non-finite constant"""
    if t[0] == 'c':
        return {(): float(t[1])} if t[1] else {}
    if t[0] == 'f':
        if t[1] == 'nan' or math.isinf(t[1]):
            return None
        return {(): t[1]} if t[1] else {}
    if t[0] == 'poly':
        return dict(t[1])
    if t[0] == 'lin':
        r = {((a, 1),): float(k) for a, k in t[2]}
        if t[1]:
            r[()] = float(t[1])
        return r
    return {((t, 1),): 1.0}


def poly(d):
    d = {m: rnd(k) for m, k in d.items() if k != 0}
    if not d:
        return ('f', 0.0)
    if len(d) == 1:
        m, k = next(iter(d.items()))
        if m == ():
            return ('f', k)
        if k == 1.0 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(d.items(), key=lambda x: key(x[0]))))


def _mm(a, b):
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: key(x[0])))


def fadd(a, b, s=1):
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        if a == ('f', 'nan') or b == ('f', 'nan'):
            return ('f', 'nan')
        return ('fop', '+' if s > 0 else '-', a, b)
    d = dict(pa)
    for m, k in pb.items():
        d[m] = d.get(m, 0.0) + s * k
    return poly(d)


def fmul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return ('fop', '*', a, b)
    d = {}
    for ma, ka in pa.items():
        for mb, kb in pb.items():
            m = _mm(ma, mb)
            d[m] = d.get(m, 0.0) + ka * kb
    return poly(d)


def fdiv(a, b):
    pb = poly_of(b)
    pa = poly_of(a)
    if pa is None or pb is None or len(pb) != 1:
        if pb is not None and len(pb) > 1 and pa is not None:
            # divide by an atom standing for the sum
            return fmul(a, ('inv', poly(pb)))
        return ('fop', '/', a, b)
    (mb, kb), = pb.items()
    inv = {tuple((t, -e) for t, e in mb): 1.0 / kb}
    d = {}
    for ma, ka in pa.items():
        m = _mm(ma, next(iter(inv)))
        d[m] = d.get(m, 0.0) + ka / kb
    return poly(d)


def same_float(a, b, tol=1e-9):
    """equality of two float terms up to rounding of their coefficients"""
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return a == b
    if set(pa) != set(pb):
        return False
    return all(abs(pa[m] - pb[m]) <= tol * max(abs(pa[m]), abs(pb[m])) for m in pa)


# ---------------------------------------------------------------- helpers
def show(t, depth=6):
    """human readable"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth <= 0:
        return '..'
    k = t[0]
    s = lambda x: show(x, depth - 1)
    if k == 'c':
        return str(t[1])
    if k == 'f':
        return repr(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'lin':
        r = ' + '.join((s(a) if q == 1 else '%d*%s' % (q, s(a))) for a, q in t[2])
        return r + (' %+d' % t[1] if t[1] else '')
    if k == 'poly':
        return ' + '.join(('%g' % q) + ''.join('*%s%s' % (s(a), '' if e == 1 else '^%d' % e) for a, e in m) for m, q in t[1])
    if k == 'le0':
        return s(t[1]) + ' <= 0'
    if k == 'eq0':
        return s(t[1]) + ' == 0'
    if k == 'sym':
        return '%s#%s' % (t[1], t[2])
    if k == 'ret':
        return '%s()#%s' % (t[1].split('::')[-1], t[2])
    if k == 'init':
        return loc_str(t[1], t[2])
    if k == 'addr':
        return '&' + loc_str(t[1], t[2])
    if k == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(s(x) for x in t[2:]))
    if k == 'agg':
        return '{%s}' % ', '.join('%s=%s' % ('.'.join(map(str, p)), s(v)) for p, v in t[2])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def loc_str(root, path):
    if root[0] == 'this':
        r = 'this'
    elif root[0] in ('g', 'p', 'lit'):
        r = str(root[1])
    elif root[0] == 'v':
        r = 'v%s.%s' % (root[1], root[2])
    elif root[0] == 'mem':
        r = '*' + show(root[1], 4)
    else:
        r = str(root[0]) + (str(root[1]) if len(root) > 1 and not isinstance(root[1], tuple) else '')
    for e in path:
        if isinstance(e, tuple) and e[0] == 'i':
            r += '[%s]' % show(e[1], 3)
        else:
            r += '.' + str(e)
    return r


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, u):
    return any(x == u for x in subterms(t))
