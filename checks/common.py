"""Clients and small helpers shared by the checks."""
from lib import *
from absint import Interp, Client
from dom import State
from terms import *
import terms


class Rec(Client):
    """calls that satisfy pred are not entered: they are recorded as ('op', fn, object address, argument values, result, where)"""

    def __init__(self, pred, inline=None):
        self.pred, self.inl = pred, inline

    def inline(self, fn):
        return True if self.inl is None else self.inl(fn)

    def call(self, I, fn, obj, args, st, fr, node):
        if not self.pred(fn):
            return None
        pts = list(fn.pt) + [None] * max(0, len(args) - len(fn.pt))
        vals = tuple(I.argval(st, a, p) for a, p in zip(args, pts))
        I.n += 1
        t = ('ret', fn.qn, I.n)
        I.typed(t, fn.rt)
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        st.event('op', fn, I.addr(obj[1], obj[2]) if obj is not None else None, vals, t, loc)
        for a, p in zip(args, pts):
            if p is not None and p.k == 'ref' and a[0] == 'lv' and not p.to.const and '&&' not in p.s:
                I.havoc(st, a[1], a[2])
        if fn.ctor:
            I.store(st, obj[1], obj[2], ('new', fn.qn) + vals)
            return [(st, Z)]
        if fn.rt.k == 'ref':
            return [(st, I.deref(t))]
        return [(st, t)]


def ops(st, name=None):
    return [e for e in st.events() if e[0] == 'op' and (name is None or e[1].name == name or e[1].qn == name)]


def runfn(ctx, fn, client=None, **k):
    """[(state, flow)], interpreter; paths and calls counted"""
    I = Interp(ctx.prog, client, **{a: b for a, b in k.items() if a in ('model_tags',)})
    r = I.run(fn, **{a: b for a, b in k.items() if a not in ('model_tags',)})
    ctx.fn(fn)
    ctx.paths += len(r)
    ctx.calls += I.ncalls
    return r, I


def pathstr(st, n=12):
    return [(show(t), v) for t, v in st.conds()][-n:]


def after_loop(st, lid):
    ev = st.events()
    i = max([j for j, e in enumerate(ev) if e[0] == 'loop' and e[1] == lid], default=None)
    return ev[i:] if i is not None else []


def decast(t):
    """integer sum without its width conversions (sums that do not overflow)"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'cast':
        return decast(t[3])
    if t[0] == 'lin':
        r = c(t[1])
        for a, q in t[2]:
            r = add(r, scale(decast(a), q))
        return r
    return t


def hidden(st):
    """did the path call something that was not entered and may contain what a rule looks for?"""
    for e in st.events():
        if e[0] == 'pcall':
            return True
        if e[0] == 'call':
            qn = str(e[1])
            if qn == '(lambda)' or qn.startswith(('spectator', 'admin', 'util::', 'metatron')):
                return True
            for v in e[3] or ():
                if isinstance(v, tuple) and v and (v[0] == 'lam' or any(isinstance(x, tuple) and x and x[0] == 'lam' for x in subterms(v))):
                    return True
    return False


def seen(cond, st):
    """cond, but undecided instead of False where an unentered call may hide the answer"""
    return True if cond else (None if hidden(st) else False)
