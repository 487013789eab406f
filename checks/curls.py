"""What an HTTP attempt does: shared by P21 and P22."""
from common import *
from p19 import holds, number

HC = 'spectator::HttpClient'


class Curl(Rec):
    """libcurl calls recorded; what curl_easy_getinfo writes is a new value"""

    def __init__(self, keys=(), opts=True, opaque=()):
        self.keys = set(keys)
        self.opts, self.opaque = opts, opaque
        super().__init__(self.rec, lambda f: True)

    def rec(self, fn):
        return fn.qn.startswith('curl_') or fn.rect is not None and fn.rect.rec in self.opaque or fn.key in self.keys or fn.rect is not None and fn.rect.rec == 'spectator::PercentileTimer' or \
            'sleep' in fn.name or fn.name in ('PathFromUrl', 'find_certificate') or fn.rect is not None and fn.rect.rec == 'spectator::Registry'

    def call(self, I, fn, obj, args, st, fr, node):
        if fn.name == 'curl_easy_getinfo' and len(args) == 3:
            vals = tuple(I.rval(st, a, None) if a[0] == 'lv' else a for a in args)
            I.n += 1
            t = ('ret', 'curl_easy_getinfo', I.n)
            if vals[2][0] == 'addr':
                lv = I.deref(vals[2])
                I.store(st, lv[1], lv[2], t)
            st.event('op', fn, None, vals, t, fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?')
            return [(st, Z)]
        if fn.qn.startswith('curl_easy_'):
            vals = tuple(I.rval(st, a, None) if a[0] == 'lv' else a for a in args)
            I.n += 1
            t = ('ret', fn.qn, I.n)
            I.typed(t, fn.rt)
            if self.opts or fn.name != 'curl_easy_setopt':
                st.event('op', fn, None, vals, t, fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?')
            return [(st, t)]
        return super().call(I, fn, obj, args, st, fr, node)


def calls_of(P):
    """function key -> keys of the functions its body names"""
    out = {}
    for f in P.fns.values():
        if f.body is None or 'http_client' not in str(f.file):
            continue
        out[f.key] = {f.tu.fns[x['fn']].key for x in P.walk(f.body) if isinstance(x.get('fn'), int)}
    return out


def attempts(ctx):
    """[(function, recursive?)]: the HttpClient methods that make the attempts of one request"""
    P = ctx.prog
    cs = calls_of(P)
    perf = {f.key for f in P.fns.values() if f.qn == 'curl_easy_perform'}

    def reach(k):
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(cs.get(x, ()))
        return seen
    meth = [f for f in P.fns.values() if f.key in cs and f.rect is not None and f.rect.rec == HC and reach(f.key) & perf]
    ctx.need("methods that send requests", len(meth), 1)
    mk = {f.key for f in meth}
    rec = [f for f in meth if any(f.key in reach(g) for g in cs[f.key])]
    if rec:
        # of mutually recursive methods, the ones called from outside
        entry = [f for f in rec if any(f.key in cs[g.key] for g in meth if g not in rec)] or rec
        return [(f, True) for f in entry], meth, cs
    low = [f for f in meth if not (cs[f.key] & (mk - {f.key}))]
    loops = [f for f in meth if any(x.get('k') in ('While', 'Do', 'For') for x in P.walk(f.body))]
    top = [f for f in loops if reach(f.key) & {x.key for x in low}]
    return [(f, False) for f in (top or low)], meth, cs


class Seg:
    """one attempt: its conditions, events, number, and what follows"""

    def __init__(self, st, conds, events, att, nxt, val, pos):
        self.st, self.conds, self.events, self.att, self.next, self.val, self.pos = st, conds, events, att, nxt, val, pos

    def feasible(self, atom, space):
        ok = set(space)
        for t, v in self.conds:
            if not any(decast(z) == atom for z in subterms(t) if isinstance(z, tuple) and z):
                continue
            g = {z: holds(t, atom, z) for z in ok}
            if None in g.values():
                continue
            ok = {z for z in ok if g[z] == v}
        return ok

    def opaque_about(self, atom):
        """conditions about a value that are not understood"""
        return [t for t, v in self.conds if atom in subterms(t) and holds(t, atom, 0) is None]


def segments(ctx, fn, recursive, opts=True, opaque=()):
    """(segments, interpreter, problems)"""
    out, bad = [], []
    cl = Curl([fn.key] if recursive else [], opts, opaque)
    res, I = runfn(ctx, fn, cl)
    pos = [i for i, (d, T) in enumerate(zip(fn.ps, fn.pt)) if T.noref().k == 'int' and T.noref().w == 32]
    done = set()
    for st, fl in res:
        if fl[0] != 'R':
            if fl[0] != 'X':
                bad.append("left by %s" % fl[0])
            continue
        for cs in st.alternatives(4096) or [None]:
            if cs is None:
                bad.append("too many ways to one result")
                continue
            ev = st.events()
            lids = [e[1] for e in ev if e[0] == 'loop' and any(sends(x) for b in I.loops[e[1]]['backs'] for x in after_loop(b, e[1])[1:])]
            if not lids:
                out.append(Seg(st, cs, ev, [('init', ('p', fn.ps[i].get('n')), ()) for i in pos], [e for e in ev if e[0] == 'op' and e[1].key == fn.key], fl[1], pos))
                continue
            if recursive or len(lids) > 1:
                bad.append("requests are sent in a loop that is not understood")
                continue
            lid = lids[0]
            L = I.loops[lid]
            cells = []
            start = [('init', ('p', fn.ps[i].get('n')), ()) for i in pos]
            for k in L['W']:
                if k[0] == 'ref':
                    continue
                x, x0 = L['head'].mem.get(k), I.raw(L['entry'], *k)
                if x is not None and x[0] == 'lp' and x0 is not None and (isc(decast(x0)) or decast(x0) in start) and all(isc(sub(decast(I.raw(b, *k) or x), x)) or isc(decast(I.raw(b, *k) or x)) for b in L['backs']):
                    cells.append((k, x, decast(x0)))
            n0 = len(L['head'].conds())
            out.append(Seg(st, cs[n0:] if len(cs) > n0 else [], after_loop(st, lid)[1:], [x for k, x, x0 in cells if x0 == Z or x0 in start], [], fl[1], None))
            if lid not in done:
                done.add(lid)
                for b in L['backs']:
                    for bc in b.alternatives(4096) or [None]:
                        if bc is None:
                            bad.append("too many ways to one result")
                            continue
                        out.append(Seg(b, bc[n0:], after_loop(b, lid)[1:], [x for k, x, x0 in cells if x0 == Z or x0 in start], [('again', {x: I.raw(b, *k) for k, x, x0 in cells})], None, None))
                if not any(x0 == Z or x0 in start for _, _, x0 in cells):
                    bad.append("the number of the attempt is not recognised")
    return out, I, bad, res


def sends(e):
    return e[0] == 'op' and e[1].qn == 'curl_easy_perform'
