"""P31: zlib streams: bounds, complete input, complete output, one release per initialisation."""
from common import *

EXPLANATION = (
    "Every function that drives zlib is abstractly interpreted; a zlib call records the stream's input and output window at that moment and "
    "replaces the fields zlib may change by fresh unknowns. At every deflate/inflate the output window must lie inside the destination and the "
    "input window be the whole of the pending input (or what an earlier call left of it), by the path's symbolic sizes and the loops' inductive "
    "values. A typestate analysis relates the object's state flag to the stream being initialised at entry and exit of every method.")
ASSUMPTIONS = ["buffers are smaller than 4 GiB and chunk sizes at least 2", "zlib writes only inside the output window it is given, reports what is left of it, "
               "and returns Z_OK from a finishing deflate only while output is left", "memory is not exhausted"]
RULES = {
    "window": "the output window lies inside the destination buffer, starts where the output so far ends, and is not empty",
    "input": "the input window is the whole pending input, or what the previous call left of it",
    "consumed": "pending input is dropped only after the compressor has taken all of it (or failed)",
    "finished": "the stream is finished (until deflate stops returning Z_OK) before it is ended for a result",
    "result": "the result is the destination's start and the total output",
    "pairing": "every successful initialisation is matched by exactly one end, and the state flag says whether a stream is live",
    "appended": "Append adds exactly its arguments, in order, to the pending input",
    "status": "success is returned exactly when the stream ended, with the output length set",
    "clean": "a stream that is initialised starts without pending input",
    "format": "streams are initialised for the gzip format",
    "known": "every use of zlib is one of the analysed ones",
}
CB = 'spectator::CompressedBuffer'
INITS = {'deflateInit2_': 'd', 'deflateInit_': 'd', 'inflateInit2_': 'i', 'inflateInit_': 'i'}
ENDS = {'deflateEnd': 'd', 'inflateEnd': 'i'}
RUNS = {'deflate': 'd', 'inflate': 'i'}
ZFNS = set(INITS) | set(ENDS) | set(RUNS)
OUTF = ('next_in', 'avail_in', 'next_out', 'avail_out', 'total_in', 'total_out')


def base(lv):
    """(root, path of the buffer, offset)"""
    if lv is None or lv[0] != 'lv':
        return None
    p = lv[2]
    if p and isinstance(p[-1], tuple) and p[-1][0] == 'i':
        return lv[1], p[:-1], p[-1][1]
    return lv[1], p, Z


class ZC(Client):
    def __init__(self):
        self.snaps = []     # recorded deflate/inflate calls
        self.rets = {}      # return atom -> flush argument

    def fresh(self, I, what, lo=0, hi=(1 << 32) - 1):
        I.n += 1
        t = ('zo', what, I.n)
        I.dom.ranges[t] = (lo, hi)
        return t

    def fld(self, I, st, lv, f):
        v = I.raw(st, lv[1], lv[2] + (f,))
        if v is not None and f.startswith('avail'):
            I.dom.ranges.setdefault(v, (0, (1 << 32) - 1))
        return v

    def access(self, I, st, root, path, write, fr, node):
        if write and self.zlv(st) is not None:
            z = self.zlv(st)
            st.event('zacc', root, path, self.fld(I, st, z, 'avail_in'), self.fld(I, st, z, 'next_in'), I.truth(st, I.le(self.fld(I, st, z, 'avail_in'), Z)))

    def zlv(self, st):
        return getattr(self, 'member', None)

    def call(self, I, fn, obj, args, st, fr, node):
        q = fn.name
        if q not in ZFNS or fn.m:
            return None
        p = I.rval(st, args[0], fn.pt[0])
        lv = I.deref(p)
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        vals = tuple(I.rval(st, a, t) for a, t in zip(args[1:], fn.pt[1:]))
        if q in INITS:
            s2 = st.clone()
            s2.event('zinit', p, q, vals, loc, True)
            for x in ('total_out', 'total_in'):
                I.store(s2, lv[1], lv[2] + (x,), Z)
            st.event('zinit', p, q, vals, loc, False)
            t = ('zret', q, self.count(I))
            I.dom.ranges[t] = (-6, 6)
            I.assume(st, I.eq(t, Z), False)
            return [(s2, Z), (st, t)]
        if q in ENDS:
            st.event('zend', p, q, loc)
            t = ('zret', q, self.count(I))
            I.dom.ranges[t] = (-6, 0)
            return [(st, t)]
        before = {x: self.fld(I, st, lv, x) for x in OUTF}
        b = base(I.deref(before['next_out'])) if before['next_out'] is not None and before['next_out'][0] in ('addr', 'lin', 'init') else None
        nin = before['next_in']
        bi = base(I.deref(nin)) if nin is not None and nin[0] in ('addr', 'lin') else None
        from models import container_size, vterm, vsize
        osz = vsize(vterm(I, st, ('lv', b[0], b[1]))) if b is not None and b[0][0] == 'this' else None
        isz = vsize(vterm(I, st, ('lv', bi[0], bi[1]))) if bi is not None and bi[0][0] == 'this' else None
        t = ('zret', q, self.count(I))
        I.dom.ranges[t] = (-6, 6)
        self.rets[t] = vals[-1]
        room = I.truth(st, I.le(ONE, before['avail_out']))
        if room is not True:
            # no width conversion loses anything: positions stay inside buffers
            s2, nn = st.clone(), [Z]
            cs = [(cd, v) for cd, v in st.conds() if cd[0] in ('le0', 'eq0')]
            for t_ in [cd for cd, _ in cs] + [before['avail_out']]:
                for x in subterms(t_):
                    if isinstance(x, tuple) and x and x[0] == 'cast' and not x[2]:
                        I.assume(s2, I.le(Z, decast(x[3])), True)
                        nn.append(decast(x[3]))
            for cd, v in cs:
                I.assume(s2, (cd[0], decast(cd[1])), v)
            av = decast(before['avail_out'])
            room = any(I.truth(s2, I.le(ONE, sub(scale(av, k), u))) is True for k in (1, 2, 4) for u in nn) or I.truth(s2, I.le(ONE, av))
        if q == 'inflate' and vals[-1] == c(4):
            # a finishing inflate that is not done returns Z_BUF_ERROR
            I.assume(st, I.eq(t, Z), False)
        st.event('zrun', p, q, vals, loc, t)
        if not I.quiet:
            self.snaps.append(dict(before=before, out=b, inb=bi, osz=osz, isz=isz, loc=loc, q=q, flush=vals[-1], p=p, room=room, path=pathstr(st), st=st.clone(), ret=t))
        for x in OUTF:
            I.store(st, lv[1], lv[2] + (x,), self.fresh(I, x))
        return [(st, t)]

    def count(self, I):
        I.n += 1
        return I.n


def live_after(st, live):
    """(live at the end, problem)"""
    bad = None
    for e in st.events():
        if e[0] == 'zinit' and e[5]:
            if live:
                bad = bad or "a stream is initialised at %s while another is live: it leaks" % e[4]
            live = True
        elif e[0] == 'zend':
            if not live:
                bad = bad or "%s at %s without a live stream" % (e[2], e[3])
            live = False
        elif e[0] == 'zrun' and not live:
            bad = bad or "%s at %s without a live stream" % (e[2], e[4])
    return live, bad


def known(t):
    """a difference between sizes and positions this analysis knows"""
    return all(x[0] in ('init', 'lp', 'zo', 'size', 'idiv', 'svn', 'c') for x, _ in (t[2] if t[0] == 'lin' else [] if isc(t) else [(t, 1)]))


class Run:
    """one function interpreted once"""

    def __init__(self, ctx, fn, flags=None, val=None, member=None):
        self.ctx, self.fn, self.cl = ctx, fn, ZC()
        self.cl.member = member
        self.w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        self.sizes = []
        I0 = Interp(ctx.prog, self.cl)

        def setup(st, av):
            for f_ in flags or ():
                I0.store(st, ('this', fn.rect.rec), (f_,), c(val))
            if fn.rect is not None and fn.rect.rec == CB:
                for n_, T in ctx.prog.record(CB).ft.items():
                    a = ('init', ('this', CB), (n_,))
                    if T.k == 'int' and n_ not in (flags or ()):
                        I0.dom.ranges[a] = (0, (1 << 31))
                        # chunk sizes: integers the methods never write
                        if n_ in self.config(ctx):
                            I0.dom.ranges[a] = (2, 1 << 31)
                            I0.dom.ranges[('idiv', a, c(2))] = (1, 1 << 30)
        self.res = I0.run(fn, setup=setup)
        self.I = I0
        ctx.fn(fn)
        ctx.paths += len(self.res)
        ctx.calls += I0.ncalls

    cfg = None

    def config(self, ctx):
        if Run.cfg is None:
            w = set()
            for m in ctx.prog.fns.values():
                if m.body is None or m.rect is None or m.rect.rec != CB or m.ctor:
                    continue
                for n in ctx.prog.walk(m.body):
                    if n.get('k') in ('CAsg',) or (n.get('k') == 'Bin' and n.get('op') == '=') or (n.get('k') == 'Un' and n.get('op', '').startswith(('++', '--'))):
                        x = n.get('a') or n.get('e') or {}
                        if x.get('k') == 'Mem':
                            w.add(x.get('f'))
            Run.cfg = set(n for n, T in ctx.prog.record(CB).ft.items() if T.k == 'int' and n not in w)
        return Run.cfg

    def pairs(self, v, seen=()):
        """the values (from entries and back edges) that a loop atom stands for: [(value, state)]"""
        if not (v[0] == 'lp') or v in seen or v[1] not in self.I.loops:
            return [(v, None)]
        L = self.I.loops[v[1]]
        out = []
        for s in [L['entry']] + L['backs']:
            x = self.I.raw(s, v[2], v[3])
            out += [(a, b or s) for a, b in self.pairs(x, seen + (v,))]
        return out

    def err(self, v, flush=None):
        """is this value the return code of zlib runs (with this flush), or Z_OK where none ran?"""
        for x, _ in self.pairs(v):
            if x in self.cl.rets:
                if flush is not None and self.cl.rets[x] != c(flush):
                    return False
            elif x != Z and x[0] != 'lp':
                return False
        return True

    def failed(self, st, flush=None):
        """a condition of the path says that a zlib run did not return Z_OK"""
        for t, v in st.conds():
            if t[0] == 'eq0':
                x = t[1]
                if x[0] in ('zret', 'lp') and v is False and self.err(x, flush):
                    return True
                if x[0] == 'lin' and len(x[2]) == 1 and x[1] != 0 and v is True and self.err(x[2][0][0], flush):
                    return True
            if t[0] == 'le0':
                ats = [a for a, _ in (t[1][2] if t[1][0] == 'lin' else [(t[1], 1)])]
                if len(ats) == 1 and self.err(ats[0], flush) and self.I.truth(st, self.I.eq(ats[0], Z)) is False:
                    return True
        return False


def total(r, k, tot, cursors, seen=(), st=None):
    """does k always equal the stream's total output?"""
    k, tot = decast(k), decast(tot)
    if k == tot:
        return True
    if k[0] == 'init' and k[1][0] == 'this' and len(k[2]) == 1 and tot[0] == 'init':
        cursors.add(k[2][0])
        return True
    if isc(k) and isc(tot):
        return False
    if k[0] == 'lp' and (k[1], k) not in seen:
        L = r.I.loops.get(k[1])
        if L is None:
            return None
        tk = tot if tot[0] == 'lp' and tot[1] == k[1] else None
        z = r.cl.member
        if tk is None and not (tot[0] == 'init' or isc(tot)):
            return None
        rs = [total(r, r.I.raw(s, k[2], k[3]), r.I.raw(s, tk[2], tk[3]) if tk is not None else tot, cursors, seen + ((k[1], k),)) for s in [L['entry']] + L['backs']]
        return True if all(x is True for x in rs) else None if any(x is None for x in rs) else False
    return False if known(k) and known(tot) else None


def whole(r, s):
    """input window: pairs (pointer, length) that are the whole buffer or left over by zlib"""
    p, n = s['before']['next_in'], s['before']['avail_in']
    return whole2(r, s['st'], p, n, ())


def whole2(r, st, p, n, seen):
    from models import vsize, vterm
    if p[0] == 'zo' and n[0] == 'zo':
        return abs(p[2] - n[2]) == 1 or False
    if p[0] == 'lp' or n[0] == 'lp':
        lid = p[1] if p[0] == 'lp' else n[1]
        if (lid, p, n) in seen:
            return True
        L = r.I.loops.get(lid)
        if L is None:
            return None
        rs = []
        for s in [L['entry']] + L['backs']:
            pp = r.I.raw(s, p[2], p[3]) if p[0] == 'lp' and p[1] == lid else p
            nn = r.I.raw(s, n[2], n[3]) if n[0] == 'lp' and n[1] == lid else n
            rs.append(whole2(r, s, pp, nn, seen + ((lid, p, n),)))
        return True if all(x is True for x in rs) else False if any(x is False for x in rs) else None
    if p[0] == 'init' and n[0] == 'init' and p[1][0] == 'this':
        return None
    if p[0] in ('addr', 'lin'):
        b = base(r.I.deref(p))
        if b is not None and b[0][0] == 'this':
            sz = vsize(vterm(r.I, st, ('lv', b[0], b[1])))
            d = decast(sub(sz, add(b[2], decast(n))))
            return True if d == Z and b[2] == Z else False if known(d) else None
    return None


def buffers(ctx):
    P = ctx.prog
    rec = P.record(CB)
    this = ('this', CB)
    flags = [n for n, T in rec.ft.items() if T.k == 'bool' or (T.k == 'int' and T.w == 1)]
    zs = [n for n, T in rec.ft.items() if T.k == 'rec' and 'z_stream' in T.rec]
    if len(zs) != 1 or not flags:
        ctx.und("pairing", CB, "no single stream member with a state flag")
        return set()
    member = ('lv', this, (zs[0],))
    ms = [m for m in P.fns.values() if m.body is not None and m.rect is not None and m.rect.rec == CB and not m.ctor and not m.lam]
    analysed = set()
    runs = []
    for m in ms:
        for val in (0, 1):
            if m.name == 'Append' and not val:
                continue    # only after Init
            runs.append((m, val, Run(ctx, m, flags, val, member)))
            analysed |= runs[-1][2].I.analysed
    # which methods are entry points: not called from inside the class only
    priv = inner(ctx, ms)
    inb, outb, cursors = set(), set(), set()
    for m, val, r in runs:
        for s in r.cl.snaps:
            for v, _ in r.pairs(s['before']['next_in']):
                b = base(r.I.deref(v)) if v[0] in ('addr', 'lin') else None
                if b is not None and b[0] == this:
                    inb.add(b[1])
            if s['out'] is not None:
                outb.add(s['out'][1])
    nrun = 0
    for m, val, r in runs:
        if m.key in priv:
            continue
        w = r.w
        for s in r.cl.snaps:
            nrun += 1
            at = "%s called from %s" % (s['q'], w)
            if s['out'] is None or s['osz'] is None:
                ctx.und("window", s['loc'], "%s: the output window starts at %s" % (at, show(s['before']['next_out'] or Z)))
            else:
                k = decast(s['out'][2])
                av = decast(s['before']['avail_out'])
                d = decast(sub(s['osz'], add(k, av)))
                ok = d == Z or r.I.truth(s['st'], r.I.le(Z, d)) is True
                ctx.check(True if ok else False if known(d) else None, "window", s['loc'],
                          "%s: the window of %s bytes at %s exceeds the buffer of %s bytes" % (at, show(av), show(k), show(s['osz'])))
                tt = total(r, k, s['before']['total_out'], cursors)
                ctx.check(tt, "window", s['loc'], "%s: output is written at %s, not behind the %s bytes written so far" % (at, show(k), show(s['before']['total_out'])))
                lv, prob = live_after(s['st'], bool(val))
                if prob:
                    ctx.bad("pairing", s['loc'], prob + " (in %s)" % w)
                ctx.check(True if s['room'] is True else False if known(av) else None, "window", s['loc'], "%s: the output window may be empty: the stream would be cut off (path %s)" % (at, s['path']))
            ctx.check(whole(r, s), "input", s['loc'], "%s: the input window is %s bytes at %s" % (at, show(s['before']['avail_in']), show(s['before']['next_in'])))
        for st, fl in r.res:
            if fl[0] == 'E':
                continue
            live0 = bool(val)
            live, prob = live_after(st, live0)
            fv = [r.I.raw(st, this, (f_,)) for f_ in flags]
            path = pathstr(st)
            if prob:
                ctx.bad("pairing", w, prob + " (path %s)" % path)
            if m.dtor:
                ctx.check(not live, "pairing", w, "the stream is still live when the object goes away (path %s)" % path)
            else:
                fl_ = fv[0] if len(fv) == 1 else None
                ctx.check(None if fl_ is None or not isc(fl_) else bool(fl_[1]) == live, "pairing", w,
                          "the flag is %s and the stream is %s at the end (%s, path %s)" % (show(fl_ or Z), "live" if live else "not live", "exception" if fl[0] == 'X' else "return", path))
            ctx.anchor("method exits", 1)
            # dropped input
            lv, last = live0, None
            evs = st.events()
            for i, e in enumerate(evs):
                if e[0] == 'zinit' and e[5]:
                    lv = True
                elif e[0] == 'zend':
                    lv = False
                    again = any(x[0] == 'zinit' for x in evs[i:])
                    if not again and not m.dtor:
                        ok = r.failed(st, 4)
                        ctx.check(True if ok else (None if hidden(st) else False), "finished", e[3],
                                  "%s: the stream is ended although the finishing deflate may not be done (path %s)" % (w, path))
                elif e[0] == 'zacc':
                    last = e
                elif e[0] in ('clear', 'resize', 'pop') and e[1][0] == 'addr' and e[1][1] == this and e[1][2] in inb and lv:
                    if e[0] != 'clear' and not (e[0] == 'resize' and e[2] == Z):
                        ctx.und("consumed", w, "the pending input is changed by %s" % e[0])
                        continue
                    start = max([j for j, x in enumerate(evs[:i]) if x[0] == 'zinit' and x[5]], default=None)
                    if start is not None and not any(x[0] in ('push', 'append', 'loop', 'call', 'pcall') for x in evs[start:i]):
                        continue    # of an earlier payload: nothing was appended to this one yet
                    z = last
                    ok = False
                    if z is not None and z[3] is not None:
                        origin = whole2(r, st, z[4], z[3], ()) if z[3][0] in ('zo', 'lp') else (True if z[5] is True else None)
                        fresh = any(x[0] in ('zrun', 'loop') for x in evs[:i])
                        gone = z[5] is True or r.I.truth(st, r.I.le(z[3], Z)) is True or r.failed(st)
                        stale = z[3][0] == 'init'
                        ok = False if stale or not fresh or not gone else origin
                        if ok is False and hidden(st):
                            ok = None
                    ctx.check(ok, "consumed", e[-1], "%s: pending input is dropped although the compressor may not have taken it (path %s)" % (w, path))
                    ctx.anchor("input cleared", 1)
            for b in inb:
                t = st.mem.get((this, b))
                while t is not None and t[0] in ('vpush', 'vapp'):
                    t = t[1]
                if t is not None and t[0] not in ('vec0', 'init', 'lp', 'vecn') and not m.dtor:
                    ctx.und("consumed", w, "the pending input becomes %s" % show(t))
            # output never shrinks while a stream is live
            if m.name == 'Append' and fl[0] == 'R':
                got = [(e[2],) if e[0] == 'push' else (e[2], e[3]) for e in evs if e[0] in ('push', 'append') and e[1][0] == 'addr' and e[1][1] == this and e[1][2] in inb]
                exp = []
                for i, p in enumerate(m.ps):
                    T = m.tu.types[p["t"]].noref()
                    a = ('init', ('p', p["n"]), ())
                    exp.append((a,) if T.k == 'int' else (('svp', a), ('svn', a)))
                norm = lambda q: tuple(decast(x) for x in q)
                ok = [norm(x) for x in got] == [norm(x) for x in exp]
                if not ok:
                    lids = any(e[0] == 'loop' for e in evs) and not got
                    lids = lids or any(e[0] == 'call' and e[2] is not None and e[2][0] == 'addr' and e[2][1] == this and e[2][2] in inb for e in evs)
                    ctx.check(None if hidden(st) or lids else False, "appended", w, "%d arguments, but %s is added (path %s)" % (len(m.ps), [tuple(show(x) for x in g) for g in got], path))
                else:
                    ctx.ok("appended", w, "%d arguments" % len(m.ps))
                ctx.anchor("Append paths", 1)
            if m.rt.k == 'rec' and val == 1 and fl[0] == 'R':
                v = fl[1]
                vals = [x for _, x in v[2]] if v[0] == 'agg' else None
                if vals is None or len(vals) != 2:
                    ctx.und("result", w, "result %s" % show(v))
                else:
                    tot = r.I.raw(st, this, (zs[0], 'total_out'))
                    b = base(r.I.deref(vals[0])) if vals[0][0] in ('addr', 'lin') else None
                    okd = b is not None and b[1] in outb and b[2] == Z
                    okn = total(r, vals[1], tot, set())
                    ctx.check(okn if okd else (False if b is not None else None), "result", w, "the result is %s bytes at %s after %s bytes of output (path %s)" % (show(vals[1]), show(vals[0]), show(tot), path))
                    ctx.anchor("results", 1)
    # cursors follow the total output across methods
    for m, val, r in runs:
        if m.key in priv or m.dtor:
            continue
        for st, fl in r.res:
            if fl[0] == 'E':
                continue
            live, _ = live_after(st, bool(val))
            if not live:
                continue
            for k in sorted(cursors):
                tt = total(r, r.I.raw(st, this, (k,)), r.I.raw(st, this, (zs[0], 'total_out')), set())
                ctx.check(tt, "window", r.w, "%s is %s when the method returns with %s bytes of output" % (k, show(r.I.raw(st, this, (k,))), show(r.I.raw(st, this, (zs[0], 'total_out')))))
    for m, val, r in runs:
        for st, fl in r.res:
            for e in st.events():
                if e[0] == 'resize' and e[1][0] == 'addr' and e[1][1] == this and e[1][2] in outb and not m.ctor:
                    pass
    ctx.need("calls of deflate", nrun, 1)
    clean(ctx, runs, priv, inb)
    for m, val, r in runs:
        endless(ctx, r)
    fmt(ctx, [r for _, _, r in runs])
    return analysed


def endless(ctx, r):
    """whether a loop that runs zlib goes on must depend on what it does"""
    for lid, L in r.I.loops.items():
        n0 = len(L['head'].conds())
        for b in L['backs']:
            ev = after_loop(b, lid)
            if not any(e[0] == 'zrun' for e in ev):
                continue
            alts = b.alternatives()
            for cs in alts or [b.conds()]:
                dep = [t for t, v in cs[n0:] if any(isinstance(x, tuple) and x and (x[0] == 'lp' and x[1] == lid or x[0] not in ('init', 'c', 'lin', 'eq0', 'le0', 'not', 'cast')) for x in subterms(t) if isinstance(x, tuple) and x and isinstance(x[0], str))]
                ctx.check(True if dep else None if alts is None or hidden(b) else False, "finished", L['loc'], "the loop goes on whatever the compressor returns (path %s)" % [(show(t)[:60], v) for t, v in cs[n0:]])
            ctx.anchor("iterations that run zlib", 1)


def clean(ctx, runs, priv, inb):
    """nothing of an earlier payload is in front of a new one"""
    from models import vsize, vterm
    this = ('this', CB)

    def empty(r, st, b):
        t = decast(vsize(vterm(r.I, st, ('lv', this, b))))
        if t == Z or r.I.truth(st, r.I.le(t, Z)) is True:
            return True
        return False if t[0] in ('size', 'init') and t == decast(vsize(('init', this, b))) else None
    dirty = set()   # buffers that hold input while no stream is live
    for m, val, r in runs:
        if m.key in priv or m.dtor:
            continue
        for st, fl in r.res:
            if fl[0] == 'E' or live_after(st, bool(val))[0]:
                continue
            if val == 0 and not any(e[0] in ('zinit', 'zend') for e in st.events()):
                continue    # as it was
            for b in inb:
                if empty(r, st, b) is not True:
                    dirty.add(b)
    for m, val, r in runs:
        if m.key in priv or m.dtor:
            continue
        for st, fl in r.res:
            if fl[0] == 'E' or not any(e[0] == 'zinit' and e[5] for e in st.events()) or not live_after(st, bool(val))[0]:
                continue
            for b in sorted(inb):
                if not val and b not in dirty:
                    continue
                ok = empty(r, st, b)
                ctx.check(None if ok is False and hidden(st) else ok, "clean", r.w, "a stream is initialised while the input of an earlier payload may be pending (path %s)" % pathstr(st))
                ctx.anchor("initialised streams", 1)


def inner(ctx, ms):
    return {m.key for m in ms if m.acc != 'pub'}


def fmt(ctx, runs):
    n = 0
    for r in runs:
        for st, fl in r.res:
            for e in st.events():
                if e[0] == 'zinit':
                    d = INITS[e[2]] == 'd'
                    wb = e[3][2 if d else 0] if e[2].endswith('2_') else None
                    n += 1
                    if wb is None:
                        ctx.bad("format", e[4], "%s initialises a zlib stream, not a gzip one" % e[2])
                    else:
                        ctx.check(None if not isc(wb) else (25 <= wb[1] <= 31 if d else 24 <= wb[1] <= 47), "format", e[4], "window bits %s: not the gzip format" % show(wb))
    return n


def oneshot(ctx):
    done = set()
    for qn, inout in (('spectator::gzip_compress', 'd'), ('spectator::gzip_uncompress', 'i')):
        fs = ctx.prog.bodies(qn)
        if not fs:
            ctx.und("status", qn, "no such function")
            continue
        fn = fs[0]
        r = Run(ctx, fn)
        done |= r.I.analysed
        w = r.w
        P = [('init', ('p', p["n"]), ()) for p in fn.ps]
        lenlv = r.I.deref(P[1])
        len0 = ('init', lenlv[1], lenlv[2])
        for s in r.cl.snaps:
            b = s['before']
            at = "%s in %s" % (s['q'], w)
            ctx.check(b['next_out'] == P[0], "window", s['loc'], "%s: the output is %s" % (at, show(b['next_out'])))
            ctx.check(decast(b['avail_out']) == decast(len0), "window", s['loc'], "%s: room for %s bytes instead of %s" % (at, show(b['avail_out']), show(len0)))
            ctx.check(b['next_in'] == P[2] and decast(b['avail_in']) == P[3], "input", s['loc'], "%s: the input is %s bytes at %s" % (at, show(b['avail_in']), show(b['next_in'])))
            ctx.check(None if not isc(s['flush']) else s['flush'] == c(4), "finished", s['loc'], "%s: flush %s does not finish the stream" % (at, show(s['flush'])))
        n = 0
        for st, fl in r.res:
            if fl[0] != 'R':
                continue
            n += 1
            path = pathstr(st)
            live, prob = live_after(st, False)
            if prob:
                ctx.bad("pairing", w, prob + " (path %s)" % path)
            ctx.check(not live, "pairing", w, "the stream is not ended (path %s)" % path)
            rets = [e[5] for e in st.events() if e[0] == 'zrun']
            if any(e[0] == 'zinit' and e[5] for e in st.events()) and not rets and not any(e[0] == 'loop' for e in st.events()):
                ctx.check(None if hidden(st) else False, "status", w, "the stream is initialised, but nothing is put through it (path %s)" % path)
            ended = any(r.I.truth(st, r.I.eq(t, ONE)) is True for t in rets)
            notended = all(r.I.truth(st, r.I.eq(t, ONE)) is False for t in rets)
            out = r.I.raw(st, lenlv[1], lenlv[2])
            z = r.I.truth(st, r.I.eq(fl[1], Z))
            if ended:
                tot = [k for k in st.mem if k[1][-1:] == ('total_out',)]
                ctx.check(any(decast(out) == decast(st.mem[k]) for k in tot) if tot else decast(out)[0] == 'zo' and decast(out)[1] == 'total_out', "status", w,
                          "the stream ended but the length returned is %s (path %s)" % (show(out), path))
                ctx.check(z is not False, "status", w, "the stream ended but %s is returned (path %s)" % (show(fl[1]), path))
            elif notended:
                ctx.check(True if z is False else False if z is True or fl[1] in rets or (fl[1][0] == 'zret') else None, "status", w, "the stream did not end but %s is returned (path %s)" % (show(fl[1]), path))
            else:
                ctx.und("status", w, "it is not known whether the stream ended (path %s)" % path)
        ctx.need("paths of %s" % qn, n, 2)
        fmt(ctx, [r])
    return done


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    Run.cfg = None
    done = buffers(ctx) | oneshot(ctx)
    n = 0
    for f_ in ctx.prog.fns.values():
        if f_.body is None:
            continue
        for x in ctx.prog.walk(f_.body):
            if x.get('k') == 'Call' and x.get('fn') is not None and f_.tu.fns[x['fn']].name in ZFNS:
                n += 1
                ctx.check(True if f_.key in done else None, "known", "%s (%s)" % (f_.qn, f_.tu.loc(x.get('l'))), "a call of zlib that no analysed function reaches")
    ctx.need("zlib call sites", n, 3)
