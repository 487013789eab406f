"""P25: the daemon's own meters are only updated when status metrics are enabled, and then with what they name."""
from common import *
from extract import Exhausted

EXPLANATION = (
    "The daemon's own meters are found from their names: every lookup with a literal name in its name space, every member initialised from such a lookup and every meter built "
    "from such an identifier. Each function that updates one is interpreted over all paths and loop iterations: every update must be on a path whose conditions imply that status "
    "metrics are enabled, where a condition on a parameter turns into an obligation on the argument of every call, and an update without any condition into one on the callers. "
    "On the paths where they are enabled, the updates of the listed sites must happen once and with the value their name states.")
ASSUMPTIONS = ["the flag does not change after start-up", "updates through pointers kept elsewhere than members, statics and locals are not followed"]
RULES = {
    "guard": "an own meter is updated only when status metrics are enabled",
    "occurs": "when enabled, every own meter is updated where its event occurs",
    "value": "an own meter is updated with the quantity it names",
    "config": "the HTTP client's flag is the configuration's",
}
METERS = ('Counter', 'MonotonicCounter', 'MonotonicCounterUint', 'MonotonicSampled', 'Gauge', 'MaxGauge', 'AgeGauge', 'DistributionSummary', 'Timer', 'PercentileTimer', 'PercentileDistributionSummary')
UPDATES = ('Increment', 'Add', 'Set', 'Record', 'Update', 'UpdateLastSuccess', 'SampledSet', 'MeasureTime')
FLAG = 'status_metrics_enabled'


def own(text):
    return isinstance(text, str) and text.startswith(('spectator.', 'spectatord.', 'ipc.client.call'))


def last(q):
    return str(q).split('::')[-1]


def isupdate(g):
    return g.rect is not None and last(g.rect.rec) in METERS and str(g.rect.rec).startswith('spectator::') and g.name in UPDATES


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    F = fields(P)
    ctx.anchor("members that are meters of the daemon's own", len(F))
    cands = []
    for f in P.fns.values():
        if f.body is None or f.rect is not None and last(f.rect.rec) in METERS or f.file.startswith('/usr') or f.lam:
            continue
        if any(isinstance(x.get('fn'), int) and isupdate(f.tu.fns[x['fn']]) for x in P.walk(f.body)):
            cands.append(f)
    ctx.need("functions that update meters", len(cands), 3)
    ctx.F, ctx.runs, ctx.called = F, {}, {}
    ctx.cands = {f.key for f in cands}
    for f in P.fns.values():
        if f.body is None:
            continue
        for x in P.walk(f.body):
            if isinstance(x.get('fn'), int):
                ctx.called.setdefault(f.tu.fns[x['fn']].key, {})[f.key] = f
    sites = set()
    for f in cands:
        function(ctx, f, sites)
    ctx.need("sites that update the daemon's own meters", len(sites), 3)
    never(ctx, sites)
    values(ctx)
    config(ctx)


# ---------------------------------------------------------------- which meters are the daemon's own
def texts(P, f, e, depth=0):
    """own names in the literals of an expression, or of the functions it calls"""
    out = set()
    tags = set()
    for x in P.walk(e):
        t = x.get('s') if x.get('k') == 'Str' else None
        if t is None and x.get('k') == 'Str':
            t = x.get('v')
        if own(t):
            out.add(t)
        elif isinstance(t, str):
            tags.add(t)
        if depth < 2 and isinstance(x.get('fn'), int):
            g = f.tu.fns[x['fn']]
            b = P.fns.get(g.key)
            if b is not None and b.body is not None and b.repo and not (b.rect is not None and last(b.rect.rec) in METERS + ('Registry', 'Id', 'Tags')):
                o, t2 = texts(P, b, b.body, depth + 1)
                out |= o
    return out, tags


def fields(P):
    """(class, member) -> (names, tags) of members initialised from an own meter"""
    out = {}
    for f in P.fns.values():
        if not f.ctor or f.rect is None or not f.inits or f.rect.rec.split('::')[-1] in METERS:
            continue
        for i in f.inits:
            if isinstance(i, dict) and i.get('f') and i.get('e') is not None:
                o, t = texts(P, f, i['e'])
                if o:
                    out[(f.rect.rec, i['f'])] = (sorted(o), sorted(t))
    for r in P.records.values():
        for i in r.fields:
            if isinstance(i, dict) and isinstance(i.get('i'), dict):
                fake = type('F', (), {'tu': r.tu})
                o, t = texts(P, fake, i['i'])
                if o:
                    out[(r.qn, i['n'])] = (sorted(o), sorted(t))
    return out


class Upd(Rec):
    """updates of meters and lookups of the registry, with their arguments; constructions of meters"""

    def __init__(self, top, cands, extra=()):
        self.top, self.extra, self.cands = top, extra, cands
        super().__init__(self.rec, self.inl_)

    def rec(self, g):
        return isupdate(g) or g.key in self.extra or g.rect is not None and g.rect.rec == 'spectator::Registry' and g.name.startswith('Get') and g.name not in ('GetConfig', 'GetLogger') \
            or g.qn == 'spectator::Id::Of'

    def inl_(self, g):
        if g.key == self.top.key or g.lam:
            return True
        if g.name in ('string_pool_stats', 'udp_info', 'expire'):
            return False
        if self.extra and not mentions_fn(self, g):
            return False
        if g.key in self.cands or not g.repo or g.body is None:
            return False
        if g.rect is not None and (last(g.rect.rec) in METERS or last(g.rect.rec) in ('Registry',)) and self.top.rect is not None and g.rect.rec != self.top.rect.rec:
            return False
        return size(g) < 45


def mentions_fn(self, g):
    st = [g.body]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'Mem' and x.get('f') == FLAG or x.get('k') in ('Call', 'MCall') and isinstance(x.get('fn'), int) and g.tu.fns[x['fn']].key in self.extra:
                return size(g) < 120
            st += list(x.values())
        elif isinstance(x, list):
            st += x
    return False


SIZES = {}


def size(g):
    if g.key not in SIZES:
        n = 0
        st = [g.body]
        while st and n < 400:
            x = st.pop()
            if isinstance(x, dict):
                n += 1 + (1000 if x.get('k') in ('While', 'For', 'RFor', 'Do') else 0)
                st += list(x.values())
            elif isinstance(x, list):
                st += x
        SIZES[g.key] = n
    return SIZES[g.key]


def name_of(ctx, st, addr, f):
    """('own', names, tags) / ('other',) / None of the meter at an address"""
    if addr is None:
        return None
    S = [x for x in subterms(addr) if isinstance(x, tuple) and x]
    ops_ = [e for e in st.events() if e[0] == 'op']
    rets = {e[4]: e for e in ops_ if e[1].name.startswith('Get') or e[1].name == 'Of'}
    for x in S:
        if x in rets:
            n, t = literal(rets[x])
            if n is not None:
                return ('own', [n], t) if own(n) else ('other',)
            # an identifier made before
            for a in rets[x][3]:
                for y in subterms(a):
                    if y in rets:
                        n, t = literal(rets[y])
                        if n is not None:
                            return ('own', [n], t) if own(n) else ('other',)
            return None
    m = member(ctx, addr)
    if m:
        return m
    # a meter built here: from what it was constructed
    if addr[0] == 'addr' and addr[1][0] in ('v', 't', 'heap'):
        for e in st.events():
            if e[0] == 'call' and e[2] == addr and last(e[1]) in METERS:
                for a in e[3]:
                    for y in subterms(a):
                        if y in rets:
                            n, t = literal(rets[y])
                            if n is not None:
                                return ('own', [n], t) if own(n) else ('other',)
                        m = member(ctx, y) if isinstance(y, tuple) and y else None
                        if m:
                            return m
                return ('other',) if False else None
    return None


def member(ctx, addr):
    for x in subterms(addr):
        if isinstance(x, tuple) and x and x[0] in ('init', 'addr', 'hv') and len(x) > 2:
            r, p = (x[1], x[2]) if x[0] != 'hv' else (x[2], x[3] if len(x) > 3 else ())
            if isinstance(r, tuple) and r and r[0] == 'this' and p and (r[1], p[0]) in ctx.F:
                n, t = ctx.F[(r[1], p[0])]
                return ('own', n, t)
    return None


def literal(e):
    """name and tag values a lookup is made with"""
    name, tags = None, []
    for a in e[3]:
        if name is None:
            for y in subterms(a):
                if isinstance(y, tuple) and y and y[0] in ('lit', 's') and isinstance(y[1], str):
                    name = y[1]
                    break
            if a[0] in ('sv', 's', 'cstr', 'addr') or name is not None:
                continue
        t = a
        while isinstance(t, tuple) and t and t[0] == 'tags+':
            v = t[3]
            while isinstance(v, tuple) and v and v[0] in ('intern',):
                v = v[1]
            tags.append(v[1] if isinstance(v, tuple) and v[0] == 's' else '?')
            t = t[1]
    return name, tags


# ---------------------------------------------------------------- the flag
def flagterm(ctx, t):
    """does this term stand for the flag?"""
    if not isinstance(t, tuple) or not t:
        return False
    while t[0] == 'cast':
        t = t[3]
    if t[0] == 'init' and t[2] and t[2][-1] == FLAG:
        return True
    if t[0] == 'fld' and t[2] and t[2][-1] == FLAG:
        return True
    if t[0] == 'init' and t[1][0] == 'this' and t[2] and (t[1][1], t[2][0]) in flagfields(ctx):
        return True
    return False


def flagfields(ctx):
    """members whose every initialiser is the flag, and that nothing changes"""
    if not hasattr(ctx, 'ff'):
        out = {}
        for f in ctx.prog.fns.values():
            if f.ctor and f.rect is not None and f.inits:
                for i in f.inits:
                    if isinstance(i, dict) and i.get('f') and i.get('e') is not None:
                        yes = any(x.get('k') == 'Mem' and x.get('f') == FLAG for x in ctx.prog.walk(i['e'])) and not any(x.get('k') in ('Bin', 'Un', 'Cond') for x in ctx.prog.walk(i['e']))
                        out.setdefault((f.rect.rec, i['f']), []).append(yes)
        ctx.ff = {k for k, v in out.items() if all(v)}
    return ctx.ff


def bools(f):
    return {d.get('n') for d, T in zip(f.ps, f.pt) if T.noref().s in ('bool', '_Bool')}


def known(ctx, st, f=None):
    """value of the flag on a path: True, False, or None; and the parameters conditions are on"""
    val, ps, odd = None, {}, []
    for t, v in st.conds():
        s, w = t, v
        while s[0] in ('not', 'eq0', 'cast'):
            if s[0] in ('not', 'eq0'):
                w = not w
                s = s[1]
            else:
                s = s[3]
        if flagterm(ctx, s):
            val = w
        elif s[0] == 'init' and s[1][0] == 'p' and s[2] == () and (f is None or s[1][1] in bools(f)):
            ps[s[1][1]] = w
        elif s[0] in ('and', 'or', 'ite') and any(flagterm(ctx, y) for y in subterms(s)):
            odd.append(s)
        elif s[0] in ('init', 'fld', 'hv') and carrier(ctx, s):
            odd.append(s)
        elif s[0] in ('ret', 'call') and isinstance(s[1], str) and mentions(ctx, s[1]):
            odd.append(s)
    return val, ps, odd


def carriers(ctx):
    """names of members and variables that are set from the flag somewhere"""
    if not hasattr(ctx, 'car'):
        P = ctx.prog
        out = {k[1] for k in flagfields(ctx)}

        def hasflag(e):
            return any(x.get('k') == 'Mem' and x.get('f') == FLAG for x in P.walk(e))
        for f in P.fns.values():
            for i in f.inits or ():
                if isinstance(i, dict) and i.get('f') and i.get('e') is not None and hasflag(i['e']):
                    out.add(i['f'])
            if f.body is None:
                continue
            if not hasflag(f.body):
                continue
            for x in P.walk(f.body):
                if x.get('k') == 'Bin' and x.get('op') == '=' and hasflag(x.get('r') or x.get('b') or {}):
                    for y in P.walk(x):
                        if y.get('k') == 'Mem':
                            out.add(y.get('f'))
                if x.get('k') in ('IL', 'Ctor') and 't' in x:
                    r = [q for q in P.records.values() if q.qn == f.tu.types[x['t']].noref().rec]
                    els = x.get('e') or x.get('a') or []
                    if r and isinstance(els, list):
                        for fd, el in zip(r[0].fields, els):
                            if isinstance(el, dict) and hasflag(el):
                                out.add(fd.get('n'))
        ctx.car = out - {FLAG, None}
    return ctx.car


def carrier(ctx, s):
    for y in subterms(s):
        if isinstance(y, tuple) and y:
            if y[0] in ('init', 'fld', 'hv') and isinstance(y[-1], tuple) and any(q in carriers(ctx) for q in y[-1] if isinstance(q, str)):
                return True
            if y[0] == 'init' and y[1][0] == 'g' and s == y:
                return True
    return False


def mentions(ctx, qn):
    """an opaque function that may look at the flag"""
    for f in ctx.prog.bodies(qn):
        if any(x.get('k') == 'Mem' and x.get('f') == FLAG for x in ctx.prog.walk(f.body)):
            return True
    return False


def states(I, res):
    """every path, and every iteration with the events of its own"""
    out = [(st, 0) for st, fl in res]
    for lid, L in I.loops.items():
        for b in L['backs']:
            out.append((b, lid))
    return out


def interp(ctx, f, extra=()):
    k = (f.key, tuple(sorted(extra)))
    if k not in ctx.runs:
        ctx.runs[k] = runfn(ctx, f, Upd(f, ctx.cands - set(extra) if not extra else ctx.cands, extra) if not isinstance(extra, frozenset) else Upd(f, ctx.cands - extra))
    return ctx.runs[k]


def function(ctx, f, sites):
    res, I = interp(ctx, f)
    w = "%s (%s:%s)" % (f.qn, f.file, f.line)
    need = {}          # parameters to be obliged at call sites
    loose = []
    for st, lid in states(I, res):
        val, ps, odd = known(ctx, st, f)
        for e in st.events():
            if e[0] != 'op':
                continue
            what = None
            if isupdate(e[1]):
                what = name_of(ctx, st, e[2], f)
            elif e[1].name == 'GetAgeGauge':
                # an age gauge is reported from its creation on
                n, t = literal(e)
                what = ('own', [n], t) if own(n) else None
            if what is None or what[0] != 'own':
                continue
            sites.add((f.key, e[5], tuple(what[1])))
            p = "%s of %s" % (e[1].name, what[1][0])
            if val is True:
                ctx.ok("guard", e[5], p)
            elif val is False:
                ctx.bad("guard", e[5], "%s although status metrics are disabled (path %s)" % (p, pathstr(st, 3)), key="guard:%s" % w)
            elif odd:
                ctx.und("guard", e[5], "%s under conditions whose relation to the flag is not known: %s" % (p, [show(o)[:40] for o in odd][:3]))
            elif ps:
                need.setdefault(tuple(sorted(ps.items())), (e, p))
            else:
                loose.append((st, e, p))
    if need:
        names = [d.get('n') for d in f.ps]
        for k, (e, p) in need.items():
            if all(n not in names for n, v in k):
                ctx.und("guard", e[5], "%s under %s" % (p, k))
                continue
            params(ctx, f, [(names.index(n), v) for n, v in k if n in names], e, p)
    if loose:
        up(ctx, f, loose, 0)


def params(ctx, f, idx, e, p):
    """the update happens when the parameters have these values: is the flag among the arguments of every call?"""
    callers = [g for g in ctx.called.get(f.key, {}).values()]
    if not callers:
        ctx.und("guard", e[5], "%s depends on a parameter, and no caller is known" % p)
    for g in callers:
        if syntactic(ctx, f, g, idx, p):
            continue
        try:
            res, I = runfn(ctx, g, Upd(g, ctx.cands, (f.key,)))
        except Exhausted as x:
            ctx.und("guard", "%s (%s:%s)" % (g.qn, g.file, g.line), "the call of %s: %s" % (f.qn, x))
            continue
        n = 0
        for st, lid in states(I, res):
            val, ps, odd = known(ctx, st)
            for c_ in st.events():
                if c_[0] != 'op' or c_[1].key != f.key:
                    continue
                n += 1
                ok = False
                for i, v in idx:
                    a = c_[3][i] if i < len(c_[3]) else None
                    if a is None:
                        ok = ok or None
                    elif isc(a):
                        ok = ok or bool(a[1]) != v or val is True
                    elif flagterm(ctx, a):
                        ok = ok or v
                    elif a[0] == 'eq0' or a[0] == 'not':
                        ok = ok or (flagterm(ctx, a[1]) and not v)
                    else:
                        ok = ok or None if not (a[0] == 'init' and a[1][0] in ('this',)) else ok
                if val is True:
                    ok = True
                ctx.check(ok, "guard", c_[5], "%s is called with %s where the flag is expected: %s" % (f.qn, [show(a)[:50] for a in c_[3]], p), key="guard:arg:%s" % g.qn)
        if not n:
            ctx.und("guard", "%s (%s:%s)" % (g.qn, g.file, g.line), "the call of %s is not found on its paths" % f.qn)


def syntactic(ctx, f, g, idx, p):
    """decide the calls of f in g from the argument expressions alone; False when they are not plain enough"""
    P = ctx.prog
    calls = [x for x in P.walk(g.body) if x.get('k') in ('Call', 'MCall') and isinstance(x.get('fn'), int) and g.tu.fns[x['fn']].key == f.key]
    if not calls or len(idx) != 1:
        return False
    i, v = idx[0]
    out = []
    for x in calls:
        a = x.get('a') or []
        e = a[i] if i < len(a) else None
        while isinstance(e, dict) and e.get('k') in ('Cast', 'Paren') and isinstance(e.get('e'), dict):
            e = e['e']
        if e is None:
            return False
        loc = g.tu.loc(x.get('l'))
        if e.get('k') == 'Mem' and e.get('f') == FLAG:
            out.append((v, loc, e))
        elif e.get('k') == 'Mem' and g.rect is not None and (g.rect.rec, e.get('f')) in flagfields(ctx):
            out.append((v, loc, e))
        elif 'cv' in e and e.get('k') in ('Int', 'Bool'):
            on = bool(int(e['cv'])) == v
            looked = any(y.get('k') == 'Mem' and (y.get('f') == FLAG or g.rect is not None and (g.rect.rec, y.get('f')) in flagfields(ctx)) for y in P.walk(g.body)) and not \
                all(any(y is z for c_ in calls for z in P.walk(c_)) for y in P.walk(g.body) if y.get('k') == 'Mem' and y.get('f') == FLAG)
            if on and looked:
                return False
            out.append((not on, loc, e))
        else:
            return False
    for ok, loc, e in out:
        ctx.check(ok, "guard", loc, "%s is called with %s where the flag is expected: %s" % (f.qn, e.get('f') or e.get('cv'), p), key="guard:arg:%s" % g.qn)
    return True


def up(ctx, f, loose, depth):
    """updates without any condition: the callers must have looked at the flag"""
    callers = [g for g in ctx.called.get(f.key, {}).values() if g.key != f.key]
    st, e, p = loose[0]

    def report():
        ctx.bad("guard", e[5], "%s whether or not status metrics are enabled (path %s)" % (p, pathstr(st, 3)), key="guard:%s" % e[5].split(':')[0] + ':' + p)
    if not callers or depth > 2:
        report()
        return
    for g in callers:
        at = g
        if g.lam:
            # the function the closure is written in
            out = [h for h in ctx.prog.fns.values() if h.body is not None and not h.lam and any(x.get('k') == 'Lam' and isinstance(x.get('fn'), int) and h.tu.fns[x['fn']].key == g.key for x in ctx.prog.walk(h.body))]
            here = [h for h in out if looks(ctx, h, f)]
            hit = False
            for h in here:
                try:
                    res, I = runfn(ctx, h, Upd(h, ctx.cands, (f.key,)))
                except Exhausted:
                    hit = True
                    continue
                for s, lid in states(I, res):
                    if any(c_[0] == 'op' and c_[1].key == f.key for c_ in s.events()):
                        hit = True
                        if known(ctx, s, h)[0] is None:
                            report()
            if not hit and not looks(ctx, g, f):
                report()
            elif not hit:
                ctx.und("guard", e[5], "%s from a closure in %s" % (p, g.qn))
            continue
        if not looks(ctx, g, f):
            up(ctx, g, loose, depth + 1)
            continue
        try:
            res, I = runfn(ctx, g, Upd(g, ctx.cands, (f.key,)))
        except Exhausted as x:
            ctx.und("guard", "%s (%s:%s)" % (g.qn, g.file, g.line), "the call of %s: %s" % (f.qn, x))
            continue
        more, n = [], 0
        for s, lid in states(I, res):
            val, ps, odd = known(ctx, s, g)
            for c_ in s.events():
                if c_[0] == 'op' and c_[1].key == f.key:
                    n += 1
                    if val is True:
                        ctx.ok("guard", c_[5], "called when enabled: " + p)
                    elif val is False:
                        ctx.bad("guard", c_[5], "%s is called although status metrics are disabled: %s" % (f.qn, p), key="guard:" + c_[5].split(':')[0] + ':' + p)
                    elif odd or ps:
                        ctx.und("guard", c_[5], "%s under conditions whose relation to the flag is not known" % f.qn)
                    else:
                        more.append((s, e, p))
        if more:
            up(ctx, g, more, depth + 1)
        elif not n:
            ctx.und("guard", "%s (%s:%s)" % (g.qn, g.file, g.line), "the call of %s is not found on its paths" % f.qn)


def looks(ctx, g, f):
    """does g look at the flag other than to hand it to f?"""
    P = ctx.prog
    inside = set()
    for x in P.walk(g.body):
        if x.get('k') in ('Call', 'MCall') and isinstance(x.get('fn'), int) and g.tu.fns[x['fn']].key == f.key:
            for a in x.get('a') or ():
                inside |= {id(y) for y in P.walk(a)}
    for x in P.walk(g.body):
        if id(x) in inside:
            continue
        if x.get('k') == 'Mem' and (x.get('f') == FLAG or x.get('f') in carriers(ctx)):
            return True
        if x.get('k') in ('Call', 'MCall') and isinstance(x.get('fn'), int):
            h = P.fns.get(g.tu.fns[x['fn']].key)
            if h is not None and h.key != f.key and h.body is not None and h.rt is not None and h.rt.noref().s in ('bool', '_Bool') and h.repo and any(y.get('k') == 'Mem' and y.get('f') == FLAG for y in P.walk(h.body)):
                return True
    return False


# ---------------------------------------------------------------- when enabled
def never(ctx, sites):
    """members that are own meters but never updated"""
    P = ctx.prog
    upd = {n for k, w, ns in sites for n in ns}
    for (r, fld), (names, tags) in sorted(ctx.F.items()):
        for n in names:
            if n in upd:
                ctx.ok("occurs", "%s::%s" % (r, fld), n)
                continue
            used = any(x.get('k') == 'Mem' and x.get('f') == fld for f in P.fns.values() if f.body is not None and f.rect is not None for x in P.walk(f.body))
            ctx.check(None if used else False, "occurs", "%s::%s" % (r, fld), "%s is never updated" % n, key="never:" + n)


def own_updates(ctx, st, ev):
    """[(name, tags, event)] of the updates of own meters"""
    out = []
    for e in ev:
        if e[0] == 'op' and isupdate(e[1]):
            w = name_of(ctx, st, e[2], None)
            if w is not None and w[0] == 'own':
                out.append((w[1][0], w[2], e))
            elif w is None:
                out.append((None, [], e))
        elif e[0] in ('call', 'pcallee') and any(g.key in ctx.cands for g in ctx.prog.bodies(str(e[1]))) and not last(e[1]) in ('update_network_metrics',):
            out.append((None, [], None))
    return out


def one(ctx, P, qn):
    fs = [f for f in P.bodies(qn)]
    return fs[0] if fs else None


def values(ctx):
    P = ctx.prog
    # every line counts as parsed or as an error
    for f in P.fns.values():
        if f.body is None or f.rect is None or f.lam or f.key not in ctx.cands:
            continue
        res, I = runfn(ctx, f, Upd(f, set()))
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        for st, lid in states(I, res):
            if lid == 0 and I.loops and any(e[0] == 'loop' for e in st.events()):
                # what a loop did is judged per iteration; what is left of the last one belongs to the path
                pass
            ev = after_loop(st, lid) if lid else st.events()
            val, ps, odd = known(ctx, st)
            ups = own_updates(ctx, st, ev)
            p = " (path %s)" % [(show(t)[:50], v) for t, v in st.conds()[-3:]]
            lines(ctx, f, st, ev, ups, val, odd, p)
            for name, tags, e in ups:
                if name is not None:
                    value(ctx, st, name, tags, e, p)
            twice(ctx, ups, p, w)
            missing(ctx, f, w, st, ev, ups, val, p, lid)


def twice(ctx, ups, p, w):
    seen_ = {}
    for name, tags, e in ups:
        if name is None or e is None or e[1].name not in ('Increment', 'Add', 'Record'):
            continue
        k = (name, tuple(tags), e[2])
        if k in seen_ and name not in ('spectator.measurements',):
            ctx.bad("value", e[5], "%s is updated twice for one event%s" % (name, p), key="twice:" + name)
        seen_[k] = e


def lines(ctx, f, st, ev, ups, val, odd, p):
    """parsed lines: one count each"""
    calls = [e for e in ev if e[0] == 'pcall']
    if not any(n in ('spectatord.parsedCount', 'spectatord.parseErrors') for n in names_in(ctx, f)) or not calls:
        return
    if len(calls) != 1:
        return
    c_ = calls[-1]
    ret = c_[3] if len(c_) > 3 else None
    err = None
    for t, v in st.conds():
        if t[0] == 'fld' and t[2] and t[2][-1] == '#has' and any(x in (ret,) for x in subterms(t)) or t[0] == 'fld' and t[2][-1:] == ('#has',) and 'fcall' in show(t):
            err = v
    if err is None or val is None:
        if err is not None and not odd:
            got = [n for n, t, e in ups if n in ('spectatord.parsedCount', 'spectatord.parseErrors')]
            if not got:
                ctx.check(None if hidden_upd(st) or any(n is None for n, t, e in ups) else False, "occurs", c_[-1], "a line that was %s is not counted%s" % ("wrong" if err else "parsed", p), key="occurs:lines")
        return
    n1 = [e for n, t, e in ups if n == 'spectatord.parsedCount']
    n2 = [e for n, t, e in ups if n == 'spectatord.parseErrors']
    if not val:
        return
    unk = any(n is None for n, t, e in ups)
    ctx.check(True if bool(n2) == err and bool(n1) != err else None if unk else False, "occurs", c_[-1],
              "a line that was %s counts as %s%s" % ("wrong" if err else "parsed", [last(n) for n, t, e in ups], p), key="occurs:lines")


def hidden_upd(st):
    return any(e[0] == 'call' and str(e[1]) == '(lambda)' for e in st.events())


def names_in(ctx, f):
    if not hasattr(ctx, 'ni'):
        ctx.ni = {}
    if f.key not in ctx.ni:
        s = set()
        for (r, fld), (names, t) in ctx.F.items():
            if f.rect is not None and f.rect.rec == r and any(x.get('k') == 'Mem' and x.get('f') == fld for x in ctx.prog.walk(f.body)):
                s |= set(names)
        o, t = texts(ctx.prog, f, f.body, 2)
        ctx.ni[f.key] = s | o
    return ctx.ni[f.key]


TABLE = {
    # name, distinguishing tag -> (method, what the value must be)
    ('spectatord.poolAccess', 'hit'): ('Set', ('string_pool_stats', 'hits')),
    ('spectatord.poolAccess', 'miss'): ('Set', ('string_pool_stats', 'misses')),
    ('spectatord.poolAllocSize', None): ('Set', ('string_pool_stats', 'alloc_size')),
    ('spectatord.poolEntries', None): ('Set', ('string_pool_stats', 'table_size')),
    ('spectatord.udpPacketsDropped', None): ('Set', ('udp_info', 'num_dropped')),
    ('spectatord.udpRxQueue', None): ('Set', ('udp_info', 'rx_queue_bytes')),
    ('spectatord.percentileCacheSize', 'timer'): ('Set', ('expire', 'first', 'PercentileTimer')),
    ('spectatord.percentileCacheSize', 'dist-summary'): ('Set', ('expire', 'first', 'PercentileDistributionSummary')),
    ('spectatord.percentileExpired', 'timer'): ('Add', ('expire', 'second', 'PercentileTimer')),
    ('spectatord.percentileExpired', 'dist-summary'): ('Add', ('expire', 'second', 'PercentileDistributionSummary')),
}


def value(ctx, st, name, tags, e, p):
    for (n, tag), (meth, want) in TABLE.items():
        if n != name or tag is not None and tag not in tags:
            continue
        v = e[3][0] if e[3] else None
        while isinstance(v, tuple) and v and v[0] in ('cast', 'i2f', 'itof', 'tofloat'):
            v = v[-1]
        if v is None:
            ctx.und("value", e[5], "the value of %s is not known" % name)
            return
        g = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'fld' and isinstance(x[1], tuple) and x[1][0] in ('ret', 'call')]
        if len(g) != 1 or g[0] != v:
            ctx.check(False if isc(v) or v[0] in ('f',) else None, "value", e[5], "%s is set to %s%s" % (name, show(v)[:50], p), key="value:%s:%s" % (n, tag))
            return
        src, fld = last(g[0][1][1]), g[0][2][-1]
        ok = src == want[0] and fld == want[1]
        if ok and len(want) > 2:
            who = expired(ctx, st, g[0][1])
            ok = None if who is None else who == want[2]
        elif not ok and src != want[0]:
            ok = None if not ctx.prog.bodies(want[0]) and src not in ('expire', 'string_pool_stats', 'udp_info') else False
        ctx.check(ok, "value", e[5], "%s (%s) is set to %s of %s%s" % (name, tag, fld, src, p), key="value:%s:%s" % (n, tag))
        return
    if name == 'spectator.registrySize':
        v = e[3][0] if e[3] else None
        while isinstance(v, tuple) and v and v[0] in ('cast', 'i2f', 'itof', 'tofloat'):
            v = v[-1]
        ctx.check(True if v is not None and v[0] == 'size' else False if v is not None and (isc(v) or v[0] == 'lin') else None, "value", e[5], "the registry size recorded is %s%s" % (show(v)[:50], p), key="value:size")


def expired(ctx, st, ret):
    """whose cache was expired"""
    for e in st.events():
        if e[0] == 'call' and e[4] == ret and e[2] is not None and e[2][0] == 'addr' and e[2][1][0] == 'this' and e[2][2]:
            for r in ctx.prog.records.values():
                if r.qn == e[2][1][1] and e[2][2][-1] in r.ft:
                    T = r.ft[e[2][2][-1]]
                    s = T.noref().s
                    if 'PercentileTimer' in s:
                        return 'PercentileTimer'
                    if 'PercentileDistributionSummary' in s:
                        return 'PercentileDistributionSummary'
    return None


def missing(ctx, f, w, st, ev, ups, val, p, lid):
    """sites of which each enabled pass must update every meter they hold"""
    if val is not True:
        return
    got = {(n, tuple(sorted(t))) for n, t, e in ups}
    unk = any(n is None for n, t, e in ups)
    # the quantities read and reported in one pass
    for e in ev:
        if e[0] == 'call' and last(e[1]) == 'string_pool_stats':
            want = [k for k, v in TABLE.items() if v[1][0] == 'string_pool_stats']
        elif e[0] == 'call' and last(e[1]) == 'udp_info':
            has = [v for t, v in st.conds() if t[0] == 'fld' and t[1] == e[4] and t[2][-1:] == ('#has',)]
            if not has or not has[-1]:
                continue
            want = [k for k, v in TABLE.items() if v[1][0] == 'udp_info']
        elif e[0] == 'call' and last(e[1]) == 'expire':
            who = expired(ctx, st, e[4])
            want = [k for k, v in TABLE.items() if v[1][0] == 'expire' and v[1][2] == who]
        else:
            continue
        for n, tag in want:
            ok = any(g[0] == n and (tag is None or tag in g[1]) for g in got)
            ctx.check(True if ok else None if unk or e not in ev else False, "occurs", e[5], "%s%s is not updated in a pass with status metrics enabled%s" % (n, " (%s)" % tag if tag else "", p), key="occurs:%s:%s" % (n, tag))
    if any(n == 'spectator.registrySize' for n in names_in(ctx, f)) and f.name == 'Measurements' and not lid:
        ctx.check(True if any(g[0] == 'spectator.registrySize' for g in got) else None if unk else False, "occurs", w, "the registry size is not recorded%s" % p, key="occurs:size")


# ---------------------------------------------------------------- the client's flag
def config(ctx):
    P = ctx.prog
    makers = [f for f in P.fns.values() if f.body is not None and f.repo and f.rt is not None and f.rt.noref().rec == 'spectator::HttpClientConfig' and f.name != 'HttpClientConfig' and not f.ctor]
    if not makers:
        ctx.und("config", "repository", "where the HTTP client's configuration is made is not recognised")
    for f in makers:
        res, I = runfn(ctx, f, Rec(lambda g: False, lambda g: g.repo and g.rt is not None and size(g) < 60))
        for st, fl in res:
            v = fl[1] if fl[0] == 'R' else None
            if v is None or v[0] != 'agg':
                ctx.und("config", "%s (%s:%s)" % (f.qn, f.file, f.line), "the configuration returned is not known")
                continue
            d = dict(v[2])
            x = d.get((FLAG,))
            ctx.check(True if x is not None and flagterm(ctx, x) else False if x is not None and (isc(x) or x[0] == 'init') else None, "config",
                      "%s (%s:%s)" % (f.qn, f.file, f.line), "status metrics of the HTTP client are %s (path %s)" % (show(x)[:50] if x else '?', pathstr(st, 3)), key="config")
