"""Transfer functions of the meter classes: what each method does to each atomic cell, derived from the source,
and the sequential composition report/update that the properties speak about."""
from lib import *
from absint import Interp, Client
from dom import State
from terms import *
import terms

MATOMIC = ('aload', 'astore', 'axchg', 'acas', 'afadd')
NEUTRAL = ('loop', 'now', 'static', 'new', 'make', 'spset', 'lock', 'unlock', 'acasfail', 'aload', 'strset', 'pcallee')


def loc_of_addr(a, rec):
    """address term -> ('this' path) or None"""
    if a[0] == 'addr' and a[1] == ('this', rec):
        return a[2]
    return None


def subst(I, t, m):
    """replace atoms and renormalise"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    k = t[0]
    if k in ('c', 'f', 's'):
        return t
    if k == 'lin':
        if any(x in m for x, _ in t[2]) and any(m.get(x, Z)[0] in ('f', 'poly') for x, _ in t[2]):
            r = f(t[1])
            for a, q in t[2]:
                r = fadd(r, fmul(f(q), subst(I, a, m)))
            return r
        r = c(t[1])
        for a, q in t[2]:
            r = add(r, scale(subst(I, a, m), q))
        return r
    if k == 'poly':
        r = f(0)
        for mono, q in t[1]:
            x = f(q)
            for a, e in mono:
                b = subst(I, a, m)
                for _ in range(abs(e)):
                    x = fmul(x, b) if e > 0 else fdiv(x, b)
            r = fadd(r, x)
        return r
    if k == 'fc':
        return I.fcmp(subst(I, t[1], m), subst(I, t[2], m), t[3])
    if k == 'le0':
        return I.le(subst(I, t[1], m), Z)
    if k == 'eq0':
        x = subst(I, t[1], m)
        return c(x == Z) if isc(x) else ('eq0', x)
    if k == 'not':
        return I.negate(subst(I, t[1], m))
    if k == 'inv':
        x = subst(I, t[1], m)
        return ('inv', x) if not isf(x) else f(1 / x[1]) if x[1] not in (0.0, 'nan') else ('inv', x)
    return tuple(subst(I, x, m) if isinstance(x, tuple) else x for x in t)


class Path:
    """one path of a method: reads {atom: loc}, ops per cell in order, final cell values, pushes"""

    def __init__(self):
        self.old = {}        # loc -> atom standing for the value at entry
        self.fin = {}        # loc -> value at exit (term over entry atoms and arguments)
        self.reads = {}      # atom -> loc
        self.ops = []        # (loc, kind, ...)
        self.pushes = []     # (id agg entries dict, value, where)
        self.opaque = []     # reasons why the summary is incomplete
        self.st = None
        self.flow = None
        self.map = {}
        self.nows = []


class Meter:
    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        p = ctx.prog
        self.methods = [fn for fn in p.bodies(pred=lambda fn: fn.rect is not None and fn.rect.rec == cls and not fn.dtor)]
        if not self.methods:
            raise AnalysisBroken("no methods of " + cls)
        self.I = Interp(p)
        self.cache = {}
        self.rec = cls
        for fn in self.methods:
            ctx.fn(fn)

    def find(self, name, pred=None):
        r = [fn for fn in self.methods if fn.name == name and (pred is None or pred(fn))]
        if not r:
            raise AnalysisBroken("anchor vanished: %s::%s" % (self.cls, name))
        return r

    def ctor(self):
        """final memory of the constructor: {path: value}"""
        if 'ctor' not in self.cache:
            cs = [fn for fn in self.methods if fn.ctor and not any(t.noref().k == 'rec' and t.noref().rec == self.cls for t in fn.pt)]
            if not cs:
                raise AnalysisBroken("anchor vanished: constructor of " + self.cls)
            out = []
            for fn in cs:
                I = self.I
                this = ('lv', ('this', self.cls), ())
                for st, fl in I.run(fn, this=this):
                    if fl[0] == 'R':
                        out.append((fn, st))
            self.cache['ctor'] = out
        return self.cache['ctor']

    def init_value(self, loc):
        """the constructor's value of a cell (set of values)"""
        r = set()
        for fn, st in self.ctor():
            r.add(self.I.raw(st, ('this', self.cls), loc))
        return r

    def paths(self, fn):
        if fn.key in self.cache:
            return self.cache[fn.key]
        I = self.I
        this = ('lv', ('this', self.cls), ())
        try:
            res = I.run(fn, this=this)
        except AnalysisBroken as e:
            self.ctx.und('summary', self.where(fn), "cannot be analysed: %s" % e)
            self.cache[fn.key] = []
            return []
        out = []
        for st, fl in res:
            p = self.summarise(fn, st, fl)
            if p is not None:
                out.append(p)
        self.ctx.paths += len(out)
        self.ctx.calls += I.ncalls
        self.cache[fn.key] = out
        return out

    def where(self, fn):
        return "%s::%s (%s:%s)" % (self.cls, fn.name, fn.file, fn.line)

    def read_of(self, t, evs, seen=()):
        """which cell an atom that came out of a loop was read from"""
        for lid, L in self.I.loops.items():
            for k in L['W']:
                if not (isinstance(k, tuple) and len(k) == 2) or k[0] == 'ref':
                    continue
                if L['head'].mem.get(k) == t and t not in seen:
                    locs = set()
                    for s in [L['entry']] + L['backs']:
                        v = s.mem.get(k)
                        if v == t:
                            continue
                        q = None
                        for e in s.events():
                            if e[0] == 'aload' and e[2] == v:
                                q = e[1]
                            if e[0] == 'acasfail' and e[2] == v:
                                q = e[1]
                        locs.add(q)
                    if len(locs) == 1 and None not in locs:
                        return locs.pop()
        return None

    def summarise(self, fn, st, fl):
        I = self.I
        p = Path()
        p.st, p.flow = st, fl
        evs = st.events()
        rec = self.cls
        cur = {}
        m = {}
        extra = []      # equalities to re-check

        def read(loc, t):
            p.reads[t] = loc
            if loc in cur:
                m[t] = cur[loc]
                return cur[loc]
            cur[loc] = t
            p.old[loc] = t
            return t

        # reads that surface only in conditions
        def cond_reads():
            for t, v in st.conds():
                for x in subterms(t):
                    if x and x[0] in ('sym', 'lp') and x not in p.reads:
                        a = self.read_of(x, evs)
                        if a is not None:
                            loc = loc_of_addr(a, rec)
                            if loc is not None:
                                read(loc, x)
        loops = []
        for e in evs:
            k = e[0]
            if k == 'loop':
                loops.append(e[1])
            if k in MATOMIC:
                loc = loc_of_addr(e[1], rec)
                if loc is None:
                    p.opaque.append("atomic operation on %s" % show(e[1]))
                    continue
                if k == 'aload':
                    read(loc, e[2])
                    p.ops.append((loc, 'load', e[2], e[3]))
                elif k == 'astore':
                    v = subst(I, e[2], m)
                    p.ops.append((loc, 'store', e[2], e[3]))
                    if loc not in cur:
                        p.old.setdefault(loc, None)
                    cur[loc] = v
                elif k == 'axchg':
                    read(loc, e[3])
                    p.ops.append((loc, 'xchg', e[2], e[3], e[4]))
                    cur[loc] = subst(I, e[2], m)
                elif k == 'acas':
                    read(loc, e[2])
                    p.ops.append((loc, 'cas', e[2], e[3], e[4]))
                    cur[loc] = subst(I, e[3], m)
                elif k == 'afadd':
                    o = read(loc, e[3])
                    p.ops.append((loc, 'fadd', e[2], e[3], e[4], e[5]))
                    if e[5] == '+':
                        T = I.loctype.get((('this', rec), loc))
                        isfl = T is not None and T.k == 'float'
                        cur[loc] = fadd(o, e[2]) if isfl else add(o, subst(I, e[2], m))
                    else:
                        cur[loc] = ('aop', e[5], o, e[2])
            elif k == 'push':
                p.pushes.append((e[1], e[2], e[3]))
            elif k == 'now':
                p.nows.append(e[1])
            elif k not in NEUTRAL:
                p.opaque.append("%s event" % k)
        cond_reads()
        # effects repeated in loop iterations that come before the one shown
        for lid in loops:
            L = I.loops.get(lid)
            if L is None:
                continue
            for b in L['backs']:
                n = b.events()
                i = max([j for j, e in enumerate(n) if e[0] == 'loop' and e[1] == lid], default=0)
                for e in n[i:]:
                    if e[0] not in NEUTRAL:
                        p.opaque.append("%s inside an iterated loop" % e[0])
        # feasibility when nothing else runs in between
        if m:
            for t, v in st.conds():
                q = subst(I, t, m)
                if q != t:
                    s2 = st.clone()
                    if not I.assume(s2, q, v):
                        return None
                    p.st = st = s2
        p.fin = {l: v for l, v in cur.items()}
        # plain members written
        for (root, path), v in st.mem.items():
            if root == ('this', rec) and path not in cur and v != ('init', root, path):
                if path not in p.fin:
                    p.fin[path] = subst(I, v, m)
        p.map = m
        p.pushes = [(a, subst(I, v, m) if v[0] != 'agg' else ('agg', v[1], tuple((q, subst(I, x, m)) for q, x in v[2])), w)
                    for a, v, w in p.pushes]
        return p

    # ---------------------------------------------------------------- identity of what is pushed
    def id_loc(self):
        """where the meter keeps its own id: the location MeterId() refers to"""
        if 'id' not in self.cache:
            fn = self.ctx.prog.one('spectator::Meter::MeterId')
            r = Interp(self.ctx.prog).run(fn, this=('lv', ('this', self.cls), ()))
            v = r[0][1][1]
            if v[0] == 'lv':
                self.cache['id'] = v[2]
            elif v[0] == 'addr':
                self.cache['id'] = v[2]
            else:
                self.cache['id'] = ('id_',)
        return self.cache['id']

    def last_loc(self):
        if 'last' not in self.cache:
            fn = self.ctx.prog.one('spectator::Meter::Updated')
            r = Interp(self.ctx.prog).run(fn, this=('lv', ('this', self.cls), ()))
            for st, fl in r:
                for e in st.events():
                    if e[0] == 'aload':
                        self.cache['last'] = e[1][2]
            if 'last' not in self.cache:
                raise AnalysisBroken("cannot tell where Meter::Updated reads from")
        return self.cache['last']

    def push_parts(self, push):
        """(name term, tags term, value)"""
        _, v, _ = push
        if v[0] != 'agg':
            return None
        d = dict(v[2])
        name = tags = val = None
        for k, x in d.items():
            if k[-1] == 'value':
                val = x
            elif k[-1] == 'tags_':
                tags = x
            elif 'name_' in k:
                name = x
        if name is None or tags is None or val is None:
            return None
        return name, tags, val

    def classify(self, st, name, tags, base_tags=None, base_name=None):
        """('default'|'override', statistic) of an id derived from the meter's own; None if not understood; ('wrong', why)"""
        I = self.I
        idl = self.id_loc()
        root = ('this', self.cls)
        bt = base_tags if base_tags is not None else ('init', root, idl + ('tags_',))
        bn = base_name if base_name is not None else ('init', root, idl + ('name_', 'data'))
        if name != bn:
            return ('wrong', 'name is %s' % show(name)) if name[0] in ('s', 'intern') else None
        stat = ('intern', ('s', 'statistic'))
        has = I.truth(st, ('call', 'spectator::Tags::has', bt, stat))
        if tags == bt:
            return ('base', None, has)
        if tags[0] == 'tags+' and tags[1] == bt:
            if tags[2] == stat and tags[3][0] == 'intern' and tags[3][1][0] == 's':
                return ('stat', tags[3][1][1], has)
            if tags[2][0] == 'intern' and tags[2][1][0] == 's':
                return ('wrong', 'tag %s' % show(tags[2]))
        return None

    def cached(self, t):
        """('init',('mem',P),path) read through an owning member -> (member path, path inside)"""
        if t[0] == 'init' and t[1][0] == 'mem' and t[1][1][0] == 'init' and t[1][1][1] == ('this', self.cls):
            return t[1][1][2], t[2]
        return None

    def publishers(self, member):
        """every state in which some method installs an object in an owning member: (state, object location)"""
        out = []
        ok = True
        I = self.I
        for fn in self.methods:
            if fn.ctor:
                continue
            for p in self.paths(fn):
                for e in p.st.events():
                    if e[0] == 'spset' and e[1] == ('addr', ('this', self.cls), member):
                        ptr = e[2]
                        if ptr == Z:
                            continue
                        lv = I.deref(ptr)
                        out.append((p.st, lv))
        for fn, st in self.ctor():
            v = I.raw(st, ('this', self.cls), member)
            if v is not None and v != Z and v[0] != 'init':
                if v[0] == 'addr':
                    out.append((st, I.deref(v)))
        return out

    def stat_of(self, p, push):
        """resolve the statistic rule of a pushed id:
        list of ('default', s) / ('override', s) / None"""
        parts = self.push_parts(push)
        if parts is None:
            return None
        name, tags, val = parts
        r = self.classify(p.st, name, tags)
        if r is not None:
            return [r]
        a, b = self.cached(name), self.cached(tags)
        if a and b and a[0] == b[0]:
            out = []
            pubs = self.publishers(a[0])
            for st, lv in pubs:
                n2 = self.I.raw(st, lv[1], lv[2] + tuple(x for x in a[1] if x != ('i', Z)))
                t2 = self.I.raw(st, lv[1], lv[2] + tuple(x for x in b[1] if x != ('i', Z)))
                out.append(self.classify(st, n2, t2))
            if pubs:
                return out
            return None
        root = ('this', self.cls)
        if name[0] == 'init' and name[1] == root and tags[0] == 'init' and tags[1] == root:
            # a member id made by the constructor
            out = []
            idl = self.id_loc()
            for fn, st in self.ctor():
                n2, t2 = self.I.raw(st, root, name[2]), self.I.raw(st, root, tags[2])
                bt, bn = self.I.raw(st, root, idl + ('tags_',)), self.I.raw(st, root, idl + ('name_', 'data'))
                out.append(self.classify(st, n2, t2, bt, bn))
            return out
        return None


def stat_matches(rs, mode, stat):
    """True / False / None"""
    if rs is None or any(r is None for r in rs):
        return None
    for r in rs:
        if r[0] == 'wrong':
            return False
        if mode == 'override':
            if r[0] == 'base' or r[1] != stat:
                return False
        else:
            if r[0] == 'base':
                if r[2] is None:
                    return False       # the meter's own tags although it may have no statistic
                if r[2] is False:
                    return False
            else:
                if r[1] != stat:
                    return False
                if r[2] is not False:
                    return False       # overrides a statistic the meter was given
    return True


CLASSES = {
    'Counter': 'spectator::Counter', 'Gauge': 'spectator::Gauge', 'AgeGauge': 'spectator::AgeGauge',
    'MaxGauge': 'spectator::MaxGauge', 'Timer': 'spectator::Timer', 'DistributionSummary': 'spectator::DistributionSummary',
    'MonotonicCounter': 'spectator::MonotonicCounter', 'MonotonicCounterUint': 'spectator::MonotonicCounterUint',
    'MonotonicSampled': 'spectator::MonotonicSampled',
}
