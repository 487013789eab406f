"""One line of the spectatord protocol: every path of its parser, compared with the line grammar and the meter operations it stands for."""
from lines import *

# letter -> (meter class the getter returns, update, what is recorded)
SPEC = {
    'A': ("AgeGauge", "UpdateLastSuccess", "age"),
    'c': ("Counter", "Add", "value"),
    'C': ("MonotonicCounter", "Set", "value"),
    'd': ("DistributionSummary", "Record", "value"),
    'D': ("PercentileDistributionSummary", "Record", "int"),
    'g': ("Gauge", "Set", "value"),
    'm': ("MaxGauge", "Update", "value"),
    't': ("Timer", "Record", "ns"),
    'T': ("PercentileTimer", "Record", "ns"),
    'U': ("MonotonicCounterUint", "Set", "uint"),
    'X': ("MonotonicSampled", "Set", "sampled"),
}


def entry_lines(ctx):
    """{public entry: the functions it hands single lines to}"""
    out = {}
    for fn in text_entries(ctx.prog):
        if not any(splits(ctx.prog, fn)):
            continue
        cl = Lines()
        r, I = runfn(ctx, fn, cl)
        out[fn] = {e[1].key: e[1] for st, fl in r for e in st.events() if e[0] == 'line'}
        for L in I.loops.values():
            for b in L['backs']:
                out[fn].update({e[1].key: e[1] for e in b.events() if e[0] == 'line'})
    return out


def parser_of(ctx, name):
    """the line parser behind the public entry with this name"""
    for fn, m in entry_lines(ctx).items():
        if fn.name == name:
            return list(m.values())
    return []


def unid(t):
    """an id through its copies -> (name, tags)"""
    while t[0] == 'new' and t[1] == 'spectator::Id::Id' and len(t) == 3:
        t = t[2]
    if t[0] == 'new' and t[1] == 'spectator::Id::Id' and len(t) == 4:
        return t[2], t[3]
    return None


def interned(st, t):
    """the text behind an interned name: (pointer, length)"""
    for e in st.events():
        if e[0] == 'op' and e[4] == t and e[3]:
            return span(e[3][0])
    if t[0] == 'intern':
        return span(t[1])
    return None


def span(v):
    if v[0] == 'sv' and len(v) == 3:
        return decast(v[1]), decast(v[2])
    if v[0] == 'bytes':
        return decast(v[1]), decast(v[2])
    return None


def single(t):
    """the only atom of a sum with coefficient 1, and the rest"""
    cst, d = lin_of(t)
    return cst, d


def first_at(p, frm, chars):
    """is position p the first of these characters at or after frm?  True, False (another search), None"""
    p, frm = decast(p), decast(frm)
    for x in lin_of(p)[1]:
        if x[0] == 'find' and x[2][0] == 'cstr':
            b = decast(x[2][1])
            if decast(add(b, x)) != p:
                if isc(decast(sub(p, add(b, x)))) and first_at(add(b, x), frm, chars) is True:
                    return False            # next to it
                continue
            start = decast(x[4])
            if decast(add(b, start)) != frm:
                return False if known_pos(start) and known_pos(sub(frm, b)) else None
            if x[3][0] == 's':
                nd = x[3][1]
            elif isc(x[3]):
                nd = chr(x[3][1])
            else:
                return None
            if x[1] == 'find_first_of' or (x[1] == 'find' and len(nd) == 1):
                return set(nd) == set(chars)
            return False if x[1] in ('rfind', 'find_last_of', 'find_first_not_of') else None
        if x[0] == 'choff' and (isc(x[2]) or x[2][0] == 's'):
            if decast(add(x[1], x)) != p:
                if isc(decast(sub(p, add(x[1], x)))) and first_at(add(x[1], x), frm, chars) is True:
                    return False
                continue
            if decast(x[1]) != frm:
                return None
            if len(x) > 4 and x[4] == 'last':
                return False
            return set(chars) == ({chr(x[2][1])} if isc(x[2]) else set(x[2][1]))
    return None


def known_pos(t):
    return all(x[0] in ('find', 'choff', 'numend', 'lp', 'strlen', 'init') for x in lin_of(decast(t))[1])


def byte(I, st, p):
    return load(I, st, p)


def isbyte(I, st, p, ch):
    v = isbyte1(I, st, p, ch)
    if v is None and decast(p) != p:
        v = isbyte1(I, st, decast(p), ch)
    return v


def isbyte1(I, st, p, ch):
    b = byte(I, st, p)
    if b is None:
        return None
    v = I.truth(st, I.eq(b, c(ord(ch) if isinstance(ch, str) else ch)))
    if v is None and isinstance(ch, str):
        # where a search stopped, one of the characters searched for is
        p = decast(p)
        for x in lin_of(p)[1]:
            if x[0] == 'find' and x[1] in ('find_first_of', 'find') and x[2][0] == 'cstr' and decast(add(decast(x[2][1]), x)) == p and I.truth(st, ('found', x)) is True:
                nd = set(x[3][1]) if x[3][0] == 's' else {chr(x[3][1])} if isc(x[3]) else None
                if nd is None or (x[1] == 'find' and len(nd) > 1):
                    continue
                if ch not in nd:
                    return False
                if all(I.truth(st, I.eq(b, c(ord(o)))) is False for o in nd - {ch}):
                    return True
    return v


def conds_known(st, extra=()):
    """were all decisions of the path about quantities the grammar speaks of?"""
    for t, v in st.conds():
        for x in subterms(t):
            if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
                continue
            if x[0] in ('call', 'ret', 'hv', 'init') and not (x[0] == 'init' and (x[1][0] in ('p', 'g') or (x[1][0] == 'mem' and bytepos(x)) or x[1][0] == 'this')) and not (
                    x[0] == 'call' and str(x[1]).endswith(('isspace',))):
                return False
            if x[0] in ('undef', 'choff'):
                return False
    return True


def bytepos(x):
    p = x[2]
    if len(p) != 1 or not isinstance(p[0], tuple) or p[0][0] != 'i':
        return False
    return all(a[0] in ('numend', 'find', 'cast') for a in lin_of(p[0][1])[1])


class SLine:
    """analysis of one spectatord line parser"""

    def __init__(self, ctx, fn, rules):
        self.ctx, self.fn, self.rules = ctx, fn, rules
        self.w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        self.B = ('init', ('p', fn.ps[0]["n"] or '0'), ())
        self.loopres = {}
        self.said = set()

    def check(self, v, rule, where, detail, st=None):
        if rule in self.rules:
            self.ctx.check(v, rule, where, detail + ("" if v is True or st is None else " (path %s)" % pathstr(st, 14)))

    def run(self):
        cl = Lines()
        self.res, self.I = runfn(self.ctx, self.fn, cl)
        n = 0
        for st, fl in self.res:
            if fl[0] != 'R':
                continue
            n += 1
            has = self.isset(st, fl[1])
            if has is None:
                self.check(None, "one", self.w, "whether the line was accepted is not known: %s" % show(fl[1])[:200], st)
            elif has:
                self.rejected(st, fl)
            else:
                self.accepted(st)
        return n

    def isset(self, st, v):
        I = self.I
        if v[0] == 'agg':
            for p, x in v[2]:
                if p == ('#has',):
                    return I.truth(st, ('not', I.eq(x, Z)))
        return None

    # ---- effects
    def effects(self, st):
        """(lookups, updates, others) on meters"""
        look, upd, other = [], [], []
        for e in ops(st):
            fn = e[1]
            q = fn.qn
            rec = fn.rect.rec if fn.rect is not None else None
            if rec in METERS:
                if fn.ctor or fn.dtor:
                    other.append(e)
                elif not fn.c:
                    upd.append(e)
            elif q.startswith('spectator::Registry::') and not fn.c or q.startswith('spectatord::expiring_cache'):
                if meter_of(fn) is not None:
                    look.append(e)
                elif not fn.c and not fn.st:
                    other.append(e)
        return look, upd, other

    def letters(self, st):
        return [L for L in SPEC if isbyte(self.I, st, self.B, L) is not False]

    def shape(self, st):
        """(comma, extra term, end of the number after the comma, start of the measurement)"""
        I, B = self.I, self.B
        cm = isbyte(I, st, add(B, ONE), ',')
        if cm is True:
            V = add(B, c(2))
            ext = [x for x in self.terms(st) if x[0] == 'parse' and decast(x[2]) == V]
            E = decast(add(V, ('numend',) + tuple(ext[0][i] for i in (1, 2)) + (ext[0][-1],))) if ext else None
            return True, ext[0] if ext else None, E, add(E, ONE) if E is not None else None
        if cm is False:
            return False, None, None, add(B, c(2))
        return None, None, None, None

    def terms(self, st):
        out = []
        for e in st.events():
            if e[0] == 'pcallee':
                out.append(e[2])
        return out

    # ---- rejected lines
    def rejected(self, st, fl):
        look, upd, other = self.effects(st)
        d = "a line is rejected after %s" % ", ".join("%s (%s)" % (e[1].qn, e[5]) for e in look + upd + other)
        if look or upd or other:
            self.check(False, "none", self.w, d, st)
        else:
            self.check(seen(True, st), "none", self.w, d, st)
        wit = self.witness(st)
        self.check(True if wit else False if conds_known(st) and not hidden(st) and not any(e[0] == 'loop' for e in st.events()) else None,
                   "accepts", self.w, "a line is rejected although nothing in it is malformed, as far as it was examined", st)

    def witness(self, st):
        I, B = self.I, self.B
        ls = self.letters(st)
        if not ls:
            return "type"
        cm, ext, E, Q = self.shape(st)
        if cm is False and isbyte(I, st, add(B, ONE), ':') is False:
            return "separator"
        if cm is True and E is not None and isbyte(I, st, E, ':') is False:
            return "separator"
        if cm is True and ext is not None and set(ls) <= {'g', 'X'} and I.truth(st, I.le(ext, Z)) is True:
            return "extra"
        if cm is False and ls == ['X']:
            return "timestamp"
        for t, v in st.conds():
            if v is True and t[0] == 'eq0':
                xs = lin_of(t[1])
                if xs[0] == 0 and len(xs[1]) == 1:
                    x = next(iter(xs[1]))
                    if x[0] == 'numend' and isbyte(I, st, sub(decast(x[2]), ONE), ':') is True:
                        return "number"
                    if x[0] == 'find' and Q is not None and x[2] == ('cstr', decast(Q)) and x[4] == Z and first_at(add(Q, x), Q, ",:") is True:
                        return "name"
            if v is False and t[0] == 'found' and t[1][0] == 'find' and t[1][2][0] == 'cstr' and t[1][3][0] in ('s', 'c'):
                x = t[1]
                nd = x[3][1] if x[3][0] == 's' else chr(x[3][1])
                if x[1] in ('find_first_of', 'find') and set(nd) <= set(",:=") and (set(nd) & set(",:") or nd == '='):
                    if nd == '=' and not any(e[0] == 'loop' for e in st.events()) and cm is not None and isbyte(I, st, add(Q, Z), ',') is False:
                        continue
                    return "separators"
        return None

    # ---- accepted lines
    def accepted(self, st):
        I, B = self.I, self.B
        look, upd, other = self.effects(st)
        ls = self.letters(st)
        many = "a line is accepted with %d meters looked up and %d updates: %s" % (len(look), len(upd), ", ".join("%s (%s)" % (e[1].qn, e[5]) for e in look + upd + other))
        unk = hidden(st)
        ok = len(look) == 1 and len(upd) == 1 and not other
        self.check(True if ok else False if other or len(look) > 1 or len(upd) > 1 or not unk else None, "one", self.w, many, st)
        if not ok:
            return
        g, u = look[0], upd[0]
        same = u[2] == g[4] or u[2] == ('addr',) + tuple(I.deref(g[4])[1:]) or (u[2] is not None and I.deref(u[2]) == I.deref(g[4]))
        self.check(True if same else None if u[2] is None or u[2][0] not in ('ret',) else False, "one", u[5], "the meter updated (%s) is not the one looked up" % show(u[2])[:80], st)
        if len(ls) > 1 and all(isbyte(I, st, B, L) is None for L in ls) and len(ls) == len(SPEC):
            # the path did not depend on the type at all
            self.check(False if conds_known(st) and not unk else None, "meter", g[5], "%s is used whatever the type letter" % g[1].name, st)
            return
        if not ls:
            # a letter outside of the table is accepted
            self.check(False, "wellformed", g[5], "a line whose type letter names no meter is accepted (%s)" % g[1].name, st)
            return
        got = meter_of(g[1])
        for L in ls:
            want = SPEC[L][0]
            self.check(got == want, "meter", g[5], "type %s uses a %s instead of a %s" % (L, got, want), st)
            if got != want:
                continue
            self.one(st, L, g, u)

    def one(self, st, L, g, u):
        I, B, ctx = self.I, self.B, self.ctx
        cm, ext, E, Q = self.shape(st)
        w = u[5]
        unk = hidden(st) or not conds_known(st)
        miss = None if unk else False
        # separators
        if cm is None:
            self.check(miss, "wellformed", self.w, "type %s is accepted whatever its second character is" % L, st)
            return
        if cm is True and E is None:
            self.check(None, "wellformed", self.w, "the number after the comma is not parsed", st)
            return
        t = isbyte(I, st, E if cm else add(B, ONE), ':')
        self.check(True if t is True else False if t is False else miss, "wellformed", self.w, "a line of type %s is accepted without the separator before its name" % L, st)
        if ext is not None:
            dec = isc(ext[3]) and ext[3][1] in (10,) if len(ext) > 4 else None
            self.check(True if dec and ext[1] in ('strtoll', 'strtol', 'atoll', 'strtoimax') else False, "extra", self.w, "the number after the comma is read by %s" % show(ext), st)
            pos = I.truth(st, I.le(ONE, ext))
            if L in 'gX':
                self.check(True if pos is True else False if pos is False else miss, "wellformed", self.w, "a line of type %s is accepted with a number after the comma that is not positive" % L, st)
        elif L == 'X':
            self.check(False, "wellformed", self.w, "a line of type X is accepted without a timestamp", st)
            return
        # id
        ids = [v for v in g[3] if isinstance(v, tuple) and v[0] == 'new' and v[1] == 'spectator::Id::Id']
        id_ = unid(ids[0]) if len(ids) == 1 else None
        if id_ is None:
            self.check(None, "name", g[5], "id of the meter not followed: %s" % [show(x)[:80] for x in g[3]], st)
            return
        nm = interned(st, id_[0])
        if nm is None:
            self.check(None, "name", g[5], "name of the meter not followed: %s" % show(id_[0])[:120], st)
            return
        p, n = nm
        Q = decast(Q)
        fa = first_at(add(p, n), Q, ",:")
        okn = True if p == Q and fa is True else False if (p != Q and known_pos(sub(p, Q))) or fa is False else None
        self.check(okn, "name", g[5], "the name is the %s bytes at %s" % (show(n), show(sub(p, B))), st)
        if fa is True:
            x = [x for x in lin_of(n)[1] if x[0] == 'find']
            for a in x:
                t = I.truth(st, I.eq(n, Z))
                fnd = st.facts.get(('found', a)) if hasattr(st.facts, 'get') else None
                f2 = I.truth(st, ('found', a))
                self.check(True if f2 is True and t is False else (False if f2 is False or t is True else miss), "wellformed", self.w,
                           "a line of type %s is accepted without a name" % L, st)
        # value
        V = self.value(st, L, g, u, ext, cm)
        if V is None or okn is not True:
            return
        self.tags(st, L, g, id_[1], Q, decast(add(p, n)), V, w)

    def value(self, st, L, g, u, ext, cm):
        """checks the numbers passed on; returns the position the value was read from"""
        I = self.I
        cls, meth, how = SPEC[L]
        w = u[5]
        args = [decast(a) if isinstance(a, tuple) else a for a in u[3]]
        self.check(u[1].name == meth, "meter", w, "type %s calls %s instead of %s" % (L, u[1].name, meth), st)
        if u[1].name != meth:
            return None
        # g: ttl
        if L == 'g':
            durs = [a for a, t in zip(g[3], g[1].pt) if 'Duration' in t.s or 'duration' in t.s]
            if cm:
                want = scale(ext, 10 ** 9)
                if not durs:
                    pos = I.truth(st, I.le(ONE, ext))
                    self.check(False if pos is not False else True, "ttl", g[5], "the ttl on a gauge line is not passed on", st)
                else:
                    d = decast(durs[0])
                    self.check(True if d == want else False if self.simple(d) else None, "ttl", g[5], "a gauge line sets the ttl %s ns instead of %s" % (show(d), show(want)), st)
            else:
                self.check(not durs, "ttl", g[5], "a gauge line without a ttl sets the ttl %s" % (show(durs[0]) if durs else ''), st)
        nums = [x for x in self.terms(st) if ext is None or x != ext]
        if how == "age" and (not args or any(e[0] == 'now' and e[1] == args[0] for e in st.events())):
            z = [x for x in nums if fczero(st, x)]
            self.check(True if z else False if conds_known(st) and not hidden(st) else None, "value", w, "an age gauge is set to now although the value is not 0", st)
            x = z[0] if z else None
            if x is not None:
                self.number(st, x, ('strtod',), w)
                return x[2]
            return None
        if not args:
            self.check(None, "value", w, "%s without a value" % meth, st)
            return None
        v = args[0]
        fn_ = ('strtoull', 'strtoumax') if how == "uint" else ('strtod', 'strtold')
        src = [x for x in subterms(v) if isinstance(x, tuple) and len(x) > 2 and x[0] == 'parse' and x != ext]
        if len(set(src)) != 1:
            self.check(False if self.simple(v) and not src else None, "value", w, "type %s records %s" % (L, show(v)), st)
            return None
        x = src[0]
        self.number(st, x, fn_, w)
        if how in ("value", "uint", "sampled"):
            okv = v == x or (how != "uint" and same_float(v, x))
            self.check(True if okv else False if self.simple(v) else None, "value", w, "type %s records %s instead of the number on the line" % (L, show(v)), st)
            if how == "sampled":
                want = scale(ext, 10 ** 6) if ext is not None else None
                ts = args[1] if len(args) > 1 else None
                self.check(True if ts == want else False if ts is not None and self.simple(ts) else None, "value", w, "the timestamp passed on is %s instead of %s" % (show(ts) if ts else '', show(want) if want else ''), st)
        else:
            k = {"int": 1.0, "ns": 1e9, "age": 1e9}[how]
            inner = v[3] if v[0] == 'f2i' else v[1] if v[0] in ('lround', 'llround') else None
            if inner is None:
                self.check(False if self.simple(v) else None, "value", w, "type %s records %s" % (L, show(v)), st)
            else:
                want = fmul(x, f(k))
                good = same_float(inner, want) and (v[0] != 'f2i' or v[1] == 64)
                self.check(True if good else False if self.simple(inner) else None, "value", w, "type %s records %s instead of %s" % (L, show(v), show(want)), st)
            if how == "age":
                zero = fczero(st, x, True)
                self.check(True if zero else None if hidden(st) or not conds_known(st) else False, "value", w, "an age gauge line with the value 0 does not mean now", st)
        return x[2]

    def simple(self, v):
        """built only from the numbers on the line and constants"""
        for x in subterms(v):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('call', 'ret', 'hv', 'undef', 'lp', 'sym', 'fop'):
                return False
        return True

    def number(self, st, x, fns, w):
        base = isc(x[3]) and x[3][1] == 10 if len(x) > 4 else True
        self.check(x[1] in fns and base, "value", w, "the value is read by %s" % x[1] + ("" if base else " in another base than 10"), st)
        ne = I_truth = self.I.truth(st, self.I.eq(('numend', x[1], x[2], x[-1]), Z))
        self.check(True if ne is False else False if ne is True or (conds_known(st) and not hidden(st)) else None, "wellformed", w, "a line is accepted although no number could be read where its value belongs", st)

    # ---- tags
    def tags(self, st, L, g, T, Q, N, V, w):
        """N: position of the separator after the name; V: position of the value"""
        I = self.I
        atsep = isbyte(I, st, sub(V, ONE), ':')
        V = decast(V)
        if T == ('tags', ()):
            d = decast(sub(V, ONE))
            ok = True if d == N and atsep is True else False if (d != N and known_pos(sub(d, N))) or atsep is False or conds_known(st) else None
            self.check(ok, "value", w, "the value of a line without tags is read from %s, the name ends at %s" % (show(sub(V, self.B)), show(sub(N, self.B))), st)
            return
        if T[0] != 'lp' or T[1] not in I.loops:
            self.check(None, "tags", w, "the tags of the meter are not followed: %s" % show(T)[:120], st)
            return
        key = (T, Q, N)
        if key not in self.loopres:
            self.loopres[key] = self.tagloop(T, N)
        items, P = self.loopres[key]
        for v, detail, b in items:
            self.check(v, "tags", I.loops[T[1]]['loc'], detail, b)
        if P is None:
            return
        # after the loop: the value starts behind the separator the loop stopped at
        d = decast(sub(V, ONE))
        at = d == P or (d == decast(add(P, ONE)) and isbyte(I, st, P, ':') is False and (isbyte(I, st, P, ',') is not False))
        if at and atsep is True:
            v = True
        elif atsep is False or (not at and known_pos(sub(d, P))):
            v = False
        else:
            v = None
        self.check(v, "value", w, "after the tags, the value is read from %s (the tags end at %s)" % (show(V), show(P)), st)

    def tagloop(self, T, N):
        I = self.I
        L = I.loops[T[1]]
        root = (T[2], T[3])
        out = []
        P = None
        e0 = I.raw(L['entry'], root[0], root[1])
        out.append((True if e0 == ('tags', ()) else None if e0 is None or e0[0] not in ('tags', 'tags+') else False, "the tags are not empty before the first one: %s" % (show(e0) if e0 else '?'), None))
        keys = {}
        for k in L['W']:
            x = L['head'].mem.get(k) if k[0] != 'ref' else None
            if x is not None and x[0] == 'lp':
                keys[x] = k
        for b in L['backs']:
            v = I.raw(b, root[0], root[1])
            if v is None or v[0] != 'tags+' or v[1] != T:
                out.append((False if v == T or (v is not None and v[0] == 'tags+' and v[1][0] == 'tags+') else None, "an iteration adds other than exactly one tag: %s" % (show(v) if v else '?'), b))
                continue
            ks, vs = (span(x[1]) if x[0] == 'intern' else None for x in v[2:4])
            if ks is None or vs is None:
                out.append((None, "tag not followed: %s" % show(v)[:160], b))
                continue
            (K, kn), (W, wn) = ks, vs
            p1 = first_at(add(K, kn), K, "=")
            p2 = decast(sub(W, add(K, kn))) == ONE
            p3 = first_at(add(W, wn), W, ",:")
            bad = p1 is False or p3 is False or (not p2 and known_pos(sub(W, add(K, kn))))
            out.append((True if p1 and p2 and p3 else False if bad else None,
                        "the tag's key is the %s bytes at %s and its value the %s bytes at %s" % (show(kn), show(sub(K, self.B)), show(wn), show(sub(W, self.B))), b))
            Pb = decast(sub(K, ONE))
            if P is not None and P != Pb:
                out.append((None, "different cursors", b))
                continue
            P = Pb
            # the next tag starts where this one ended
            m = {x: I.raw(b, k[0], k[1]) for x, k in keys.items()}
            nx = decast(I.subst_lin(P, {x: y for x, y in m.items() if y is not None and y[0] in ('c', 'lin', 'lp', 'init', 'find', 'choff', 'cast')}))
            end = decast(add(W, wn))
            out.append((True if nx == end else False if known_pos(sub(nx, end)) else None, "after a tag that ends at %s, the next one is taken from %s" % (show(sub(end, self.B)), show(sub(nx, self.B))), b))
            s = isbyte(I, b, P, ':')
            out.append((True if s is False else None if s is None and not conds_known(b) else False, "another tag is read although the separator before it is not a comma", b))
        if P is not None:
            m = {}
            for x, k in keys.items():
                y = I.raw(L['entry'], k[0], k[1])
                if y is not None:
                    m[x] = y
            p0 = decast(I.subst_lin(P, {x: y for x, y in m.items() if y[0] in ('c', 'lin', 'lp', 'init', 'find', 'choff', 'cast')}))
            out.append((True if p0 == N else False if known_pos(sub(p0, N)) else None, "the first tag is taken from %s instead of %s" % (show(sub(p0, self.B)), show(sub(N, self.B))), None))
        else:
            out.append((None, "no iteration that adds a tag was followed", None))
        return out, P


def fczero(st, x, no=False):
    """does the path know that x is (is not) 0?"""
    can = set('<=>?')
    for t, v in st.conds():
        if t[0] == 'fc' and {t[1], t[2]} == {x, f(0.0)}:
            o = set(t[3])
            if t[1] != x:
                o = {{'<': '>', '>': '<'}.get(q, q) for q in o}
            can = can & o if v else can - o
    return '=' not in can if no else can <= {'='}


def meter_of(fn):
    """class of the meter a lookup returns"""
    s = fn.rt.s
    import re
    m = re.findall(r'spectator::(\w+)', s)
    for x in m:
        if 'spectator::' + x in METERS:
            return x
    if fn.rt.rec in METERS:
        return fn.rt.rec.split('::')[-1]
    if fn.qn.startswith('spectatord::expiring_cache') and fn.rect is not None and fn.rect.ta:
        for a in fn.rect.ta:
            if a is not None and getattr(a, 'rec', None) in METERS:
                return a.rec.split('::')[-1]
    return None
