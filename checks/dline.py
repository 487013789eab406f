"""One line of the statsd protocol: every path of its parser, compared with the line grammar and the meter operations it stands for."""
from sline import *

# type text -> (meter class, update, what is recorded, repeated)
DSPEC = {
    'c': ("Counter", "Add", "rated", False),
    'g': ("Gauge", "Set", "value", False),
    'h': ("DistributionSummary", "Record", "value", True),
    'ms': ("Timer", "Record", "ms", True),
    's': None,
}


def fcset(st, x, k):
    """the relations of x to the number k that the path allows"""
    can = set('<=>?')
    for t, v in st.conds():
        if t[0] == 'fc' and {t[1], t[2]} == {x, f(k)}:
            o = set(t[3])
            if t[1] != x:
                o = {{'<': '>', '>': '<'}.get(q, q) for q in o}
            can = can & o if v else can - o
    return can


class DLine(SLine):
    def accepted(self, st):
        I, B = self.I, self.B
        look, upd, other = self.effects(st)
        unk = hidden(st)
        ts = self.types(st)
        lp = None
        if len(look) == 1 and not upd and not other:
            # the update may be in a loop behind the lookup
            lp = self.updloop(st, look[0])
        n = len(upd) + (1 if lp else 0)
        desc = "a line is accepted with %d meters looked up and %d updates: %s" % (len(look), n, ", ".join("%s (%s)" % (e[1].qn, e[5]) for e in look + upd + other))
        if ts == ['s']:
            v = not look and not upd and not other
            self.check(True if v and not unk else None if v else False, "one", self.w, "a set line: " + desc, st)
            self.grammar(st, None, None, 's')
            return
        ok = len(look) == 1 and n == 1 and not other
        self.check(True if ok else False if other or len(look) > 1 or n > 1 or not unk else None, "one", self.w, desc, st)
        if not ok:
            return
        g = look[0]
        u = upd[0] if upd else lp[0]
        same = u[2] is not None and (u[2] == g[4] or I.deref(u[2]) == I.deref(g[4]))
        self.check(True if same else None if u[2] is None or u[2][0] not in ('ret',) else False, "one", u[5], "the meter updated (%s) is not the one looked up" % show(u[2])[:80], st)
        if not ts:
            self.check(False if conds_known2(st) and not unk else None, "wellformed", g[5], "a line whose type is none of c, g, h, ms and s is accepted (%s)" % g[1].name, st)
            return
        for T in ts:
            want = DSPEC[T]
            got = meter_of(g[1])
            if want is None or got != want[0]:
                self.check(False if len(ts) < len(DSPEC) or conds_known2(st) else None, "meter", g[5], "type %s uses a %s instead of a %s" % (T, got, want[0] if want else 'nothing'), st)
                continue
            self.check(u[1].name == want[1], "meter", u[5], "type %s calls %s instead of %s" % (T, u[1].name, want[1]), st)
            if u[1].name == want[1]:
                self.grammar(st, g, u, T, lp)

    # ---- pieces of the line
    def nameend(self, st):
        """position of the first colon"""
        I, B = self.I, self.B
        for e in st.events():
            pass
        out = set()
        for t, v in st.conds():
            for x in subterms(t):
                if isinstance(x, tuple) and x and x[0] in ('choff', 'find'):
                    p = decast(add(B, x)) if x[0] == 'choff' and decast(x[1]) == B else decast(add(decast(x[2][1]), x)) if x[0] == 'find' and x[2][0] == 'cstr' and decast(x[2][1]) == B else None
                    if p is not None and first_at(p, B, ":") is True:
                        out.add(p)
        return out.pop() if len(out) == 1 else None

    def othercolon(self, st):
        """the line is split at a colon that need not be the first"""
        return any(isinstance(x, tuple) and x and x[0] == 'choff' and len(x) > 4 and decast(x[1]) == self.B for t, v in st.conds() for x in subterms(t))

    def valueat(self, st):
        """the parsed value, its end"""
        N = self.nameend(st)
        if N is None:
            return None, None, None
        V = decast(add(N, ONE))
        xs = [x for x in self.terms(st) if x[0] == 'parse' and decast(x[2]) == V]
        if not xs:
            return N, None, None
        x = xs[0]
        return N, x, decast(add(V, ('numend', x[1], x[2], x[-1])))

    def types(self, st):
        I = self.I
        N, x, E = self.valueat(st)
        if E is None:
            return list(DSPEC)
        a, b = add(E, ONE), add(E, c(2))
        out = []
        for T in DSPEC:
            if isbyte(I, st, a, T[0]) is False or (len(T) > 1 and isbyte(I, st, b, T[1]) is False):
                continue
            out.append(T)
        return out

    def ratepos(self, st, T, E):
        """(position after the type, rate term or None)"""
        P = decast(add(E, c(1 + len(T))))
        R = [x for x in self.terms(st) if x[0] == 'parse' and decast(x[2]) == decast(add(P, c(2)))]
        return P, (R[0] if R else None)

    # ---- rejected lines
    def witness(self, st):
        I, B = self.I, self.B
        for t, v in st.conds():
            if v is False and t[0] == 'found' and ((t[1][0] in ('strchr', 'choff') and any(decast(y) == B for y in t[1][1:3] if isinstance(y, tuple))) or
                                                  (t[1][0] == 'find' and t[1][2] == ('cstr', B))):
                x = t[1]
                if any(y == c(58) or y == ('s', ':') for y in x[1:] if isinstance(y, tuple)):
                    return "name"
        N, x, E = self.valueat(st)
        if N is None:
            return None
        if I.truth(st, I.eq(N, B)) is True or I.truth(st, I.eq(decast(sub(N, B)), Z)) is True:
            return "name"
        if x is None:
            return None
        if I.truth(st, I.eq(('numend', x[1], x[2], x[-1]), Z)) is True:
            return "value"
        if isbyte(I, st, E, '|') is False:
            return "separator"
        ts = self.types(st)
        if not ts:
            return "type"
        if all(self.badrate(st, T, E) for T in ts):
            return "rate"
        # an empty key or value
        for t, v in st.conds():
            if v is True and t[0] == 'eq0':
                d = lin_of(decast(t[1]))
                if any(a[0] == 'lp' for a in d[1]) and sorted(d[1].values()) in ([-1, 1], [-1, 1, 1], [-1, -1, 1, 1]) and not any(a[0] in ('init', 'hv') and a is not B for a in d[1]):
                    return "tag"
            if v is True and t[0] == 'eq0':
                for y in lin_of(t[1])[1]:
                    if y[0] == 'init' and y[1][0] == 'mem' and t[1] == sub(y, c(44)):
                        q = I.addr(y[1], y[2])
                        if isbyte(I, st, sub(q, ONE), ':') is True:
                            return "tag"
        return None

    def badrate(self, st, T, E):
        I = self.I
        P, R = self.ratepos(st, T, E)
        if R is None or isbyte(I, st, P, '|') is not True or isbyte(I, st, add(P, ONE), '@') is not True:
            return False
        if I.truth(st, I.eq(('numend', R[1], R[2], R[-1]), Z)) is True:
            return True
        return not (fcset(st, R, 0.0) & {'>'}) or not (fcset(st, R, 1.0) & {'<', '='})

    def rejected(self, st, fl):
        look, upd, other = self.effects(st)
        d = "a line is rejected after %s" % ", ".join("%s (%s)" % (e[1].qn, e[5]) for e in look + upd + other)
        self.check(False if look or upd or other else seen(True, st), "none", self.w, d, st)
        self.check(True if self.witness(st) else False if conds_known2(st) and not hidden(st) and not any(e[0] == 'loop' for e in st.events()) else None,
                   "accepts", self.w, "a line is rejected although nothing in it is malformed, as far as it was examined", st)

    # ---- accepted lines
    def grammar(self, st, g, u, T, lp=None):
        I, B = self.I, self.B
        unk = hidden(st) or not conds_known2(st)
        miss = None if unk else False
        w = u[5] if u else self.w
        N, x, E = self.valueat(st)
        if N is None or x is None:
            self.check(None, "wellformed", w, "where the name and the value end is not followed", st)
            if N is None and self.othercolon(st):
                self.check(False, "name", w, "the name does not end at the first colon", st)
            return
        t = I.truth(st, I.eq(N, B))
        if t is None:
            t = I.truth(st, I.eq(decast(sub(N, B)), Z))
        self.check(True if t is False else False if t is True else miss, "wellformed", w, "a line without a name is accepted", st)
        ne = I.truth(st, I.eq(('numend', x[1], x[2], x[-1]), Z))
        self.check(True if ne is False else False if ne is True else miss, "wellformed", w, "a line is accepted although no number could be read where its value belongs", st)
        s = isbyte(I, st, E, '|')
        self.check(True if s is True else False if s is False else miss, "wellformed", w, "a line is accepted without the separator after its value", st)
        for i, ch in enumerate(T):
            s = isbyte(I, st, add(E, c(1 + i)), ch)
            self.check(True if s is True else False if s is False else miss, "wellformed", w, "type %s is assumed although the line may carry another" % T, st)
        P, R = self.ratepos(st, T, E)
        has = isbyte(I, st, P, '|')
        at = isbyte(I, st, add(P, ONE), '@')
        after = P
        if R is None:
            self.check(True if has is False or at is False else None if unk else False, "wellformed", w, "a sampling rate on the line is not looked at", st)
        else:
            self.check(has is True and at is True or miss, "rate", w, "a sampling rate is read where none is", st)
            ne = I.truth(st, I.eq(('numend', R[1], R[2], R[-1]), Z))
            lo, hi = fcset(st, R, 0.0), fcset(st, R, 1.0)
            ok = ne is False and lo <= {'>'} and hi <= {'<', '='}
            self.check(True if ok else miss, "rate", w, "a line is accepted with a sampling rate that is not a number greater than 0 and at most 1", st)
            self.check(True if R[1] in ('strtod', 'strtold') else False, "rate", w, "the sampling rate is read by %s" % R[1], st)
            after = decast(add(P, ('numend', R[1], R[2], R[-1])))
            after = decast(add(after, c(2)))
        if g is None:
            return
        # id
        ids = [v for v in g[3] if isinstance(v, tuple) and v[0] == 'new' and v[1] == 'spectator::Id::Id']
        id_ = unid(ids[0]) if len(ids) == 1 else None
        nm = interned(st, id_[0]) if id_ else None
        if nm is None:
            self.check(None, "name", g[5], "name of the meter not followed", st)
        else:
            p, n = nm
            good = p == B and decast(add(p, n)) == N
            self.check(True if good else False if known_pos(sub(p, B)) and known_pos(sub(add(p, n), N)) else None, "name", g[5], "the name is the %s bytes at %s" % (show(n), show(sub(p, B))), st)
        if [t for t in g[1].pt if 'uration' in t.s]:
            self.check(False, "meter", g[5], "a statsd gauge line sets a ttl", st)
        self.number2(st, x, R, T, u, lp, w)
        if id_ is not None:
            self.stags(st, id_[1], P, after, R, w)

    def number2(self, st, x, R, T, u, lp, w):
        cls, meth, how, rep = DSPEC[T]
        base = x[1] in ('strtod', 'strtold')
        self.check(base, "value", w, "the value is read by %s" % x[1], st)
        if not u[3]:
            self.check(None, "value", w, "%s without a value" % meth, st)
            return
        v = decast(u[3][0])
        if how == "rated":
            want = fdiv(x, R) if R is not None else x
            ok = same_float(v, want)
        elif how == "value":
            want = x
            ok = v == x or same_float(v, x)
        else:
            want = ('lround', fmul(x, f(1e6)))
            inner = v[1] if v[0] in ('lround', 'llround') else v[3] if v[0] == 'f2i' else None
            ok = inner is not None and same_float(inner, want[1])
        self.check(True if ok else False if self.simple(v) else None, "value", w, "type %s records %s instead of %s" % (T, show(v), show(want)), st)
        if not rep:
            self.check(lp is None or None, "times", w, "type %s is recorded in a loop" % T, st)
            return
        if lp is None:
            one = R is None or fcset(st, R, 1.0) <= {'='}
            self.check(True if one else False if self.simple(v) else None, "times", w, "a sampled %s value is recorded once whatever the sampling rate" % T, st)
            return
        n = lp[1]
        if n is None:
            self.check(None, "times", w, "how often the value is recorded is not followed", st)
            return
        n = decast(n)
        if R is None:
            n = ONE if n == ('lround', f(1.0)) else n
            self.check(True if n == ONE else False if self.simple(n) else None, "times", w, "a %s value without a sampling rate is recorded %s times" % (T, show(n)), st)
        else:
            want = ('lround', fdiv(f(1.0), R))
            ok = n == want or (n[0] in ('lround', 'llround') and same_float(n[1], want[1]))
            self.check(True if ok else False if self.simple(n) else None, "times", w, "a %s value is recorded %s times instead of %s" % (T, show(n), show(want)), st)

    def updloop(self, st, look):
        """the update inside a loop after the lookup, and how often it runs: (event, count)"""
        I = self.I
        ev = st.events()
        i = ev.index(look)
        lids = [e[1] for e in ev[i:] if e[0] == 'loop']
        if len(lids) != 1:
            return None
        L = I.loops.get(lids[0])
        if L is None or not L['backs']:
            return None
        got, count = None, None
        for b in L['backs']:
            es = [e for e in after_loop(b, lids[0]) if e[0] == 'op' and e[1].rect is not None and e[1].rect.rec in METERS and not e[1].c and not e[1].ctor and not e[1].dtor]
            if len(es) != 1 or any(e[0] == 'op' and e[1].qn.startswith(('spectator::Registry', 'spectatord::expiring')) and not e[1].c for e in after_loop(b, lids[0])):
                return None
            if got is not None and (got[1], got[3]) != (es[0][1], es[0][3]):
                return es[0], None
            got = es[0]
            k = self.count(L, b)
            if count is not None and k != count:
                return got, None
            count = k
        if not all(fl[0] == 'N' for s, fl in L['exits']):
            return got, None
        return got, count

    def count(self, L, b):
        """iterations of a counting loop"""
        I = self.I
        for k in L['W']:
            x = L['head'].mem.get(k) if k[0] != 'ref' else None
            if x is None or x[0] != 'lp':
                continue
            e0, x1 = I.raw(L['entry'], k[0], k[1]), I.raw(b, k[0], k[1])
            if e0 is None or x1 is None:
                continue
            e0, step = decast(e0), decast(sub(x1, x))
            if step not in (ONE, c(-1)):
                continue
            for t, v in reversed(b.conds()):
                if t[0] != 'le0' and not (t[0] == 'eq0' and v is False):
                    continue
                d = lin_of(decast(t[1]))[1]
                if x not in d:
                    continue
                q = t[1] if v or t[0] == 'eq0' else sub(ONE, t[1])
                q = decast(q)
                if t[0] == 'eq0':
                    # runs until x equals the bound (taken to be reachable)
                    if d[x] == -1:
                        q = scale(q, -1)
                    rest = sub(q, x)             # x + rest != 0
                    return decast(sub(scale(rest, -1), e0)) if step == ONE else decast(add(e0, rest))
                if step == ONE and d[x] == 1:
                    return decast(add(sub(scale(sub(q, x), -1), e0), ONE))
                if step == c(-1) and d[x] == -1:
                    return decast(add(sub(e0, add(q, x)), ONE))
                return None
        return None

    # ---- tags
    def stags(self, st, T, P, after, R, w):
        I = self.I
        # where a tag section would start
        starts = [decast(add(P, c(2)))] if R is None else [decast(add(after, ONE)), decast(add(after, c(2)))]
        sharp = {q: isbyte(I, st, sub(q, ONE), '#') for q in starts}
        final = None
        if T[0] == 'tags+' and T[1][0] == 'lp':
            final, T = T, T[1]
        if T == ('tags', ()):
            no = all(v is False for v in sharp.values()) if R is None else True
            if R is None:
                no = isbyte(I, st, P, '|') is False or sharp[starts[0]] is False
            else:
                bar = isbyte(I, st, after, '|')
                no = (sharp[starts[0]] is False) if bar is False else (sharp[starts[1]] is False) if bar is True else False
            self.check(True if no else None if hidden(st) else False, "tags", w, "the tags of a line are not looked at", st)
            return
        if T[0] != 'lp' or T[1] not in I.loops:
            self.check(None, "tags", w, "tags not followed: %s" % show(T)[:120], st)
            return
        if T not in self.loopres:
            self.loopres[T] = self.stagloop(T)
        items, roles = self.loopres[T]
        for v, d, b in items:
            self.check(v, "tags", I.loops[T[1]]['loc'], d, b)
        if roles is None:
            return
        bk, ek, bv, S = roles
        good = S in starts and sharp[S] is True
        self.check(True if good else False if known_pos(sub(S, self.B)) else None, "tags", w, "the first tag is taken from %s" % show(sub(S, self.B)), st)
        if final is None:
            self.check(False, "tags", w, "the last tag of the line is not added", st)
            return
        r, E, d = self.onetag(st, final, bk, ek, bv)
        self.check(r, "tags", w, "last tag: " + d, st)
        if r is True:
            z = isbyte(I, st, E, 0)
            self.check(True if z is True else None if z is None else False, "tags", w, "the last tag ends before the line does", st)

    def onetag(self, st, v, bk, ek, bv):
        """is the tag added in state st [bk, ek) = [bv, E) or [bk, E) = 1?  (verdict, E, description)"""
        I = self.I
        ks, val = span(v[2][1]) if v[2][0] == 'intern' else None, v[3]
        if ks is None or val[0] != 'intern':
            return None, None, "not followed"
        K, ke = ks[0], decast(add(*ks))
        d = "key [%s, %s)" % (show(K), show(ke))
        if K != bk:
            return (False if known_pos(sub(K, bk)) else None), None, d
        if val[1] == ('s', '1'):
            z = I.truth(st, I.eq(bv, Z)) if bv is not None else True
            return (True if z is True else None if z is None else False), ke, d + " without a value"
        vs = span(val[1])
        if vs is None:
            return (False if val[1][0] == 's' else None), None, d + " value %s" % show(val)
        W, we = vs[0], decast(add(*vs))
        d += " value [%s, %s)" % (show(W), show(we))
        if W != bv or ke != ek:
            # set in this very iteration?
            if isbyte(I, st, ke, ':') is True and decast(sub(W, ke)) == ONE:
                return True, we, d
            return (False if known_pos(sub(W, self.B)) and known_pos(sub(ke, self.B)) else None), None, d
        z = I.truth(st, I.eq(bv, Z))
        return (True if z is False else None), we, d

    def stagloop(self, T):
        I = self.I
        L = I.loops[T[1]]
        root = (T[2], T[3])
        out = []
        keys = {}
        for k in L['W']:
            x = L['head'].mem.get(k) if k[0] != 'ref' else None
            if x is not None and x[0] == 'lp':
                keys[x] = k
        e0 = I.raw(L['entry'], root[0], root[1])
        out.append((True if e0 == ('tags', ()) else None, "the tags are not empty before the first one", None))
        adds, keeps = [], []
        for b in L['backs']:
            v = I.raw(b, root[0], root[1])
            (keeps if v == T else adds).append((b, v))
        # roles of the cursors
        bks = {span(v[2][1])[0] for b, v in adds if v is not None and v[0] == 'tags+' and v[1] == T and v[2][0] == 'intern' and span(v[2][1])}
        if len(bks) == 1 and next(iter(bks)) not in keys and known_pos(sub(next(iter(bks)), self.B)):
            return out + [(False, "every tag's key is taken from the same position %s" % show(sub(next(iter(bks)), self.B)), adds[0][0])], None
        if len(bks) != 1 or next(iter(bks)) not in keys:
            return out + [(None, "the cursors of the tag loop are not followed", None)], None
        bk = bks.pop()
        bv = ek = None
        for b, v in adds:
            if v[0] == 'tags+' and v[1] == T and v[3][0] == 'intern' and span(v[3][1]):
                W = span(v[3][1])[0]
                ke = decast(add(*span(v[2][1])))
                if W in keys:
                    bv = W
                    if ke in keys:
                        ek = ke
        val = lambda b, x: decast(I.raw(b, *keys[x])) if x is not None else None
        if all(v is not None and v[0] == 'tags+' and v[1] == T and v[3] == ('intern', ('s', '1')) for b, v in adds):
            out.append((False, "no tag is given the value written behind its colon", adds[0][0]))
        S = val(L['entry'], bk)
        if bv is not None:
            z = val(L['entry'], bv)
            out.append((True if z == Z else None, "a value is remembered before the first tag", None))
        for b, v in adds:
            if v is None or v[0] != 'tags+' or v[1] != T:
                out.append((False if v is not None and v[0] == 'tags+' and v[1][0] == 'tags+' else None, "an iteration adds other than one tag: %s" % show(v)[:200], b))
                continue
            r, E, d = self.onetag(b, v, bk, ek, bv)
            out.append((r, d, b))
            if r is not True:
                continue
            cm = isbyte(I, b, E, ',')
            out.append((True if cm is True else None if cm is None else False, "a tag ends at %s, which is not a comma" % show(E), b))
            nb = val(b, bk)
            out.append((True if nb == decast(add(E, ONE)) else False if known_pos(sub(nb, E)) else None, "after the comma at %s the next tag starts at %s" % (show(E), show(nb)), b))
            if bv is not None:
                z = val(b, bv)
                out.append((True if z == Z else False if z in (bv,) or known_pos(z) else None, "the value of a tag is still remembered for the next one", b))
        for b, v in keeps:
            nb = val(b, bk)
            out.append((True if nb == bk else None, "the start of the tag moves to %s inside it" % show(nb), b))
            if bv is not None:
                z, y = val(b, bv), val(b, ek)
                same = z == bv and (ek is None or y == ek)
                colon = y is not None and isbyte(I, b, y, ':') is True and decast(sub(z, y)) == ONE
                out.append((True if same or colon else False if known_pos(z) and (y is None or known_pos(y)) else None, "the value of a tag starts at %s, its key ends at %s" % (show(z), show(y) if y else ''), b))
        return out, (bk, ek, bv, S)


def conds_known2(st):
    for t, v in st.conds():
        for x in subterms(t):
            if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
                continue
            if x[0] in ('call', 'ret', 'hv', 'undef') or (x[0] == 'init' and x[1][0] not in ('p', 'g', 'mem', 'this')):
                return False
    return True
