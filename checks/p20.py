"""P20: what is made of an aggregator's response."""
from payload import *
import p19
from p19 import senders, statuses, hidden_after, prove, pair

EXPLANATION = (
    "The function that handles a response is interpreted abstractly with the JSON document as an unknown value: tests (IsUint, HasMember, ...) are conditions, accesses "
    "(GetUint, operator[], GetArray, ...) are obligations that the matching test is known to hold where they stand. On every path, for every status that takes it, the "
    "returned pair must split the batch, and the counter updates must be those of the outcome's class; which counter is which is taken from the tags it is created with. "
    "The sender must handle each recorded response once, with its own number of measurements.")
ASSUMPTIONS = ["rapidjson's accessors are safe when the matching test holds, and its tests and parser are total", "statuses other than -1, 200 and 201..599 are the HTTP client's own errors (counted as dropped either way)"]
RULES = {
    "type": "a JSON value is only used as what it was tested to be",
    "body": "what is parsed is the response's body",
    "split": "sent plus dropped is the number of measurements of the batch, and neither is more",
    "class": "a response is counted as its status and body say",
    "counters": "exactly the matching status counters are increased by the same numbers, and none when status metrics are disabled",
    "each": "the sender handles each response once, with its own number of measurements",
}
NEED = {   # accessor: tests any of which allows it
    'GetUint': ('Uint',), 'GetInt': ('Int',), 'GetUint64': ('Uint64', 'Uint'), 'GetInt64': ('Int64', 'Int', 'Uint'),
    'GetDouble': ('Number', 'Double', 'Uint', 'Int', 'Uint64', 'Int64', 'LosslessDouble'), 'GetFloat': ('Number', 'Double', 'Uint', 'Int', 'Float', 'LosslessFloat'),
    'GetString': ('String',), 'GetStringLength': ('String',), 'GetBool': ('Bool', 'True', 'False'),
    'GetArray': ('Array',), 'Size': ('Array',), 'Empty': ('Array',), 'Begin': ('Array',), 'End': ('Array',), 'Capacity': ('Array',),
    'GetObject': ('Object',), 'MemberBegin': ('Object',), 'MemberEnd': ('Object',), 'MemberCount': ('Object',), 'ObjectEmpty': ('Object',),
    'HasMember': ('Object',), 'FindMember': ('Object',),
}


def isval(fn):
    return fn.rect is not None and fn.rect.rec in ('rapidjson::GenericValue', 'rapidjson::GenericDocument')


class Json(Rec):
    """rapidjson values as terms; tests as conditions; accesses as obligations"""

    def __init__(self, pred, inline=None):
        super().__init__(pred, inline)
        self.seen = {}      # (what, where) -> worst verdict, detail

    def doc(self, I, st, obj):
        """the term for the JSON value at a place"""
        root, path = obj[1], obj[2]
        if root[0] == 'mem' and isinstance(root[1], tuple) and root[1][0] == 'jp':
            path = tuple(x for x in path if x != ('i', Z))
            return ('jat', root[1][1], path) if path else root[1][1]
        v = st.mem.get((root, path))
        if v is not None and v[0] in ('jdoc', 'jany', 'fld', 'jval'):
            return v
        r = I.raw(st, root, path)
        if r is not None and r[0] in ('fld', 'jdoc', 'jany', 'jval', 'jmem'):
            return r
        return ('jany', I.addr(root, path), st.ver.get(root, 0))

    def lv(self, I, J):
        return ('lv', ('mem', ('jp', J)), ())

    def oblige(self, I, st, ok, what, where):
        if I.quiet:
            return
        k = (what, where)
        if self.seen.get(k, (True,))[0] is True:
            self.seen[k] = (True if ok is True else ok, pathstr(st, 4))

    def test(self, I, st, cond):
        return I.truth(st, cond) is True

    def call(self, I, fn, obj, args, st, fr, node):
        q = fn.qn
        if not q.startswith('rapidjson::'):
            return super().call(I, fn, obj, args, st, fr, node)
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        n = fn.name
        if isval(fn) and obj is not None:
            if fn.ctor:
                I.store(st, obj[1], obj[2], ('jdoc', 'null'))
                return [(st, Z)]
            if fn.dtor:
                return [(st, Z)]
            if n.startswith('Parse'):
                vals = tuple(I.argval(st, a, p) for a, p in zip(args, fn.pt))
                I.n += 1
                D = ('jdoc', I.n, vals)
                I.store(st, obj[1], obj[2], D)
                st.event('jparse', vals, D, loc)
                return [(st, obj)]
            J = self.doc(I, st, obj)
            if n == 'HasParseError':
                return [(st, ('jt', 'ParseError', J))]
            if n == 'operator bool':
                return [(st, ('jt', 'Parsed', J))]
            if n == 'IsNull' or n.startswith('Is') and not args:
                return [(st, ('jt', n[2:], J))]
            need = NEED.get(n)
            if n == 'operator[]':
                T = fn.pt[0].noref()
                if T.k == 'int':
                    i = I.argval(st, args[0], fn.pt[0])
                    ok = self.test(I, st, ('jt', 'Array', J))
                    self.oblige(I, st, ok, 'operator[] on %s, not known to be an array' % jname(J), loc)
                    ok = I.truth(st, ('le0', sub(add(i, ONE), ('call', 'json::Size', J)))) is True
                    self.oblige(I, st, ok or None, 'element %s of %s, not known to be within its size' % (show(i)[:40], jname(J)), loc)
                    return [(st, self.lv(I, ('jat', J, (('i', i),))))]
                name = self.name(I, st, args[0], fn.pt[0])
                ok = self.test(I, st, ('jt', 'Object', J))
                self.oblige(I, st, ok, 'operator[] on %s, not known to be an object' % jname(J), loc)
                ok = self.test(I, st, ('jhas', J, name))
                self.oblige(I, st, ok, 'member %s of %s, not known to be there' % (show(name), jname(J)), loc)
                return [(st, self.lv(I, ('jmem', J, name)))]
            if need is not None:
                ok = any(self.test(I, st, ('jt', x, J)) for x in need)
                self.oblige(I, st, ok, '%s on %s, not known to be %s' % (n, jname(J), need[0]), loc)
            if n == 'HasMember':
                return [(st, ('jhas', J, self.name(I, st, args[0], fn.pt[0])))]
            if n == 'FindMember':
                return [(st, ('jit', J, self.name(I, st, args[0], fn.pt[0])))]
            if n == 'MemberEnd':
                return [(st, ('jend', J))]
            if n in ('GetArray', 'GetObject'):
                return [(st, ('jval', 'json::' + n, J))]
            if n.startswith('Get') or n in ('Size', 'MemberCount'):
                t = ('call', 'json::' + n, J)
                if fn.rt is not None and fn.rt.k in ('int', 'float'):
                    I.typed(t, fn.rt)
                return [(st, t)]
            if n in ('Empty', 'ObjectEmpty'):
                return [(st, ('jt', 'Empty', J))]
        if fn.rect is not None and fn.rect.rec == 'rapidjson::GenericMemberIterator' or n in ('operator!=', 'operator==') and q.startswith('rapidjson'):
            def val(a, p):
                v = I.argval(st, a, p)
                if v[0] in ('ref', 'addr'):
                    x = I.deref(v[1] if v[0] == 'ref' else v)
                    v = I.raw(st, x[1], x[2])
                return v
            if fn.ctor:
                v = val(args[0], fn.pt[0]) if args else Z
                I.store(st, obj[1], obj[2], v)
                return [(st, Z)]
            if n in ('operator!=', 'operator=='):
                o = [I.raw(st, obj[1], obj[2])] if obj is not None else []
                v = o + [val(a, p) for a, p in zip(args, fn.pt)]
                if len(v) == 2:
                    a, b = v
                    if a[0] == 'jend':
                        a, b = b, a
                    if a[0] == 'jit' and b[0] == 'jend' and a[1] == b[1]:
                        t = ('jhas', a[1], a[2])
                        return [(st, t if n == 'operator!=' else ('not', t))]
            if n in ('operator->', 'operator*'):
                v = I.raw(st, obj[1], obj[2])
                if v[0] == 'jit':
                    self.oblige(I, st, self.test(I, st, ('jhas', v[1], v[2])), 'the member iterator for %s is used, not known to be in %s' % (show(v[2]), jname(v[1])), loc)
                    lv = ('lv', ('mem', ('jp', ('jpair', v[1], v[2]))), ())
                    return [(st, I.addr(lv[1], lv[2]) if n == 'operator->' else lv)]
            if n == 'operator=':
                v = val(args[0], fn.pt[0])
                I.store(st, obj[1], obj[2], v)
                return [(st, obj)]
        if fn.ctor and fn.rect is not None and fn.rect.rec == 'rapidjson::GenericStringRef':
            I.store(st, obj[1], obj[2], self.name(I, st, args[0], fn.pt[0]))
            return [(st, Z)]
        return super().call(I, fn, obj, args, st, fr, node)

    def name(self, I, st, a, p):
        import models
        v = a
        if v[0] == 'lv':
            T = p.noref() if p is not None else None
            if T is not None and T.k == 'arr':
                v = I.addr(v[1], v[2] + (('i', Z),))
            else:
                v = I.rval(st, v, T)
        if v[0] in ('addr', 'lin'):
            return models.cstr_content(I, st, v)
        if v[0] == 'sv':
            return models.content(v)
        return v


def norm(J):
    """('jat', ('jpair', J, name), ('value',)) is the member itself"""
    if isinstance(J, tuple):
        if len(J) == 3 and J[0] == 'jat' and isinstance(J[1], tuple) and J[1][0] == 'jpair' and J[2] == ('value',):
            return ('jmem', norm(J[1][1]), J[1][2])
        return tuple(norm(x) for x in J)
    return J


_doc = Json.doc
Json.doc = lambda self, I, st, obj: norm(_doc(self, I, st, obj))


def jname(J):
    if J[0] == 'jmem':
        return show(J[2])
    if J[0] == 'jdoc':
        return 'the body'
    return 'a value'


def handlers(ctx):
    return [f for f in ctx.prog.fns.values() if f.body is not None and f.rect is not None and f.rect.rec == PUB and not f.lam and any('HttpResponse' in T.noref().s for T in f.pt)]


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    hs = handlers(ctx)
    tops = []
    for f in hs:
        called = called_from(P, [h for h in hs if h is not f])
        if f.key not in called:
            tops.append(f)
    fns, posts = senders(ctx)
    ctx.need("functions that handle a response", len(tops) or (0 if not posts else 1), 1)
    role = counters(ctx)
    for f in tops:
        Handle(ctx, f, role)
    if not tops:
        ctx.und("class", PUB, "no function handles a response by itself")
    for f in fns:
        each(ctx, f, {h.key for h in tops})


def called_from(P, fs):
    out = set()
    for f in fs:
        for x in P.walk(f.body):
            if isinstance(x.get('fn'), int):
                out.add(f.tu.fns[x['fn']].key)
    return out


def counters(ctx):
    """field -> 'sent', 'invalid', 'http', 'other' by the tags it is created with"""
    P = ctx.prog
    out = {}
    for fn in [f for f in P.bodies(PUB + '::Publisher') if f.ctor and not (f.pt and f.pt[0].noref().rec == PUB)]:
        res, I = runfn(ctx, fn, Rec(lambda f: f.rect is not None and f.rect.rec == 'spectator::Registry'))
        for st, fl in res:
            made = {e[4]: e for e in ops(st, 'GetCounter')}
            for (r, p), v in st.mem.items():
                if r == ('this', PUB) and v in made:
                    tags = {}
                    t = made[v][3][-1]
                    while t[0] == 'tags+':
                        if t[2][0] == 'intern' and t[3][0] == 'intern':
                            tags.setdefault(str(t[2][1][1]), str(t[3][1][1]))
                        t = t[1]
                    if t != ('tags', ()):
                        continue
                    who = {'sent': 'sent'}.get(tags.get('id')) or tags.get('id') == 'dropped' and {'validation': 'invalid', 'http-error': 'http', 'other': 'other'}.get(tags.get('error')) or '?%s' % sorted(tags.items())
                    out[p[0]] = who
    return out


class Handle:
    def __init__(self, ctx, fn, role):
        self.ctx, self.fn, self.role = ctx, fn, role
        self.w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        cl = Json(lambda f: f.rect is not None and f.rect.rec == 'spectator::Counter')
        self.res, self.I = runfn(ctx, fn, cl)
        rp = [i for i, T in enumerate(fn.pt) if 'HttpResponse' in T.noref().s][0]
        nums = [fn.ps[i] for i, T in enumerate(fn.pt) if T.noref().k == 'int']
        self.rp = fn.ps[rp]
        I = self.I
        for (what, where), (ok, path) in sorted(cl.seen.items()):
            ctx.check(ok, "type", where, what + (" (path %s)" % path if ok is not True else ""), key="type:" + what[:60])
        ctx.anchor("accesses to the JSON body", len(cl.seen))
        got = False
        for st, fl in self.res:
            if fl[0] != 'R':
                ctx.check(None if hidden(st) else False, "class", self.w, "the response handling is left by %s" % fl[0]) if fl[0] == 'X' else None
                continue
            got = True
            for cs in st.alternatives() or [None]:
                self.path(st, fl[1], cs, nums)
        ctx.need("paths of the response handler", 1 if got else 0, 1)

    def path(self, st, val, cs, nums):
        ctx, I = self.ctx, self.I
        if cs is None:
            ctx.und("class", self.w, "too many ways to a result")
            return
        p = " (path %s)" % [(show(t)[:70], v) for t, v in cs][-7:]
        ab = pair(val)
        name = lambda x: x.get('n') if isinstance(x, dict) else str(x)
        sx, n = None, None
        for t in [t for t, _ in cs] + [val]:
            for z in subterms(t):
                if isinstance(z, tuple) and z and z[0] in ('init', 'fld') and z[2] and z[2][-1] == 'status':
                    sx = z
        for T, d in zip(self.fn.pt, self.fn.ps):
            if T.noref().k == 'int':
                nm = d.get('d') if isinstance(d, dict) else d
                n = [z for t in [t for t, _ in cs] + [val] for z in subterms(t) if isinstance(z, tuple) and z and z[0] == 'init' and z[1][0] == 'p' and z[2] == () and z[1][1] == (d.get('n') if isinstance(d, dict) else d)]
                n = n[0] if n else None
        if ab is None:
            ctx.und("split", self.w, "the result is not a pair of numbers" + p)
            return
        sent, err = (decast(x) for x in ab)
        if n is None:
            # the number does not even occur
            ctx.check(False if isc(sent) and isc(err) else None, "split", self.w, "sent %s and dropped %s do not depend on the size of the batch" % (show(sent), show(err)) + p)
            return
        ok = add(sent, err) == n
        ctx.check(True if ok else False if lin_of(add(sent, err)) is not None and not unknown(add(sent, err)) else None, "split", self.w, "sent %s and dropped %s of %s" % (show(sent)[:80], show(err)[:60], show(n)) + p)
        if ok:
            s = st.clone()
            less = err == n or err == Z or prove(I, s, sub(err, n)) or any(t == ('le0', sub(err, n)) and v for t, v in cs)
            ctx.check(True if less else False if not unknown(err) else None, "split", self.w, "dropped %s is not known to be at most the number of measurements" % show(err)[:60] + p)
        # ---- the class
        can = statuses_of(cs, sx) if sx is not None else None
        if can is None:
            ctx.und("class", self.w, "which statuses take this path is not known" + p)
            return
        if not can:
            return
        hid = any(e[0] == 'pcall' or e[0] == 'call' and str(e[1]).startswith(('spectator', '(lambda)')) and 'Logger' not in str(e[1]) for e in st.events())
        e0 = [z for z in subterms(err) if isinstance(z, tuple) and z and z[0] == 'call' and z[1].startswith('json::Get')]
        valid = False
        if e0 and err == e0[0]:
            J = e0[0][2]
            valid = J[0] == 'jmem' and J[2] == ('s', 'errorCount') and J[1][0] == 'jdoc'
            ctx.check(True if valid else False, "class", self.w, "the number of errors is read from %s" % show(J)[:60] + p)
            prs = [e for e in st.events() if e[0] == 'jparse' and e[2] == J[1]]
            for e in prs:
                self.parsed(e, p)
        cls = {('200' if z == 200 else '2xx-4xx' if 200 < z < 500 else '-1' if z == -1 else '5xx' if 500 <= z < 600 else None) for z in can} - {None}
        wants = []
        for k in sorted(cls):
            if k == '200':
                wants.append({'sent': n})
                ctx.check(True if err == Z else False if not unknown(err) else None, "class", self.w, "of a batch answered with 200 %s are dropped" % show(err)[:50] + p)
                continue
            if k == '2xx-4xx' and e0 and err == e0[0]:
                wants.append({'invalid': err, 'sent': sub(n, err)})
                continue
            ctx.check(True if err == n else False if not unknown(err) else None, "class", self.w, "of a batch with outcome %s %s are dropped" % (k, show(err)[:50]) + p)
            wants.append({'http': n} if k == '5xx' else {'other': n})
            if k == '2xx-4xx':
                self.unusable(cs, n, hid, p)
        # ---- the counters
        en = None
        for t, v in cs:
            if t[0] == 'not':
                t, v = t[1], not v
            if any(isinstance(z, tuple) and z and z[0] in ('init', 'fld') and z[2] and z[2][-1] == 'status_metrics_enabled' for z in [t]) or t[0] in ('init', 'fld') and t[2] and t[2][-1] == 'status_metrics_enabled':
                en = v
        adds, odd = {}, False
        for e in ops(st):
            if e[1].rect is None or e[1].rect.rec != 'spectator::Counter':
                continue
            f = field(e[2])
            if f is None or f not in self.role:
                odd = True
                continue
            k = self.role[f]
            a = ONE if e[1].name == 'Increment' else decast(unf(e[3][0])) if e[1].name == 'Add' and e[3] else None
            if a is None:
                odd = True
                continue
            adds[k] = add(adds.get(k, Z), a)
        inloop = any(e[0] == 'op' and e[1].rect is not None and e[1].rect.rec == 'spectator::Counter' for lid, L in I.loops.items() for b in L['backs'] for e in after_loop(b, lid)[1:])
        if inloop or hid:
            odd = True
        if en is None:
            ctx.check(False if adds and not odd else None if odd or not wants or adds else False, "counters", self.w, "counters are updated without regard to whether status metrics are enabled" if adds else "no counter is updated, whether or not status metrics are enabled" + p, key="counters")
        elif en is False:
            ctx.check(True if not adds and not odd else None if odd else False, "counters", self.w, "counters are updated although status metrics are disabled" + p, key="counters:off")
        elif wants:
          for want in wants:
            adds = {k: v for k, v in adds.items() if v != Z}
            ok = adds == {k: v for k, v in want.items() if v != Z}
            ctx.check(True if ok and not odd else None if odd or any(unknown(v) for v in adds.values()) else False, "counters", self.w,
                      "counted %s, expected %s" % ({k: show(v)[:40] for k, v in adds.items()}, {k: show(v)[:40] for k, v in want.items()}) + p, key="counters:on")

    def unusable(self, cs, n, hid, p):
        why, rest = False, []
        for t, v in cs:
            if t[0] == 'not':
                t, v = t[1], not v
            get = [z for z in subterms(t) if isinstance(z, tuple) and z and z[0] == 'call' and str(z[1]).startswith('json::Get')]
            if t[0] == 'jt' and t[1] in ('ParseError', 'Null', 'Array', 'String', 'Number', 'Bool', 'Int', 'False', 'True', 'Int64', 'Double') and v and t[2][0] == 'jdoc':
                why = True
            elif t[0] == 'jt' and t[1] in ('Object', 'Uint', 'Parsed') and not v or t[0] == 'jhas' and t[2] == ('s', 'errorCount') and not v:
                why = True
            elif t[0] == 'le0' and get:
                m = get[0]
                if t[1] == sub(m, n) and not v or t[1] == sub(add(n, ONE), m) and v:
                    why = True
                elif lin_of(t[1])[1].get(m) is None:
                    rest.append(t)
            elif t[0] in ('jt', 'jhas') and not v and t[1] not in ('ParseError', 'Null') or any(isinstance(z, tuple) and z and z[0] in ('hv', 'sym') for z in subterms(t)):
                rest.append(t)
        self.ctx.check(True if why else None if rest or hid else False, "class", self.w, "an answer that may be usable is counted as unusable" + p)

    def parsed(self, e, p):
        vals = e[1]
        t = vals[0]
        ok = t[0] == 'addr' and t[1][0] == 'strbuf' and t[1][1][0] in ('init', 'fld') and t[1][1][2] and t[1][1][2][-1] == 'raw_body'
        if ok and len(vals) > 1:
            ok = decast(vals[1]) == ('size', t[1][1])
            self.ctx.check(True if ok else None if not isc(sub(decast(vals[1]), ('size', t[1][1]))) else False, "body", e[3], "%s characters of the body are parsed" % show(vals[1])[:50] + p)
        else:
            self.ctx.check(True if ok else None, "body", e[3], "what is parsed is %s" % show(t)[:60] + p)


def unknown(t):
    return any(isinstance(z, tuple) and z and z[0] in ('hv', 'sym', 'ret', 'lp') for z in subterms(t))


def unf(v):
    """an integer converted to double"""
    while isinstance(v, tuple) and v and v[0] in ('i2f', 'itof', 'fint', 'tof') and len(v) >= 2:
        v = v[-1]
    return v


def field(a):
    if a is None:
        return None
    if a[0] == 'init' and a[1][0] == 'this' and a[2]:
        return a[2][0]
    if a[0] == 'addr':
        if a[1][0] == 'this':
            return a[2][0]
        if a[1][0] == 'mem':
            return field(a[1][1])
    return None


def statuses_of(cs, sx):
    class S:
        def alternatives(self):
            return [cs]
    return statuses(S(), sx)


def each(ctx, fn, keys):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    R = Run.__new__(Run)
    W = {f.key for f in writers(ctx.prog)}
    R.ctx, R.fn = ctx, fn
    R.res, R.I = runfn(ctx, fn, Rec(lambda f: f.key in W or f.key in keys or payfn(f) or f.rect is not None and f.rect.rec in ('spectator::HttpClient', 'spectator::Registry')))
    I = R.I
    seen = set()
    n = 0
    for st, fl in R.res:
        if fl[0] not in ('R', 'N'):
            continue
        ev = st.events()
        loops = [e[1] for e in ev if e[0] == 'loop']
        pl = [l for l in loops if any(p19.ispost(e) for b in I.loops[l]['backs'] for e in after_loop(b, l)[1:])]
        if not pl and not any(p19.ispost(e) for e in ev):
            continue
        n += 1
        hl = [l for l in loops if any(e[0] == 'op' and e[1].key in keys for b in I.loops[l]['backs'] for e in after_loop(b, l)[1:])]
        p = " (path %s)" % pathstr(st, 3)
        if len(hl) != 1:
            ctx.check(None if hidden_after(ev) or hl or any(e[0] == 'op' and e[1].key in keys for e in ev) else False, "each", w, "the responses are handled at %d places" % len(hl) + p)
            continue
        l = hl[0]
        if l in seen:
            continue
        seen.add(l)
        L = I.loops[l]
        cv = R.cover(l)
        ctx.check(True if cv not in (None, '?') and cv[0] == 'all' else False if cv is None else None, "each", L['loc'], "not every response is handled" + p)
        for b in L['backs']:
            cs = [e for e in after_loop(b, l)[1:] if e[0] == 'op' and e[1].key in keys]
            ctx.check(True if len(cs) == 1 else None if hidden_after(after_loop(b, l)[1:]) else False, "each", L['loc'], "a response is handled %d times" % len(cs))
            for e in cs:
                args = {('resp' if 'HttpResponse' in T.noref().s else 'num' if T.noref().k == 'int' else None): v for T, v in zip(e[1].pt, e[3])}
                r, m = args.get('resp'), decast(args.get('num'))
                if r is None or m is None:
                    ctx.und("each", e[5], "the arguments are not known")
                    continue
                r = place(r)
                m2 = place(m)
                ok = r is not None and m2 is not None and r[0] == m2[0] and r[1] == 'second' and m2[1] == 'first'
                ctx.check(True if ok else False if r is not None and (m2 is not None or isc(m) or not unknown(('x', m)) or m[0] == 'size') else None, "each", e[5], "the response %s is handled for %s measurements" % (show(args['resp'])[:60], show(m)[:60]))
    ctx.anchor("send paths", n)


def place(v):
    """(element, field) of a part of a response entry"""
    if v[0] in ('ref',):
        v = v[1]
    if v[0] == 'fld' and v[2] and v[2][-1] in ('first', 'second'):
        return (v[1], v[2][:-1]), v[2][-1]
    if v[0] == 'init' and v[2] and v[2][-1] in ('first', 'second'):
        return (v[1], v[2][:-1]), v[2][-1]
    if v[0] == 'addr' and v[2] and v[2][-1] in ('first', 'second'):
        return (v[1], v[2][:-1]), v[2][-1]
    return None
