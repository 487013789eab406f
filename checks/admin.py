"""Admin service: the request handler's paths, and sets of texts on which their conditions are decided (P23, P24)."""
from common import *

NAMES = ('localhost', '127.0.0.1', '[::1]')
URIS = ('/', '/config', '/config/common_tags', '/metrics', '/metrics/A', '/metrics/A/', '/metrics/g', '/metrics/g/')
METHODS = ('GET', 'POST', 'DELETE')
MUT = ('UpdateCommonTag', 'EraseCommonTag', 'DeleteMeter', 'DeleteAllMeters')
SENDS = ('send', 'sendFile', 'sendBuffer', 'redirect', 'requireAuthentication', 'sendErrorResponse')
CODES = {'HTTP_OK': 200, 'HTTP_BAD_REQUEST': 400, 'HTTP_NOT_FOUND': 404}


# ------------------------------------------------------------------ requests
def sym(what):
    return ('init', ('mem', ('req', what)), ())


def what_of(t):
    """which texts of the request a term is about"""
    return {x[1][1][1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'init' and isinstance(x[1], tuple) and x[1][0] == 'mem'
            and isinstance(x[1][1], tuple) and x[1][1][0] == 'req'}


class Admin(Rec):
    """the request's texts as symbols; JSON values, their types and contents as terms"""

    def __init__(self, inline=None):
        super().__init__(self.opaque, inline)
        self.bodies = set()

    def opaque(self, fn):
        return fn.qn.startswith(('Poco::', 'spectator::', 'spectatord::', 'spdlog::', 'fmt::')) or fn.qn == 'admin::parse_id'

    def inline(self, fn):
        return not self.opaque(fn) if self.inl is None else self.inl(fn)

    def assumed(self, I, st, t, val):
        """requests that no text can make are not followed"""
        u = constants(t)
        ws = what_of(u)
        if len(ws) != 1:
            return True
        w = next(iter(ws))
        if w not in SPEC:
            return True
        k = ('texts', w)
        cur = st.x.get(k, range(len(SPEC[w])))
        S = sym(w)
        out = []
        for i in cur:
            y = truth(u, S, SPEC[w][i])
            if y is None or y == 'implied' or y == val:
                out.append(i)
        st.x[k] = tuple(out)
        return bool(out)

    def val(self, I, st, obj):
        v = st.mem.get((obj[1], obj[2]))
        if v is not None and v[0] in ('jbody', 'jext', 'jempty'):
            return v
        if obj[1][0] == 'mem' and obj[1][1][0] in ('jv',) and not obj[2]:
            return obj[1][1][1]
        return ('at', I.addr(obj[1], obj[2]))

    def call(self, I, fn, obj, args, st, fr, node):
        q, n = fn.qn, fn.name
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        if q.startswith('Poco::Net::HTTP') and n in ('getURI', 'getMethod', 'getHost') and obj is not None:
            return [(st, ('lv', ('mem', ('req', n[3:].lower())), ()))]
        rec = fn.rect.rec if fn.rect is not None else None
        if q.startswith('spdlog::logger::') and fn.rt is not None and fn.rt.k == 'void':
            return [(st, Z)]    # logging changes none of its arguments
        if q.startswith('Poco::JSON::Parser') and n == 'parse':
            I.n += 1
            t = ('jbody', I.n, I.argval(st, args[0], fn.pt[0]))
            if I.trydepth:
                s2 = st.clone()
                s2.event('badbody', loc)
                I.abrupt.append((s2, ('X', None)))
                st.event('parsed', t, True, loc)
            else:
                st.event('parsed', t, False, loc)
            return [(st, t)]
        if rec == 'Poco::Dynamic::Var' and obj is not None:
            V = self.val(I, st, obj)
            if fn.ctor:
                v = I.rval(st, args[0], fn.pt[0].noref()) if args else ('jempty',)
                if args and args[0][0] == 'lv':
                    v = self.val(I, st, args[0])
                I.store(st, obj[1], obj[2], v)
                return [(st, Z)]
            if n == 'operator=' and args:
                v = self.val(I, st, args[0]) if args[0][0] == 'lv' else I.rval(st, args[0], None)
                I.store(st, obj[1], obj[2], v)
                return [(st, obj)]
            if n == 'type':
                return [(st, ('lv', ('mem', ('jtype', V)), ()))]
            if n in ('isString', 'isStruct'):
                return [(st, ('jis', V, 'string' if n == 'isString' else 'other'))]
            if n in ('isEmpty', 'isNumeric', 'isInteger', 'isSigned', 'isBoolean', 'isArray', 'isVector', 'isList'):
                return [(st, ('jis', V, n))]
            if n in ('extract', 'convert') or n == 'toString':
                T = fn.rt.noref()
                kind = jkind(T.s)
                ok = None
                for t, v in st.conds():
                    if t == ('jis', V, kind):
                        ok = v
                if n == 'extract':
                    st.event('extract', V, kind, ok, loc)
                return [(st, ('lv', ('mem', ('jext', V, kind)), ()))] if fn.rt.k == 'ref' else [(st, ('init', ('mem', ('jext', V, kind)), ()))]
        if q.startswith('std::type_info::operator') and obj is not None and len(args) == 1:
            a = ('jtype', obj[1][1][1]) if obj[1][0] == 'mem' and obj[1][1][0] == 'jtype' else None
            b = args[0]
            bt = I.rval(st, b, None) if b[0] != 'lv' else None
            if b[0] == 'lv' and b[1][0] == 'mem' and b[1][1][0] == 'jtype':
                b, a = obj, ('jtype', b[1][1][1])
                bt = None
            if bt is None and b[0] == 'lv':
                bt = I.raw(st, b[1], b[2])
            if a is not None and bt is not None and bt[0] == 'typeid':
                r = ('jis', a[1], jkind(bt[1]))
                return [(s, ONE if (b_ == (n == 'operator==')) else Z) for s, b_ in I.fork(st, r)]
        if rec is not None and rec.startswith('Poco::SharedPtr') or q.startswith('Poco::SharedPtr::'):
            if fn.ctor and len(args) == 1:
                v = I.rval(st, args[0], fn.pt[0].noref()) if args[0][0] == 'lv' else args[0]
                if args[0][0] == 'lv' and args[0][1][0] == 'mem' and args[0][1][1][0] == 'jext':
                    v = args[0][1][1]
                I.store(st, obj[1], obj[2], v)
                return [(st, Z)]
            if n in ('operator*', 'operator->', 'get') and obj is not None:
                v = st.mem.get((obj[1], obj[2]))
                if v is None and obj[1][0] == 'mem' and obj[1][1][0] == 'jext':
                    v = obj[1][1]
                if v is not None and v[0] == 'jext':
                    return [(st, ('lv', ('mem', v), ()))] if n == 'operator*' else [(st, ('addr', ('mem', v), ()))]
        if q == 'std::find' and len(args) == 3:
            a, b = I.rval(st, args[0], fn.pt[0]), I.rval(st, args[1], fn.pt[1])
            v = I.argval(st, args[2], fn.pt[2])
            I.n += 1
            t = ('found_at', I.n)
            r = ('in', a, v)
            out = []
            for s, y in I.fork(st, r):
                out.append((s, t if y else b))
                if y:
                    I.dom.assume_ne0(s, sub(t, b))
                    s.facts[I.eq(t, b)] = False
            return out
        return super().call(I, fn, obj, args, st, fr, node)


def jkind(s):
    if 'JSON::Object' in s:
        return 'object' if 'SharedPtr' in s or s.endswith('Ptr') else 'other'
    if 'basic_string' in s or s in ('std::string', 'const std::string', 'std::string &', 'const std::string &'):
        return 'string'
    return s


# ------------------------------------------------------------------ sets of texts
class Text:
    """one text (open=False), or every text that begins with pre and continues with some character not in notnext"""

    def __init__(self, pre, open, notnext=frozenset()):
        self.pre, self.open, self.notnext = pre, open, notnext

    def __repr__(self):
        return repr(self.pre) + ('+...' if self.open else '')

    def size(self):
        return (len(self.pre) + 1, None) if self.open else (len(self.pre), len(self.pre))

    def equals(self, lit):
        if not self.open:
            return self.pre == lit
        if len(lit) <= len(self.pre) or not lit.startswith(self.pre) or lit[len(self.pre)] in self.notnext:
            return False
        return None

    def starts(self, lit):
        if len(lit) <= len(self.pre):
            return self.pre.startswith(lit)
        if not self.open or not lit.startswith(self.pre) or lit[len(self.pre)] in self.notnext:
            return False
        return None

    def char(self, k):
        """a code, a set of excluded codes, or None"""
        if k < len(self.pre):
            return ord(self.pre[k])
        if not self.open:
            return 0 if k == len(self.pre) else None
        if k == len(self.pre):
            return {ord(x) for x in self.notnext}
        return None


def partition(lits):
    """every text falls into exactly one of these"""
    nodes = {''}
    for x in lits:
        for i in range(len(x) + 1):
            nodes.add(x[:i])
    out = []
    for p in sorted(nodes):
        nxt = frozenset(q[len(p)] for q in nodes if len(q) == len(p) + 1 and q.startswith(p))
        out += [Text(p, False), Text(p, True, nxt)]
    return out


def lits_in(t, S):
    return {x[1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 's' and isinstance(x[1], str)}


GLOBALS = {'HTTP_GET': 'GET', 'HTTP_POST': 'POST', 'HTTP_DELETE': 'DELETE', 'HTTP_PUT': 'PUT', 'HTTP_HEAD': 'HEAD'}


def constants(t):
    """Poco's named methods are their texts"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'init' and isinstance(t[1], tuple) and t[1][0] == 'g' and isinstance(t[1][1], str) and t[1][1].split('::')[-1] in GLOBALS:
        return ('s', GLOBALS[t[1][1].split('::')[-1]])
    return tuple(constants(x) for x in t)


def truth(t, S, x):
    """value of condition t about the text S when it is one of x: True, False, None"""
    h = t[0]
    if h == 'not':
        r = truth(t[1], S, x)
        return None if r is None else not r
    if h == 'streq':
        a, b = t[1], t[2]
        if a[0] == 's':
            a, b = b, a
        if b[0] != 's':
            return None
        if a == S:
            return x.equals(b[1])
        if a[0] == 'bytes' and isc(a[2]):
            base = sub(a[1], ('addr', ('strbuf', S), (('i', Z),)))
            if not isc(base):
                return None
            lo, n = base[1], a[2][1]
            if len(b[1]) != n:
                return False
            if not x.open:
                return x.pre[lo:lo + n] == b[1]
            if lo == 0:
                return x.starts(b[1])
            part = x.pre[lo:lo + n]
            if not b[1].startswith(part):
                return False
            return True if len(part) == n else None
        return None
    if h == 'found':
        a = t[1]
        if a[0] == 'find' and a[1] == 'rfind' and a[2] == S and a[3][0] == 's' and a[4] == Z:
            return x.starts(a[3][1])
        if a[0] == 'find' and a[1] == 'find' and a[2] == S and a[3][0] == 's' and a[4] == Z:
            if a[3][1] in x.pre:
                return True
            return False if not x.open else None
        if a[0] == 'find' and a[1] in ('find', 'rfind') and a[2] == S and a[3][0] == 's' and isc(a[4]):
            # anywhere from (up to) a constant position; an open text is decided only by what it is known to begin with
            k, p = a[3][1], a[4][1]
            i = x.pre.find(k, p) if a[1] == 'find' else x.pre.rfind(k, 0, p + len(k))
            return True if i >= 0 else False if not x.open else None
        return None
    if h in ('eq0', 'le0'):
        L = t[1]
        if L[0] != 'lin':
            L = add(L, Z)
        cst, ts = lin_of(L)
        ts = [(a, q) for a, q in (ts.items() if isinstance(ts, dict) else ts)]
        if len(ts) != 1:
            # positions of prefix tests carry their own bounds: implied by found()
            if all(a == ('size', S) or (a[0] == 'find' and a[2] == S) or a[0] == 'size' for a, _ in ts) and h == 'le0':
                return 'implied'
            return None
        a, q = ts[0]
        if a[0] == 'find' and a[1] in ('find', 'rfind') and a[2] == S and a[3][0] == 's' and h == 'eq0' and cst == 0:
            return x.starts(a[3][1])
        if a == ('size', S):
            lo, hi = x.size()
            if h == 'eq0':
                if cst % q:
                    return False
                v = -cst // q
                if lo == hi:
                    return v == lo
                return False if v < lo else None
            # q*n + cst <= 0
            if q > 0:
                if q * lo + cst > 0:
                    return False
                return True if hi is not None and q * hi + cst <= 0 else None
            if hi is not None and q * hi + cst > 0:
                return False
            return True if q * lo + cst <= 0 else None
        base = ('addr', ('strbuf', S))
        k = place(a, S)
        if k is not None:
            v = x.char(k)
            if h == 'eq0' and abs(q) == 1:
                want = -cst // q
                if isinstance(v, int):
                    return v == want
                if isinstance(v, set) and want in v:
                    return False
            return None
        return None
    return None


def place(a, S):
    """the index, when the term is a character of the text at a constant index"""
    if a[0] == 'init' and isinstance(a[1], tuple) and a[1] in (('strbuf', S), ('mem', ('addr', ('strbuf', S), ()))) and len(a[2]) == 1 and a[2][0][0] == 'i' and isc(a[2][0][1]):
        return a[2][0][1][1]
    if a[0] == 'cast':
        return place(a[3], S)
    return None


# (texts that only contain a name decide conditions that search for it)
SPEC = {'uri': partition(set(URIS) | {'x' + u for u in URIS if u == '/config/common_tags'}), 'method': partition(METHODS),
        'host': partition(set(NAMES) | {n + ':' for n in NAMES} | {'x' + n for n in NAMES})}


class Path:
    """one path of the handler and the requests that take it"""

    def __init__(self, st, fl, parts, I):
        self.st, self.fl = st, fl
        self.sure = {}      # what -> classes for which every condition holds
        self.maybe = {}
        self.other = []     # conditions that are not about the request's texts
        self.mixed = []
        by = {w: [] for w in parts}
        for t, v in st.conds():
            t = constants(t)
            ws = what_of(t)
            if not ws:
                self.other.append((t, v))
            elif len(ws) == 1 and next(iter(ws)) in parts:
                by[next(iter(ws))].append((t, v))
            else:
                self.mixed.append((t, v))
        for w, P in parts.items():
            S = sym(w)
            su, ma = [], []
            for x in P:
                r = True
                for t, v in by[w]:
                    y = truth(t, S, x)
                    if y == 'implied':
                        continue
                    if y is None:
                        r = None if r is True else r
                    elif y != v:
                        r = False
                        break
                if r is True:
                    su.append(x)
                elif r is None:
                    ma.append(x)
            self.sure[w], self.maybe[w] = su, ma


def uclass(x):
    if not x.open and x.pre in ('/', '/config', '/config/common_tags', '/metrics'):
        return x.pre
    for k in ('A', 'g'):
        p = '/metrics/' + k
        if x.starts(p):
            if x.equals(p):
                return k
            return k + '/' if x.starts(p + '/') else k + '?'
    return 'other'


def mclass(x):
    return x.pre if not x.open and x.pre in METHODS else 'other'


def hclass(x):
    return 'local' if any(x.equals(n) or x.starts(n + ':') for n in NAMES) else 'remote'


def requests(p):
    """[(uri class, method class, host class, sure)] of the requests that take the path"""
    out = {}
    for w, f in (('uri', uclass), ('method', mclass), ('host', hclass)):
        out[w] = {}
        for x in p.maybe[w]:
            out[w].setdefault(f(x), False)
        for x in p.sure[w]:
            out[w][f(x)] = True
    return [(u, m, h, a and b and d and not p.mixed) for u, a in out['uri'].items() for m, b in out['method'].items() for h, d in out['host'].items()]


def handler(ctx):
    """(paths, interpreter, function) of the request handler"""
    if hasattr(ctx, '_admin'):
        return ctx._admin
    hs = [f for f in ctx.prog.fns.values() if f.body is not None and f.repo and f.name == 'handleRequest']
    hs = [f for f in hs if f.rect is not None]
    fs = {f.key: f for f in hs}
    ctx.need("request handler of the admin service", len(fs), 1)
    fn = list(fs.values())[0]
    cl = Admin()
    rs, I = runfn(ctx, fn, cl, this=('lv', ('this', fn.rect.rec), ()))
    # the specified texts, and some others to tell a request that certainly takes a path from one that may
    lits = {'uri': set(URIS) | {'/x', '/metrics/x', '/metrics/x/y', '/metrics/Ax', '/metrics/gx', '/configx', '/config/common_tagsx', '/metricsx'}, 'method': set(METHODS) | {'PUT', 'HEAD'},
            'host': set(NAMES) | {n + ':' for n in NAMES} | {n + 'x' for n in NAMES} | {'x' + n for n in NAMES} | {'x'}}
    for st, fl in rs:
        for t, v in st.conds():
            t = constants(t)
            ws = what_of(t)
            for w in ws:
                if w in lits:
                    lits[w] |= lits_in(t, sym(w))
    parts = ctx._parts = {w: partition(x) for w, x in lits.items()}
    ctx._admin = ([Path(st, fl, parts, I) for st, fl in rs], I, fn)
    return ctx._admin


def responses(st, events=None):
    """[(number, status, where)] of the responses sent, and the operations on the response"""
    out, status = [], 200
    for e in (st.events() if events is None else events):
        if e[0] != 'op' or e[1].rect is None or not e[1].rect.rec.startswith('Poco::Net::HTTP') or 'Response' not in e[1].rect.rec:
            continue
        if e[1].name in ('setStatus', 'setStatusAndReason'):
            v = e[3][0] if e[3] else None
            if v is not None and v[0] == 's' and v[1].isdigit():
                status = int(v[1])
            else:
                status = v[1] if v is not None and isc(v) else None
        elif e[1].name in SENDS:
            out.append((status, e[5], e[1].name))
    return out


def effects(events):
    """the operations that change the registry or a meter"""
    out = []
    for e in events:
        if e[0] != 'op' or e[1].rect is None or not e[1].repo:
            continue
        r = e[1].rect.rec
        if not r.startswith('spectator::') or e[1].ctor or e[1].dtor:
            continue
        if r == 'spectator::Registry':
            rt = e[1].rt.s if e[1].rt is not None else ''
            if e[1].name in MUT or (not e[1].c and 'vector<const' not in rt and not (e[1].rt is not None and e[1].rt.k == 'rec' and e[1].rt.rec == 'std::vector')) or e[1].name in ('Measurements',):
                out.append(e)
        elif e[1].name in ('Measure',) or (not e[1].c and any('Meter' in b for b in bases(e))):
            out.append(e)
    return out


def bases(e):
    return [e[1].rect.rec] if e[1].name in ('Measure', 'Update', 'Increment', 'Add', 'Set', 'Record', 'UpdateLastTimestamp', 'SetTtl') else []
