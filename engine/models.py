"""What the analysis knows about library functions: standard library, absl, atomics, locks, strings, C parsing.

A model is a handler (I, fn, obj, args, st, fr, node) -> [(state, value)]; None means "no special meaning here",
which makes the call an opaque event."""
import re
from terms import *

MODELS = {}


def model(*names):
    def d(h):
        for n in names:
            MODELS[n] = h
        return h
    return d


def rv(I, st, fn, args, i):
    """argument i as a value"""
    v = args[i]
    if v[0] != 'lv':
        return v
    T = fn.pt[i] if i < len(fn.pt) else None
    if T is not None and T.k == 'ref':
        T = T.to
    return I.load(st, v[1], v[2], T)


def loc_of(fr, node):
    return fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'


def ret(st, v):
    return [(st, v)]


def is_rref(T):
    return T is not None and T.k == 'ref' and T.s.endswith('&&')


def octype(fn):
    return fn.rect


def gset(I, st, lv, v, T=None):
    I.store(st, lv[1], lv[2], v, T)


# ------------------------------------------------------------------ identity functions
@model("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "std::launder")
def m_move(I, fn, obj, args, st, fr, node):
    if fn.qn == "std::addressof":
        return ret(st, I.addr(args[0][1], args[0][2]))
    if fn.qn == "std::move" and len(args) == 3:
        return None
    return ret(st, args[0])


# ------------------------------------------------------------------ smart pointers
SP = ("std::shared_ptr", "std::unique_ptr", "Poco::SharedPtr", "std::weak_ptr", "Poco::AutoPtr")


def m_sp_ctor(I, fn, obj, args, st, fr, node):
    if not args or (isc(args[0]) and args[0] == Z):
        gset(I, st, obj, Z)
        return ret(st, Z)
    v = rv(I, st, fn, args, 0)
    if args[0][0] == 'lv' and is_rref(fn.pt[0] if fn.pt else None):
        gset(I, st, args[0], Z)
    gset(I, st, obj, v)
    return ret(st, Z)


def m_sp_asg(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    if args[0][0] == 'lv' and is_rref(fn.pt[0] if fn.pt else None):
        gset(I, st, args[0], Z)
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    st.event('spset', I.addr(obj[1], obj[2]), v, loc_of(fr, node))
    gset(I, st, obj, v)
    return ret(st, obj)


def m_sp_get(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    v = I.raw(st, obj[1], obj[2])
    if fn.rt is not None and fn.rt.k == 'ref':
        return ret(st, I.deref(v))
    I.typed(v, fn.rt)
    return ret(st, v)


def m_sp_bool(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    v = I.raw(st, obj[1], obj[2])
    return ret(st, I.negate(I.eq(v, Z)))


def m_sp_reset(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0) if args else Z
    st.event('spset', I.addr(obj[1], obj[2]), v, loc_of(fr, node))
    gset(I, st, obj, v)
    return ret(st, Z)


def m_sp_release(I, fn, obj, args, st, fr, node):
    v = I.raw(st, obj[1], obj[2])
    gset(I, st, obj, Z)
    return ret(st, v)


for _p in SP:
    _n = _p.split("::")[-1]
    MODELS[_p + "::" + _n] = m_sp_ctor
    MODELS[_p + "::operator="] = m_sp_asg
    MODELS[_p + "::operator->"] = m_sp_get
    MODELS[_p + "::operator*"] = m_sp_get
    MODELS[_p + "::get"] = m_sp_get
    MODELS[_p + "::operator_conv"] = m_sp_bool
    MODELS[_p + "::operator bool"] = m_sp_bool
    MODELS[_p + "::reset"] = m_sp_reset
    MODELS[_p + "::release"] = m_sp_release


def pick_ctor(I, T, args, st):
    """constructor of record type T for these argument values"""
    r = I.prog.records.get(T.s.replace('const ', '', 1) if T.s.startswith('const ') else T.s)
    if r is None:
        return None
    cands = []
    for m in r.methods:
        if not m.ctor or m.dflt:
            continue
        need = sum(1 for p in (m.ps or []) if "da" not in p)
        if m.body is None:
            if len(m.pt) == len(args):
                cands.append(m)
            continue
        if len(m.pt) >= len(args) and (len(m.pt) == len(args) or need <= len(args)):
            cands.append(m)
    cands = [m for m in cands if not (len(m.pt) == 1 and m.pt[0].k == 'ref' and m.pt[0].to.rec == T.rec)] or cands
    ex = [m for m in cands if len(m.pt) == len(args)]
    cands = ex or cands
    if len(cands) > 1:
        withbody = [m for m in cands if m.body is not None]
        cands = withbody or cands
    return cands[0] if len(cands) == 1 else None


@model("std::make_shared", "std::make_unique", "std::allocate_shared")
def m_make(I, fn, obj, args, st, fr, node):
    T = fn.ta[0] if fn.ta else None
    if T is None:
        return None
    I.n += 1
    root = ('heap', I.n)
    if T.k == 'arr':
        n = rv(I, st, fn, args, 0) if args else Z
        st.event('new', root, T.s, n)
        return ret(st, ('addr', root, (('i', Z),)))
    st.event('new', root, T.s, None)
    p = ('addr', root, ())
    lv = ('lv', root, ())
    if T.k != 'rec' or I.is_tags(T):
        gset(I, st, lv, rv(I, st, fn, args, 0) if args else I.zero(T), T)
        return ret(st, p)
    # copies
    if len(args) == 1:
        AT = fn.pt[0].noref() if fn.pt else None
        if AT is not None and AT.k == 'rec' and AT.rec == T.rec:
            v = rv(I, st, fn, args, 0)
            gset(I, st, lv, v, T)
            return ret(st, p)
    if not T.repo:
        st.event('make', T.s, tuple(rv(I, st, fn, args, i) for i in range(len(args))), p, loc_of(fr, node))
        if args:
            gset(I, st, lv, ('new', T.s) + tuple(rv(I, st, fn, args, i) for i in range(len(args))))
        return ret(st, p)
    m = pick_ctor(I, T, args, st)
    vals = tuple(rv(I, st, fn, args, i) for i in range(len(args)))
    st.event('make', T.s, vals, p, loc_of(fr, node))
    if m is not None and m.body is not None and I.client.inline(m):
        out = []
        for s, _ in I.call(m, lv, list(args), st, fr, node):
            out.append((s, p))
        return out
    if vals:
        gset(I, st, lv, ('new', T.s) + vals)
    return ret(st, p)


# ------------------------------------------------------------------ optional, pair, tuple
def opt_conv(I, st, v, T):
    return v


@model("std::optional::optional")
def m_opt_ctor(I, fn, obj, args, st, fr, node):
    T = fn.rect
    if not args:
        I.store(st, obj[1], obj[2] + ('#has',), Z)
        return ret(st, Z)
    PT = fn.pt[0].noref() if fn.pt else None
    if PT is not None and PT.k == 'rec' and PT.rec == 'std::nullopt_t':
        I.store(st, obj[1], obj[2] + ('#has',), Z)
        return ret(st, Z)
    v = rv(I, st, fn, args, 0)
    if PT is not None and PT.k == 'rec' and PT.rec == 'std::optional':
        gset(I, st, obj, v)
        return ret(st, Z)
    if PT is not None and PT.k == 'rec' and PT.rec == 'std::in_place_t':
        v = rv(I, st, fn, args, 1) if len(args) == 2 else I.fresh('inplace')
    vt = T.ta[0] if T is not None and T.ta else None
    I.store(st, obj[1], obj[2] + ('#has',), ONE)
    I.store(st, obj[1], obj[2] + ('#val',), convert_to(I, st, v, vt), vt)
    return ret(st, Z)


@model("std::optional::operator=")
def m_opt_asg(I, fn, obj, args, st, fr, node):
    m_opt_ctor(I, fn, obj, args, st, fr, node)
    return ret(st, obj)


@model("std::optional::emplace")
def m_opt_emplace(I, fn, obj, args, st, fr, node):
    T = fn.rect.ta[0] if fn.rect is not None and fn.rect.ta else None
    lv = ('lv', obj[1], obj[2] + ('#val',))
    I.store(st, obj[1], obj[2] + ('#has',), ONE)
    if T is not None and T.k == 'rec' and T.repo:
        m = pick_ctor(I, T, args, st)
        if m is not None and m.body is not None and I.client.inline(m):
            return [(s, lv) for s, _ in I.call(m, lv, list(args), st, fr, node)]
        return None
    if len(args) != 1:
        return None
    I.store(st, lv[1], lv[2], convert_to(I, st, rv(I, st, fn, args, 0), T), T)
    return ret(st, lv)


@model("std::optional::operator->")
def m_opt_arrow(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2] + ('#val',), False, fr, node)
    return ret(st, I.addr(obj[1], obj[2] + ('#val',)))


@model("std::optional::operator*", "std::optional::value")
def m_opt_star(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2] + ('#val',), False, fr, node)
    return ret(st, ('lv', obj[1], obj[2] + ('#val',)))


@model("std::optional::operator_conv", "std::optional::has_value", "std::optional::operator bool")
def m_opt_bool(I, fn, obj, args, st, fr, node):
    v = I.raw(st, obj[1], obj[2] + ('#has',))
    if isc(v):
        return ret(st, v)
    return ret(st, v)


@model("std::optional::value_or")
def m_opt_or(I, fn, obj, args, st, fr, node):
    out = []
    T = fn.rect.ta[0] if fn.rect is not None and fn.rect.ta else None
    for s, b in I.fork(st, I.raw(st, obj[1], obj[2] + ('#has',))):
        out.append((s, I.load(s, obj[1], obj[2] + ('#val',), T) if b else rv(I, s, fn, args, 0)))
    return out


@model("std::make_pair")
def m_make_pair(I, fn, obj, args, st, fr, node):
    T = fn.rt
    ent = [(('first',), rv(I, st, fn, args, 0)), (('second',), rv(I, st, fn, args, 1))]
    return ret(st, ('agg', T.s if T else 'pair', I.flat(ent)))


@model("std::make_tuple")
def m_make_tuple(I, fn, obj, args, st, fr, node):
    ent = [((('t', i),), rv(I, st, fn, args, i)) for i in range(len(args))]
    return ret(st, ('agg', fn.rt.s if fn.rt else 'tuple', I.flat(ent)))


@model("std::pair::pair")
def m_pair_ctor(I, fn, obj, args, st, fr, node):
    if len(args) == 2:
        T = fn.rect
        for i, nm in enumerate(('first', 'second')):
            vt = T.ta[i] if T is not None and T.ta else None
            I.store(st, obj[1], obj[2] + (nm,), convert_to(I, st, rv(I, st, fn, args, i), vt), vt)
        return ret(st, Z)
    if len(args) == 1:
        gset(I, st, obj, rv(I, st, fn, args, 0))
        return ret(st, Z)
    if not args:
        gset(I, st, obj, I.zero(fn.rect))
        return ret(st, Z)
    return None


@model("std::pair::operator=")
def m_pair_asg(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, rv(I, st, fn, args, 0))
    return ret(st, obj)


@model("std::tuple::tuple")
def m_tuple_ctor(I, fn, obj, args, st, fr, node):
    if len(args) == 1 and fn.pt and fn.pt[0].noref().rec == 'std::tuple':
        gset(I, st, obj, rv(I, st, fn, args, 0))
        return ret(st, Z)
    for i in range(len(args)):
        I.store(st, obj[1], obj[2] + (('t', i),), rv(I, st, fn, args, i))
    return ret(st, Z)


@model("std::tie")
def m_tie(I, fn, obj, args, st, fr, node):
    return ret(st, ('tie', tuple(a if a[0] == 'lv' else None for a in args)))


@model("std::tuple::operator=")
def m_tuple_asg(I, fn, obj, args, st, fr, node):
    t = I.raw(st, obj[1], obj[2])
    if t[0] != 'tie':
        gset(I, st, obj, rv(I, st, fn, args, 0))
        return ret(st, obj)
    PT = fn.pt[0].noref() if fn.pt else None
    src = args[0]
    keys = (('first',), ('second',)) if PT is not None and PT.rec == 'std::pair' else tuple(((('t', i),)) for i in range(len(t[1])))
    vals = []
    for i, lv in enumerate(t[1]):
        et = PT.ta[i] if PT is not None and PT.ta and i < len(PT.ta) else None
        if src[0] == 'lv':
            vals.append(I.load(st, src[1], src[2] + keys[i], et))
        else:
            vals.append(I.project(src, keys[i]))
    for lv, v in zip(t[1], vals):
        if lv is not None and not (lv[1][0] == 'g' and 'ignore' in str(lv[1][1])):
            I.store(st, lv[1], lv[2], v)
    return ret(st, obj)


@model("std::get")
def m_get(I, fn, obj, args, st, fr, node):
    ta = fn.ta or []
    if ta and isinstance(ta[0], int) and args[0][0] == 'lv':
        PT = fn.pt[0].noref() if fn.pt else None
        if PT is not None and PT.rec == 'std::pair':
            return ret(st, ('lv', args[0][1], args[0][2] + (('first', 'second')[ta[0]],)))
        if PT is not None and PT.rec == 'std::array':
            return ret(st, ('lv', args[0][1], args[0][2] + (('i', c(ta[0])),)))
        return ret(st, ('lv', args[0][1], args[0][2] + (('t', ta[0]),)))
    return None


def convert_to(I, st, v, T):
    """implicit conversion of a value to the element type of a wrapper"""
    if T is None or v[0] == 'lv':
        return v
    if T.k == 'rec':
        if T.rec in STRS + SVS and v[0] == 'agg' and str(v[1]).startswith('char['):
            # a character array, by value
            t = chars_text(v)
            if t is not None:
                v = ('s', t)
        if T.rec in STRS + SVS and v[0] == 'addr':
            v = cstr_content(I, st, v)
        if T.rec in STRS and v[0] == 'sv':
            return content(v)
        if T.rec in SVS and v[0] != 'sv':
            return mksv_content(v)
    return v


def chars_text(v):
    d = dict(v[2])
    out = []
    for i in range(len(d)):
        x = d.get((('i', c(i)),))
        if x is None or not isc(x):
            return None
        if x == Z:
            return ''.join(out)
        out.append(chr(x[1] & 255))
    return None


# ------------------------------------------------------------------ strings
STRS = ("std::basic_string",)
SVS = ("std::basic_string_view", "absl::string_view")


def strbuf(content_):
    return ('addr', ('strbuf', content_), (('i', Z),))


def csize(ct):
    """length of a content term"""
    if ct[0] == 's':
        return c(len(ct[1].encode('latin-1', 'replace')))
    if ct[0] == 'bytes':
        return ct[2]
    if ct[0] == 'cat':
        return add(csize(ct[1]), csize(ct[2]))
    if ct[0] == 'cstr':
        return ('strlen', ct[1])
    return ('size', ct)


def content(v):
    """canonical content of a string or string_view value"""
    if v[0] == 'sv':
        p, n = v[1], v[2]
        if isc(n) and n == Z:
            return ('s', '')
        if p[0] == 'addr' and p[1][0] == 'strbuf' and p[2] == (('i', Z),) and n == csize(p[1][1]):
            return p[1][1]
        if p[0] == 'addr' and p[1][0] == 'lit' and len(p[2]) == 1 and isc(p[2][0][1]) and isc(n):
            i = p[2][0][1][1]
            return ('s', p[1][1][i:i + n[1]])
        if p[0] == 'addr' and p[1][0] == 'strbuf' and p[1][1][0] == 's' and isc(n):
            return ('s', p[1][1][1][:n[1]])
        if n == ('strlen', p):
            return ('cstr', p)
        return ('bytes', p, n)
    return v


def mksv_content(ct):
    if ct[0] == 'cstr':
        return ('sv', ct[1], ('strlen', ct[1]))
    if ct[0] == 'bytes':
        return ('sv', ct[1], ct[2])
    return ('sv', strbuf(ct), csize(ct))


def lit_of(p):
    if p[0] == 'addr' and p[1][0] == 'lit' and len(p[2]) == 1 and isinstance(p[2][0], tuple) and p[2][0][0] == 'i' and isc(p[2][0][1]):
        s = p[1][1][p[2][0][1][1]:]
        return s.split('\0')[0]
    return None


def cstr_content(I, st, p):
    s = lit_of(p)
    if s is not None:
        return ('s', s)
    if p[0] == 'addr' and p[1][0] == 'strbuf' and p[2] == (('i', Z),):
        return p[1][1]
    w = I.raw_ver(st, p) if hasattr(I, 'raw_ver') else 0
    return ('cstr', p)


def ptr_of(I, v):
    return I.addr(v[1], v[2] + (('i', Z),)) if v[0] == 'lv' else v


def is_str(T):
    T = T.noref() if T is not None else None
    return T is not None and T.k == 'rec' and T.rec in STRS


def is_sv(T):
    T = T.noref() if T is not None else None
    return T is not None and T.k == 'rec' and T.rec in SVS


def strval(I, st, fn, args, i):
    """content of a string-like argument"""
    T = fn.pt[i].noref() if i < len(fn.pt) else None
    v = args[i]
    if T is not None and T.k in ('ptr', 'arr'):
        return cstr_content(I, st, ptr_of(I, I.rval(st, v, T) if T.k == 'ptr' else v))
    v = rv(I, st, fn, args, i)
    if T is not None and T.k == 'int':
        if isc(v):
            return ('s', chr(v[1] & 255))
        return ('chr', v)
    if v[0] == 'addr':
        return cstr_content(I, st, v)
    return content(v)


@model("std::basic_string::basic_string")
def m_str_ctor(I, fn, obj, args, st, fr, node):
    pts = [p.noref() for p in fn.pt]
    al = [i for i, p in enumerate(pts) if p.k == 'rec' and p.rec in ('std::allocator',)]
    n = len(args) - len([i for i in al if i < len(args)])
    if n == 0:
        gset(I, st, obj, ('s', ''))
        return ret(st, Z)
    if n == 1:
        gset(I, st, obj, strval(I, st, fn, args, 0))
        return ret(st, Z)
    a = [rv(I, st, fn, args, i) if pts[i].k != 'arr' else ptr_of(I, args[i]) for i in range(n)]
    if n == 2 and pts[0].k == 'ptr' and pts[1].k == 'int':
        gset(I, st, obj, content(('sv', a[0], a[1])))
        return ret(st, Z)
    if n == 2 and pts[0].k == 'int':
        gset(I, st, obj, ('rep', a[0], a[1]))
        return ret(st, Z)
    if n == 2 and (pts[0].k == 'ptr' or pts[0].rec == '__gnu_cxx::__normal_iterator') and pts[1].s == pts[0].s:
        gset(I, st, obj, content(('sv', a[0], sub(a[1], a[0]))))
        return ret(st, Z)
    gset(I, st, obj, ('strnew',) + tuple(a))
    return ret(st, Z)


@model("std::basic_string::operator=", "std::basic_string::assign")
def m_str_asg(I, fn, obj, args, st, fr, node):
    if len(args) == 1:
        v = strval(I, st, fn, args, 0)
    elif len(args) == 2:
        a = [rv(I, st, fn, args, i) for i in range(2)]
        v = content(('sv', a[0], a[1])) if fn.pt[1].k == 'int' else content(('sv', a[0], sub(a[1], a[0])))
    else:
        return None
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    st.event('strset', I.addr(obj[1], obj[2]), v, loc_of(fr, node))
    gset(I, st, obj, v)
    return ret(st, obj)


def cat(a, b):
    if a[0] == 's' and b[0] == 's':
        return ('s', a[1] + b[1])
    if a == ('s', ''):
        return b
    if b == ('s', ''):
        return a
    if b[0] == 'cat':
        return cat(cat(a, b[1]), b[2])
    if a[0] == 'cat' and a[2][0] == 's' and b[0] == 's':
        return ('cat', a[1], ('s', a[2][1] + b[1]))
    return ('cat', a, b)


@model("std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::push_back")
def m_str_app(I, fn, obj, args, st, fr, node):
    if len(args) == 1:
        v = strval(I, st, fn, args, 0)
    elif len(args) == 2 and fn.pt[0].k == 'ptr':
        a = [rv(I, st, fn, args, i) for i in range(2)]
        v = content(('sv', a[0], a[1] if fn.pt[1].k == 'int' else sub(a[1], a[0])))
    else:
        v = ('app',) + tuple(rv(I, st, fn, args, i) for i in range(len(args)))
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    old = I.raw(st, obj[1], obj[2])
    new = cat(old, v)
    st.event('strset', I.addr(obj[1], obj[2]), new, loc_of(fr, node))
    gset(I, st, obj, new)
    return ret(st, obj)


@model("std::operator+")
def m_str_plus(I, fn, obj, args, st, fr, node):
    if len(args) == 2 and (is_str(fn.rt)):
        return ret(st, cat(strval(I, st, fn, args, 0), strval(I, st, fn, args, 1)))
    return None


@model("absl::StrCat")
def m_strcat(I, fn, obj, args, st, fr, node):
    return None


def obj_content(I, st, obj):
    return content(I.raw(st, obj[1], obj[2]))


@model("std::basic_string::size", "std::basic_string::length")
def m_str_size(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    return ret(st, csize(obj_content(I, st, obj)))


@model("std::basic_string::empty")
def m_str_empty(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    return ret(st, I.eq(csize(obj_content(I, st, obj)), Z))


@model("std::basic_string::c_str", "std::basic_string::data", "std::basic_string::begin", "std::basic_string::cbegin")
def m_str_cstr(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    return ret(st, strbuf(obj_content(I, st, obj)))


@model("std::basic_string::end", "std::basic_string::cend")
def m_str_end(I, fn, obj, args, st, fr, node):
    ct = obj_content(I, st, obj)
    return ret(st, add(strbuf(ct), csize(ct)))


@model("std::basic_string::operator[]", "std::basic_string::at")
def m_str_idx(I, fn, obj, args, st, fr, node):
    i = rv(I, st, fn, args, 0)
    ct = obj_content(I, st, obj)
    if not fn.c:
        I.havoc(st, obj[1], obj[2]) if False else None
    return ret(st, I.deref(add(strbuf(ct), i)))


@model("std::basic_string::operator_conv")
def m_str_conv(I, fn, obj, args, st, fr, node):
    return ret(st, mksv_content(obj_content(I, st, obj)))


@model("std::basic_string::clear")
def m_str_clear(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, ('s', ''))
    return ret(st, Z)


@model("std::basic_string::reserve", "std::vector::reserve", "std::vector::shrink_to_fit")
def m_noop(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    return ret(st, Z)


NPOS = c((1 << 64) - 1)


def find_fork(I, st, ct, atom, start, n, T):
    """npos, or an index in [start, size - n]"""
    out = []
    s2 = st.clone()
    key_ = ('found', atom)
    known = st.facts.get(key_)
    if known is not False:
        I.typed(atom, T)
        if I.assume(st, I.le(start, atom), True) and I.assume(st, I.le(add(atom, n), csize(ct)), True) and I.client.assumed(I, st, key_, True):
            if known is None:
                st.facts[key_] = True
                from dom import cons
                st.trail = cons(st.trail, (key_, True))
            out.append((st, atom))
    if known is not True and I.client.assumed(I, s2, key_, False):
        if known is None:
            s2.facts[key_] = False
            from dom import cons
            s2.trail = cons(s2.trail, (key_, False))
        out.append((s2, NPOS))
    return out


def m_find(I, fn, obj, args, st, fr, node):
    ct = obj_content(I, st, obj)
    name = fn.name
    needle = strval(I, st, fn, args, 0)
    start = rv(I, st, fn, args, 1) if len(args) > 1 and fn.pt[1].k == 'int' else Z
    if name in ('rfind', 'find_last_of', 'find_last_not_of'):
        atom = ('find', name, ct, needle, start)
        # rfind(x, 0): a prefix test
        rs = find_fork(I, st, ct, atom, Z, csize(needle) if name == 'rfind' else ONE, fn.rt)
        if name == 'rfind' and start == Z and len(args) > 1:
            rs = [(x, v if v == NPOS else Z) for x, v in rs]
        return rs
    atom = ('find', name, ct, needle, start)
    n = ONE if name.startswith('find_first') else csize(needle)
    if ct[0] == 's' and needle[0] == 's' and isc(start):
        if name == 'find':
            x = ct[1].find(needle[1], start[1])
        else:
            x = next((i for i in range(start[1], len(ct[1])) if ct[1][i] in needle[1]), -1)
        return ret(st, NPOS if x < 0 else c(x))
    return find_fork(I, st, ct, atom, start, n, fn.rt)


for _n in ("find", "rfind", "find_first_of", "find_last_of"):
    MODELS["std::basic_string::" + _n] = m_find
    MODELS["std::basic_string_view::" + _n] = m_find
    MODELS["absl::string_view::" + _n] = m_find


def clamp(I, st, pos, n, size):
    """min(n, size - pos) by forking"""
    room = sub(size, pos)
    if n is None or n == NPOS:
        return [(st, room)]
    return [(s, n if b else room) for s, b in I.fork(st, I.le(n, room))]


@model("std::basic_string::substr")
def m_str_substr(I, fn, obj, args, st, fr, node):
    ct = obj_content(I, st, obj)
    pos = rv(I, st, fn, args, 0) if args else Z
    n = rv(I, st, fn, args, 1) if len(args) > 1 else None
    st.event('substr', ct, pos, csize(ct), loc_of(fr, node), True)
    I.obligation(st, 'substr', I.le(pos, csize(ct)), fr, node) if hasattr(I, 'obligation') else None
    out = []
    if ct[0] == 'bytes':
        base = ct[1]
    elif ct[0] == 'cstr':
        base = ct[1]
    else:
        base = strbuf(ct)
    for s, k in clamp(I, st, pos, n, csize(ct)):
        out.append((s, content(('sv', add(base, pos), k))))
    return out


def sv_pair(I, st, obj):
    v = I.raw(st, obj[1], obj[2])
    if v[0] == 'sv':
        return v[1], v[2]
    if v[0] in ('s', 'cstr', 'bytes', 'cat', 'fmt'):
        w = mksv_content(v)
        return w[1], w[2]
    # an unknown view
    p, n = ('svp', v), ('svn', v)
    I.ptratoms.add(p)
    I.dom.ranges.setdefault(p, (0, None))
    I.dom.ranges.setdefault(n, (0, 1 << 62))
    return p, n


def svval(I, st, v):
    if v[0] == 'sv':
        return v
    if v[0] in ('s', 'cstr', 'bytes', 'cat', 'fmt'):
        return mksv_content(v)
    return v


@model("std::basic_string_view::basic_string_view", "absl::string_view::string_view")
def m_sv_ctor(I, fn, obj, args, st, fr, node):
    if not args:
        gset(I, st, obj, ('sv', Z, Z))
        return ret(st, Z)
    pts = [p.noref() for p in fn.pt]
    if len(args) == 1:
        if pts[0].k in ('ptr', 'arr'):
            p = ptr_of(I, I.rval(st, args[0], pts[0]) if pts[0].k == 'ptr' else args[0])
            s = lit_of(p)
            h = getattr(I.client, 'cstr', None)
            if h is not None and s is None:
                h(I, st, 'string_view', p, fr, node)
            gset(I, st, obj, ('sv', p, c(len(s)) if s is not None else ('strlen', p)))
            return ret(st, Z)
        v = rv(I, st, fn, args, 0)
        if is_str(pts[0]):
            v = mksv_content(v)
        gset(I, st, obj, v)
        return ret(st, Z)
    a = [I.rval(st, args[i], pts[i]) for i in range(2)]
    gset(I, st, obj, ('sv', ptr_of(I, a[0]) if a[0][0] == 'lv' else a[0], a[1]))
    return ret(st, Z)


@model("std::basic_string_view::operator=", "absl::string_view::operator=")
def m_sv_asg(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    gset(I, st, obj, svval(I, st, v))
    return ret(st, obj)


def _sv(names, h):
    for n in names:
        MODELS["std::basic_string_view::" + n] = h
        MODELS["absl::string_view::" + n] = h


_sv(["size", "length"], lambda I, fn, o, a, st, fr, nd: ret(st, sv_pair(I, st, o)[1]))
_sv(["empty"], lambda I, fn, o, a, st, fr, nd: ret(st, I.eq(sv_pair(I, st, o)[1], Z)))
_sv(["data", "begin", "cbegin"], lambda I, fn, o, a, st, fr, nd: ret(st, sv_pair(I, st, o)[0]))
_sv(["end", "cend"], lambda I, fn, o, a, st, fr, nd: ret(st, add(*sv_pair(I, st, o))))


def m_sv_idx(I, fn, obj, args, st, fr, node):
    p, n = sv_pair(I, st, obj)
    i = rv(I, st, fn, args, 0)
    return ret(st, I.deref(add(p, i)))


_sv(["operator[]", "at"], m_sv_idx)
_sv(["front"], lambda I, fn, o, a, st, fr, nd: ret(st, I.deref(sv_pair(I, st, o)[0])))
_sv(["back"], lambda I, fn, o, a, st, fr, nd: ret(st, I.deref(sub(add(*sv_pair(I, st, o)), ONE))))


def m_sv_substr(I, fn, obj, args, st, fr, node):
    p, n = sv_pair(I, st, obj)
    pos = rv(I, st, fn, args, 0) if args else Z
    k = rv(I, st, fn, args, 1) if len(args) > 1 else None
    st.event('substr', ('sv', p, n), pos, n, loc_of(fr, node), False)
    I.obligation(st, 'substr', I.le(pos, n), fr, node) if hasattr(I, 'obligation') else None
    return [(s, ('sv', add(p, pos), x)) for s, x in clamp(I, st, pos, k, n)]


_sv(["substr"], m_sv_substr)


def m_sv_rmprefix(I, fn, obj, args, st, fr, node):
    p, n = sv_pair(I, st, obj)
    k = rv(I, st, fn, args, 0)
    gset(I, st, obj, ('sv', add(p, k), sub(n, k)))
    return ret(st, Z)


def m_sv_rmsuffix(I, fn, obj, args, st, fr, node):
    p, n = sv_pair(I, st, obj)
    k = rv(I, st, fn, args, 0)
    gset(I, st, obj, ('sv', p, sub(n, k)))
    return ret(st, Z)


_sv(["remove_prefix"], m_sv_rmprefix)
_sv(["remove_suffix"], m_sv_rmsuffix)


def m_sv_conv(I, fn, obj, args, st, fr, node):
    v = I.raw(st, obj[1], obj[2])
    if is_str(fn.rt):
        return ret(st, content(v))
    return ret(st, v)


_sv(["operator_conv"], m_sv_conv)


def str_eq_args(I, st, fn, args, obj):
    xs = []
    if obj is not None:
        xs.append(obj_content(I, st, obj))
    for i in range(len(args)):
        xs.append(strval(I, st, fn, args, i))
    return xs


@model("std::basic_string::compare", "std::basic_string_view::compare")
def m_str_compare(I, fn, obj, args, st, fr, node):
    if len(args) == 3:
        # a part of the text
        ct = obj_content(I, st, obj)
        pos, n, o = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1), strval(I, st, fn, args, 2)
        base = ct[1] if ct[0] in ('bytes', 'cstr') else strbuf(ct)
        parts = [(s, content(('sv', add(base, pos), k))) for s, k in clamp(I, st, pos, n, csize(ct))]
    elif len(args) == 1:
        o = strval(I, st, fn, args, 0)
        parts = [(st, obj_content(I, st, obj))]
    else:
        return None
    out = []
    for st, ct in parts:
        t = ('strcmp', ct, o)
        for s, b in I.fork(st, I.streq(ct, o)):
            if b:
                out.append((s, Z))
            else:
                I.dom.ranges.setdefault(t, (-(1 << 31), (1 << 31) - 1))
                I.dom.assume_ne0(s, t)
                out.append((s, t))
    return out


@model("absl::StartsWith")
def m_startswith(I, fn, obj, args, st, fr, node):
    ct, needle = strval(I, st, fn, args, 0), strval(I, st, fn, args, 1)
    return [(s, Z if v == NPOS else ONE) for s, v in find_fork(I, st, ct, ('find', 'rfind', ct, needle, Z), Z, csize(needle), fn.rt)]


@model("strcmp", "std::strcmp")
def m_strcmp(I, fn, obj, args, st, fr, node):
    return ret(st, I.negate(I.streq(strval(I, st, fn, args, 0), strval(I, st, fn, args, 1)))) if False else None


def m_eqop(I, fn, obj, args, st, fr, node):
    """operator== / != of library types"""
    neg = fn.name.endswith('!=')
    if obj is not None:
        pts = [None] + [p.noref() for p in fn.pt]
        vals = [obj] + list(args)
        T0 = fn.rect
        pts[0] = T0
    else:
        pts = [p.noref() for p in fn.pt]
        vals = list(args)
    if len(vals) != 2:
        return None
    if any(is_str(p) or is_sv(p) for p in pts if p is not None):
        xs = []
        for v, p in zip(vals, pts):
            if p.k in ('ptr', 'arr'):
                xs.append(cstr_content(I, st, ptr_of(I, I.rval(st, v, p) if p.k == 'ptr' else v)))
            else:
                w = I.rval(st, v, p)
                if w[0] == 'addr':
                    w = cstr_content(I, st, w)
                xs.append(content(w))
        r = I.streq(xs[0], xs[1])
        if r[0] == 'streq' and any(x == ('s', '') for x in xs):
            o = xs[0] if xs[1] == ('s', '') else xs[1]
            r = I.eq(csize(o), Z)
        return ret(st, I.negate(r) if neg else r)
    a = [I.rval(st, v, p) for v, p in zip(vals, pts)]
    recs = [p.rec if p is not None and p.k == 'rec' else None for p in pts]
    scal = {"std::shared_ptr", "std::unique_ptr", "Poco::SharedPtr", "__gnu_cxx::__normal_iterator", "std::nullptr_t",
            "absl::Duration", "absl::Time", "std::chrono::duration", "std::chrono::time_point"}
    if any(r in scal for r in recs):
        r = I.eq(a[0], a[1])
        return ret(st, I.negate(r) if neg else r)
    if any(r == 'std::optional' for r in recs):
        # optional vs nullopt / value
        i = recs.index('std::optional')
        lv = vals[i]
        if recs[1 - i] == 'std::nullopt_t' and lv[0] == 'lv':
            h = I.raw(st, lv[1], lv[2] + ('#has',))
            return ret(st, h if neg else I.negate(h))
    t = ('eq', recs[0] or recs[1] or '?') + tuple(sorted(a, key=key))
    return ret(st, I.negate(t) if neg else t)


for _n in ("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=", "absl::operator==",
           "absl::operator!=", "std::chrono::operator==", "std::chrono::operator!="):
    MODELS[_n] = m_eqop


def m_rel(I, fn, obj, args, st, fr, node):
    if len(args) != 2:
        return None
    T0, T1 = fn.pt[0].noref(), fn.pt[1].noref()
    recs = {T0.rec if T0.k == 'rec' else None, T1.rec if T1.k == 'rec' else None}
    ok = {"absl::Duration", "absl::Time", "std::chrono::duration", "std::chrono::time_point", "__gnu_cxx::__normal_iterator"}
    if not recs & ok:
        if is_str(T0) or is_sv(T0):
            a, b = strval(I, st, fn, args, 0), strval(I, st, fn, args, 1)
            op = fn.name[len("operator"):]
            lt = {'<': (a, b, 0), '>': (b, a, 0), '<=': (b, a, 1), '>=': (a, b, 1)}[op]
            t = ('strlt', lt[0], lt[1])
            return ret(st, I.negate(t) if lt[2] else t)
        return None
    a, b = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)
    op = fn.name[len("operator"):]
    if a[0] in ('f', 'poly') or b[0] in ('f', 'poly'):
        return ret(st, I.fcmp(a, b, {'<': '<', '>': '>', '<=': '<=', '>=': '=>'}[op]))
    r = {'<': lambda: I.le(add(a, ONE), b), '>': lambda: I.le(add(b, ONE), a), '<=': lambda: I.le(a, b), '>=': lambda: I.le(b, a)}[op]()
    return ret(st, r)


for _n in ("std::operator", "absl::operator", "std::chrono::operator", "__gnu_cxx::operator"):
    for _o in ("<", ">", "<=", ">="):
        MODELS[_n + _o] = m_rel


# ------------------------------------------------------------------ time
NS = {"absl::Nanoseconds": 1, "absl::Microseconds": 10 ** 3, "absl::Milliseconds": 10 ** 6, "absl::Seconds": 10 ** 9,
      "absl::Minutes": 60 * 10 ** 9, "absl::Hours": 3600 * 10 ** 9}


def m_absl_dur(I, fn, obj, args, st, fr, node):
    k = NS[fn.qn]
    v = rv(I, st, fn, args, 0)
    T = fn.pt[0].noref() if fn.pt else None
    if (T is not None and T.k == 'float') or v[0] in ('f', 'poly'):
        return ret(st, fmul(f(k), v))
    return ret(st, scale(v, k))


for _n in NS:
    MODELS[_n] = m_absl_dur


@model("absl::ZeroDuration")
def m_zerodur(I, fn, obj, args, st, fr, node):
    return ret(st, Z)


@model("absl::UnixEpoch")
def m_epoch(I, fn, obj, args, st, fr, node):
    return ret(st, Z)


@model("absl::InfiniteDuration", "absl::InfiniteFuture", "absl::InfinitePast")
def m_inf(I, fn, obj, args, st, fr, node):
    return ret(st, ('inf', fn.name))


@model("absl::Now", "absl::GetCurrentTimeNanos", "std::chrono::steady_clock::now", "std::chrono::system_clock::now")
def m_now(I, fn, obj, args, st, fr, node):
    t = I.fresh('now')
    I.dom.ranges[t] = (0, 1 << 62)
    st.event('now', t, loc_of(fr, node))
    return ret(st, t)


DIV = {"ToDoubleNanoseconds": 1, "ToDoubleMicroseconds": 10 ** 3, "ToDoubleMilliseconds": 10 ** 6, "ToDoubleSeconds": 10 ** 9,
       "ToDoubleMinutes": 60 * 10 ** 9, "ToDoubleHours": 3600 * 10 ** 9,
       "ToInt64Nanoseconds": 1, "ToInt64Microseconds": 10 ** 3, "ToInt64Milliseconds": 10 ** 6, "ToInt64Seconds": 10 ** 9,
       "ToInt64Minutes": 60 * 10 ** 9, "ToInt64Hours": 3600 * 10 ** 9}


def exact_div(v, k):
    if k == 1:
        return v
    if v[0] in ('c', 'lin'):
        cst, d = lin_of(v)
        if cst % k == 0 and all(q % k == 0 for q in d.values()):
            return lin(cst // k, {a: q // k for a, q in d.items()})
    return ('idiv', v, c(k))


def m_to(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    k = DIV[fn.name]
    if fn.name.startswith('ToDouble'):
        return ret(st, fmul(f(1.0 / k), v) if k != 1 else v)
    return ret(st, exact_div(v, k))


for _n in DIV:
    MODELS["absl::" + _n] = m_to


@model("absl::Duration::Duration", "absl::Time::Time")
def m_dur_ctor(I, fn, obj, args, st, fr, node):
    if not args:
        gset(I, st, obj, Z)
        return ret(st, Z)
    if len(args) == 1:
        gset(I, st, obj, rv(I, st, fn, args, 0))
        return ret(st, Z)
    return None


@model("absl::Duration::operator=", "absl::Time::operator=", "std::chrono::duration::operator=", "std::chrono::time_point::operator=")
def m_dur_asg(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    gset(I, st, obj, rv(I, st, fn, args, 0))
    return ret(st, obj)


@model("absl::Duration::operator+=", "absl::Duration::operator-=", "absl::Time::operator+=", "absl::Time::operator-=")
def m_dur_inc(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    old = I.raw(st, obj[1], obj[2])
    gset(I, st, obj, add(old, v) if '+' in fn.name else sub(old, v))
    return ret(st, obj)


@model("absl::FromChrono", "absl::ToChronoMilliseconds", "absl::ToChronoSeconds", "absl::ToChronoNanoseconds", "absl::FromUnixNanos",
       "absl::ToUnixNanos")
def m_fromchrono(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    if fn.name == "ToChronoMilliseconds":
        return ret(st, scale(exact_div(v, 10 ** 6), 10 ** 6))
    if fn.name == "ToChronoSeconds":
        return ret(st, scale(exact_div(v, 10 ** 9), 10 ** 9))
    return ret(st, v)


def period_ns(T):
    """nanoseconds per tick of a std::chrono::duration type"""
    if T is None:
        return None
    T = T.noref()
    if T.rec == 'std::chrono::time_point' and T.ta and len(T.ta) > 1:
        return period_ns(T.ta[1])
    if T.ta and len(T.ta) > 1 and getattr(T.ta[1], 'ta', None):
        n, d = T.ta[1].ta[0], T.ta[1].ta[1]
        if isinstance(n, int) and isinstance(d, int):
            from fractions import Fraction
            return Fraction(n * 10 ** 9, d)
    return None


def isfloat_rep(T):
    T = T.noref()
    return bool(T.ta and T.ta[0] is not None and getattr(T.ta[0], 'k', None) == 'float')


@model("std::chrono::duration::duration")
def m_chr_ctor(I, fn, obj, args, st, fr, node):
    if not args:
        gset(I, st, obj, Z)
        return ret(st, Z)
    p = period_ns(fn.rect)
    PT = fn.pt[0].noref()
    v = rv(I, st, fn, args, 0)
    if PT.k == 'rec':
        gset(I, st, obj, v)
        return ret(st, Z)
    if p is None:
        return None
    if v[0] in ('f', 'poly') or PT.k == 'float':
        gset(I, st, obj, fmul(f(float(p)), v))
    elif p.denominator == 1:
        gset(I, st, obj, scale(v, p.numerator))
    else:
        return None
    return ret(st, Z)


@model("std::chrono::duration::count")
def m_chr_count(I, fn, obj, args, st, fr, node):
    p = period_ns(fn.rect)
    v = I.raw(st, obj[1], obj[2])
    if p is None:
        return None
    if isfloat_rep(fn.rect):
        return ret(st, fmul(f(1.0 / float(p)), v))
    if p.denominator == 1:
        return ret(st, exact_div(v, p.numerator))
    return None


@model("std::chrono::duration_cast")
def m_dcast(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    p, q = period_ns(fn.rt), period_ns(fn.pt[0])
    if p is None or p.denominator != 1:
        return None
    if isfloat_rep(fn.rt):
        return ret(st, v)
    if v[0] in ('f', 'poly'):
        return ret(st, scale(('f2i', 64, 1, fmul(f(1.0 / float(p)), v)), p.numerator))
    if q is not None and q >= p and (q / p).denominator == 1:
        return ret(st, v)
    return ret(st, scale(exact_div(v, p.numerator), p.numerator))


@model("std::chrono::time_point::time_point", "std::chrono::time_point::time_since_epoch")
def m_tp(I, fn, obj, args, st, fr, node):
    if fn.ctor:
        gset(I, st, obj, rv(I, st, fn, args, 0) if args else Z)
        return ret(st, Z)
    return ret(st, I.raw(st, obj[1], obj[2]))


def m_arith(I, fn, obj, args, st, fr, node):
    if len(args) != 2:
        return None
    T0, T1 = fn.pt[0].noref(), fn.pt[1].noref()
    a, b = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)
    op = fn.name[len("operator"):]
    if op in ('+', '-'):
        if a[0] in ('f', 'poly') or b[0] in ('f', 'poly'):
            return ret(st, fadd(a, b, 1 if op == '+' else -1))
        return ret(st, add(a, b) if op == '+' else sub(a, b))
    fl = T0.k == 'float' or T1.k == 'float'
    if op == '*':
        if fl:
            return ret(st, fmul(a, b))
        if isc(a):
            return ret(st, scale(b, a[1]))
        if isc(b):
            return ret(st, scale(a, b[1]))
        return ret(st, ('mul', a, b))
    if op == '/':
        if fl:
            return ret(st, fdiv(a, b))
        if isc(b) and b[1] > 0 and T1.k == 'int':
            return ret(st, exact_div(a, b[1]))
        if T0.rec == T1.rec == 'absl::Duration':
            return ret(st, exact_div(a, b[1]) if isc(b) and b[1] > 0 else ('idiv', a, b))
    return None


for _n in ("absl::operator", "std::chrono::operator", "__gnu_cxx::operator"):
    for _o in ("+", "-", "*", "/"):
        MODELS[_n + _o] = m_arith


# ------------------------------------------------------------------ iterators as pointers
@model("__gnu_cxx::__normal_iterator::__normal_iterator")
def m_it_ctor(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, rv(I, st, fn, args, 0) if args else Z)
    return ret(st, Z)


@model("__gnu_cxx::__normal_iterator::operator=")
def m_it_asg(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, rv(I, st, fn, args, 0))
    return ret(st, obj)


@model("__gnu_cxx::__normal_iterator::operator*")
def m_it_star(I, fn, obj, args, st, fr, node):
    return ret(st, I.deref(I.raw(st, obj[1], obj[2])))


@model("__gnu_cxx::__normal_iterator::operator->")
def m_it_arrow(I, fn, obj, args, st, fr, node):
    v = I.deref(I.raw(st, obj[1], obj[2]))
    return ret(st, I.addr(v[1], v[2]))


@model("__gnu_cxx::__normal_iterator::operator++", "__gnu_cxx::__normal_iterator::operator--")
def m_it_inc(I, fn, obj, args, st, fr, node):
    old = I.raw(st, obj[1], obj[2])
    gset(I, st, obj, add(old, ONE) if '++' in fn.name else sub(old, ONE))
    return ret(st, old if args else obj)


@model("__gnu_cxx::__normal_iterator::operator+=", "__gnu_cxx::__normal_iterator::operator-=")
def m_it_adv(I, fn, obj, args, st, fr, node):
    old = I.raw(st, obj[1], obj[2])
    v = rv(I, st, fn, args, 0)
    gset(I, st, obj, add(old, v) if '+' in fn.name else sub(old, v))
    return ret(st, obj)


@model("__gnu_cxx::__normal_iterator::operator+", "__gnu_cxx::__normal_iterator::operator-")
def m_it_plus(I, fn, obj, args, st, fr, node):
    old = I.raw(st, obj[1], obj[2])
    v = rv(I, st, fn, args, 0)
    return ret(st, add(old, v) if '+' in fn.name else sub(old, v))


@model("__gnu_cxx::__normal_iterator::operator[]")
def m_it_idx(I, fn, obj, args, st, fr, node):
    return ret(st, I.deref(add(I.raw(st, obj[1], obj[2]), rv(I, st, fn, args, 0))))


@model("__gnu_cxx::__normal_iterator::base")
def m_it_base(I, fn, obj, args, st, fr, node):
    return ret(st, I.raw(st, obj[1], obj[2]))


@model("std::distance")
def m_distance(I, fn, obj, args, st, fr, node):
    a, b = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)
    if iterish(fn.pt[0]):
        return ret(st, sub(b, a))
    return None


def iterish(T):
    T = T.noref() if T is not None else None
    return T is not None and (T.k == 'ptr' or T.rec == '__gnu_cxx::__normal_iterator')


@model("std::next", "std::prev")
def m_next(I, fn, obj, args, st, fr, node):
    if not iterish(fn.pt[0]):
        return None
    a = rv(I, st, fn, args, 0)
    n = rv(I, st, fn, args, 1) if len(args) > 1 else ONE
    return ret(st, add(a, n) if fn.name == 'next' else sub(a, n))


@model("std::advance")
def m_advance(I, fn, obj, args, st, fr, node):
    if not iterish(fn.pt[0]) or args[0][0] != 'lv':
        return None
    old = rv(I, st, fn, args, 0)
    gset(I, st, args[0], add(old, rv(I, st, fn, args, 1)))
    return ret(st, Z)


@model("std::begin", "std::cbegin", "std::data")
def m_begin(I, fn, obj, args, st, fr, node):
    if args[0][0] == 'lv':
        T = fn.pt[0].noref() if fn.pt else None
        if T is not None and (T.k == 'arr' or T.rec in ('std::array', 'std::vector')):
            return ret(st, I.addr(args[0][1], args[0][2] + (('i', Z),)))
    return None


@model("std::end", "std::cend")
def m_end(I, fn, obj, args, st, fr, node):
    if args[0][0] == 'lv':
        T = fn.pt[0].noref() if fn.pt else None
        n = container_size(I, st, args[0], T)
        if T is not None and (T.k == 'arr' or T.rec in ('std::array', 'std::vector')):
            return ret(st, add(I.addr(args[0][1], args[0][2] + (('i', Z),)), n))
    return None


@model("std::size")
def m_size(I, fn, obj, args, st, fr, node):
    if args[0][0] == 'lv':
        return ret(st, container_size(I, st, args[0], fn.pt[0].noref()))
    return None


# ------------------------------------------------------------------ vector, array
def vterm(I, st, lv):
    return I.raw(st, lv[1], lv[2])


def vsize(t):
    if t[0] == 'vpush':
        return add(vsize(t[1]), ONE)
    if t[0] == 'vec0':
        return Z
    if t[0] == 'vapp':
        return add(vsize(t[1]), t[3])
    if t[0] == 'vecn':
        return t[1]
    if t[0] == 'agg' and t[1] == 'list':
        return c(len(t[2]))
    if t[0] == 'vpop':
        return sub(vsize(t[1]), ONE)
    if t[0] == 'agg' or isc(t):
        return Z if isc(t) else ('size', t)
    return ('size', t)


def container_size(I, st, lv, T):
    T = T.noref() if T is not None else None
    if T is not None:
        if T.k == 'arr':
            return c(T.n)
        if T.rec == 'std::array' and isinstance(T.ta[1], int):
            return c(T.ta[1])
        if T.rec == 'std::initializer_list':
            v = vterm(I, st, lv)
            if v[0] == 'agg':
                n = len({p[0] for p, _ in v[2]}) if v[2] else 0
                return c(n)
            k, d = 0, len(lv[2])
            have = {q[d] for r, q in st.mem if r == lv[1] and q[:d] == lv[2] and len(q) > d}
            while ('i', c(k)) in have:
                k += 1
            if k and len(have) == k and lv[1][0] == 't':
                return c(k)
            return ('size', v)
        if T.rec in STRS:
            return csize(content(vterm(I, st, lv)))
        if T.rec in SVS:
            return sv_pair(I, st, lv)[1]
        if I.is_tags(T):
            return ('size', vterm(I, st, lv))
    return vsize(vterm(I, st, lv))


def container_elem(I, st, lv, T, i):
    T = T.noref() if T is not None else None
    if T is not None and (T.rec in STRS):
        return I.deref(add(strbuf(content(vterm(I, st, lv))), i))
    if T is not None and T.rec in SVS:
        return I.deref(add(sv_pair(I, st, lv)[0], i))
    return ('lv', lv[1], lv[2] + (('i', i),))


def convert(I, st, val, VT, V):
    return val


def vset(I, st, lv, t):
    """replace the vector's value term, keeping what is known of its elements"""
    st.mem[(lv[1], lv[2])] = t


@model("std::vector::vector", "std::initializer_list::initializer_list")
def m_vec_ctor(I, fn, obj, args, st, fr, node):
    pts = [p.noref() for p in fn.pt]
    n = len([p for p in pts[:len(args)] if not (p.k == 'rec' and p.rec == 'std::allocator')])
    if n == 0:
        gset(I, st, obj, ('vec0',))
        return ret(st, Z)
    if n == 1:
        if pts[0].k == 'int':
            gset(I, st, obj, ('vecn', rv(I, st, fn, args, 0), I.fresh('vec')))
            return ret(st, Z)
        if pts[0].rec == 'std::vector':
            v = vterm(I, st, args[0]) if args[0][0] == 'lv' else args[0]
            if args[0][0] == 'lv' and args[0][1:] != obj[1:]:
                sub_ = [(k[1][len(args[0][2]):], x) for k, x in st.mem.items() if k[0] == args[0][1] and len(k[1]) > len(args[0][2])
                        and k[1][:len(args[0][2])] == args[0][2]]
            else:
                sub_ = []
            gset(I, st, obj, v)
            for p, x in sub_:
                st.mem[(obj[1], obj[2] + p)] = x
            return ret(st, Z)
        v = rv(I, st, fn, args, 0)
        gset(I, st, obj, v)
        return ret(st, Z)
    if n == 2 and pts[0].k == 'int':
        gset(I, st, obj, ('vecn', rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)))
        return ret(st, Z)
    if n == 2 and iterish(pts[0]):
        a, b = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)
        st.event('vrange', I.addr(obj[1], obj[2]), a, b, loc_of(fr, node))
        t = ('vrange', a, b, len(st.events()))
        gset(I, st, obj, ('vecn', sub(b, a), t))
        return ret(st, Z)
    return None


@model("std::vector::operator=")
def m_vec_asg(I, fn, obj, args, st, fr, node):
    v = vterm(I, st, args[0]) if args[0][0] == 'lv' else args[0]
    gset(I, st, obj, v)
    return ret(st, obj)


def push_value(I, fn, args, st, fr, node):
    vals = []
    for i in range(len(args)):
        vals.append(rv(I, st, fn, args, i))
    return tuple(vals)


@model("std::vector::push_back", "std::vector::emplace_back")
def m_push(I, fn, obj, args, st, fr, node):
    vals = push_value(I, fn, args, st, fr, node)
    T = fn.rect.ta[0] if fn.rect is not None and fn.rect.ta else None
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    old = vterm(I, st, obj)
    outs = [(st, None)]
    val = vals[0] if len(vals) == 1 else ('vals',) + vals
    if fn.name == 'emplace_back' and T is not None and T.k == 'rec' and T.repo and not (len(args) == 1 and fn.pt[0].noref().rec == T.rec):
        m = pick_ctor(I, T, args, st)
        if m is not None and m.body is not None and I.client.inline(m):
            I.n += 1
            root = ('t', I.n)
            outs = []
            for s, _ in I.call(m, ('lv', root, ()), list(args), st, fr, node):
                v = I.load(s, root, (), T)
                for k in [k for k in s.mem if k[0] == root]:
                    del s.mem[k]
                outs.append((s, v))
    out = []
    for s, v in outs:
        v = val if v is None else v
        s.event('push', I.addr(obj[1], obj[2]), v, loc_of(fr, node))
        n = vsize(old)
        vset(I, s, obj, ('vpush', old, v))
        if fn.rt is not None and fn.rt.k == 'ref':
            out.append((s, ('lv', obj[1], obj[2] + (('i', n),))))
        else:
            out.append((s, Z))
        if v[0] == 'agg' and v[2]:
            for p, x in v[2]:
                s.mem[(obj[1], obj[2] + (('i', n),) + p)] = x
        else:
            s.mem[(obj[1], obj[2] + (('i', n),))] = v
    return out


@model("std::vector::size")
def m_vec_size(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], False, fr, node)
    return ret(st, vsize(vterm(I, st, obj)))


@model("std::vector::empty")
def m_vec_empty(I, fn, obj, args, st, fr, node):
    return ret(st, I.eq(vsize(vterm(I, st, obj)), Z))


@model("std::vector::begin", "std::vector::cbegin", "std::vector::data", "std::array::begin", "std::array::cbegin", "std::array::data",
       "std::initializer_list::begin")
def m_vec_begin(I, fn, obj, args, st, fr, node):
    return ret(st, I.addr(obj[1], obj[2] + (('i', Z),)))


@model("std::vector::end", "std::vector::cend", "std::array::end", "std::array::cend", "std::initializer_list::end")
def m_vec_end(I, fn, obj, args, st, fr, node):
    return ret(st, add(I.addr(obj[1], obj[2] + (('i', Z),)), container_size(I, st, obj, fn.rect)))


@model("std::vector::operator[]", "std::vector::at", "std::array::operator[]", "std::array::at")
def m_vec_idx(I, fn, obj, args, st, fr, node):
    i = rv(I, st, fn, args, 0)
    n = container_size(I, st, obj, fn.rect)
    I.client_index(st, obj, i, n, fr, node, fn.name == 'at') if hasattr(I, 'client_index') else None
    ci = getattr(I.client, 'index', None)
    if ci is not None:
        ci(I, st, obj, i, n, fr, node, fn.name == 'at')
    return ret(st, ('lv', obj[1], obj[2] + (('i', i),)))


@model("std::vector::back")
def m_vec_back(I, fn, obj, args, st, fr, node):
    return ret(st, ('lv', obj[1], obj[2] + (('i', sub(vsize(vterm(I, st, obj)), ONE)),)))


@model("std::vector::front")
def m_vec_front(I, fn, obj, args, st, fr, node):
    return ret(st, ('lv', obj[1], obj[2] + (('i', Z),)))


@model("std::vector::pop_back")
def m_vec_pop(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    t = vterm(I, st, obj)
    st.event('pop', I.addr(obj[1], obj[2]), loc_of(fr, node))
    vset(I, st, obj, t[1] if t[0] == 'vpush' else ('vpop', t))
    return ret(st, Z)


@model("std::vector::clear")
def m_vec_clear(I, fn, obj, args, st, fr, node):
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    st.event('clear', I.addr(obj[1], obj[2]), loc_of(fr, node))
    gset(I, st, obj, ('vec0',))
    return ret(st, Z)


@model("std::vector::resize")
def m_vec_resize(I, fn, obj, args, st, fr, node):
    n = rv(I, st, fn, args, 0)
    I.client.access(I, st, obj[1], obj[2], True, fr, node)
    st.event('resize', I.addr(obj[1], obj[2]), n, loc_of(fr, node))
    vset(I, st, obj, ('vecn', n, ('resized', vterm(I, st, obj))))
    return ret(st, Z)


@model("std::array::size", "std::array::max_size", "std::initializer_list::size")
def m_arr_size(I, fn, obj, args, st, fr, node):
    return ret(st, container_size(I, st, obj, fn.rect))


@model("std::array::fill")
def m_arr_fill(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0)
    n = container_size(I, st, obj, fn.rect)
    if isc(n) and n[1] <= 300:
        for i in range(n[1]):
            I.store(st, obj[1], obj[2] + (('i', c(i)),), v)
        return ret(st, Z)
    gset(I, st, obj, ('fill', v))
    return ret(st, Z)


# ------------------------------------------------------------------ atomics
def aT(fn):
    return fn.rect.ta[0] if fn.rect is not None and fn.rect.ta else fn.rt


def a_order(I, st, fn, args, i):
    return None


@model("std::atomic::atomic")
def m_at_ctor(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, rv(I, st, fn, args, 0) if args else Z, aT(fn))
    return ret(st, Z)


def a_fresh(I, st, fn, obj, kind):
    T = aT(fn)
    if obj[1][0] in ('v', 't'):
        # an atomic local nobody else sees
        return I.load(st, obj[1], obj[2], T)
    return I.fresh('at', T)


@model("std::atomic::load", "std::atomic::operator_conv")
def m_at_load(I, fn, obj, args, st, fr, node):
    t = a_fresh(I, st, fn, obj, 'load')
    st.event('aload', I.addr(obj[1], obj[2]), t, loc_of(fr, node))
    return ret(st, t)


@model("std::atomic::store", "std::atomic::operator=")
def m_at_store(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], aT(fn))
    st.event('astore', I.addr(obj[1], obj[2]), v, loc_of(fr, node))
    gset(I, st, obj, v, aT(fn))
    return ret(st, v)


@model("std::atomic::exchange")
def m_at_xchg(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], aT(fn))
    old = a_fresh(I, st, fn, obj, 'xchg')
    st.event('axchg', I.addr(obj[1], obj[2]), v, old, loc_of(fr, node))
    gset(I, st, obj, v, aT(fn))
    return ret(st, old)


def afetch(I, fn, obj, args, st, fr, node, sign, post, op='+'):
    v = I.rval(st, args[0], aT(fn)) if args else ONE
    T = aT(fn)
    old = a_fresh(I, st, fn, obj, 'fa')
    if T.k == 'float':
        new = fadd(old, v, sign)
    elif op == '+':
        new = I.wrap(st, add(old, v, sign), T, True)
    else:
        new = ('aop', op, old, v)
    st.event('afadd', I.addr(obj[1], obj[2]), v if sign > 0 else scale(v, -1) if T.k != 'float' else fmul(f(-1), v), old, loc_of(fr, node), op)
    gset(I, st, obj, new, T)
    return ret(st, old if post else new)


MODELS["std::atomic::fetch_add"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, 1, True)
MODELS["std::atomic::fetch_sub"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, -1, True)
MODELS["std::atomic::operator+="] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, 1, False)
MODELS["std::atomic::operator-="] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, -1, False)
MODELS["std::atomic::operator++"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, [], st, fr, nd, 1, bool(a))
MODELS["std::atomic::operator--"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, [], st, fr, nd, -1, bool(a))
MODELS["std::atomic::fetch_or"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, 1, True, '|')
MODELS["std::atomic::fetch_and"] = lambda I, fn, o, a, st, fr, nd: afetch(I, fn, o, a, st, fr, nd, 1, True, '&')


@model("std::atomic::compare_exchange_weak", "std::atomic::compare_exchange_strong")
def m_cas(I, fn, obj, args, st, fr, node):
    T = aT(fn)
    exp = I.rval(st, args[0], T)
    new = I.rval(st, args[1], T)
    s2 = st.clone()
    st.event('acas', I.addr(obj[1], obj[2]), exp, new, loc_of(fr, node))
    gset(I, st, obj, new, T)
    t = I.fresh('cas', T)
    s2.event('acasfail', I.addr(obj[1], obj[2]), t, loc_of(fr, node))
    if args[0][0] == 'lv':
        gset(I, s2, args[0], t, T)
    return [(st, ONE), (s2, Z)]


@model("std::atomic_thread_fence", "std::atomic_signal_fence")
def m_fence(I, fn, obj, args, st, fr, node):
    return ret(st, Z)


# ------------------------------------------------------------------ locks
def lock_ev(I, st, m, fr, node, shared=False):
    st.event('lock', m, loc_of(fr, node), shared)
    if m[0] == 'addr' and m[2]:
        k = ('locks', m[1], m[2][:-1])
        st.x[k] = st.x.get(k, 0) + 1
    st.locks = st.locks + (m,)


def unlock_ev(I, st, m):
    st.event('unlock', m)
    if m in st.locks:
        l = list(st.locks)
        l.reverse()
        l.remove(m)
        l.reverse()
        st.locks = tuple(l)


def m_guard_ctor(I, fn, obj, args, st, fr, node):
    if not args:
        gset(I, st, obj, ('guard', Z, False))
        return ret(st, Z)
    T = fn.pt[0].noref()
    if T.k == 'rec' and T.rec == (fn.rect.rec if fn.rect else None):
        # move of a unique_lock
        g = I.raw(st, args[0][1], args[0][2])
        gset(I, st, obj, g)
        if g[0] == 'guard':
            gset(I, st, args[0], ('guard', Z, False))
        return ret(st, Z)
    a = args[0]
    m = I.addr(a[1], a[2]) if a[0] == 'lv' and T.k != 'ptr' else I.rval(st, a, T)
    held = True
    if len(fn.pt) > 1 and len(args) > 1:
        r = fn.pt[1].noref().rec
        if r == 'std::defer_lock_t':
            held = False
        elif r == 'std::try_to_lock_t':
            return None
        elif r == 'std::adopt_lock_t':
            gset(I, st, obj, ('guard', m, True))
            return ret(st, Z)
        elif len(args) > 1:
            # scoped_lock of several
            for x, p in zip(args, fn.pt):
                lock_ev(I, st, I.addr(x[1], x[2]) if x[0] == 'lv' else x, fr, node)
            gset(I, st, obj, ('guard', ('multi',) + tuple(I.addr(x[1], x[2]) if x[0] == 'lv' else x for x in args), True))
            return ret(st, Z)
    if held:
        lock_ev(I, st, m, fr, node, 'Reader' in fn.qn or 'shared_lock' in fn.qn)
    gset(I, st, obj, ('guard', m, held))
    return ret(st, Z)


for _n in ("absl::MutexLock::MutexLock", "absl::ReaderMutexLock::ReaderMutexLock", "absl::WriterMutexLock::WriterMutexLock",
           "std::unique_lock::unique_lock", "std::lock_guard::lock_guard", "std::scoped_lock::scoped_lock", "std::shared_lock::shared_lock"):
    MODELS[_n] = m_guard_ctor


def guard_release(I, st, lv):
    g = st.mem.get((lv[1], lv[2]))
    if g is None or g[0] != 'guard':
        return
    if g[2]:
        if g[1][0] == 'multi':
            for m in g[1][1:]:
                unlock_ev(I, st, m)
        else:
            unlock_ev(I, st, g[1])
    st.mem[(lv[1], lv[2])] = ('guard', Z, False)


@model("std::unique_lock::unlock", "std::unique_lock::lock", "std::shared_lock::unlock", "std::shared_lock::lock")
def m_ul(I, fn, obj, args, st, fr, node):
    g = I.raw(st, obj[1], obj[2])
    if g[0] != 'guard':
        return None
    if fn.name == 'unlock':
        unlock_ev(I, st, g[1])
        gset(I, st, obj, ('guard', g[1], False))
    else:
        lock_ev(I, st, g[1], fr, node)
        gset(I, st, obj, ('guard', g[1], True))
    return ret(st, Z)


def m_lock(I, fn, obj, args, st, fr, node):
    lock_ev(I, st, I.addr(obj[1], obj[2]), fr, node, 'Reader' in fn.name or 'shared' in fn.name)
    return ret(st, Z)


def m_unlock(I, fn, obj, args, st, fr, node):
    unlock_ev(I, st, I.addr(obj[1], obj[2]))
    return ret(st, Z)


for _m in ("absl::Mutex", "std::mutex", "std::recursive_mutex", "std::shared_mutex"):
    for _n in ("Lock", "ReaderLock", "WriterLock", "lock", "lock_shared"):
        MODELS[_m + "::" + _n] = m_lock
    for _n in ("Unlock", "ReaderUnlock", "WriterUnlock", "unlock", "unlock_shared"):
        MODELS[_m + "::" + _n] = m_unlock


# ------------------------------------------------------------------ numeric
@model("std::isnan", "isnan", "__builtin_isnan")
def m_isnan(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], fn.pt[0])
    if isf(v):
        return ret(st, c(1 if v[1] == 'nan' else 0))
    if v[0] == 'c':
        return ret(st, Z)
    v = nan_core(v)
    return ret(st, I.fcmp(v, v, '?') if not isf(v) else Z)


def nan_core(v):
    """x*k + c is NaN exactly when x is (k, c finite, one linear atom)"""
    p = poly_of(v)
    if p is not None:
        ms = [m for m in p if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            return ms[0][0][0]
    return v


@model("std::max", "std::min")
def m_minmax(I, fn, obj, args, st, fr, node):
    if len(args) != 2:
        return None
    T = fn.pt[0].noref()
    a, b = rv(I, st, fn, args, 0), rv(I, st, fn, args, 1)
    mx = fn.name == 'max'
    if T.k == 'float':
        # max(a,b) = (a < b) ? b : a ; min(a,b) = (b < a) ? b : a
        cnd = I.fcmp(a, b, '<') if mx else I.fcmp(b, a, '<')
    elif T.k in ('int', 'rec'):
        if T.k == 'rec' and T.rec not in ('absl::Duration', 'absl::Time'):
            return None
        cnd = I.le(add(a, ONE), b) if mx else I.le(add(b, ONE), a)
    else:
        return None
    return [(s, args[1] if bb else args[0]) for s, bb in I.fork(st, cnd)]


@model("std::numeric_limits::max")
def m_nlmax(I, fn, obj, args, st, fr, node):
    cf = (node or {}).get("cf")
    cv = (node or {}).get("cv")
    if cv is not None:
        return ret(st, c(int(cv)))
    if cf is not None:
        from absint import parse_hex
        return ret(st, f(parse_hex(cf)))
    r = fn.rt.range()
    if r:
        return ret(st, c(r[1]))
    return None


@model("std::numeric_limits::min", "std::numeric_limits::lowest")
def m_nlmin(I, fn, obj, args, st, fr, node):
    r = fn.rt.range()
    if r:
        return ret(st, c(r[0]))
    cf = (node or {}).get("cf")
    if cf is not None:
        from absint import parse_hex
        return ret(st, f(parse_hex(cf)))
    return None


@model("std::numeric_limits::quiet_NaN")
def m_nlnan(I, fn, obj, args, st, fr, node):
    return ret(st, f(float('nan')))


@model("lround", "std::lround", "llround", "std::llround")
def m_lround(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], fn.pt[0])
    t = ('lround', I.fnorm(v))
    I.typed(t, fn.rt)
    return ret(st, t)


@model("std::abs", "abs", "std::fabs", "fabs", "labs", "llabs")
def m_abs(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], fn.pt[0])
    T = fn.pt[0].noref()
    if T.k == 'float':
        return [(s, fmul(f(-1), v) if b else v) for s, b in I.fork(st, I.fcmp(v, f(0), '<'))]
    return [(s, scale(v, -1) if b else v) for s, b in I.fork(st, I.le(add(v, ONE), Z))]


@model("__builtin_clzll", "__builtin_clzl", "__builtin_clz", "__builtin_ctzll", "__builtin_popcountll")
def m_clz(I, fn, obj, args, st, fr, node):
    if 'clz' not in fn.qn:
        return None
    w = 32 if fn.qn.endswith('clz') else 64
    v = I.rval(st, args[0], fn.pt[0])
    lo, hi = I.dom.bounds(st, v)
    if lo is not None and hi is not None and lo > 0 and lo.bit_length() == hi.bit_length():
        return ret(st, c(w - lo.bit_length()))
    return ret(st, ('clz', w, v))


# ------------------------------------------------------------------ C strings and parsing
@model("strlen", "std::strlen", "__builtin_strlen")
def m_strlen(I, fn, obj, args, st, fr, node):
    p = ptr_of(I, I.rval(st, args[0], fn.pt[0]))
    s = lit_of(p)
    if s is not None:
        return ret(st, c(len(s)))
    if p[0] == 'addr' and p[1][0] == 'strbuf' and p[2] == (('i', Z),):
        return ret(st, csize(p[1][1]))
    h = getattr(I.client, 'cstr', None)
    if h is not None:
        h(I, st, 'strlen', p, fr, node)
    t = ('strlen', p)
    return ret(st, t)


@model("strchr", "std::strchr", "__builtin_strchr", "strrchr", "std::strrchr", "strpbrk", "std::strpbrk")
def m_strchr(I, fn, obj, args, st, fr, node):
    p = ptr_of(I, I.rval(st, args[0], fn.pt[0]))
    ch = I.rval(st, args[1], fn.pt[1])
    h = getattr(I.client, 'cstr', None)
    if h is not None:
        h(I, st, fn.name, p, fr, node)
    if fn.name.endswith('strpbrk'):
        lits = [x[1] for x in subterms(ch) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'lit']
        if len(lits) != 1 or '\0' in lits[0]:
            return None
        ch = c(ord(lits[0])) if len(lits[0]) == 1 else ('s', lits[0])
    ver = st.ver.get(I.deref(p)[1], 0)
    last = fn.name.endswith('strrchr')
    atom = ('strrchr' if last else 'strchr', p, ch, ver)
    I.ptratoms.add(atom)
    I.dom.ranges.setdefault(atom, (0, None))
    hit = ('found', atom)
    out = []
    known = st.facts.get(hit)
    from dom import cons
    if known is not True:
        s2 = st.clone()
        if known is None:
            s2.facts[hit] = False
            s2.trail = cons(s2.trail, (hit, False))
        ok = True
        hh = getattr(I.client, 'strchr_miss', None)
        if hh is not None:
            ok = hh(I, s2, p, ch) is not False
        if ok:
            out.append((s2, Z))
    if known is not False:
        if known is None:
            st.facts[hit] = True
            st.trail = cons(st.trail, (hit, True))
        # atom = p + offset
        off = ('choff', p, ch, ver) + (('last',) if last else ())
        I.dom.ranges.setdefault(off, (0, 1 << 62))
        q = add(p, off)
        lv = I.deref(q)
        I.assume(st, I.eq(q, Z), False)
        if isc(ch):
            st.facts.setdefault(('byte', q), ch[1])
            if (lv[1], lv[2]) not in st.mem:
                st.mem[(lv[1], lv[2])] = ch
        ok = True
        hh = getattr(I.client, 'strchr_hit', None)
        if hh is not None:
            ok = hh(I, st, p, ch, q) is not False
        if ok:
            out.append((st, q))
    return out


def m_strto(I, fn, obj, args, st, fr, node):
    p = ptr_of(I, I.rval(st, args[0], fn.pt[0]))
    h = getattr(I.client, 'cstr', None)
    if h is not None:
        h(I, st, 'strto', p, fr, node)
    name = fn.name.replace('std::', '')
    ver = st.ver.get(I.deref(p)[1], 0)
    base = I.rval(st, args[2], fn.pt[2]) if len(args) > 2 else None
    val = ('parse', name, p, base, ver) if base is not None else ('parse', name, p, ver)
    I.typed(val, fn.rt)
    off = ('numend', name, p, ver)
    I.dom.ranges.setdefault(off, (0, 1 << 62))
    e = args[1]
    e = I.rval(st, e, fn.pt[1])
    hh = getattr(I.client, 'strto_end', None)
    if hh is not None:
        hh(I, st, p, off)
    if e != Z:
        lv = I.deref(e)
        I.store(st, lv[1], lv[2], add(p, off), fn.pt[1].to if fn.pt[1].k == 'ptr' else None)
    st.event('pcallee', name, val, loc_of(fr, node))
    return ret(st, val)


for _n in ("strtod", "strtof", "strtol", "strtoll", "strtoul", "strtoull", "strtold"):
    MODELS[_n] = m_strto
    MODELS["std::" + _n] = m_strto


@model("isspace", "std::isspace", "isdigit", "std::isdigit", "isalpha", "isalnum")
def m_isspace(I, fn, obj, args, st, fr, node):
    v = I.rval(st, args[0], fn.pt[0])
    if isc(v):
        n = fn.name
        ch = chr(v[1] & 255) if -128 <= v[1] < 256 else '\0'
        r = {'isspace': ch in ' \t\n\v\f\r', 'isdigit': ch in '0123456789', 'isalpha': ch.isascii() and ch.isalpha(),
             'isalnum': ch.isascii() and ch.isalnum()}[n.replace('std::', '')]
        return ret(st, c(1 if r else 0))
    t = ('call', fn.name, v)
    return ret(st, t)


@model("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy", "__builtin_memmove")
def m_memcpy(I, fn, obj, args, st, fr, node):
    d, s, n = [I.rval(st, args[i], fn.pt[i]) for i in range(3)]
    h = getattr(I.client, 'bulk', None)
    if h is not None:
        h(I, st, d, s, n, fr, node)
    st.event('copy', d, s, n, loc_of(fr, node))
    copy_bytes(I, st, d, s, n)
    return ret(st, d)


def copy_bytes(I, st, d, s, n):
    lv, sv_ = I.deref(d), I.deref(s)
    pth = lv[2]
    src = sv_[2]
    while pth and isinstance(pth[-1], tuple) and pth[-1][0] == 'i':
        pth = pth[:-1]
    while src and isinstance(src[-1], tuple) and src[-1][0] == 'i':
        src = src[:-1]
    # whole-object copy of an object whose address was taken (bit copies)
    if lv[2] == pth and sv_[2] == src and isc(n):
        DT = I.loctype.get((lv[1], lv[2]))
        v = I.raw(st, sv_[1], sv_[2])
        if v is not None and v[0] != 'agg' and DT is not None:
            ST = I.loctype.get((sv_[1], sv_[2]))
            I.store(st, lv[1], lv[2], v if ST is not None and ST.k == DT.k and ST.w == DT.w else I.typed(('reint', DT.s, v), DT))
            return
    I.havoc(st, lv[1], pth)


@model("std::back_inserter")
def m_backins(I, fn, obj, args, st, fr, node):
    T = fn.pt[0].noref()
    if args[0][0] != 'lv' or T.rec != 'std::vector':
        return None
    return ret(st, ('backins', I.addr(args[0][1], args[0][2])))


def append_range(I, st, lv, src, n, fr, node):
    I.client.access(I, st, lv[1], lv[2], True, fr, node)
    st.event('append', I.addr(lv[1], lv[2]), src, n, loc_of(fr, node))
    vset(I, st, lv, ('vapp', vterm(I, st, lv), src, n))


@model("std::vector::insert")
def m_vec_insert(I, fn, obj, args, st, fr, node):
    if len(args) == 2 and iterish(fn.pt[0]):
        # at the end: one element, or the elements of a list
        T = fn.pt[1].noref()
        at, v = I.rval(st, args[0], fn.pt[0]), I.rval(st, args[1], fn.pt[1])
        if at not in (add(I.addr(obj[1], obj[2] + (('i', Z),)), vsize(vterm(I, st, obj))), I.addr(obj[1], obj[2] + (('i', vsize(vterm(I, st, obj))),))):
            return None
        if T.rec == 'std::initializer_list':
            if args[1][0] == 'lv':
                vs, k = [], 0
                while args[1][2] + (('i', c(k)),) in [q for r, q in st.mem if r == args[1][1]]:
                    vs.append(st.mem[(args[1][1], args[1][2] + (('i', c(k)),))])
                    k += 1
                if not vs:
                    return None
            elif v[0] == 'agg' and v[2] and all(len(k) == 1 and k[0] == ('i', c(i)) for i, (k, _) in enumerate(v[2])):
                vs = [x for _, x in v[2]]
            else:
                return None
        else:
            vs = [v]
        I.client.access(I, st, obj[1], obj[2], True, fr, node)
        for x in vs:
            st.event('push', I.addr(obj[1], obj[2]), x, loc_of(fr, node))
            vset(I, st, obj, ('vpush', vterm(I, st, obj), x))
        return ret(st, at)
    if len(args) != 3 or not iterish(fn.pt[1]) or not iterish(fn.pt[2]):
        return None
    a = [I.rval(st, args[i], fn.pt[i]) for i in range(3)]
    end = add(I.addr(obj[1], obj[2] + (('i', Z),)), vsize(vterm(I, st, obj)))
    if a[0] != end and a[0] != I.addr(obj[1], obj[2] + (('i', vsize(vterm(I, st, obj))),)):
        return None
    append_range(I, st, obj, a[1], sub(a[2], a[1]), fr, node)
    return ret(st, end)


@model("std::copy", "std::copy_n", "std::copy_backward", "std::move_backward")
def m_copy(I, fn, obj, args, st, fr, node):
    a = [I.rval(st, args[i], fn.pt[i]) for i in range(3)]
    if a[2][0] == 'backins' and iterish(fn.pt[0]) and fn.name in ('copy', 'copy_n'):
        append_range(I, st, I.deref(a[2][1]), a[0], a[1] if fn.name == 'copy_n' else sub(a[1], a[0]), fr, node)
        return ret(st, a[2])
    if not iterish(fn.pt[0]) or not (iterish(fn.pt[2])):
        return None
    if fn.name == 'copy_n':
        n, src, dst = a[1], a[0], a[2]
    elif fn.name in ('copy_backward', 'move_backward'):
        n = sub(a[1], a[0])
        src, dst = a[0], sub(a[2], n)
    else:
        n = sub(a[1], a[0])
        src, dst = a[0], a[2]
    h = getattr(I.client, 'bulk', None)
    if h is not None:
        h(I, st, dst, src, n, fr, node)
    st.event('copyrange', dst, src, n, loc_of(fr, node))
    lv = I.deref(dst)
    pth = lv[2]
    while pth and isinstance(pth[-1], tuple) and pth[-1][0] == 'i':
        pth = pth[:-1]
    I.havoc(st, lv[1], pth)
    return ret(st, a[2] if fn.name in ('copy_backward', 'move_backward') and False else (dst if fn.name.endswith('backward') else add(dst, n)))


@model("std::find")
def m_stdfind(I, fn, obj, args, st, fr, node):
    """the first occurrence in [a, b), or b"""
    if fn.pt[0].k != 'ptr':
        return None
    a, b = [I.rval(st, args[i], fn.pt[i]) for i in range(2)]
    v = rv(I, st, fn, args, 2)
    h = getattr(I.client, 'scan', None)
    if h is not None:
        h(I, st, a, b, fr, node)
    t = ('fnd', a, b, v)
    I.ptratoms.add(t)
    st.event('scan', a, b, v, loc_of(fr, node))
    key_ = ('found', t)
    from dom import cons
    out = []
    s2 = st.clone()
    off = ('fndoff', a, b, v)
    I.dom.ranges.setdefault(off, (0, 1 << 62))
    q = add(a, off)
    if I.assume(st, I.le(add(q, ONE), b), True):
        st.facts[key_] = True
        st.trail = cons(st.trail, (key_, True))
        lv = I.deref(q)
        if isc(v) and (lv[1], lv[2]) not in st.mem:
            st.mem[(lv[1], lv[2])] = v
        out.append((st, q))
    s2.facts[key_] = False
    s2.trail = cons(s2.trail, (key_, False))
    out.append((s2, b))
    return out


@model("std::lower_bound", "std::upper_bound")
def m_lower(I, fn, obj, args, st, fr, node):
    if not iterish(fn.pt[0]):
        return None
    a, b = [I.rval(st, args[i], fn.pt[i]) for i in range(2)]
    v = rv(I, st, fn, args, 2)
    cmp_ = args[3] if len(args) > 3 else Z
    if cmp_[0] == 'lv':
        cmp_ = I.raw(st, cmp_[1], cmp_[2])
    t = ('lb', fn.name, a, b, v, cmp_[1] if cmp_[0] in ('lam', 'fn') else cmp_)
    I.ptratoms.add(t)
    off = ('lboff',) + t[1:]
    n = sub(b, a)
    I.dom.ranges[off] = (0, 1 << 62)
    I.dom.assume_le0(st, sub(off, n))
    st.event('pcallee', fn.name, t, loc_of(fr, node))
    return ret(st, add(a, off))


@model("std::swap")
def m_swap(I, fn, obj, args, st, fr, node):
    if len(args) != 2 or args[0][0] != 'lv' or args[1][0] != 'lv':
        return None
    T = fn.pt[0].noref()
    if T.k not in ('int', 'ptr', 'bool', 'flt', 'enum') and not (T.k == 'rec' and T.rec in STRS + SVS):
        return None
    a, b = I.load(st, args[0][1], args[0][2], T), I.load(st, args[1][1], args[1][2], T)
    I.store(st, args[0][1], args[0][2], b, T)
    I.store(st, args[1][1], args[1][2], a, T)
    return [(st, Z)]


@model("std::exchange")
def m_exchange(I, fn, obj, args, st, fr, node):
    if len(args) != 2 or args[0][0] != 'lv':
        return None
    T = fn.pt[0].noref()
    if T.k not in ('int', 'ptr', 'bool', 'flt', 'enum'):
        return None
    a = I.load(st, args[0][1], args[0][2], T)
    v = rv(I, st, fn, args, 1)
    I.store(st, args[0][1], args[0][2], I.icast(st, v, T) if T.k == 'int' else v, T)
    return ret(st, a)


@model("absl::SimpleAtoi", "absl::SimpleAtof", "absl::SimpleAtod")
def m_simpleato(I, fn, obj, args, st, fr, node):
    text = I.argval(st, args[0], fn.pt[0])
    out = I.rval(st, args[1], fn.pt[1])
    T = fn.pt[1].to if fn.pt[1].k == 'ptr' else None
    lv = I.deref(out)
    # a text in memory that changes: name the moment
    I.n += 1
    ok = ('call', fn.qn, text, I.n)
    st.event('pcallee', fn.qn, ok, loc_of(fr, node))
    s2 = st.clone()
    I.assume(st, ok, True)
    I.assume(s2, ok, False)
    v = ('number', fn.qn, text, I.n)
    if T is not None:
        I.typed(v, T)
    I.store(st, lv[1], lv[2], v, T)
    # on failure the output is unspecified
    I.havoc(s2, lv[1], lv[2])
    return [(st, ONE), (s2, Z)]


# ------------------------------------------------------------------ interning
@model("spectator::intern_str", "spectator::intern_str_nolock")
def m_intern(I, fn, obj, args, st, fr, node):
    if not I.model_tags:
        return None
    if args and args[0][0] != 'lv' and args[0][0] in ('addr', 'lin'):
        ct = cstr_content(I, st, args[0])
    else:
        ct = strval(I, st, fn, args, 0)
    return ret(st, ('agg', 'spectator::StrRef', ((('data',), ('intern', ct)),)))


# ------------------------------------------------------------------ tag sets (when their implementation is not the subject)
def tags_handler(h):
    def g(I, fn, obj, args, st, fr, node):
        if not I.model_tags:
            return None
        return h(I, fn, obj, args, st, fr, node)
    return g


@model("spectator::Tags::Tags")
@tags_handler
def m_tags_ctor(I, fn, obj, args, st, fr, node):
    if not args:
        gset(I, st, obj, ('tags', ()))
        return ret(st, Z)
    T = fn.pt[0].noref()
    if T.rec == 'spectator::Tags':
        gset(I, st, obj, rv(I, st, fn, args, 0))
        return ret(st, Z)
    if T.rec == 'std::initializer_list' and args[0][0] == 'lv':
        root, path = args[0][1], args[0][2]
        t, i, seen = ('tags', ()), 0, 0
        while True:
            kv = [I.raw(st, root, path + (('i', c(i)), w)) for w in ('first', 'second')]
            if any(x is None or x[0] == 'init' for x in kv):
                break
            t = ('tags+', t, *[('intern', content(x)) for x in kv])
            i += 1
        if not any(p[:len(path) + 1] == path + (('i', c(i)),) for r, p in st.mem if r == root) and i:
            gset(I, st, obj, t)
            return ret(st, Z)
    v = rv(I, st, fn, args, 0)
    gset(I, st, obj, ('tagsof', v))
    return ret(st, Z)


@model("spectator::Tags::operator=")
@tags_handler
def m_tags_asg(I, fn, obj, args, st, fr, node):
    gset(I, st, obj, rv(I, st, fn, args, 0))
    return ret(st, obj)


def strref_val(I, st, v):
    """interned data of a StrRef value or string"""
    if v[0] == 'agg':
        for p, x in v[2]:
            if p == ('data',):
                return x
    return v


@model("spectator::Tags::add")
@tags_handler
def m_tags_add(I, fn, obj, args, st, fr, node):
    ks = []
    for i in range(2):
        T = fn.pt[i].noref()
        if T.k == 'rec' and T.rec == 'spectator::StrRef':
            ks.append(strref_val(I, st, rv(I, st, fn, args, i)))
        else:
            ks.append(('intern', strval(I, st, fn, args, i)))
    old = I.raw(st, obj[1], obj[2])
    gset(I, st, obj, ('tags+', old, ks[0], ks[1]))
    return ret(st, Z)


@model("spectator::Tags::add_all", "spectator::Tags::move_all")
@tags_handler
def m_tags_add_all(I, fn, obj, args, st, fr, node):
    old = I.raw(st, obj[1], obj[2])
    v = rv(I, st, fn, args, 0)
    gset(I, st, obj, ('tags++', old, v) if old != ('tags', ()) else v)
    return ret(st, Z)


@model("spectator::Tags::size")
@tags_handler
def m_tags_size(I, fn, obj, args, st, fr, node):
    return ret(st, ('size', I.raw(st, obj[1], obj[2])))


@model("spectator::Tags::begin", "spectator::Tags::end")
@tags_handler
def m_tags_begin(I, fn, obj, args, st, fr, node):
    p = I.addr(obj[1], obj[2] + (('i', Z),))
    return ret(st, p if fn.name == 'begin' else add(p, ('size', I.raw(st, obj[1], obj[2]))))


@model("spectator::Tags::has", "spectator::Tags::at", "spectator::Tags::operator==", "spectator::Tags::operator!=", "spectator::Tags::hash",
       "spectator::Tags::to_string")
@tags_handler
def m_tags_q(I, fn, obj, args, st, fr, node):
    vals = []
    for i in range(len(args)):
        v = rv(I, st, fn, args, i)
        vals.append(strref_val(I, st, v))
    t = ('call', fn.qn, I.raw(st, obj[1], obj[2])) + tuple(vals)
    if fn.name == 'at':
        return ret(st, ('agg', 'spectator::StrRef', ((('data',), t),)))
    if fn.name == 'operator!=':
        return ret(st, I.negate(('call', 'spectator::Tags::operator==') + t[2:]))
    return ret(st, t)


# ------------------------------------------------------------------ function objects
@model("std::function::function", "std::function::operator=")
def m_fun_ctor(I, fn, obj, args, st, fr, node):
    v = rv(I, st, fn, args, 0) if args else Z
    gset(I, st, obj, v)
    return ret(st, Z if fn.ctor else obj)


@model("std::function::operator()")
def m_fun_call(I, fn, obj, args, st, fr, node):
    v = I.raw(st, obj[1], obj[2])
    if v[0] == 'lam':
        return I.call_lam(v, list(args), st, fr, node)
    if v[0] == 'fn' and v[1] in I.prog.fns:
        return I.call(I.prog.fns[v[1]], None, list(args), st, fr, node)
    vals = tuple(I.argval(st, a, fn.pt[i] if i < len(fn.pt) else None) for i, a in enumerate(args))
    t = I.fresh('fcall', fn.rt)
    st.event('pcall', v, vals, t, loc_of(fr, node))
    if fn.rt is not None and fn.rt.k == 'ref':
        return ret(st, I.deref(t))
    return ret(st, t)


@model("std::function::operator_conv")
def m_fun_bool(I, fn, obj, args, st, fr, node):
    v = I.raw(st, obj[1], obj[2])
    if v[0] in ('lam', 'fn'):
        return ret(st, ONE)
    return ret(st, ('set', v))


@model("fmt::format")
def m_fmt(I, fn, obj, args, st, fr, node):
    vals = []
    for i in range(len(args)):
        v = args[i]
        if v[0] == 'lv':
            T = fn.pt[i].noref() if i < len(fn.pt) else None
            v = I.load(st, v[1], v[2], T)
        vals.append(v)
    return ret(st, ('fmt',) + tuple(vals))


@model("fmt::basic_format_string::basic_format_string", "fmt::fstring::fstring")
def m_fmtstr(I, fn, obj, args, st, fr, node):
    v = args[0]
    if v[0] == 'lv' and v[1][0] == 'lit':
        gset(I, st, obj, ('s', v[1][1]))
    else:
        gset(I, st, obj, strval(I, st, fn, args, 0))
    return ret(st, Z)


@model("std::vector::~vector", "std::basic_string::~basic_string")
def m_dtor(I, fn, obj, args, st, fr, node):
    return ret(st, Z)


# ------------------------------------------------------------------ everything else
LOGGER = re.compile(r"^spdlog::")


def generic(I, q, fn, obj, args, st, fr, node):
    if LOGGER.match(q) and q not in ("spdlog::create_async_nb", "spdlog::get"):
        if fn.name == 'should_log' or fn.rt.k == 'bool':
            return None
        if fn.rt.k == 'void':
            return [(st, Z)]
        return None
    if fn.name == '~' + (fn.rect.rec.split('::')[-1] if fn.rect is not None and fn.rect.rec else '?') and (fn.body is None or fn.dflt):
        return [(st, Z)]
    if fn.ctor and obj is not None:
        T = fn.rect
        same = len(args) >= 1 and fn.pt and fn.pt[0].k == 'ref' and fn.pt[0].to.k == 'rec' and fn.pt[0].to.rec == T.rec and \
            fn.pt[0].to.s.replace('const ', '') == T.s.replace('const ', '')
        if same and len(fn.pt) == 1 and (fn.body is None or fn.dflt):
            v = rv(I, st, fn, args, 0)
            gset(I, st, obj, v)
            if args[0][0] == 'lv' and is_rref(fn.pt[0]):
                moved(I, st, args[0], T)
            return [(st, Z)]
        if not args and (fn.body is None or (fn.dflt and not fn.inits)):
            if T.repo or I.is_agg(T):
                if fn.body is None or fn.dflt:
                    gset(I, st, obj, I.zero(T)) if T.rec and not T.repo else None
                    return default_init(I, fn, obj, st, fr)
            return None
    if fn.asg and (fn.body is None or fn.dflt) and obj is not None and len(args) == 1:
        T = fn.rect
        if fn.pt[0].noref().rec == T.rec:
            v = rv(I, st, fn, args, 0)
            I.client.access(I, st, obj[1], obj[2], True, fr, node)
            gset(I, st, obj, v)
            if args[0][0] == 'lv' and is_rref(fn.pt[0]):
                moved(I, st, args[0], T)
            return [(st, obj)]
    return None


def moved(I, st, lv, T):
    """smart pointers and containers inside a moved-from aggregate"""
    for p, ft in (I.fields(T) if I.is_agg(T) else [((), T)]):
        if ft is not None and ft.k == 'rec' and ft.rec in SP:
            I.store(st, lv[1], lv[2] + p, Z)


def default_init(I, fn, obj, st, fr):
    """implicitly defined default constructor: in-class initialisers"""
    rec = I.prog.records.get(fn.rect.s)
    if rec is None:
        return [(st, Z)]
    from absint import Frame
    states = [st]
    for fd in rec.fields:
        if fd.get("i"):
            nf = Frame.__new__(Frame)
            nf.fn, nf.tu, nf.depth, nf.this, nf.caps, nf.up = fn, rec.tu, (fr.depth if fr else 0) + 1, obj, {}, fr
            nx = []
            for s in states:
                nx += I.ev_into(fd["i"], s, nf, ('lv', obj[1], obj[2] + (fd["n"],)))
            states = nx
    return [(s, Z) for s in states]
