"""P17: Smile encoding."""
from common import *
import bits
from bits import BV, Str, Obj, LV, k, sym, rd, Bits, partition
from ivl import Split, Unsupported, Wrong

EXPLANATION = (
    "The Append methods of the payload and of its compressed buffer are interpreted over vectors of bits, each of which is a constant or a "
    "named bit of the input (engine/bits.py); where a branch is not decided, the input is partitioned by fixing its highest open bit, until "
    "the pieces cover all inputs. The sequence of bytes that reaches the buffer's input is then decoded by the rules of the Smile format, "
    "bit by bit, and compared with the input's bits. That a piece is the whole function on its inputs is the soundness argument: no input is "
    "executed.")
ASSUMPTIONS = [
    "strings are ASCII (the documented limit of this encoder)",
    "integers are at most 2^31-1 (table indices and counts)",
    "vector::push_back / std::copy append in order",
]
RULES = {
    "int": "the bytes of an integer are one complete Smile integer token whose value is the integer",
    "double": "the bytes of a double are one complete Smile 64-bit floating token holding exactly its bits",
    "string": "the bytes of a string are one complete Smile string token of exactly its length and content",
    "frame": "a payload starts with the Smile header and an array start and ends with an array end, written before the stream is finished",
}
BUF = 'spectator::CompressedBuffer'


class Emit:
    """the bytes that reach the input vector of the compressed buffer"""

    def __init__(self):
        self.out = []

    def hook(self, fr, fn, obj, args):
        q, n = fn.qn, fn.name
        cls = fn.rect.rec if fn.rect is not None else None
        o = rd(obj) if obj is not None and not isinstance(obj, str) else obj
        if cls in ('std::basic_string_view', 'std::basic_string'):
            s = o if isinstance(o, Str) else rd(args[0]) if args and fn.ctor else None
            if isinstance(s, Str):
                if fn.ctor:
                    return s if len(args) == 1 else None
                if n in ('length', 'size'):
                    return s.n
                if n == 'empty':
                    return k(1 if fr.binop('==', s.n, k(0, s.n.w), 8, False).lo() else 0, 8)
                if n in ('begin', 'cbegin', 'data'):
                    return ('it', s, 0)
                if n in ('end', 'cend'):
                    return ('it', s, 1)
        if isinstance(o, Obj) and o.f.get('cur'):
            if n in ('push_back', 'emplace_back'):
                self.out.append(rd(args[0]).resize(8, False))
                return k(0, 8)
            if n in ('begin', 'end', 'cend', 'cbegin'):
                return ('vit', n)
            if n == 'insert' and len(args) == 3:
                a, b = rd(args[1]), rd(args[2])
                p = rd(args[0])
                if p != ('vit', 'end') and p != ('vit', 'cend'):
                    raise Wrong("bytes are inserted before others")
                return self.range(a, b)
            if n == 'size':
                return sym('cursize', 32, 64)
            if n in ('reserve',):
                return k(0, 8)
        if q == 'std::back_inserter' and isinstance(rd(args[0]), Obj) and rd(args[0]).f.get('cur'):
            return ('back',)
        if q in ('std::copy', 'std::copy_n') and rd(args[2]) == ('back',):
            if q == 'std::copy':
                return self.range(rd(args[0]), rd(args[1]))
        if cls == BUF and n in ('maybe_compress', 'compress'):
            self.out.append(('flush',))
            return k(0, 8)
        if cls == BUF and n in ('Init', 'Result'):
            self.out.append((n,))
            return ('result',)
        if n == '__assert_fail':
            return k(0, 8)
        if isinstance(o, tuple) or (args and any(isinstance(rd(a), tuple) for a in args if not isinstance(a, str))):
            if fn.ctor and len(args) == 1:
                return rd(args[0])
        return None

    def range(self, a, b):
        if isinstance(a, tuple) and a[0] == 'it' and isinstance(b, tuple) and b[0] == 'it' and a[1] is b[1] and (a[2], b[2]) == (0, 1):
            self.out.append(('str', a[1]))
            return k(0, 8)
        if isinstance(a, Obj) and isinstance(b, Obj):
            raise Unsupported("range of an array")
        raise Unsupported("range")


def this_obj(p):
    o = Obj()
    b = Obj()
    o.f['buffer_'] = b
    rec = p.record('spectator::SmilePayload')
    bn = [n for n, t in rec.ft.items() if t.rec == BUF]
    if not bn:
        raise AnalysisBroken("payload without a compressed buffer")
    o.f[bn[0]] = b
    br = p.record(BUF)
    for n, t in br.ft.items():
        if t.rec == 'std::vector':
            c0 = Obj()
            c0.f['cur'] = n
            b.f[n] = c0
        elif t.isint():
            b.f[n] = k(1, t.w or 8)
    return o


def emitted(p, fn, args):
    e = Emit()
    b = Bits(p, e.hook)
    this = this_obj(p)
    try:
        b.call(fn, args, this)
    except Wrong as w:
        e.out.append(('wrong', str(w)))
    return e.out


def decode_int(out):
    """(problem or None, bits of the decoded value)"""
    if not out or not all(isinstance(x, BV) for x in out):
        return "not bytes only", None
    t = out[0]
    if not t.const():
        top = t.b[5:]
        if top == (0, 1, 1) and len(out) == 1:
            z = t.b[:5]
            return (None if z[0] == 0 else "sign bit of the small integer is %s" % (z[0],)), z[1:]
        return "first byte %r is no integer token" % t, None
    v = t.lo()
    if 0xC0 <= v <= 0xDF:
        if len(out) != 1:
            return "bytes after a small integer", None
        return (None if v & 1 == 0 else "negative"), t.b[1:5]
    if v not in (0x24, 0x25):
        return "token 0x%02x is no integer token" % v, None
    vb = out[1:]
    if not vb or len(vb) > (5 if v == 0x24 else 10):
        return "%d bytes of a variable-length integer" % len(vb), None
    z = ()
    for i, x in enumerate(vb):
        last = i == len(vb) - 1
        if x.b[7] != (1 if last else 0):
            return "byte %d of %d has top bit %s" % (i, len(vb), x.b[7]), None
        if last:
            if x.b[6] != 0:
                return "the last byte has bit 6 %s" % (x.b[6],), None
            z = x.b[:6] + z
        else:
            z = x.b[:7] + z
    w = 32 if v == 0x24 else 64
    if any(b != 0 for b in z[w:]):
        return "more than %d bits in token 0x%02x" % (w, v), None
    z = z[:w]
    return (None if z[0] == 0 else "the sign bit is %s" % (z[0],)), z[1:]


def strip(b):
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    return tuple(b)


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    p = ctx.prog
    fns = p.bodies('spectator::SmilePayload::Append')
    ctx.need("payload Append overloads", len(fns), 3)
    kinds = set()
    for fn in fns:
        T = fn.pt[0].noref()
        w = "%s(%s) (%s:%s)" % (fn.qn, T.s, fn.file, fn.line)
        ctx.fn(fn)
        try:
            if T.isint():
                kinds.add("int")
                for v, out in partition(lambda v: emitted(p, fn, [v]), 31, T.w):
                    ctx.paths += 1
                    if isinstance(out, Exception):
                        ctx.bad("int", w, "undefined for %r: %s" % (v, out))
                        continue
                    body(ctx, w, out)
                    why, z = decode_int([x for x in out if x != ('flush',)])
                    ctx.check(why is None, "int", w, "%s, for integers %s" % (why, name(v)))
                    if why is None:
                        ctx.check(strip(z) == strip(v.b), "int", w, "integers %s decode to %r" % (name(v), BV(strip(z))))
            elif T.k in ('float', 'flt', 'fp') or T.s in ('double', 'const double'):
                kinds.add("double")
                v = sym('n', 64, 64)
                out = emitted(p, fn, [v])
                ctx.paths += 1
                body(ctx, w, out)
                o = [x for x in out if x != ('flush',)]
                okk = all(isinstance(x, BV) for x in o)
                ctx.check(okk and len(o) == 11 and o[0].const() and o[0].lo() == 0x29, "double", w, "not a 64-bit floating token with 10 bytes: %s" % (o[:1] + [len(o)]))
                if okk and len(o) == 11:
                    z = ()
                    for x in o[1:]:
                        ctx.check(x.b[7] == 0, "double", w, "a data byte has its top bit set: %r" % x)
                        z = x.b[:7] + z
                    ctx.check(None if None in z else z[64:] == (0,) * 6 and z[:64] == v.b, "double", w, "the decoded bits differ from the value's: %s" % [
                        (i, z[i], v.b[i]) for i in range(64) if z[i] != v.b[i]][:4])
            elif T.rec in ('std::basic_string_view', 'std::basic_string'):
                kinds.add("string")

                def one(n):
                    out = emitted(p, fn, [Str('s', n)])
                    string_ok([x for x in out if x != ('flush',)], n)
                    return out
                for n, out in partition(one, 40, 64):
                    ctx.paths += 1
                    if isinstance(out, Exception):
                        ctx.bad("string", w, "undefined for lengths %s: %s" % (name(n), out))
                        continue
                    body(ctx, w, out)
                    o = [x for x in out if x != ('flush',)]
                    ctx.check(string_ok(o, n), "string", w, "strings of length %s are written as %s" % (name(n), o))
        except Unsupported as e:
            ctx.und("int" if T.isint() else "double" if not T.rec else "string", w, "not followed: %s" % e)
    ctx.need("kinds of values", len(kinds), 3)
    for nm in ('Init', 'Result'):
        for fn in p.bodies('spectator::SmilePayload::' + nm):
            w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
            ctx.fn(fn)
            try:
                out = [x for x in emitted(p, fn, []) if x != ('flush',)]
            except (Unsupported, Split) as e:
                ctx.und("frame", w, str(e))
                continue
            if nm == 'Init':
                b = [x.lo() if isinstance(x, BV) and x.const() else x for x in out]
                ctx.check(b[:1] == [('Init',)], "frame", w, "starts with %s" % (b[:1],))
                ctx.check(len(b) == 6 and b[1:4] == [0x3A, 0x29, 0x0A] and isinstance(b[4], int) and b[4] & 0xF0 == 0 and b[5] == 0xF8, "frame", w, "header bytes %s" % b[1:])
            else:
                b = [x.lo() if isinstance(x, BV) and x.const() else x for x in out]
                ctx.check(b == [0xF9, ('Result',)], "frame", w, "ends with %s" % (b,))


def body(ctx, w, out):
    bad = [x for x in out if isinstance(x, tuple) and x[0] == 'wrong']
    if bad:
        ctx.bad("int", w, bad[0][1])


def name(v):
    lo, hi = v.lo(), v.hi()
    return "%d" % lo if lo == hi else "%d..%d" % (lo, hi)


def string_ok(o, n):
    lo, hi = n.lo(), n.hi()
    has = [x for x in o if isinstance(x, tuple) and x[0] == 'str']
    if any(isinstance(x, tuple) and x[0] != 'str' for x in o):
        return False
    if lo == hi == 0:
        b = [x for x in o if isinstance(x, BV)]
        return len(b) == 1 and b[0].const() and b[0].lo() == 0x20
    if len(has) != 1 or not isinstance(o[0], BV):
        return False
    t = o[0]
    if t.const() and t.lo() in (0xE0, 0xE4):
        return len(o) == 3 and o[1] == has[0] and isinstance(o[2], BV) and o[2].const() and o[2].lo() == 0xFC
    if len(o) != 2 or o[1] != has[0]:
        return False
    if not t.const():
        raise Split()
    v = t.lo()
    if 0x40 <= v <= 0x5F:
        m = v - 0x40 + 1
    elif 0x60 <= v <= 0x7F:
        m = v - 0x60 + 33
    elif 0x80 <= v <= 0x9F:
        m = v - 0x80 + 2
    elif 0xA0 <= v <= 0xBF:
        m = v - 0xA0 + 34
    else:
        return False
    if lo != hi and lo <= m <= hi:
        raise Split()
    return lo == hi == m

