"""P32: the proc files: right row, right columns, nothing leaks."""
from bufs import *
from models import loc_of
from p05 import bodies_calling

EXPLANATION = (
    "udp_info and max_buffer_size are abstractly interpreted for an arbitrary file: every call that reads it may fail at any point and return any text. "
    "The split of a row is interpreted against the kernel's row format, so that each element index stands for the columns it contains; the row taken, "
    "the columns and number bases of the result, and the rows passed over are compared with that on every path and every iteration. Every path of every "
    "function that opens a file is checked for exactly one close; so are the operations of the class that owns a FILE.")
ASSUMPTIONS = ["rows have the kernel's format: sl: addr:port addr:port st tx:rx tr:when retrnsmt uid timeout inode ref pointer drops", "a row fits the line buffer",
               "absl::StrSplit splits as documented"]
RULES = {
    "row": "the result is from the row whose local port is the requested one; every other row is passed over, and no such row is",
    "columns": "queue and drops are the right columns in the right base",
    "short": "a row with too few columns is passed over",
    "inside": "an element of a row is only used when the row is known to have it",
    "absent": "without a readable file or such a row the result says so",
    "size": "the buffer size is the number in the file, else the default",
    "close": "every file that was opened is closed exactly once on every path",
    "owner": "the class that owns a FILE closes it exactly once",
}
# field, separator after it
ROW = [("sl", ":"), ("", " "), ("laddr", ":"), ("lport", " "), ("raddr", ":"), ("rport", " "), ("st", " "), ("txq", ":"), ("rxq", " "), ("tr", ":"), ("when", " "),
       ("retr", " "), ("uid", " "), ("timeout", " "), ("inode", " "), ("ref", " "), ("ptr", " "), ("drops", "\n")]


def columns(delims, skip):
    out, cur = [], []
    for f_, sep in ROW:
        if f_:
            cur.append(f_)
        if sep in delims:
            if cur or not skip:
                out.append(tuple(cur))
            cur = []
        elif cur:
            cur.append(sep)
    if cur:
        out.append(tuple(cur))
    return out


def elem(t):
    """(fields term, index, base, function) of a parsed element"""
    t = decast(t)
    if t[0] == 'parse' and len(t) >= 4 and t[2][0] == 'addr' and t[2][1][0] == 'strbuf' and t[2][2] == (('i', Z),):
        e = t[2][1][1]
        if e[0] == 'fld' and len(e[2]) == 1 and isinstance(e[2][0], tuple) and isc(e[2][0][1]):
            return e[1], e[2][0][1][1], (t[3] if len(t) > 4 else None), t[1]
    return None


def splitting(st, F):
    """(delimiters, skip empty) of the split that made the fields"""
    d, skip = None, False
    for e in st.events():
        if e[0] != 'call':
            continue
        if e[1].startswith('absl::') and any(x == e[4] for x in subterms(F)):
            if e[1].endswith(('ByAnyChar', 'ByString', 'ByChar')):
                a = e[3][0] if e[3] else None
                lit = lit_of_(a)
                if lit is None or not e[1].endswith('ByAnyChar') and len(lit) != 1:
                    return None, False
                d = lit
            elif e[1].endswith('SkipEmpty'):
                skip = True
    return d, skip


def lit_of_(a):
    if a is None:
        return None
    if isc(a):
        return chr(a[1])
    if a[0] == 'sv':
        a = a[1]
    if a[0] == 'addr' and a[1][0] == 'lit':
        return a[1][1]
    if a[0] == 's':
        return a[1]
    return None


def portcmp(st, port):
    """[(element, value)]: comparisons of an element with the requested port on the path"""
    out = []
    for t, v in st.conds():
        if t[0] == 'eq0':
            l = decast(t[1])
            ats = dict(l[2]) if l[0] == 'lin' else {}
            if l[0] == 'lin' and l[1] == 0 and len(ats) == 2 and port in ats and sum(ats.values()) == 0:
                o = [a for a in ats if a != port][0]
                out.append((elem(o), v))
    return out


class Rows(Bufs):
    """which elements of vectors are used, and whether they exist"""

    def __init__(self, *a):
        super().__init__(*a)
        self.used = {}

    def index(self, I, st, obj, i, n, fr, node, throws):
        g = I.le(add(i, ONE), n)
        v = True if throws else I.truth(st, g)
        if v is None and not hidden(st) and not any(isinstance(x, tuple) and x and x[0] in ('hv', 'sym', 'lp') for x in subterms(add(i, ONE))) and n[0] == 'size':
            v = False
        k = (loc_of(fr, node), show(i))
        self.used.setdefault(k, set()).add(v)


def rows(ctx, fn):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    cl = Rows()
    res, I = runfn(ctx, fn, cl)
    port = ('init', ('p', fn.ps[0]["n"]), ())
    cols = {}

    def what(F, i, st):
        d, skip = splitting(st, F)
        if d is None:
            return None
        if (d, skip) not in cols:
            cols[(d, skip)] = columns(d, skip)
        cs = cols[(d, skip)]
        if not skip:
            return ("varying",)         # padding makes elements of its own
        return cs[i] if 0 <= i < len(cs) else ()
    n = 0

    def isport(e, st):
        if e is None:
            return None
        wh = what(e[0], e[1], st)
        if wh is None:
            return None
        return wh == ("lport",) and e[2] == c(16)
    need_ = 0
    for st, fl in res:
        path = pathstr(st)
        if fl[0] != 'R':
            continue
        n += 1
        r = fl[1]
        got = dict(r[2]) if r[0] == 'agg' else {}
        has = got.get(('#has',))
        pc = portcmp(st, port)
        if has is None or not isc(has):
            ctx.und("row", w, "result %s" % show(r))
            continue
        if has[1]:
            match = [e for e, v in pc if v]
            if not match:
                ctx.check(False if not hidden(st) and not odd(st, port) else None, "row", w, "a row is taken without its port being the requested one (path %s)" % path)
                continue
            e = match[-1]
            ip = isport(e, st)
            ctx.check(ip if ip is not None else None, "row", w, "the requested port is compared with column %s in base %s" % (
                e and "".join(what(e[0], e[1], st) or ("none",)), e and e[2] is not None and show(e[2])))
            for fld, name, base in (("rx_queue_bytes", "rxq", 16), ("num_dropped", "drops", 10)):
                v = next((x for p, x in got.items() if p and p[-1] == fld), None)
                x = elem(v) if v is not None else None
                if x is None:
                    ctx.check(False if v is not None and isc(v) else None, "columns", w, "%s is %s" % (fld, show(v) if v is not None else 'unknown'))
                    continue
                need_ = max(need_, x[1] + 1)
                wh = what(x[0], x[1], st)
                same = e is not None and x[0] == e[0]
                ctx.check(None if wh is None or not same or x[2] is None or x[2] == Z else wh == (name,) and x[2] == c(base), "columns", w,
                          "%s is column %s in base %s" % (fld, "".join(wh or ("none",)), x[2] is not None and show(x[2])))
        else:
            gone = any(t[0] == 'eq0' and v and t[1][0] == 'ret' and t[1][1] in ('fopen', 'fgets', 'std::fopen', 'getline') for t, v in st.conds())
            m = [e for e, v in pc if v]
            if m:
                ctx.bad("row", w, "the row of the port was there, but nothing is reported (path %s)" % path)
            else:
                ctx.check(True if gone else None if hidden(st) else False, "absent", w, "nothing is reported before the end of the file (path %s)" % path)
    for (at, i), vs in sorted(cl.used.items()):
        ctx.check(False if False in vs else None if None in vs else True, "inside", at, "element %s of a row is used although the row may not have it" % i)
        n += 1
    # rows passed over
    for L in I.loops.values():
        for st in L['backs']:
            if any(e[0] == 'loop' and e[1] != lid(I, L) for e in after_loop(st, lid(I, L))[1:]):
                continue
            fg = [e for e in after_loop(st, lid(I, L)) if e[0] == 'call' and e[1] == 'fgets']
            if not fg:
                continue
            n += 1
            sz = sizes(st)
            few = any(need_ and I.truth(st, I.le(c(need_), s)) is False for s in sz)
            other = any(v is False and isport(e, st) for e, v in portcmp(st, port))
            matched = any(v is True for e, v in portcmp(st, port))
            unk_ = any(isport(e, st) is None for e, v in portcmp(st, port)) or odd(st, port) or hidden(st)
            ctx.check(True if few or (other and not matched) else None if unk_ else False, "row" if matched or not sz else "short", w,
                      "a row is passed over that may be the port's (path %s)" % pathstr(st))
    return n


def lid(I, L):
    for k, v in I.loops.items():
        if v is L:
            return k


def sizes(st):
    out = []
    for t, v in st.conds():
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == 'size' and x not in out:
                out.append(x)
    return out


def odd(st, port):
    """a condition on the path about the port or an element that is not understood"""
    for t, v in st.conds():
        if t[0] == 'le0' and any(x == port or (isinstance(x, tuple) and x and x[0] == 'parse') for x in subterms(t)):
            return True
        if t[0] not in ('eq0', 'le0') and any(x == port for x in subterms(t)):
            return True
        if t[0] == 'streq':
            return True
    return False


def bufsize(ctx, fn):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Bufs())
    n = 0
    consts = set()
    for st, fl in res:
        if fl[0] != 'R':
            continue
        n += 1
        r = fl[1]
        path = pathstr(st)
        p = [t for t, v in st.conds() if t[0] == 'call' and 'SimpleAto' in str(t[1]) and v]
        f0 = [t for t, v in st.conds() if t[0] == 'call' and 'SimpleAto' in str(t[1]) and not v]
        if p:
            ok = r[0] == 'number' and r[3] == p[-1][3]
            ctx.check(True if ok else False if isc(r) else None, "size", w, "the file holds a number, but %s is returned (path %s)" % (show(r), path))
        elif isc(r):
            consts.add(r[1])
            ctx.check(r[1] > 0, "size", w, "the default is %s" % show(r))
        elif r[0] in ('init', 'hv') and not f0 and not [e for e in st.events() if e[0] == 'call']:
            ctx.ok("size", w, "the value that was read before")
        else:
            ctx.check(False if (f0 and r[0] == 'hv') or (r[0] == 'init' and r[1][0] == 'g') else None, "size", w, "%s is returned when no number could be read (path %s)" % (show(r), path))
    ctx.check(len(consts) <= 1, "size", w, "there are several defaults: %s" % sorted(consts))
    return n


class Given(Bufs):
    """notes handles that are put into a smart pointer or another library class"""

    def stored(self, I, st, root, path, v):
        v = decast(v)
        if v[0] == 'ret' and str(v[1]).replace('std::', '').lstrip(':') in OPENS:
            T = self.typeof(I, root, path)
            if T is not None and T.noref().k == 'rec':
                st.x[('given', v)] = True


OPENS = ('open', 'fopen', 'openat', 'creat')


def closing(ctx, fn):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Given())
    n = 0
    for st, fl in res:
        ev = [e for e in st.events() if e[0] == 'call']
        for k, e in enumerate(ev):
            q = e[1].replace('std::', '').lstrip(':')
            if q not in ('open', 'fopen', 'openat', 'creat'):
                continue
            n += 1
            h = e[4]
            failed = any((t == ('eq0', h) and v) for t, v in st.conds()) if q == 'fopen' else I.truth(st, I.le(ZERO_, h)) is False
            maybe = not failed and not (I.truth(st, I.eq(h, Z)) is False if q == 'fopen' else I.truth(st, I.le(Z, h)) is True)
            cls_ = [x for x in ev[k + 1:] if x[1].replace('std::', '').lstrip(':') == ('fclose' if q == 'fopen' else 'close') and x[3] and decast(x[3][0]) == h]
            path = pathstr(st)
            if failed:
                ctx.check(not cls_ or q != 'fopen', "close", w, "fclose of a file that could not be opened (path %s)" % path)
                continue
            esc = st.x.get(('given', h)) or any(any(y == h for v in (x[3] or ()) for y in subterms(v)) for x in ev[k + 1:] if x[1].startswith('spectator'))
            ctx.check(True if len(cls_) == 1 else None if esc or (maybe and not cls_ and fl[0] != 'R') else False, "close", w,
                      "the file opened at %s is closed %d times (path %s)" % (e[5], len(cls_), path))
            # used after close
            if cls_:
                i = ev.index(cls_[0])
                use = [x for x in ev[i + 1:] if x[3] and any(decast(v) == h for v in x[3] if isinstance(v, tuple)) and x is not cls_[-1] and 'close' not in x[1]]
                ctx.check(not use, "close", w, "the file is used after it is closed: %s" % [x[1] for x in use])
    return n


ZERO_ = Z


def owners(ctx, own):
    P = ctx.prog
    n = 0
    for rec in sorted(set(P.records.values()), key=lambda r: r.qn):
        d = [m for m in rec.methods if m.dtor and m.body is not None]
        if rec.qn not in own:
            continue
        fields = [f for f, T in rec.ft.items() if T.k == 'ptr']
        if not d:
            ctx.bad("owner", "%s (%s)" % (rec.qn, rec.loc), "opens a file but has no destructor that closes it")
            continue
        if len(fields) != 1:
            ctx.und("owner", rec.qn, "fields %s" % fields)
            continue
        f_ = fields[0]
        H = ('init', ('this', rec.qn), (f_,))
        w = "%s (%s)" % (rec.qn, rec.loc)
        n += 1
        res, I = runfn(ctx, d[0], Bufs())
        for st, fl in res:
            cl = [e for e in st.events() if e[0] == 'call' and e[1].endswith('fclose')]
            null = I.truth(st, I.eq(H, Z))
            if null is True:
                ctx.check(not cl, "owner", w, "the destructor closes a file that is not open")
            else:
                ctx.check(len(cl) == 1 and decast(cl[0][3][0]) == H and (null is False), "owner", w, "the destructor closes the file %d times, open is %s" % (len(cl), null))
        for m in rec.methods:
            if m.body is None:
                continue
            if m.ctor == 'copy':
                ctx.check(None, "owner", w, "copies share the file")
            if m.ctor == 'move':
                O = ('p', m.ps[0]["n"] or '0')
                res, I = runfn(ctx, m, Bufs())
                for st, fl in res:
                    a, b = I.raw(st, ('this', rec.qn), (f_,)), I.raw(st, O, (f_,))
                    ctx.check(a == ('init', O, (f_,)) and b == Z, "owner", w, "after a move the source holds %s and the target %s" % (
                        show(b) if b else 'the same', show(a) if a else 'nothing'))
    return n


def calls(P, m, names):
    xs = list(P.walk(m.body)) if m.body is not None else []
    for i in m.inits or ():
        xs += list(P.walk(i["e"])) if isinstance(i, dict) and isinstance(i.get("e"), dict) else []
    return any(x.get('k') == 'Call' and x.get('fn') is not None and m.tu.fns[x['fn']].qn.replace('std::', '').lstrip(':') in names for x in xs)


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    P = ctx.prog
    fn = P.one('spectatord::udp_info')
    ctx.need("exits and iterations of udp_info", rows(ctx, fn), 3)
    mb = P.one('spectatord::max_buffer_size')
    ctx.need("exits of max_buffer_size", bufsize(ctx, mb), 3)
    ops_ = ('open', 'fopen', 'openat', 'creat')
    direct = bodies_calling(P, lambda f: f.qn.replace('std::', '').lstrip(':') in ops_)
    own = {r.qn for r in P.records.values() for m in r.methods if (m.dtor or m.ctor) and calls(P, m, ('fclose', 'fopen'))}
    via = []
    for g in P.fns.values():
        if g.body is None or g.lam or (g.rect is not None and g.rect.rec in own):
            continue
        for x in P.walk(g.body):
            if x.get('k') == 'Ctor' and x.get('fn') is not None and g.tu.fns[x['fn']].rect is not None and g.tu.fns[x['fn']].rect.rec in own:
                via.append(g)
                break
    todo = [g for g in direct if not (g.rect is not None and g.rect.rec in own)] + via
    n = 0
    for g in sorted(set(todo), key=lambda g: (g.file, g.line)):
        try:
            n += closing(ctx, g)
        except AnalysisBroken as e:
            ctx.und("close", g.qn, "not analysable: %s" % e)
    ctx.need("paths that open a file", n, 2)
    ctx.anchor("classes that own a FILE", owners(ctx, own))
