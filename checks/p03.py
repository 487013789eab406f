"""P03: the lines of a datagram - split, handed on, counted and reported."""
from sline import *

EXPLANATION = (
    "Both text entries of the server are interpreted abstractly down to the loop that hands single lines on. For every path of one iteration the check "
    "compares: how often and at which position a line is handed on; that the position is the loop's own cursor; where the line ends (the first newline "
    "at or after it, by the documented result of the scan used), that this byte is a terminator when the line is handed on, and that the cursor of the "
    "next iteration is behind that newline and behind nothing but newlines; when the loop may end; which of the status counters (identified by the name "
    "the constructor gives them) is incremented under which outcome and which configuration; and what becomes of the error text. Loops that skip or "
    "search characters are summarised by the class of the characters they pass over. The last rule runs Start and follows the handlers given to "
    "the servers to the entry they call.")
ASSUMPTIONS = ["strchr keeps its documented contract", "line parsers only touch the text of their line (P04)", "an error text is not empty"]
RULES = {
    "once": "an iteration hands exactly one line on, at the cursor, unless it only skips a newline",
    "cut": "the newline that ends a line is a terminator by the time the line is handed on",
    "next": "the next line starts behind the newline that ended this one, and only newlines are skipped",
    "all": "the loop ends only at the terminator or behind a line that no newline ends",
    "nonempty": "a line that is handed on has at least one character",
    "first": "only newlines are skipped before the first line",
    "count": "a line without error increments parsedCount once, one with an error parseErrors once, and neither the other, exactly when status metrics are enabled",
    "errors": "the error text of every failing line becomes part of the result, which is an error exactly when there is one",
    "wired": "the UDP and unix socket servers feed the spectatord protocol's entry, the statsd server the statsd one",
}
NL = c(10)


class Dgram(Text):
    def line(self, I, st, fn, p, fr, node):
        cuts = []
        for t, v in st.conds():
            if t[0] == 'found' and v and t[1][0] == 'strchr' and t[1][2] == NL:
                a = t[1]
                q = add(a[1], ('choff', a[1], a[2], a[3]))
                cuts.append((q, load(I, st, q)))
        for (root, path), v in st.mem.items():
            if root[0] == 'mem' and len(path) == 1 and v == Z:
                cuts.append((I.addr(root, path), v))
        st.x['handed'] = st.x.get('handed', ()) + ((p, tuple(cuts)),)


def runs(I, cl):
    """{symbol of a cursor at the head of a loop: [(class, entry value, step ...)]}: loops that only move a cursor over characters of one class.
    value: (class, entry, form) with class 'nl' or 'other'; form 0: [entry, head) is of the class, form 1: (entry, head] is"""
    out = {}
    for lid, L in I.loops.items():
        if any(e[0] in ('line', 'op', 'pcall') for b in L['backs'] for e in after_loop(b, lid)):
            continue
        for k in L['W']:
            if k[0] == 'ref':
                continue
            x, x0 = L['head'].mem.get(k), I.raw(L['entry'], k[0], k[1])
            if x is None or x[0] != 'lp' or x0 is None:
                continue
            forms = set()
            n0 = len(L['head'].conds())
            seen_ = {0: set(), 1: set()}
            for b in L['backs']:
                v = I.raw(b, k[0], k[1])
                if v is None or sub(v, x) != ONE:
                    forms.add(None)
                    continue
                for form in (0, 1):
                    y = load(I, L['head'].clone(), add(x, c(form)))
                    if y is None:
                        seen_[form].add(None)
                        continue
                    t = I.truth(b, I.eq(y, NL))
                    about = [t_ for t_, _ in b.conds()[n0:] if y in subterms(t_)]
                    only = all((y in subterms(t_) or cl.end in subterms(t_)) and t_[0] in ('eq0', 'le0', 'not') for t_, _ in b.conds()[n0:])
                    seen_[form].add('nl' if t is True else 'other' if t is False and about else 'mixed' if about and only else None)
            best = []
            for form, cs in seen_.items():
                if None in forms or None in cs or not cs:
                    continue
                best.append((cs.pop() if len(cs) == 1 else 'mixed', form))
            out[x] = (sorted(best), x0, lid)
    return out


def position(I, st, v, rs, frm):
    """follow cursor value v back to `frm` over the loops that moved it: [(class, start, end)] of the bytes passed, or None"""
    out = []
    for _ in range(8):
        d = sub(v, frm)
        if isc(d):
            return out, d[1]
        xs = [x for x in lin_of(v)[1] if x in rs and lin_of(v)[1][x] == 1]
        if len(xs) != 1 or len(lin_of(v)[1]) != 1:
            return None
        forms, x0, lid = rs[xs[0]]
        e = lin_of(v)[0]
        out.append((forms, x0, e, xs[0]))
        v = x0
    return None


def analyse(ctx, fn, names):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    base = ('init', ('p', fn.ps[0]["n"] or '0'), ())
    cl = Dgram(base)
    I = Interp(ctx.prog, cl)
    res = I.run(fn, setup=cl.setup(I))
    ctx.fn(fn)
    ctx.paths += len(res)
    ctx.calls += I.ncalls
    rs = runs(I, cl)
    loops = [lid for lid, L in I.loops.items() if any(e[0] == 'line' for s in L['backs'] + [x for x, _ in L['exits']] for e in after_loop(s, lid))]
    ctx.anchor("loops over lines", len(loops))
    if len(loops) != 1:
        ctx.und("once", w, "%d loops hand lines on" % len(loops))
        return 0
    lid = loops[0]
    L = I.loops[lid]
    n = 0
    # the cursor of the loop
    curs = {}
    for k in L['W']:
        if k[0] != 'ref':
            x = L['head'].mem.get(k)
            if x is not None and x[0] == 'lp' and cl.mine(x):
                curs[x] = k
    hands = [h for s in L['backs'] + [x for x, _ in L['exits']] for h in s.x.get('handed', ())]
    cur = None
    for x in curs:
        if any(isc(sub(h[0], x)) or any(isc(sub(y, x)) for y in trace(rs, h[0])) for h in hands):
            cur = x
    if cur is None:
        ctx.und("once", w, "no cursor that the lines start at")
        return 0
    key = curs[cur]
    texts = [k for k in L['W'] if k[0] != 'ref' and I.loctype.get(k) is not None and 'basic_string<' in I.loctype[k].s]
    n0 = len(L['head'].conds())
    for s, fl in [(b, None) for b in L['backs']] + L['exits']:
        if fl is not None and fl[0] in ('X', 'E'):
            continue
        n += 1
        ev = after_loop(s, lid)
        ln = [e for e in ev if e[0] == 'line']
        hd = s.x.get('handed', ())
        hd = hd[len(hd) - len(ln):] if ln else ()
        path = " (path %s)" % [(show(t), v) for t, v in s.conds()[n0:]][-8:]
        unk = hidden_after(s, ev)
        b0 = byte(I, s, cur)
        if len(ln) > 1:
            ctx.bad("once", w, "%d lines are handed on in one iteration" % len(ln) + path)
            continue
        if not ln:
            if fl is None:
                v = I.raw(s, key[0], key[1])
                isnl = isbyte0(I, s, cur, lid, L)
                if isnl is None and any(v_ and t_[0] == 'found' and t_[1][0] == 'strchr' and t_[1][1:3] == (cur, NL)
                                        and I.truth(s, I.eq(('choff', cur, NL, t_[1][3]), Z)) is True for t_, v_ in s.conds()):
                    isnl = True
                if v is not None and sub(v, cur) == ONE and isnl is True:
                    ctx.ok("once", w, "an iteration that skips one newline")
                elif v is not None and isc(sub(v, cur)) and sub(v, cur) != Z and isnl is not None and not unk:
                    ctx.bad("once", w, "an iteration goes by without handing a line on" + path)
                elif v is not None and not unk and known(v, rs):
                    ctx.bad("once", w, "a line is passed over: the cursor moves to %s without the line being handed on" % show(v) + path)
                else:
                    ctx.und("once", w, "an iteration without a line" + path)
            else:
                t = term0(I, s, cur, L)
                ctx.check(t if t is not None else None, "all", w, "the loop ends at a position that is not the terminator" + path)
            continue
        e = ln[0]
        p, cuts = hd[0]
        r = e[3]
        # where the line starts
        pos = position(I, s, p, rs, cur)
        if pos is None:
            ctx.und("once", w, "the line starts at %s" % show(p) + path)
            continue
        skipped, off = pos
        good = off == 0 and not skipped
        if skipped:
            good = chain(skipped, off, 'nl', 0)
        ctx.check(good, "once", w, "the line handed on starts at %s, not at the cursor" % show(sub(p, cur)) + path)
        nonempty(ctx, I, s, L, n0, key, rs, base, cur, p, cuts, w, path, unk)
        # where it ends
        atom = ('found', ('strchr', p, NL, None))
        fnd = None
        q = None
        for t, v in s.conds():
            if t[0] == 'found' and t[1][0] == 'strchr' and t[1][1] == p and t[1][2] == NL:
                fnd = v
                q = add(p, ('choff', p, NL, t[1][3])) if v else None
            elif t[0] == 'found' and t[1][0] in ('strchr', 'strrchr') and decast(t[1][1]) == decast(p):
                ctx.bad("next", w, "the end of the line is searched with %s for character %s" % (t[1][0], show(t[1][2])) + path)
        if fnd is None:
            # a loop that looks for the newline itself
            for x, (forms, x0, l2) in rs.items():
                if sub(x0, p) == Z and ('other', 0) in forms:
                    b = byte(I, I.loops[l2]['head'].clone(), x)
                    if b is None:
                        continue
                    if I.truth(s, I.eq(b, NL)) is True:
                        fnd, q = True, x
                    elif I.truth(s, I.eq(b, Z)) is True:
                        fnd, q = False, None
        if fnd is None:
            ctx.und("next", w, "the end of the line is not searched in a way that is known" + path)
        elif fnd:
            cv = [b for a, b in cuts if sub(a, q) == Z]
            ctx.check(True if any(b == Z for b in cv) else (None if unk else False), "cut", w, "the newline is not a terminator when the line is handed on" + path)
            if fl is not None:
                counting(ctx, I, s, ev, e, r, names, w, path, unk)
                errors(ctx, I, s, fl, L, texts, r, w, path, unk)
                if ends(I, s, rs, q):
                    ctx.ok("all", w)
                    continue
                ctx.check(False if not unk and plain(s, n0, r) else None, "all", w, "the loop ends although a newline ends the line" + path)
            else:
                v = I.raw(s, key[0], key[1])
                if v is None:
                    ctx.und("next", w, "the next cursor is not known" + path)
                else:
                    ps = position(I, s, v, rs, q)
                    if ps is None:
                        ps2 = position(I, s, v, rs, p)
                        ctx.check(False if ps2 is not None and not unk else None, "next", w, "the next line starts at %s" % show(v) + path)
                    else:
                        sk, off = ps
                        if not sk:
                            ctx.check(off == 1, "next", w, "the next line starts %s bytes behind the newline" % off + path)
                        else:
                            ctx.check(chain(sk, off, 'nl', 1), "next", w, "the next line starts at %s, behind bytes that are not known to be newlines" % show(v) + path)
        else:
            if fl is None:
                v = I.raw(s, key[0], key[1])
                okv = v is not None and (sub(v, add(p, ('strlen', p))) == Z or term_at(I, s, v) is True)
                if okv:
                    ctx.ok("all", w)
                elif v is not None and term_at(I, s, v) is None and not unk and known(v, rs):
                    ctx.bad("all", w, "the loop goes on at %s after a line that no newline ends" % show(v) + path)
                else:
                    ctx.und("all", w, "the loop goes on after a line that no newline ends" + path)
            else:
                ctx.ok("all", w)
        counting(ctx, I, s, ev, e, r, names, w, path, unk)
        errors(ctx, I, s, fl, L, texts, r, w, path, unk)
    # before the first line
    x0 = I.raw(L['entry'], key[0], key[1])
    ps = position(I, L['entry'], x0, rs, base) if x0 is not None else None
    if ps is None:
        ctx.und("first", w, "the first line is looked for at %s" % (show(x0) if x0 is not None else '?'))
    else:
        sk, off = ps
        ctx.check(off == 0 if not sk else chain(sk, off, 'nl', 0), "first", w, "the first line is looked for at %s" % show(sub(x0, base)))
    n += result(ctx, I, res, lid, L, texts, w)
    return n


def nonempty(ctx, I, s, L, n0, key, rs, base, cur, p, cuts, w, path, unk):
    """the byte at p is no newline when the line is handed on (that it is no terminator is rule all's business and P04's)"""
    b = byte(I, L['head'].clone(), p)
    if b is None:
        ctx.und("nonempty", w, "the first character of the line is not known" + path)
        return
    t = I.truth(s, I.eq(b, NL))
    off = [x for t_, _ in s.conds()[n0:] for x in subterms(t_) if isinstance(x, tuple) and x and x[0] == 'choff' and x[1] == p and x[2] == NL]
    if t is not False and any(I.truth(s, I.eq(x, Z)) is False for x in off):
        t = False
    if t is None and any(not v and t_[0] == 'found' and t_[1][0] == 'strchr' and t_[1][1] == p and t_[1][2] == NL for t_, v in s.conds()):
        t = False               # no newline in it at all
    if t is not None:
        ctx.check(t is False, "nonempty", w, "a line that starts with its newline is handed on" + path)
        return
    if sub(p, cur) != Z:
        ctx.und("nonempty", w, "whether the line at %s is empty is not known" % show(sub(p, cur)) + path)
        return
    about = any(b in subterms(t_) and I.truth(s, I.eq(b, Z)) is None for t_, _ in s.conds()[n0:])
    about = about or any(x in off and not any(isinstance(y, tuple) and y and y[0] == 'end' for y in subterms(t_)) and t_[0] != 'found'
                         for t_, _ in s.conds()[n0:] for x in subterms(t_))
    worst = True
    why = ""
    for st, frm, first, txt in [(L['entry'], base, 0, "a datagram")] + [(x, None, 1, "what follows a newline") for x in L['backs']]:
        v = I.raw(st, key[0], key[1])
        if v is None:
            worst, why = None, "the next cursor is not known"
            break
        y = byte(I, st, v)
        k = I.truth(st, I.eq(y, NL)) if y is not None else None
        if k is False:
            continue
        # nothing looked at this byte: it is the first of the datagram, or the one behind a newline
        plainly = isc(sub(v, base)) if frm is not None else any(sub(v, add(q, ONE)) == Z for q in newlines(I, st, cur))
        if k is True or (y is not None and plainly and not about and not unk):
            worst, why = False, "%s may start with a newline, and is handed on as an empty line" % txt
            break
        if frm is None and y is not None and I.truth(st, I.eq(y, Z)) is True:
            continue
        worst, why = None, "whether the next line is empty is not known"
    ctx.check(worst, "nonempty", w, why + path)


def newlines(I, s, cur):
    for t, v in s.conds():
        if v and t[0] == 'found' and t[1][0] == 'strchr' and t[1][2] == NL:
            yield add(t[1][1], ('choff', t[1][1], NL, t[1][3]))


def trace(rs, v):
    for _ in range(8):
        xs = [x for x in lin_of(v)[1] if x in rs]
        if len(xs) != 1:
            return
        v = rs[xs[0]][1]
        yield v


def known(v, rs):
    return all(x[0] in ('choff', 'strlen', 'init') or x in rs or x[0] == 'lp' for x in lin_of(v)[1])


def chain(sk, off, cls, first):
    """bytes passed over: sk from the last loop to the first, off the constant between the start and the first loop's entry.
    first: how many bytes at the start are passed legitimately"""
    verdict = True
    k = off                       # the innermost (first) loop starts at start + off
    for forms, x0, e, x in reversed(sk):
        fs = [f for c_, f in forms if c_ == cls]
        bad = [f for c_, f in forms if c_ != cls]
        want = None
        for f in fs:
            # form 0: [k, head); form 1: (k, head]
            if f == 0 and k == first and e >= 0:
                want = (True, e)
            elif f == 1 and k == first - 1 and e >= 1:
                want = (True, e - 1)
        if want is None:
            if not forms:
                return None
            verdict = False
            break
        first, k = 0, want[1]
        # behind the loop the cursor is k bytes behind the class's bytes
        if k != 0:
            verdict = False
            break
    return verdict


def ends(I, s, rs, q):
    """is a position behind the newline at q, and newlines only, known to be the terminator?"""
    ps = [add(q, ONE)]
    for x in rs:
        k = position(I, s, x, rs, q)
        if k is not None:
            for e in (0, 1):
                if chain([k[0][0][:2] + (e,) + k[0][0][3:]] + k[0][1:], k[1], 'nl', 1) is True:
                    ps.append(add(x, c(e)))
    return any(term_at(I, s, p) is True for p in ps)


def plain(s, n0, r):
    """the conditions of this iteration are about the text, the outcome of the line and the configuration only"""
    for t, v in s.conds()[n0:]:
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] in ('ret', 'hv', 'sym') and x != r and 'onfig' not in show(x):
                return False
    return True


def isbyte0(I, s, cur, lid, L):
    b = byte(I, L['head'].clone(), cur)
    return I.truth(s, I.eq(b, NL)) if b is not None else None


def term0(I, s, cur, L):
    b = byte(I, L['head'].clone(), cur)
    return I.truth(s, I.eq(b, Z)) if b is not None else None


def term_at(I, s, v):
    b = byte(I, s, v)
    return I.truth(s, I.eq(b, Z)) if b is not None else None


def hidden_after(s, ev):
    for e in ev:
        if e[0] == 'pcall' or (e[0] == 'call' and str(e[1]).startswith(('spectator', '(lambda)'))):
            return True
    return False


def enabled(s):
    """the configuration's status_metrics_enabled on this path"""
    for t, v in s.conds():
        y = t
        neg = False
        while y[0] == 'not':
            y, neg = y[1], not neg
        for x in subterms(y):
            if isinstance(x, tuple) and x and x[0] in ('init', 'hv', 'fld') and 'status_metrics_enabled' in show(x):
                if y == x:
                    return v != neg
                if y[0] == 'eq0' and y[1] == x:
                    return v == neg
                return None
    return 'no'


def counting(ctx, I, s, ev, e, r, names, w, path, unk):
    inc = {}
    other = False
    named = {x[4]: lit(x[3][0]) for x in s.events() if x[0] == 'op' and x[1].name == 'GetCounter' and x[3]}
    for x in ev:
        if x[0] == 'op' and x[1].rect is not None and x[1].rect.rec == 'spectator::Counter':
            nm = None
            o = x[2]
            if o is not None and o[0] == 'init' and o[1][0] == 'this':
                nm = names.get(o[2])
            elif o in named:
                nm = named[o]
            k = 1 if x[1].name == 'Increment' else num(x[3][0]) if x[1].name == 'Add' and x[3] else None
            if nm is None or k is None:
                other = True
            else:
                inc[nm] = inc.get(nm, 0) + k
    has = None
    for t, v in s.conds():
        y, vv = t, v
        while y[0] == 'not':
            y, vv = y[1], not vv
        if y == ('fld', r, ('#has',)) or (y[0] == 'fld' and y[1] == r and y[2][-1] == '#has'):
            has = vv
    en = enabled(s)
    if has is None and not other and not unk:
        ctx.bad("count", w, "the outcome of the line is not looked at" + path)
        return
    if has is None or other or unk or en is None:
        ctx.und("count", w, "counters of a line" + path)
        return
    want = {}
    if en is True:
        want = {"spectatord.parseErrors" if has else "spectatord.parsedCount": 1}
    elif en == 'no':
        # not asked: it may be either, so the counters must be right for both
        ctx.bad("count", w, "the counters %s are updated without regard to the configuration" % inc + path) if inc else ctx.bad("count", w, "no counter is updated for the line" + path)
        return
    ctx.check(inc == want, "count", w, "status counters updated: %s, expected: %s" % (inc, want) + path)


def num(t):
    if isc(t):
        return t[1]
    return t[1] if t[0] == 'f' and isinstance(t[1], float) else None


def lit(v):
    if isinstance(v, tuple) and v and v[0] == 'sv':
        for x in subterms(v[1]):
            if isinstance(x, tuple) and x and x[0] == 'lit':
                return x[1] if isc(v[2]) and v[2][1] == len(x[1]) else None
    if isinstance(v, tuple) and v and v[0] == 's':
        return v[1]
    return None


def has_of(s, r):
    for t, v in s.conds():
        y, vv = t, v
        while y[0] == 'not':
            y, vv = y[1], not vv
        if y[0] == 'fld' and y[1] == r and y[2][-1] == '#has':
            return vv
    return None


def parts(t):
    if t[0] == 'cat':
        for x in t[1:]:
            yield from parts(x)
    else:
        yield t


def isempty(I, s, t):
    return t == ('s', '') or I.truth(s, ('eq0', ('size', t))) is True


def errors(ctx, I, s, fl, L, texts, r, w, path, unk):
    has = has_of(s, r)
    if has is None:
        return
    if not texts:
        ctx.und("errors", w, "no text that collects the errors")
        return
    best = None
    for k in texts:
        x = L['head'].mem.get(k)
        v = I.raw(s, k[0], k[1])
        if v is None or x is None:
            best = best if best is True else None
            continue
        ps = list(parts(v))
        plain = all(p[0] in ('s', 'fld', 'lp', 'init') for p in ps)
        keep = x in ps or isempty(I, s, x)
        mine = any(p == ('fld', r, ('#val',)) for p in ps)
        if has:
            g = keep and mine
        else:
            g = v == x or (keep and not mine and all(p == x or isempty(I, s, p) for p in ps))
        d = True if g else (False if plain and not unk else None)
        if d is True or best is None:
            best = d if best is not True else True
        if d is False and best is not True:
            best = False
    ctx.check(best, "errors", w, ("the error of a failing line is lost" if has else "an error text changes for a line without error") + path)


def result(ctx, I, res, lid, L, texts, w):
    n = 0
    for s, fl in res:
        if fl[0] != 'R':
            continue
        ev = after_loop(s, lid)
        if not ev:
            continue
        n += 1
        v = fl[1]
        d = dict(v[2]) if v[0] == 'agg' else {}
        hv = d.get(('#has',)) if d else None
        if v[0] == 'agg' and hv is None:
            hv = next((y for p, y in v[2] if p and p[-1] == '#has'), None)
        vals = [y for p, y in v[2] if p and p[-1] == '#val'] if v[0] == 'agg' else []
        path = " (path %s)" % pathstr(s, 8)
        errs = [e[3] for e in ev if e[0] == 'line' and has_of(s, e[3]) is True]
        done = None
        cs, best = s.conds(), None
        for x, xf in L['exits']:
            xc = x.conds()
            if cs[:len(xc)] == xc and after_loop(x, lid) == ev[:len(after_loop(x, lid))] and (best is None or len(xc) >= len(best.conds())):
                best = x
        for k in texts:
            t = I.raw(best, k[0], k[1]) if best is not None else None
            if t is None:
                continue
            if hv == Z:
                done = done or (True if isempty(I, s, t) or all(isempty(I, s, p) for p in parts(t)) else None)
                if done is None and not hidden(s):
                    emp = I.truth(s, ('eq0', ('size', t)))
                    lost = emp is False or (any(('fld', r, ('#val',)) in list(parts(t)) for r in errs) and not any(isempty(I, s, ('fld', r, ('#val',))) for r in errs))
                    if lost or not any(t == y or any(y in subterms(cc) for cc, _ in s.conds()) for y in parts(t)):
                        done = False
            elif hv == ONE:
                full = I.truth(s, ('eq0', ('size', t))) is False or any(('fld', r, ('#val',)) in list(parts(t)) for r in errs)
                if not full:
                    done = False if not hidden(s) and (isempty(I, s, t) or all(p[0] in ('s', 'lp') for p in parts(t))) else None
                elif vals and vals[0] == t:
                    done = True
                elif vals and all(p[0] in ('s', 'fld', 'lp', 'init') for p in parts(vals[0])):
                    done = False
        ctx.check(done, "errors", w, "the result %s does not tell the errors of the lines" % show(v)[:120] + path)
    return n


def counters(ctx):
    """{path of a member of the server: the name of the counter the constructor puts there}"""
    out = {}
    for fn in ctx.prog.fns.values():
        if fn.body is None or not fn.ctor or fn.rect is None or fn.rect.rec != SRV or len(fn.pt) < 2:
            continue
        r, I = runfn(ctx, fn, Lines())
        for s, fl in r:
            named = {x[4]: lit(x[3][0]) for x in ops(s, "GetCounter") if x[3]}
            for (root, path), v in s.mem.items():
                if root[0] == 'this' and v in named and named[v]:
                    if out.get(path, named[v]) != named[v]:
                        out[path] = None
                    else:
                        out[path] = named[v]
    return out


class Wire(Lines):
    def __init__(self):
        super().__init__()
        self.pred = lambda fn: opaque(fn) or kind(fn) is not None


def kind(fn):
    if fn.ctor and fn.rect is not None and any('function<' in t.s for t in fn.pt):
        return fn.rect.rec.split('::')[-1]
    return None


def wired(ctx, ent):
    keys = {f.key: f for f in ent}
    got = []
    for fn in ctx.prog.fns.values():
        if fn.body is None or fn.lam or fn.rect is None or fn.rect.rec != SRV or fn.ctor or fn.key in keys:
            continue
        if not any(x.get('k') == 'Lam' for x in ctx.prog.walk(fn.body)):
            continue
        if not any(kind(fn.tu.fns[x['fn']]) for x in ctx.prog.walk(fn.body) if x.get('fn') is not None and isinstance(x['fn'], int)) and 'UdpServer' not in str(fn.body):
            continue
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        r, I = runfn(ctx, fn, Wire())
        seen_ = set()
        for s, fl in r:
            for e in s.events():
                if e[0] != 'op' or kind(e[1]) is None:
                    continue
                k = kind(e[1])
                lam = [v for v in e[3] if isinstance(v, tuple) and v and v[0] == 'lam']
                ports = [v for v in e[3] if isinstance(v, tuple) and v and v[0] in ('init', 'fld') and 'port' in show(v)]
                if k == 'UdpServer' and not ports or len(lam) != 1:
                    ctx.und("wired", "%s %s" % (k, e[5]), "which port or handler is not known")
                    continue
                pn = show(ports[0]) if ports else ''
                sig = (k, pn, lam[0][1] if len(lam[0]) > 1 else None, e[5])
                if sig in seen_:
                    continue
                seen_.add(sig)
                want = 'parse_statsd' if 'statsd' in pn else 'parse'
                calls = target(ctx, lam[0], keys)
                if not calls:
                    ctx.und("wired", "%s %s" % (k, e[5]), "the handler's entry is not known")
                    continue
                got.append((k, want))
                ctx.check({c_.name for c_ in calls} == {want}, "wired", "%s %s" % (k, e[5]), "the handler of %s (port %s) calls %s, not %s" % (k, pn or 'none', sorted(c_.name for c_ in calls), want))
                st = [x for x in s.events() if x[0] == 'op' and x[1].name == 'Start' and x[2] == e[2]]
    ctx.anchor("servers set up", len(got))
    if ctx.prog.bodies('spectatord::Server::Start'):
        ks = {w_ for _, w_ in got}
        if 'parse' in ks:
            ctx.check(True if ks == {'parse', 'parse_statsd'} else None, "wired", "servers", "servers are set up for %s only" % sorted(ks))


def target(ctx, lam, keys):
    """the text entries that the body of a lambda calls"""
    fn = ctx.prog.fns.get(lam[1])
    if fn is None:
        for f in ctx.prog.fns.values():
            if f.key == lam[1] or (f.lam and isinstance(lam[1], str) and lam[1].startswith(f.key)):
                fn = f
    out = {}
    if fn is None or fn.body is None:
        return []
    for x in ctx.prog.walk(fn.body):
        if x.get('fn') is not None and isinstance(x['fn'], int) and x.get('k') in ('MCall', 'Call'):
            g = fn.tu.fns[x['fn']]
            if g.key in keys:
                out[g.key] = g
    return list(out.values())


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    ent = [f for f in text_entries(ctx.prog) if any(splits(ctx.prog, f))]
    ctx.need("functions of the server that split a text into lines", len(ent), 2)
    names = counters(ctx)
    n = 0
    for fn in ent:
        n += analyse(ctx, fn, names)
    ctx.need("iterations", n, 4)
    wired(ctx, ent)
