"""P15: statistics, units and resets of the meter kinds."""
from meters import *

EXPLANATION = (
    "For each of the nine meter classes the transfer function of every method is derived from the source by path-partitioned "
    "abstract interpretation (all repository callees inlined, atomics and library calls modelled): for every path its condition, the "
    "value each cell has at exit as a polynomial over entry cells and arguments, and the measurements appended (identity and value). "
    "The cells are identified by what Measure reports from them, not by name. Each path is split on the specified condition and its "
    "effect compared with the specified one: contribution of an update to each reported statistic (after the report's unit scaling), "
    "the report's gate, statistic tag, value and what it leaves behind.")
ASSUMPTIONS = [
    "no other thread runs between two accesses of one method (P14 covers interleavings)",
    "float arithmetic is treated as real arithmetic (coefficients compared with relative tolerance 1e-9), integers do not overflow",
    "library models: std::atomic, std::unique_ptr, std::vector, absl::Duration as integer nanoseconds, chrono likewise",
]

RULES = {
    "update": "an update changes exactly the specified statistics by the specified amounts, and nothing for a rejected amount",
    "report": "a report appends exactly the specified measurements, with the specified statistic and value, exactly when it should",
    "reset": "after a report of an interval kind each reported cell has its initial value again; other cells keep theirs",
    "pure": "reading methods leave every cell alone",
    "init": "a new meter starts with the neutral values",
}


def param(fn, i, T=None):
    return ('init', ('p', fn.ps[i]["n"] or str(i)), ())


def isfloat(M, t):
    return t not in M.I.dom.ranges and t[0] != 'c'


def scaled_atom(p, M, v):
    """v = k * cell -> (k, atom, loc); None if it is something else"""
    po = poly_of(v)
    if po is None or len(po) != 1:
        return None
    (mono, k), = po.items()
    if len(mono) != 1 or mono[0][1] != 1:
        return None
    a = mono[0][0]
    loc = p.reads.get(a)
    if loc is None and a[0] == 'init' and a[1] == ('this', M.cls):
        loc = a[2]
    if loc is None:
        return None
    return k, a, loc


def known_atoms(p, M, v, fn):
    """is every atom of v a cell, an argument or a clock reading?"""
    po = poly_of(v)
    if po is None:
        return v[0] == 'f'
    for mono in po:
        for a, e in mono:
            if a in p.reads or (a[0] == 'init' and a[1][0] in ('this', 'p')) or a in p.nows:
                continue
            if a[0] in ('mul', 'idiv') and all(x[0] == 'c' or known_atoms(p, M, x, fn) for x in a[1:]):
                continue       # an integer product (which overflows) or quotient (which truncates)
            return False
    return True


def old(p, M, loc):
    t = p.old.get(loc)
    return t if t is not None else ('init', ('this', M.cls), loc)


def fin(p, M, loc):
    return p.fin.get(loc, old(p, M, loc))


def feq(M, st, a, b, amount=None):
    """equality of two number terms in a state: True/False/None"""
    if a == b or same_float(a, b):
        return True
    if poly_of(a) is None or poly_of(b) is None:
        return False if a[0] == 'f' and b[0] == 'f' else None
    if amount is not None and amount[0] not in ('c', 'f'):
        z = M.I.fcmp(amount, f(0), '=')
        if M.I.truth(st, z) is True or (amount in M.I.dom.ranges and M.I.dom.prove_eq0(st, amount)):
            m = {amount: Z if amount in M.I.dom.ranges else f(0)}
            if same_float(subst(M.I, a, m), subst(M.I, b, m)):
                return True
    return False


class Sum:
    def __init__(self, mode, stat, expr):
        self.mode, self.stat, self.expr, self.kind = mode, stat, expr, 'sum'


class Max:
    def __init__(self, mode, stat, expr):
        self.mode, self.stat, self.expr, self.kind = mode, stat, expr, 'max'


one = lambda A: f(1)
ident = lambda A: A
k_ = lambda k, n=1: (lambda A: fmul(f(k), A if n == 1 else fmul(A, A)))

INTERVAL = {
    'Counter': dict(updates=[('Add', lambda fn: param(fn, 0)), ('Increment', lambda fn: f(1.0))],
                    stats=[Sum('default', 'count', ident)], gate='sum>0'),
    'Timer': dict(updates=[('Record', lambda fn: param(fn, 0))],
                  stats=[Sum('override', 'count', one), Sum('override', 'totalTime', k_(1e-9)),
                         Sum('override', 'totalOfSquares', k_(1e-18, 2)), Max('override', 'max', k_(1e-9))], gate='count'),
    'DistributionSummary': dict(updates=[('Record', lambda fn: param(fn, 0))],
                                stats=[Sum('override', 'count', one), Sum('override', 'totalAmount', ident),
                                       Sum('override', 'totalOfSquares', k_(1, 2)), Max('override', 'max', ident)], gate='count'),
    'MaxGauge': dict(updates=[('Update', lambda fn: param(fn, 0)), ('Set', lambda fn: param(fn, 0))],
                     stats=[Max('override', 'max', ident)], gate='neutral', any_amount=True),
}


def find_roles(ctx, M, spec, measure):
    """statistic -> (cell, factor), from what Measure appends"""
    roles = {}
    ok = True
    for p in M.paths(measure):
        w = M.where(measure)
        for pu in p.pushes:
            parts = M.push_parts(pu)
            rs = M.stat_of(p, pu)
            hit = [s for s in spec['stats'] if stat_matches(rs, s.mode, s.stat) is True]
            if not hit:
                if rs is None or any(r is None for r in rs) or parts is None:
                    ctx.und("report", w, "identity of the measurement at %s not understood" % pu[2])
                else:
                    ctx.bad("report", w, "measurement at %s has identity %s; none of the specified statistics %s" % (
                        pu[2], rs, [(s.mode, s.stat) for s in spec['stats']]))
                ok = False
                continue
            s = hit[0]
            sa = scaled_atom(p, M, parts[2])
            if sa is None:
                if known_atoms(p, M, parts[2], measure):
                    ctx.bad("report", w, "statistic %s is reported as %s, which is no multiple of an accumulated cell" % (s.stat, show(parts[2])))
                else:
                    ctx.und("report", w, "value of statistic %s not understood: %s" % (s.stat, show(parts[2])))
                ok = False
                continue
            k, a, loc = sa
            if s.stat in roles and roles[s.stat] != (loc, k):
                ctx.bad("report", w, "statistic %s is reported from different cells on different paths" % s.stat)
                ok = False
            roles.setdefault(s.stat, (loc, k))
    missing = [s.stat for s in spec['stats'] if s.stat not in roles]
    if missing and ok:
        if any(p.opaque for p in M.paths(measure)) or not M.paths(measure):
            ctx.und("report", M.where(measure), "incomplete summary")
        else:
            ctx.bad("report", M.where(measure), "no path of the report appends the statistics %s" % missing)
        ok = False
    if ok:
        used = [l for l, k in roles.values()]
        if len(set(used)) != len(used):
            ctx.bad("report", M.where(measure), "two statistics are reported from one cell: %s" % {s: r[0] for s, r in roles.items()})
            ok = False
    return roles if ok else None


def check_interval(ctx, name, M, spec):
    measure = M.find('Measure')[0]
    roles = find_roles(ctx, M, spec, measure)
    if roles is None:
        return
    I = M.I
    # ---- initial values
    for s in spec['stats']:
        loc, k = roles[s.stat]
        for v in M.init_value(loc):
            if name == 'MaxGauge':
                good = isf(v) and v[1] != 'nan' and v[1] <= -1.7976931348623157e+308
            else:
                good = v in (Z, f(0))
            ctx.check(True if good else (False if v[0] in ('c', 'f') else None), "init", "%s %s" % (M.cls, s.stat),
                      "cell %s starts at %s" % ('.'.join(map(str, loc)), show(v)))
    # ---- updates
    for uname, amt in spec['updates']:
        for fn in M.find(uname):
            A = amt(fn)
            w = M.where(fn)
            for p in M.paths(fn):
                if p.opaque:
                    ctx.und("update", w, "; ".join(sorted(set(p.opaque))))
                    continue
                if spec.get('any_amount'):
                    forks = I.fork(p.st.clone(), I.fcmp(A, A, '='))
                elif A[0] == 'f':
                    forks = [(p.st, A[1] >= 0)]
                elif A in I.dom.ranges:
                    forks = I.fork(p.st.clone(), I.le(Z, A))
                else:
                    forks = I.fork(p.st.clone(), I.fcmp(A, f(0), '=>'))
                for st, valid in forks:
                    cond = "%s %s" % (show(A), "accepted" if valid else "rejected (negative or NaN)")
                    for s in spec['stats']:
                        loc, k = roles[s.stat]
                        o, n = old(p, M, loc), fin(p, M, loc)
                        if not valid:
                            ctx.check(True if o == n else False if known_atoms(p, M, n, fn) else None, "update", w,
                                      "%s: %s: cell %s changes from %s to %s" % (cond, s.stat, '.'.join(map(str, loc)), show(o), show(n)))
                            continue
                        if s.kind == 'sum':
                            d = fmul(f(k), fadd(n, o, -1)) if poly_of(n) is not None else None
                            want = s.expr(A)
                            r = feq(M, st, d, want, A) if d is not None else None
                            if r is not True and not known_atoms(p, M, n, fn):
                                r = None
                            ctx.check(r, "update", w, "%s: %s grows by %s, specified %s (path %s)" % (
                                cond, s.stat, show(d) if d else show(n), show(want), [(show(t), v) for t, v in p.st.conds()]))
                        else:
                            want = fmul(f(1 / k), s.expr(A))     # in cell units
                            wi = A if want == A else want
                            gt = le_f(I, st, wi, o)              # truth of want <= old
                            ge = le_f(I, st, o, wi)
                            if n == o:
                                r = gt
                                if r is None and I.truth(st, I.fcmp(wi, o, '>')) is False:
                                    r = True
                            elif same_float(n, want):
                                r = ge
                            else:
                                r = False if known_atoms(p, M, n, fn) else None
                                ctx.check(r, "update", w, "%s: %s becomes %s, specified the maximum of %s and %s" % (cond, s.stat, show(n), show(o), show(want)))
                                continue
                            if r is None:
                                r = False
                            ctx.check(r, "update", w, "%s: %s becomes %s although %s and %s may be in either order (path %s)" % (
                                cond, s.stat, show(n), show(o), show(want), [(show(t), v) for t, v in p.st.conds()]))
    # ---- report
    w = M.where(measure)
    for p in M.paths(measure):
        if p.opaque:
            ctx.und("report", w, "; ".join(sorted(set(p.opaque))))
            continue
        gl, gk = roles[spec['stats'][0].stat]
        g = old(p, M, gl)
        st = p.st.clone()
        if spec['gate'] == 'count':
            I.assume(st, I.le(Z, g), True)
            forks = I.fork(st, I.le(ONE, g))
        elif spec['gate'] == 'sum>0':
            I.assume(st, I.fcmp(g, f(0), '=>'), True)
            forks = I.fork(st, I.fcmp(g, f(0), '>'))
        else:
            iv = [v for v in M.init_value(gl)]
            I.assume(st, I.fcmp(g, iv[0], '=>'), True)
            forks = I.fork(st, I.fcmp(g, iv[0], '>'))
        for st2, val in forks:
            got = {}
            for pu in p.pushes:
                rs = M.stat_of(p, pu)
                for s in spec['stats']:
                    if stat_matches(rs, s.mode, s.stat) is True:
                        got.setdefault(s.stat, []).append(M.push_parts(pu)[2])
            path = [(show(t), v) for t, v in p.st.conds()]
            if not val:
                ctx.check(not got, "report", w, "reports %s although nothing was recorded (path %s)" % (sorted(got), path))
                continue
            for s in spec['stats']:
                loc, k = roles[s.stat]
                vs = got.get(s.stat, [])
                if len(vs) != 1:
                    ctx.bad("report", w, "statistic %s is reported %d times on path %s" % (s.stat, len(vs), path))
                    continue
                a = p.old.get(loc)
                sa = scaled_atom(p, M, vs[0])
                ctx.check(sa is not None and sa[1] == old(p, M, loc), "report", w,
                          "statistic %s reports %s, not what was accumulated in %s" % (s.stat, show(vs[0]), '.'.join(map(str, loc))))
                n = fin(p, M, loc)
                iv = M.init_value(loc)
                r = any(n == v or (n in (Z, f(0)) and v in (Z, f(0))) for v in iv)
                ctx.check(True if r else False if known_atoms(p, M, n, measure) else None, "reset", w,
                          "after reporting %s the cell %s holds %s, initially %s" % (s.stat, '.'.join(map(str, loc)), show(n), [show(v) for v in iv]))
    return roles


def le_f(I, st, a, b):
    """truth of a <= b over ints or floats"""
    ai = a[0] == 'c' or a in I.dom.ranges or a[0] == 'lin'
    bi = b[0] == 'c' or b in I.dom.ranges or b[0] == 'lin'
    if ai and bi:
        return I.truth(st, I.le(a, b))
    return I.truth(st, I.fcmp(a, b, '<='.replace('<=', '<=')))


def single_default(ctx, M, measure, mode, stat, p, w):
    """the one measurement of a path, when its identity is as specified -> value term"""
    if len(p.pushes) != 1:
        return None
    pu = p.pushes[0]
    parts = M.push_parts(pu)
    r = stat_matches(M.stat_of(p, pu), mode, stat)
    if r is not True or parts is None:
        ctx.check(r if parts is not None else None, "report", w, "measurement at %s does not carry the %s statistic %s: %s" % (pu[2], mode, stat, M.stat_of(p, pu)))
        return None
    return parts[2]


def set_cell(ctx, M, fn, A):
    """the cell a plain setter stores its argument in (on every path)"""
    locs = None
    for p in M.paths(fn):
        if p.opaque:
            ctx.und("update", M.where(fn), "; ".join(p.opaque))
            return None
        s = {l for l, v in p.fin.items() if v == A}
        locs = s if locs is None else locs & s
    return locs


def check_gauge(ctx, M):
    I = M.I
    setter = M.find('Set')[0]
    measure = M.find('Measure')[0]
    w = M.where(measure)
    A = param(setter, 0)
    V = roles_from_push(ctx, M, measure, 'default', 'gauge')
    if V is None:
        return
    check_setter(ctx, M, setter, A, V)
    for v in M.init_value(V):
        ctx.check(v == ('f', 'nan'), "init", M.cls + " value", "starts at %s" % show(v))
    # the class's own expiry test
    he = M.find('HasExpired')[0]
    ttl = ttl_loc(ctx, M)
    last = M.last_loc()
    now = param(measure, 1)
    for p in M.paths(measure):
        if p.opaque:
            ctx.und("report", w, "; ".join(p.opaque))
            continue
        a = old(p, M, V)
        if ttl is not None:
            L, T = old(p, M, last), old(p, M, ttl)
            exp = I.le(add(add(L, T), ONE), now)
            forks = I.fork(p.st.clone(), exp)
        else:
            forks = [(p.st.clone(), None)]
        for st, expired in forks:
            for st2, nan in I.fork(st.clone(), I.fcmp(a, a, '?')):
                path = [(show(t), v) for t, v in p.st.conds()]
                if nan:
                    ctx.check(not p.pushes, "report", w, "reports although no value is set (path %s)" % path)
                    continue
                if expired is True:
                    ctx.check(fin(p, M, V) == ('f', 'nan'), "reset", w, "an expired gauge keeps its value %s when it is reported (path %s)" % (show(fin(p, M, V)), path))
                if expired is False or expired is None:
                    ctx.check(len(p.pushes) == 1, "report", w, "%d measurements for a set, live gauge (path %s)" % (len(p.pushes), path))
                    ctx.check(fin(p, M, V) == a, "reset", w, "a live gauge's value becomes %s by being reported (path %s)" % (show(fin(p, M, V)), path))
                else:
                    ctx.check(len(p.pushes) <= 1, "report", w, "%d measurements for one gauge" % len(p.pushes))
                if p.pushes:
                    v = single_default(ctx, M, measure, 'default', 'gauge', p, w)
                    if v is not None:
                        ctx.check(v == a or same_float(v, a), "report", w, "reports %s instead of the value that was set" % show(v))


def ttl_loc(ctx, M):
    he = M.find('HasExpired')[0]
    locs = set()
    for p in M.paths(he):
        locs |= {l for l in p.old if l != M.last_loc()}
    if len(locs) == 1:
        return locs.pop()
    ctx.und("report", M.where(he), "cannot tell which cell holds the ttl")
    return None


def roles_from_push(ctx, M, measure, mode, stat):
    """the cell that is reported as it is"""
    locs = set()
    for p in M.paths(measure):
        for pu in p.pushes:
            parts = M.push_parts(pu)
            if parts is None:
                continue
            sa = scaled_atom(p, M, parts[2])
            if sa is None or sa[0] != 1.0:
                if known_atoms(p, M, parts[2], measure):
                    ctx.bad("report", M.where(measure), "reports %s instead of the cell's value" % show(parts[2]))
                else:
                    ctx.und("report", M.where(measure), "value not understood: %s" % show(parts[2]))
                return None
            locs.add(sa[2])
    if len(locs) == 1:
        return locs.pop()
    if not locs and all(not p.opaque for p in M.paths(measure)) and M.paths(measure):
        ctx.bad("report", M.where(measure), "no path reports anything")
    elif len(locs) > 1:
        ctx.bad("report", M.where(measure), "different cells are reported on different paths: %s" % locs)
    else:
        ctx.und("report", M.where(measure), "incomplete summary")
    return None


def check_setter(ctx, M, fn, A, V):
    w = M.where(fn)
    for p in M.paths(fn):
        if p.opaque:
            ctx.und("update", w, "; ".join(p.opaque))
            continue
        n = fin(p, M, V)
        ctx.check(True if n == A or same_float(n, A) else (False if known_atoms(p, M, n, fn) else None), "update", w,
                  "the cell becomes %s, specified the argument %s (path %s)" % (show(n), show(A), [(show(t), v) for t, v in p.st.conds()]))


def check_age(ctx, M):
    I = M.I
    measure = M.find('Measure')[0]
    setter = M.find('UpdateLastSuccess')[0]
    w = M.where(measure)
    S = set()
    for p in M.paths(measure):
        if p.opaque:
            ctx.und("report", w, "; ".join(p.opaque))
            continue
        if len(p.pushes) != 1:
            ctx.bad("report", w, "%d measurements on path %s" % (len(p.pushes), [(show(t), v) for t, v in p.st.conds()]))
            continue
        v = single_default(ctx, M, measure, 'default', 'gauge', p, w)
        if v is None:
            continue
        good = None
        for a, loc in list(p.reads.items()) or []:
            for n in p.nows:
                if same_float(v, fmul(f(1e-9), fadd(n, a, -1))):
                    good = loc
        if good is None:
            ctx.check(False if known_atoms(p, M, v, measure) else None, "report", w, "reports %s, specified (now - last success) in seconds" % show(v))
        else:
            S.add(good)
            ctx.ok("report", w)
            ctx.check(fin(p, M, good) == old(p, M, good), "reset", w, "reporting changes the last success time to %s" % show(fin(p, M, good)))
    if len(S) == 1:
        check_setter(ctx, M, setter, param(setter, 0), S.pop())


def check_mono(ctx, M):
    I = M.I
    measure = M.find('Measure')[0]
    setter = M.find('Set')[0]
    w = M.where(measure)
    A = param(setter, 0)
    cells = set_cell(ctx, M, setter, A)
    if cells is None:
        return
    if len(cells) != 1:
        ctx.bad("update", M.where(setter), "Set does not store its argument in one cell on every path: %s" % [
            {'.'.join(map(str, l)): show(v) for l, v in p.fin.items()} for p in M.paths(setter)])
        return
    V = next(iter(cells))
    check_setter(ctx, M, setter, A, V)
    # the baseline: the cell that gets V's value in a report
    B = {l for p in M.paths(measure) for l, v in p.fin.items() if l != V and v == p.old.get(V)}
    if len(B) != 1:
        if any(p.opaque for p in M.paths(measure)):
            ctx.und("report", w, "incomplete summary")
        else:
            ctx.bad("reset", w, "no single cell keeps the reported value as the next baseline: %s" % B)
        return
    B = next(iter(B))
    for v in M.init_value(B):
        ctx.check(v == ('f', 'nan'), "init", M.cls + " baseline", "starts at %s" % show(v))
    for p in M.paths(measure):
        if p.opaque:
            ctx.und("report", w, "; ".join(p.opaque))
            continue
        a, b = old(p, M, V), old(p, M, B)
        path = [(show(t), v) for t, v in p.st.conds()]
        ctx.check(fin(p, M, B) == a, "reset", w, "the next baseline is %s, specified the value reported (path %s)" % (show(fin(p, M, B)), path))
        ctx.check(fin(p, M, V) == a, "reset", w, "reporting changes the value to %s" % show(fin(p, M, V)))
        for st, pos in I.fork(p.st.clone(), I.fcmp(a, b, '>')):
            if pos:
                ctx.check(len(p.pushes) == 1, "report", w, "%d measurements for a positive increment (path %s)" % (len(p.pushes), path))
                if len(p.pushes) == 1:
                    v = single_default(ctx, M, measure, 'default', 'count', p, w)
                    if v is not None:
                        want = fadd(a, b, -1)
                        ctx.check(True if same_float(v, want) else False if known_atoms(p, M, v, measure) else None, "report", w,
                                  "reports %s, specified %s" % (show(v), show(want)))
            else:
                ctx.check(not p.pushes, "report", w, "reports although there was no positive increment (path %s)" % path)


def check_uint(ctx, M):
    I = M.I
    measure = M.find('Measure')[0]
    setter = M.find('Set')[0]
    w = M.where(measure)
    A = param(setter, 0)
    cells = set_cell(ctx, M, setter, A)
    if cells is None:
        return
    if len(cells) != 1:
        ctx.bad("update", M.where(setter), "Set does not store its argument in one cell on every path")
        return
    V = next(iter(cells))
    check_setter(ctx, M, setter, A, V)
    ps = M.paths(measure)
    if any(p.opaque for p in ps):
        ctx.und("report", w, "incomplete summary")
        return
    B = {l for p in ps for l, v in p.fin.items() if l != V and v == p.old.get(V)}
    F = {l for p in ps for l, v in p.fin.items() if l not in B and l != V and v == ONE}
    if len(B) != 1 or len(F) != 1:
        ctx.bad("reset", w, "no cell keeps the reported value as the next baseline, or none records that there is one: %s %s" % (B, F))
        return
    B, F = next(iter(B)), next(iter(F))
    for v in M.init_value(F):
        ctx.check(v == Z, "init", M.cls + " first", "starts at %s" % show(v))
    P64 = c(1 << 64)
    for p in ps:
        a, b, i = old(p, M, V), old(p, M, B), old(p, M, F)
        path = [(show(t), v) for t, v in p.st.conds()]
        ctx.check(fin(p, M, B) == a, "reset", w, "the next baseline is %s, specified the value reported (path %s)" % (show(fin(p, M, B)), path))
        ctx.check(fin(p, M, F) == ONE, "reset", w, "a report does not record that there is a baseline now (path %s)" % path)
        for st, has in I.fork(p.st.clone(), i if i[0] != 'init' else i):
            if not has:
                ctx.check(not p.pushes, "report", w, "reports without a baseline (path %s)" % path)
                continue
            for st2, wrap in I.fork(st, I.le(add(a, ONE), b)):
                d = add(sub(a, b), P64) if wrap else sub(a, b)
                if isc(d) and d[1] == 0:
                    continue
                # an unsigned difference taken without asking for the order is the true increment
                m = {('cast', 64, 0, sub(a, b)): d}
                if not all(I.assume(st2, subst(I, t, m), v) for t, v in p.st.conds() if subst(I, t, m) != t):
                    continue
                for st3, pos in I.fork(st2, I.le(ONE, d)):
                    for st4, _ in [(st3, 0)]:
                        # the float comparison of the same quantity
                        fd = I.fnorm(d)
                        if not I.assume(st4, I.fcmp(fd, f(0), '>' if pos else '<='.replace('<=', '<=')), True):
                            continue
                        if not pos:
                            ctx.check(not p.pushes, "report", w, "reports although there was no increment (path %s)" % path)
                            continue
                        ctx.check(len(p.pushes) == 1, "report", w, "%d measurements for a positive increment (path %s)" % (len(p.pushes), path))
                        if len(p.pushes) != 1:
                            continue
                        v = single_default(ctx, M, measure, 'default', 'count', p, w)
                        if v is None:
                            continue
                        v = subst(I, v, m)
                        big = None
                        for kk, s in st4.facts.items():
                            if isinstance(kk, tuple) and kk[0] == 'fcp' and kk[1] == fd and isf(kk[2]) and abs(kk[2][1] / 9.223372e18 - 1) < 1e-5:
                                big = True if '<' not in s and '=' not in s else False if '>' not in s else None
                        if v in (Z, f(0)):
                            ctx.check(big is True, "report", w, "an increment that is not above 2^63 is reported as 0 (path %s)" % path)
                        elif v == d or (v[0] == 'poly' and same_float(v, d)):
                            ctx.check(big is False, "report", w, "an increment above 2^63 is not reported as 0 (path %s)" % path)
                        else:
                            ctx.check(False if known_atoms(p, M, v, measure) else None, "report", w,
                                      "reports %s, specified %s%s" % (show(v), show(d), " (wrapped)" if wrap else ""))


def check_sampled(ctx, M):
    I = M.I
    measure = M.find('Measure')[0]
    setter = M.find('Set')[0]
    w, ws = M.where(measure), M.where(setter)
    A, TS = param(setter, 0), param(setter, 1)
    ps, qs = M.paths(measure), M.paths(setter)
    if any(p.opaque for p in ps + qs):
        ctx.und("report", w, "incomplete summary")
        return
    this = ('this', M.cls)
    V = {l for p in qs for l, v in p.fin.items() if v == A}
    T = {l for p in qs for l, v in p.fin.items() if v == TS}
    if len(V) != 1 or len(T) != 1:
        ctx.bad("update", ws, "no path of Set keeps the point (value cells %s, time cells %s)" % (V, T))
        return
    V, T = V.pop(), T.pop()
    PV = {l for p in ps for l, v in p.fin.items() if l != V and v == ('init', this, V)}
    PT = {l for p in ps for l, v in p.fin.items() if l != T and v == ('init', this, T)}
    if len(PV) != 1 or len(PT) != 1:
        ctx.bad("reset", w, "no report keeps the reported point as the next baseline (value cells %s, time cells %s)" % (PV, PT))
        return
    PV, PT = PV.pop(), PT.pop()
    v0, pv0, t0, pt0 = (('init', this, l) for l in (V, PV, T, PT))
    for p in qs:
        path = [(show(t), v) for t, v in p.st.conds()]
        for st, older in I.fork(p.st.clone(), I.le(add(TS, ONE), t0)):
            if older:
                ch = [l for l in (V, PV, T, PT) if fin(p, M, l) != old(p, M, l)]
                ctx.check(not ch, "update", ws, "a point older than the last one changes %s (path %s)" % (ch, path))
                continue
            ctx.check(fin(p, M, V) == A and fin(p, M, T) == TS, "update", ws, "a newer point is not kept (path %s)" % path)
            for st2, first in I.fork(st, I.fcmp(pv0, pv0, '?')):
                if first:
                    ctx.check(fin(p, M, PV) == v0 and fin(p, M, PT) == t0, "update", ws,
                              "the first point's predecessor does not become the baseline (path %s)" % path)
                else:
                    ctx.check(fin(p, M, PV) == pv0 and fin(p, M, PT) == pt0, "update", ws,
                              "the baseline moves although nothing was reported (path %s)" % path)
    rate = fdiv(fadd(v0, pv0, -1), fmul(f(1e-9), fadd(t0, pt0, -1)))
    for p in ps:
        path = [(show(t), v) for t, v in p.st.conds()]
        st = p.st.clone()
        for st2, nan in I.fork(st, I.fcmp(rate, rate, '?')):
            if nan:
                ctx.check(not p.pushes, "report", w, "reports a rate that is not a number (path %s)" % path)
                ctx.check(all(fin(p, M, l) == old(p, M, l) for l in (V, PV, T, PT)), "reset", w, "moves the baseline without a report (path %s)" % path)
                continue
            ctx.check(fin(p, M, PV) == v0 and fin(p, M, PT) == t0, "reset", w,
                      "the reported point does not become the baseline: %s, %s (path %s)" % (show(fin(p, M, PV)), show(fin(p, M, PT)), path))
            for st3, pos in I.fork(st2, I.fcmp(rate, f(0), '>')):
                if pos:
                    ctx.check(len(p.pushes) == 1, "report", w, "%d measurements for a positive rate (path %s)" % (len(p.pushes), path))
                    if len(p.pushes) == 1:
                        v = single_default(ctx, M, measure, 'override', 'count', p, w)
                        if v is not None:
                            ctx.check(True if same_float(v, rate) else False if v[0] in ('poly', 'f', 'c', 'init') else None, "report", w,
                                      "reports %s, specified %s" % (show(v), show(rate)))
                else:
                    ctx.check(not p.pushes, "report", w, "reports although the rate is not positive (path %s)" % path)


def check_pure(ctx, M):
    for fn in M.methods:
        if fn.ctor or not fn.c or fn.name == 'Measure':
            continue
        for p in M.paths(fn):
            ch = [l for l in p.fin if p.fin[l] != old(p, M, l)]
            ctx.check(not ch, "pure", M.where(fn), "changes %s" % ch)


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    for name, cls in CLASSES.items():
        M = Meter(ctx, cls)
        try:
            check_pure(ctx, M)
            if name in INTERVAL:
                check_interval(ctx, name, M, INTERVAL[name])
            elif name == 'Gauge':
                check_gauge(ctx, M)
            elif name == 'AgeGauge':
                check_age(ctx, M)
            elif name == 'MonotonicCounter':
                check_mono(ctx, M)
            elif name == 'MonotonicCounterUint':
                check_uint(ctx, M)
            else:
                check_sampled(ctx, M)
        except AnalysisBroken:
            raise
        except Exception as e:
            import traceback
            ctx.und("report", cls, "internal: " + traceback.format_exc()[-300:])
        ctx.anchor("meter classes", 1)
