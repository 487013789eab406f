"""P12: expiry."""
from meters import *
from common import *

EXPLANATION = (
    "Per meter class: every method's effect on the last-update cell (the one Meter::Updated reads), derived by abstract interpretation of "
    "all paths. Per instantiation of the registry's meter table: the loop bodies of remove_expired and measure, with the erase and Measure "
    "calls opaque; each path of an iteration is split on the specified expiry condition (now - last update > ttl over the interpreted "
    "values) and must erase/report accordingly. The ttl's origin is followed from the configuration to both loops.")
ASSUMPTIONS = [
    "iteration over the table visits every element once (tsl::hopscotch_map)",
    "absl::GetCurrentTimeNanos is the clock; integer arithmetic on times does not overflow",
]
RULES = {
    "touch": "a path that changes a meter's value stores a fresh clock reading as its last update",
    "still": "reporting, reading, ttl changes leave the last-update time alone",
    "born": "a new meter's last update is its creation time",
    "ttl": "a gauge's ttl is what was asked for, but at least 5 seconds",
    "erase": "the expiry loop erases an element exactly if it is idle longer than its ttl",
    "report": "the reporting loop reports an element exactly if it is not idle longer than its ttl",
    "each": "both loops look at every element: they start at the first, move on by one element per iteration and go on until the end",
    "source": "both loops get the ttl of the configuration",
}
FIVE = 5 * 10**9


class Opaque(Client):
    def inline(self, fn):
        return fn.name != 'Measure'


def meter_maps(ctx):
    """[(element class, methods by name)] of the table's instantiations"""
    out = {}
    for fn in ctx.prog.bodies(pred=lambda f: f.rect is not None and f.rect.rec == 'spectator::detail::meter_map'):
        ta = fn.rect.ta
        if ta and ta[0] is not None and ta[0].rec:
            out.setdefault(ta[0].rec, {}).setdefault(fn.name, fn)
    ctx.need("meter table instantiations", len(out), 9)
    return out


def iteration_states(I, evname):
    """states at the end of one loop iteration, and the exits (a loop may leave after acting)"""
    for lid, L in I.loops.items():
        for s in L['backs']:
            yield lid, L, s
        for s in L['exits']:
            st = s[0] if isinstance(s, tuple) else s
            yield lid, L, st


def after_loop(st, lid):
    ev = st.events()
    i = max([j for j, e in enumerate(ev) if e[0] == 'loop' and e[1] == lid], default=None)
    return ev[i:] if i is not None else []


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    ttls = {}
    for name, cls in CLASSES.items():
        M = Meter(ctx, cls)
        I = M.I
        last = M.last_loc()
        cfg = set()
        if name == 'Gauge':
            for p in M.paths(M.find('HasExpired')[0]):
                cfg |= {l for l in p.old if l != last}
            ttls[cls] = cfg
            check_ttl(ctx, M, cfg)
        for fn in M.methods:
            if fn.ctor:
                continue
            for p in M.paths(fn):
                w = M.where(fn)
                if p.opaque and not fn.c:
                    ctx.und("touch", w, "; ".join(p.opaque))
                    continue
                changed = [l for l in p.fin if l != last and l not in cfg and p.fin[l] != p.old.get(l, ('init', ('this', cls), l))
                           and not is_ptr(p.fin[l])]
                touched = last in p.fin and p.fin[last] != p.old.get(last)
                if fn.c:
                    ctx.check(not touched, "still", w, "changes the last-update time to %s" % show(p.fin.get(last, Z)))
                elif name == 'AgeGauge':
                    continue
                elif changed:
                    v = p.fin.get(last)
                    ctx.check(touched and v in p.nows, "touch", w, "changes %s but the last-update time is %s (path %s)" % (
                        ['.'.join(map(str, l)) for l in changed], show(v) if touched else "left alone", [(show(t), b) for t, b in p.st.conds()]))
                elif touched:
                    ctx.check(p.fin[last] in p.nows, "touch", w, "the last-update time becomes %s" % show(p.fin[last]))
                    if fn.name == 'SetTtl':
                        ctx.bad("still", w, "setting the ttl counts as an update of the value")
        for fn, st in M.ctor():
            v = I.raw(st, ('this', cls), last)
            nows = [e[1] for e in st.events() if e[0] == 'now']
            ctx.check(True if v in nows else False if v[0] in ('c', 'f', 'lin') else None, "born", M.where(fn), "a new meter's last update is %s" % show(v))
    maps = meter_maps(ctx)
    for cls, ms in sorted(maps.items()):
        check_loop(ctx, cls, ms, 'remove_expired', 'erase', ttls)
        check_loop(ctx, cls, ms, 'measure', 'report', ttls)
    check_source(ctx)


def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] == 'addr'


def check_ttl(ctx, M, cfg):
    I = M.I
    if len(cfg) != 1:
        ctx.und("ttl", M.cls, "cannot tell which cell holds the ttl: %s" % cfg)
        return
    T = next(iter(cfg))

    def one(w, st, v, arg):
        arg_i = arg
        for st2, small in I.fork(st.clone(), I.le(add(arg_i, ONE), c(FIVE))):
            want = c(FIVE) if small else arg_i
            r = v == want or (I.dom.prove_eq0(st2, sub(v, want)) if v[0] != 'f' else None)
            ctx.check(True if r else False if all(a == arg or a[0] == 'c' for a in atoms_of(v)) else None, "ttl", w,
                      "the ttl becomes %s, specified %s" % (show(v), show(want)))
    for fn in M.find('SetTtl'):
        for p in M.paths(fn):
            if T not in p.fin:
                ctx.bad("ttl", M.where(fn), "does not change the ttl on a path")
                continue
            for x in p.st.conds():
                pass
            one(M.where(fn), p.st, p.fin[T], ('init', ('p', fn.ps[0]["n"] or '0'), ()))
    for fn, st in M.ctor():
        if len(fn.ps) < 2:
            continue
        one(M.where(fn), st, I.raw(st, ('this', M.cls), T), ('init', ('p', fn.ps[1]["n"] or '1'), ()))


def atoms_of(v):
    if v[0] == 'c':
        return []
    _, d = lin_of(v)
    return list(d)


def check_loop(ctx, cls, ms, method, rule, ttls):
    if method not in ms and cls == 'spectator::AgeGauge' and method == 'remove_expired':
        ctx.ok(rule, "meter_map<%s>::%s is never instantiated" % (cls, method))
        return
    if method not in ms:
        raise AnalysisBroken("anchor vanished: meter_map::%s for %s" % (method, cls))
    fn = ms[method]
    ctx.fn(fn)
    w = "meter_map<%s>::%s (%s:%s)" % (cls, method, fn.file, fn.line)
    I = Interp(ctx.prog, Opaque())
    try:
        res = I.run(fn)
    except AnalysisBroken as e:
        ctx.und(rule, w, str(e))
        return
    ctx.paths += len(res)
    ttl = ('init', ('p', fn.ps[-1]["n"] or str(len(fn.ps) - 1)), ())
    acts = 0
    its = 0
    for lid, L, st in iteration_states(I, rule):
        ev = after_loop(st, lid)
        if rule == 'erase':
            act = [e for e in ev if e[0] in ('call', 'mcall', 'pcallee') and str(e[1]).endswith('::erase')]
        else:
            act = [e for e in ev if e[0] in ('call', 'mcall', 'pcallee') and str(e[1]).endswith('::Measure')]
        reads = [e for e in ev if e[0] == 'aload' and e[1][0] == 'addr']
        lu = [e for e in reads if e[1][2][-1:] == ctx_last(ctx, cls)]
        nows = [e[1] for e in st.events() if e[0] == 'now']
        moved = [e for e in ev if e[0] in ('call', 'pcallee') and (str(e[1]).endswith('operator->') or str(e[1]).endswith('operator*') or str(e[1]).endswith('operator++'))]
        if not act and not lu and not moved and st not in L['backs']:
            continue       # the iteration that finds the end
        if st not in L['backs'] and not act:
            continue
        its += 1
        acts += bool(act)
        if rule == 'erase' and act:
            i = ev.index(act[0])
            inc = [e for e in ev[i:] if e[0] in ('call', 'pcallee') and str(e[1]).endswith('operator++')]
            ctx.check(not inc, "each", w, "an erased element's successor is passed over without being looked at")
        if cls == 'spectator::AgeGauge':
            if rule == 'erase':
                ctx.check(not act, "erase", w, "erases an age gauge")
            else:
                ctx.check(len(act) == 1, "report", w, "an age gauge is reported %d times" % len(act))
            continue
        if not lu:
            ctx.check(False, rule, w, "%s without looking at the element's last update (path %s)" % ("acts" if act else "passes over an element", [(show(t), v) for t, v in st.conds()]))
            continue
        la = lu[0][2]
        T = ttl
        if cls in ttls:
            tt = [e for e in reads if e[1][2][-1:] in {x[-1:] for x in ttls[cls]}]
            if not tt:
                ctx.bad(rule, w, "a gauge's own ttl is not looked at")
                continue
            T = tt[0][2]
        decided = False
        for now in nows:
            exp = I.le(add(add(la, T), ONE), now)
            r = I.truth(st, exp)
            if r is not None:
                decided = True
                want = r if rule == 'erase' else not r
                ctx.check(len(act) == (1 if want else 0), rule, w, "%s an element although it is %s (path %s)" % (
                    "does not act on" if want else "acts on", "idle longer than its ttl" if r else "not idle longer than its ttl",
                    [(show(t), v) for t, v in st.conds()]))
                break
        if not decided:
            cond = [(show(t), v) for t, v in st.conds()]
            known = all(any(y in nows + [la, T, ttl] or (isinstance(y, tuple) and y[0] in ('c',)) for y in lin_atoms(t)) for t, v in st.conds()[-1:])
            ctx.check(False if known else None, rule, w, "acts by another condition than now - last update > ttl: %s" % cond)
    traversal(ctx, I, w)
    if its == 0 or (acts == 0 and not (rule == 'erase' and cls == 'spectator::AgeGauge')):
        ctx.check(None if its == 0 else False, rule, w, "no iteration %ss anything" % rule)


def traversal(ctx, I, w):
    """a loop that is controlled by comparing an iterator with the end visits every element"""
    for lid, L in I.loops.items():
        for b in L['backs']:
            ev = after_loop(b, lid)
            cmp_ = [e for e in ev if e[0] == 'call' and str(e[1]).endswith(('operator!=', 'operator=='))]
            its = []
            for e in cmp_:
                vs = [v for v in ((e[2],) if e[2] is not None else ()) + tuple(e[3] or ()) if isinstance(v, tuple)]
                lps = [v for v in vs if v[0] == 'lp' and v[1] == lid]
                ends = [v for v in vs if v[0] not in ('lp',) and any(x[0] == 'call' and str(x[1]).endswith('end') and x[4] == v for x in b.events())]
                if len(lps) == 1 and ends:
                    its.append((e, lps[0]))
            if len(its) != 1:
                continue
            e, x = its[0]
            key = (x[2], x[3])
            val = [v for t, v in b.conds() if t == e[4]]
            if val:
                ctx.check(val[0] == str(e[1]).endswith('!='), "each", w, "the loop goes on only when it is at the end")
            e0 = L['entry'].mem.get(key)
            first = [y for y in b.events() if y[0] == 'call' and str(y[1]).endswith('begin') and y[4] == e0]
            ctx.check(True if first else None, "each", w, "the loop starts at %s" % show(e0 if e0 is not None else Z)[:60])
            new = b.mem.get(key)
            incs = [y for y in ev if y[0] in ('call', 'pcallee') and str(y[1]).endswith('operator++') and y[2] == ('addr', key[0], key[1])]
            er = [y for y in ev if y[0] == 'call' and str(y[1]).endswith('::erase') and y[4] == new]
            if new == x:
                ctx.check(None if hidden(b) and any(y[0] == 'call' and not str(y[1]).startswith('tsl::') for y in ev) else False, "each", w, "the loop does not move on to the next element (path %s)" % [(show(t)[:60], v) for t, v in b.conds()][-3:])
            elif er or len(incs) == 1:
                ctx.ok("each", w, "")
            else:
                ctx.check(False if len(incs) > 1 else None, "each", w, "the loop moves on by %d elements" % len(incs))
            ctx.anchor("iterations of the table's loops", 1)


def lin_atoms(t):
    if t[0] in ('le0', 'eq0'):
        return atoms_of(t[1]) or [('c', 0)]
    return [t]


_last = {}


def ctx_last(ctx, cls):
    if 'l' not in _last:
        fn = ctx.prog.one('spectator::Meter::Updated')
        for st, fl in Interp(ctx.prog).run(fn):
            for e in st.events():
                if e[0] == 'aload':
                    _last['l'] = e[1][2][-1:]
    return _last['l']


def check_source(ctx):
    """Registry passes its ttl, which is the configuration's, to every table"""
    p = ctx.prog
    isloop = lambda fn: fn.rect is not None and fn.rect.rec == 'spectator::detail::meter_map' and fn.name in ('measure', 'remove_expired')
    reg = ('this', 'spectator::Registry')
    locs = set()
    for qn, want in (('spectator::Registry::Measurements', 'measure'), ('spectator::Registry::remove_expired_meters', 'remove_expired')):
        fn = p.one(qn)
        res, I = runfn(ctx, fn, Rec(isloop, lambda f: not f.qn.startswith('spectator::Publisher') and f.rect is None or not f.rect.rec.startswith('spectator::Publisher')))
        n = 0
        for st, fl in res:
            for e in ops(st):
                n += 1
                a = e[3][-1]
                if a[0] == 'init' and a[1] == reg:
                    locs.add(a[2])
                    ctx.ok("source", qn)
                else:
                    ctx.check(False if a[0] in ('c', 'lin') or a[0] == 'init' else None, "source", qn, "%s is given the ttl %s" % (want, show(a)))
        ctx.need("ttl uses", n, 1)
    ctx.check(len(locs) == 1, "source", "Registry", "reports and expiry use different ttls: %s" % locs)
    for fn in p.bodies('spectator::Registry::Registry'):
        res, I = runfn(ctx, fn, Client(), this=('lv', reg, ()))
        for st, fl in res:
            for l in locs:
                v = I.raw(st, reg, l)
                if v[0] == 'init' and v[2] and v[2][-1] == 'meter_ttl':
                    ctx.ok("source", "Registry constructor")
                    # zero stands for the default: kept as it is, every meter would expire at once
                    ctx.check(I.truth(st, I.eq(v, Z)) is False or (None if hidden(st) else False), "source", "Registry constructor", "a ttl of zero is not replaced by the default (path %s)" % pathstr(st, 4))
                elif isc(v):
                    # a default instead of an unset ttl
                    zero = any(x[0] == 'eq0' and x[1][0] == 'init' and x[1][2][-1:] == ('meter_ttl',) and b for x, b in st.conds())
                    ctx.check(zero, "source", "Registry constructor", "the ttl is %s although one is configured" % show(v))
                else:
                    ctx.und("source", "Registry constructor", "the ttl is %s" % show(v))
