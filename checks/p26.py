"""P26: stopping wakes every background thread and joins it."""
import itertools
from common import *
from absint import Frame

EXPLANATION = (
    "Every class with a std::thread member is found, with the member function its thread runs, the functions that join it and its destructor. They are interpreted "
    "abstractly over all paths, calls that use condition variables, mutexes, threads or atomic flags inlined. In the joining function every path that found the thread "
    "running must set the flag, pass through the waiter's mutex after that, notify the waiter's condition variable and join once, and a path that did not must not join. "
    "In the thread's function every wait must hold that mutex and have a predicate that is true once the flag is set, for any value of whatever else it reads, and every "
    "iteration of its loop must contain a test that fails once the flag is set.")
ASSUMPTIONS = ["std::condition_variable, std::mutex, std::thread and atomics behave as documented", "one call of Server::Start per server (it blocks until the signal)"]
STARTS = {}
RULES = {
    "signal": "stopping sets the flag, then passes the waiter's mutex, then notifies its condition variable, before joining",
    "wait": "every wait of a background thread is under that mutex and returns once the flag is set",
    "leave": "no iteration of the thread's loop goes on once the flag is set",
    "join": "a running thread is joined exactly once, one that does not run never",
    "start": "a thread is started only when it is not running",
    "owner": "the owner of a thread does not go away before it is joined",
}
WAITS = ('wait', 'wait_for', 'wait_until')
SLEEPS = ('sleep_for', 'sleep_until', 'SleepFor', 'usleep', 'sleep', 'nanosleep')
SYNC = ('std::condition_variable', 'std::condition_variable_any', 'std::thread', 'std::jthread', 'std::this_thread')


def last(q):
    return str(q).split('::')[-1]


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    own = []
    for r in P.records.values():
        for n, T in r.ft.items():
            if T.noref().s in ('std::thread', 'std::jthread') and T.k == 'rec':
                own.append((r, n))
    names = {}
    for r, n in own:
        names.setdefault((r.qn, n), r)
    ctx.need("threads owned by classes", len(names), 1)
    touch = touching(P)
    nw = 0
    for (qn, n), r in sorted(names.items(), key=lambda x: x[0]):
        nw += thread(ctx, qn, n, touch)
    ctx.anchor("waits", nw)


def touching(P):
    """functions that use condition variables, mutexes, threads or atomic flags, directly or through a few calls"""
    out = set()
    callee = {}
    for f in P.fns.values():
        if f.body is None:
            continue
        cs = callee[f.key] = set()
        for x in P.walk(f.body):
            g = f.tu.fns[x['fn']] if isinstance(x.get('fn'), int) else None
            if g is not None:
                cs.add(g.key)
                q = g.qn
                if q.startswith(SYNC) and 'chrono' not in q or q.startswith(('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::mutex')) or g.name in SLEEPS \
                        or q.startswith('std::atomic') and g.ta is not None and False:
                    out.add(f.key)
                if g.rect is not None and str(g.rect.s) in ('std::atomic<bool>', 'std::__atomic_base<bool>', 'std::atomic_flag'):
                    out.add(f.key)
    for _ in range(3):
        more = {k for k, cs in callee.items() if cs & out}
        if more <= out:
            break
        out |= more
    return out


class Sync(Rec):
    """waits, sleeps, joins and thread starts, with what their arguments do"""

    def __init__(self, cls, touch, top, P):
        self.cls, self.touch, self.top, self.P = cls, touch, top, P
        self.n = 0
        super().__init__(self.rec, self.inline_)

    def inline_(self, g):
        if g.key == self.top.key or g.lam:
            return True
        if g.key not in self.touch:
            return False
        if g.rect is None or g.rect.s == self.cls:
            return g.file == self.top.file or g.rect is not None
        return small(self.P, g)

    def rec(self, fn):
        q = fn.qn
        return q.startswith(('std::condition_variable', 'std::_V2::condition_variable')) and fn.name in WAITS + ('notify_one', 'notify_all') \
            or fn.name in SLEEPS or fn.name == 'async_wait' or q.startswith('std::thread') and fn.name in ('join', 'detach', 'joinable') \
            or q.startswith(('asio::io_context', 'asio::io_service')) and fn.name in ('run', 'stop', 'run_one', 'run_for')

    def call(self, I, fn, obj, args, st, fr, node):
        if not self.rec(fn):
            return None
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        addr = I.addr(obj[1], obj[2]) if obj is not None else None
        if fn.name in WAITS:
            pred = None
            lam = self.lam(I, st, args[-1]) if args else None
            nargs = {'wait': 1, 'wait_for': 2, 'wait_until': 2}[fn.name]
            if lam is not None:
                pred = self.closure(I, lam, [], st, fr)
            elif len(args) > nargs:
                pred = '?'
            t = I.fresh('waited', fn.rt)
            st.event('wait', addr, st.locks, pred, t, loc, fn.name)
            return [(st, t)]
        if fn.name == 'async_wait':
            lam = [y for y in (self.lam(I, st, a) for a in args) if y is not None]
            res = None
            if lam:
                f2 = self.P.fns.get(lam[0][1])
                res = self.closure(I, lam[0], [('lv', ('v', 990, i), ()) if T.k == 'ref' else ('sym', 'signal', i) for i, T in enumerate(f2.pt)] if f2 is not None else [], st, fr)
            st.event('handler', addr, res, loc)
            return [(st, I.fresh('aw', fn.rt))]
        t = I.fresh(fn.name, fn.rt)
        st.event(fn.name, addr, st.locks, t, loc)
        return [(st, t)]

    def lam(self, I, st, a):
        if not isinstance(a, tuple) or not a:
            return None
        if a[0] == 'lv':
            a = I.raw(st, a[1], a[2])
        return a if a is not None and a[0] == 'lam' else None

    def closure(self, I, lam, args, st, fr):
        c0 = st.clone()
        n0, m0 = len(c0.events()), len(c0.conds())
        out = []
        for s, v in I.call_lam(lam, args, c0, Frame(fr.fn, 900, None), None):
            out.append((v, s.conds()[m0:], s.events()[n0:]))
        return out


def small(P, g):
    """a method of a helper class that wraps the primitives"""
    if g.rect is None:
        return False
    for r in P.records.values():
        if r.qn == g.rect.rec:
            return any('condition_variable' in T.s or T.s in ('std::thread', 'std::mutex', 'std::atomic<bool>') for T in r.ft.values()) and len(r.methods) < 14
    return False


def methods(P, qn):
    return [f for f in P.fns.values() if f.body is not None and not f.lam and f.rect is not None and f.rect.rec == qn]


def thread(ctx, qn, field, touch):
    P = ctx.prog
    ms = methods(P, qn)
    if not ms:
        ctx.und("join", qn, "no method of the owner of %s is known" % field)
        return 0
    cls = sorted({m.rect.s for m in ms})[0]
    ms = [m for m in ms if m.rect.s == cls]
    T = ('addr', ('this', qn), (field,))
    lit = {m.key: m for m in ms}
    runs = {}

    def get(f):
        if f.key not in runs:
            try:
                runs[f.key] = runfn(ctx, f, Sync(cls, touch, f, P))
            except Exception as e:
                if type(e).__name__ == 'AnalysisBroken':
                    raise
                runs[f.key] = None
        return runs[f.key]
    joiners, starters = [], []
    for m in ms:
        if m.key not in touch and not m.dtor:
            continue
        if m.ctor and not m.body:
            continue
        r = get(m)
        if r is None:
            ctx.und("join", m.qn, "the method cannot be interpreted")
            continue
        res, I = r
        if any(e[0] in ('join', 'detach') and e[1] == T for st, fl in res for e in st.events()):
            joiners.append(m)
        elif m.name == 'Stop' or m.dtor and m.body is not None:
            pass
        if any(started(st, T, e) for st, fl in res for e in st.events()):
            starters.append(m)
    if not starters:
        ctx.und("start", qn, "where the thread %s is started is not recognised" % field)
        return 0
    STARTS.clear()
    STARTS.update({m.key: get(m)[0] for m in starters})
    # what the thread runs
    body = None
    for m in starters:
        for st, fl in get(m)[0]:
            for e in st.events():
                if started(st, T, e):
                    body = body or target(P, e)
    if body is not None and body.lam:
        cs = {body.tu.fns[x['fn']].key for x in P.walk(body.body) if isinstance(x.get('fn'), int)} & set(lit)
        body = lit[cs.pop()] if len(cs) == 1 else None
    w0 = "%s (%s:%s)" % (starters[0].qn, starters[0].file, starters[0].line)
    if body is None:
        ctx.und("wait", w0, "what the thread %s runs is not recognised" % field)
        return 0
    ctors = [m for m in P.fns.values() if m.ctor and m.rect is not None and m.rect.s == cls and m.inits]
    run_value = gates(ctx, get, starters, T, ctors)
    if not joiners:
        known = not any(isinstance(x.get('fn'), int) and f.tu.fns[x['fn']].name in ('join', 'swap') and f.tu.fns[x['fn']].qn.startswith('std::thread')
                        for f in P.fns.values() if f.body is not None for x in P.walk(f.body)
                        if x.get('k') == 'MCall' and any(y.get('k') == 'Mem' and y.get('f') == field for y in P.walk(x)))
        ctx.check(False if known else None, "join", w0, "the thread %s is never joined" % field)
        return 0
    incls = {}
    for m in P.fns.values():
        if m.body is None:
            continue
        for x in P.walk(m.body):
            if isinstance(x.get('fn'), int) and x.get('k') in ('Call', 'MCall'):
                incls.setdefault(m.tu.fns[x['fn']].key, []).append(m)
    tops = []
    for j in joiners:
        cs = [m for m in incls.get(j.key, []) if m.key in lit and not m.dtor]
        if j.dtor or str(j.acc).startswith('pub') or not cs:
            tops.append(j)
    flags = []
    nid = 0
    for j in tops:
        res, I = get(j)
        # the flags on which joining depends
        G = None
        for st, fl in res:
            ji = [i for i, e in enumerate(st.events()) if e[0] == 'join' and e[1] == T]
            if ji:
                g = {o[0] for o in old_values(st) if o[4] < ji[0] and o[0] in run_value and o[1] == run_value[o[0]]}
                G = g if G is None else G & g
        rv = {a: v for a, v in run_value.items() if a in G} if G else run_value
        for st, fl in res:
            if fl[0] == 'X':
                continue
            nid += 1
            fw = stop(ctx, j, st, I, T, rv, field)
            if fw is not None and fw not in flags:
                flags.append(fw)
    n = waits(ctx, body, cls, touch, flags, get, field)
    owner(ctx, P, qn, cls, ms, T, get, starters, joiners, field, run_value)
    starts(ctx, get, starters, T, field)
    return n


def started(st, T, e):
    """does this event create the thread?"""
    return e[0] == 'call' and e[1] in ('std::thread::thread', 'std::jthread::jthread', 'std::jthread::thread') and e[3] and e[3][0] and e[3][0][0] in ('fn', 'lam')


def target(P, e):
    a = e[3][0]
    f = P.fns.get(a[1])
    if f is not None:
        return f
    for g in P.fns.values():
        if getattr(g, 'mn', None) == a[1] or g.key.startswith(str(a[1]) + '@'):
            return g
    return None


# ---------------------------------------------------------------- gates
def old_values(st, upto=None):
    """[(address, old value, new value, atomic step?, event index)] of what the path learnt about flags"""
    conds = {}
    for t, v in st.conds():
        conds[t] = v
    out = []
    ev = st.events()
    for i, e in enumerate(ev):
        if e[0] == 'axchg':
            v = conds.get(e[3])
            if v is not None:
                out.append((e[1], bool(v), e[2], True, i))
        elif e[0] == 'aload':
            v = conds.get(e[2])
            if v is not None:
                out.append((e[1], bool(v), None, False, i))
        elif e[0] == 'acas':
            if isc(e[2]):
                out.append((e[1], bool(e[2][1]), e[3], True, i))
        elif e[0] == 'acasfail':
            v = conds.get(e[2])
            # the expected value is what the other outcome of the exchange expects
            out.append((e[1], None if v is None else bool(v), None, True, i))
        elif e[0] == 'joinable':
            v = conds.get(e[3])
            if v is not None:
                out.append((e[1], bool(v), None, 'joinable', i))
    return out


def gates(ctx, get, starters, T, ctors=()):
    """flag address -> value while the thread runs"""
    out = {}
    for m in ctors:
        # what it is from the start
        for a, v in initial(ctx, m).items():
            out.setdefault(a, v)
    for m in starters:
        for st, fl in get(m)[0]:
            ev = st.events()
            if not any(started(st, T, e) for e in ev):
                continue
            for e in ev:
                if e[0] in ('run', 'join'):
                    break
                if e[0] in ('astore', 'axchg') and isc(e[2]):
                    out[e[1]] = bool(e[2][1])
                elif e[0] == 'acas' and isc(e[3]):
                    out[e[1]] = bool(e[3][1])
    return out


def initial(ctx, m):
    """atomic flags of the object after its constructor"""
    out = {}
    for i in m.inits or ():
        if isinstance(i, dict) and i.get('f') and i.get('e') is not None:
            v = const(ctx.prog, m, i['e'])
            if v is not None:
                out[('addr', ('this', m.rect.rec), (i['f'],))] = v
    return out


def const(P, m, e):
    ints = [x for x in P.walk(e) if 'cv' in x and x.get('k') in ('Int', 'Bool', 'Char')]
    return bool(int(ints[0]['cv'])) if len(ints) == 1 else None


def stop(ctx, j, st, I, T, running, field):
    """one path of a function that joins: {flag: value} in force at the join, the mutexes passed and the variables notified"""
    w = "%s (%s:%s)" % (j.qn, j.file, j.line)
    p = " (path %s)" % pathstr(st, 4)
    ev = st.events()
    hid = hidden_sync(st)
    joins = [i for i, e in enumerate(ev) if e[0] == 'join' and e[1] == T]
    det = [i for i, e in enumerate(ev) if e[0] == 'detach' and e[1] == T]
    for i in det:
        ctx.bad("join", ev[i][4], "the thread %s is detached instead of joined%s" % (field, p), key="join:detach:" + j.qn)
    olds = old_values(st)
    now = {}            # the last thing learnt about each gate
    run, notrun, check = None, None, None
    born = [i for i, e in enumerate(ev) if started(st, T, e)]
    if born and any(e[0] in ('run', 'handler') for e in ev[born[0]:]):
        return None             # a function that blocks: its own part is judged under owner
    if not born and any(started(s, T, e) for s, f_ in STARTS.get(j.key, ()) for e in s.events()):
        return None
    for a, v, new, kind, i in olds:
        if joins and i > joins[0]:
            continue
        if kind == 'joinable':
            if a != T:
                continue
            run, notrun = (run, i) if v is False else (i, notrun)
            continue
        if a not in running:
            continue
        if v is None:
            notrun = i
            continue
        if v == running[a]:
            if kind is True:
                run = i
            else:
                check = i
        else:
            notrun = i
    if len(joins) > 1:
        ctx.check(None if any(x[3] == 'joinable' for x in olds) else False, "join", ev[joins[1]][4], "the thread %s is joined twice%s" % (field, p), key="join:twice:" + j.qn)
        return None
    if not joins:
        if det:
            return None
        ok = notrun is not None
        if not ok and run is None and check is not None:
            # a look at the flag decided that it runs, and yet it is not joined
            run = check
        ctx.check(True if ok else None if hid or (run is None and not olds and not running) else False, "join", w,
                  "a path leaves the thread %s running and not joined%s" % (field, p), key="join:missing:" + j.qn)
        return None
    ji = joins[0]
    je = ev[ji]
    if run is not None and run < ji:
        a = [x for x in olds if x[4] == run][0]
        if a[3] is True and a[2] is not None and isc(a[2]):
            ctx.check(bool(a[2][1]) != running.get(a[0]), "join", je[4], "the flag that says the thread runs is left as it was: a second stop joins again%s" % p, key="join:gate:" + j.qn)
        else:
            ctx.ok("join", je[4], "joined when running")
    elif notrun is not None:
        ctx.check(None if hid else False, "join", je[4], "a thread that does not run is joined%s" % p, key="join:notrunning:" + j.qn)
    elif check is not None:
        lockd = any(e[0] == 'lock' for e in ev[:check]) and st_locked(ev, check, ji)
        ctx.check(True if lockd else None if hid else False, "join", je[4],
                  "whether the thread runs is looked up and changed in two steps: two stops can both join it%s" % p, key="join:twostep:" + j.qn)
    else:
        other = [x for x in st.conds()]
        ctx.check(None if hid or other else False, "join", je[4], "the thread %s is joined whether or not it runs%s" % (field, p), key="join:always:" + j.qn)
    # ---- the signal before the join
    flags = {}
    for i, e in enumerate(ev[:ji]):
        if e[0] in ('astore', 'axchg') and isc(e[2]):
            flags[e[1]] = (bool(e[2][1]), i)
        elif e[0] == 'acas' and isc(e[3]):
            flags[e[1]] = (bool(e[3][1]), i)
    held, locks = [], []
    for i, e in enumerate(ev[:ji]):
        if e[0] == 'lock':
            locks.append([e[1], i, None])
        elif e[0] == 'unlock':
            for l in reversed(locks):
                if l[0] == e[1] and l[2] is None:
                    l[2] = i
                    break
    heldat = [l[0] for l in locks if l[2] is None and l[0] in je[2]]
    notes = [(i, e[1]) for i, e in enumerate(ev[:ji]) if e[0] in ('notify_all', 'notify_one')]
    plain = [(k[0], k[1]) for k, v in st.mem.items() if k[0][0] == 'this' and v is not None and isc(v)]
    return ('path', tuple(sorted(((a, v, i) for a, (v, i) in flags.items()), key=repr)), tuple((l[0], l[1], l[2] if l[2] is not None else ji) for l in locks), tuple(notes),
            je[4], hid, tuple(heldat), p, j.qn, tuple(plain))


def st_locked(ev, a, b):
    """is some mutex held from a to b?"""
    held = []
    for e in ev[:a]:
        if e[0] == 'lock':
            held.append(e[1])
        elif e[0] == 'unlock' and e[1] in held:
            held.remove(e[1])
    for e in ev[a:b]:
        if e[0] == 'unlock' and e[1] in held:
            held.remove(e[1])
    return bool(held)


def hidden_sync(st):
    return any(e[0] == 'pcall' or e[0] == 'call' and str(e[1]) == '(lambda)' for e in st.events())


# ---------------------------------------------------------------- the thread's function
def value(t, flags, conds_ret):
    """value of a condition once the flags are set; None: either"""
    if t in conds_ret:
        return conds_ret[t]
    if isc(t):
        return bool(t[1])
    if t[0] == 'not':
        v = value(t[1], flags, conds_ret)
        return None if v is None else not v
    if t[0] == 'eq0':
        v = value(t[1], flags, conds_ret)
        return None if v is None else not v
    if t[0] == 'cast':
        return value(t[3], flags, conds_ret)
    if t[0] == 'lin' and len(t[2]) == 1 and t[1] == 0:
        return value(t[2][0][0], flags, conds_ret)
    if t[0] == 'lin' and len(t[2]) == 1:
        v = value(t[2][0][0], flags, conds_ret)
        return None if v is None else bool(t[1] + t[2][0][1] * int(v))
    return None


def loads(ev, flags):
    """what the loads of the flags return once they are set"""
    out = {}
    for e in ev:
        if e[0] == 'aload' and e[1] in flags:
            out[e[2]] = flags[e[1]]
        elif e[0] == 'axchg' and e[1] in flags:
            out[e[3]] = flags[e[1]]
    return out


def predicate(pred, flags):
    """is the predicate true once the flags are set: True, False (not for every value of the rest), None"""
    worst = True
    for v, conds, ev in pred:
        d = loads(ev, flags)
        if any(value(t, flags, d) is (not b) for t, b in conds):
            continue            # not taken any more
        if any(e[0] in ('call', 'pcall', 'pcallee') and last(e[1]) not in ('load', 'operator bool') for e in ev):
            worst = None if worst is True else worst
            continue
        r = value(v, flags, d) if v is not None else None
        if r is True:
            continue
        if r is False:
            return False
        # what else it reads decides
        if v is not None and (v[0] in ('init', 'at', 'sym', 'hv') or v[0] in ('le0', 'eq0', 'not')):
            return False
        worst = None
    return worst


def waits(ctx, body, cls, touch, stops, get, field):
    P = ctx.prog
    w = "%s (%s:%s)" % (body.qn, body.file, body.line)
    r = runfn(ctx, body, Sync(cls if body.rect is None or not body.lam else cls, touch, body, P))
    res, I = r
    seen_ = {}
    streams = [(st, st.events(), None) for st, fl in res]
    for lid, L in I.loops.items():
        for b in L['backs']:
            streams.append((b, after_loop(b, lid), lid))
        for s, fl in L['exits']:
            streams.append((s, after_loop(s, lid), lid))
    nw = 0
    done = set()
    stops = [s for s in stops if s and s[0] == 'path']
    wait_mutex, wait_cv = set(), set()
    for st, ev, lid in streams:
        for i, e in enumerate(ev):
            if e[0] in SLEEPS and id(e) not in done:
                done.add(id(e))
                ctx.bad("wait", e[4], "the thread %s sleeps where a stop cannot wake it" % field, key="wait:sleep:" + body.qn)
            if e[0] != 'wait':
                continue
            k = (e[5], e[2], e[1])
            before = ev[:i]
            nw += k not in seen_
            seen_.setdefault(k, []).append((e, st, before))
    for (where, locks, cv), uses in seen_.items():
        for e, st, before in uses[:24]:
            if not stops:
                ctx.und("wait", where, "how the thread is stopped is not known")
                continue
            for s in stops:
                onewait(ctx, e, st, before, s, body, where, locks, cv)
    # every iteration ends once the flag is set
    sl = set()
    nloops = 0
    for lid, L in I.loops.items():
        if L['fn'].key != body.key and not (L['fn'].rect is not None and L['fn'].rect.s == cls):
            continue
        hasw = any(e[0] in ('wait',) + SLEEPS for b in L['backs'] for e in after_loop(b, lid))
        outer = L['fn'].key == body.key and not any(o != lid and any(x[0] == 'loop' and x[1] == lid for b in I.loops[o]['backs'] for x in after_loop(b, o)) for o in I.loops)
        if not hasw and not outer or not L['backs']:
            continue
        if not hasw and (not any(e[0] == 'aload' for b in L['backs'] for e in after_loop(b, lid))) and not endless(L):
            continue
        nloops += 1
        for s in stops:
            flags = {a: v for a, v, i in s[1]}
            for b in L['backs']:
                ev = after_loop(b, lid)
                n0 = len(L['head'].conds())
                d = loads(ev, flags)
                for e in ev:
                    if e[0] == 'wait' and isinstance(e[3], list) and predicate(e[3], flags) is True:
                        d[e[4]] = True
                cs = b.conds()[n0:]
                ok = any(value(t, flags, d) is (not v) for t, v in cs)
                hid = any(x[0] == 'pcall' for x in ev) or any(x[0] == 'call' and P_touch(ctx.prog, touch, x[1]) for x in ev) \
                    or any(isinstance(y, tuple) and y and y[0] == 'init' and y[1][0] == 'this' and len(y[2]) and (y[1], y[2]) in s[9] for t, v in cs for y in subterms(t))
                ctx.check(True if ok else None if hid else False, "leave", L['loc'], "an iteration of %s does not look at what %s sets (path %s)"
                          % (body.qn, s[8], [(show(t)[:50], v) for t, v in cs][:4]), key="leave:" + body.qn)
    if not nloops and not nw:
        ctx.und("leave", w, "the loop of the thread is not recognised")
    return nw


def endless(L):
    return all(fl[0] != 'N' for s, fl in L['exits'])


def P_touch(P, touch, qn):
    return any(f.key in touch for f in P.bodies(str(qn)))


def onewait(ctx, e, st, before, s, body, where, locks, cv):
    _, fl, slocks, notes, jloc, hid, heldat, p, jqn, plain = s
    flags = {a: v for a, v, i in fl}
    kind = e[6]
    if e[3] is None:
        # no predicate: the flag must have been looked at since the mutex was taken, and the wait bounded by the loop
        k = max([i for i, x in enumerate(before) if x[0] == 'lock' and x[1] in locks or x[0] == 'wait'], default=0)
        seen_ = [x for x in before[k:] if x[0] == 'aload' and x[1] in flags] if k is not None else []
        conds = dict((t, v) for t, v in st.conds())
        ok = any(conds.get(x[2]) is (not flags[x[1]]) for x in seen_)
        init = [x for x in st.conds() if any(isinstance(y, tuple) and y and y[0] == 'init' and (y[1], y[2]) in plain for y in subterms(x[0]))]
        ctx.check(True if ok else None if init else False, "wait", where, "the wait does not look at what %s sets after taking the mutex: a stop just before it is missed" % jqn, key="wait:pred:" + body.qn)
        used = {x[1] for x in seen_ if conds.get(x[2]) is (not flags[x[1]])}
    elif e[3] == '?':
        ctx.und("wait", where, "the predicate of the wait is not known")
        used = set(flags)
    else:
        r = predicate(e[3], flags)
        if r is False and any(isinstance(y, tuple) and y and y[0] == 'init' and (y[1], y[2]) in plain for v, cs, ev in e[3] for t in [v] + [c_[0] for c_ in cs] if t is not None for y in subterms(t)):
            r = None            # a plain member, set under the mutex
        ctx.check(r, "wait", where, "the wait goes on although %s has set %s" % (jqn, ", ".join(sorted(str(a[2][-1]) for a in flags)) or "nothing"), key="wait:pred:" + body.qn)
        used = {x[1] for v, cs, ev in e[3] for x in ev if x[0] == 'aload' and x[1] in flags} if r is True else set()
    if not locks:
        ctx.check(None, "wait", where, "the mutex held at the wait is not known")
        return
    # ---- the stop, against this wait
    if heldat and any(m in locks for m in heldat):
        ctx.bad("signal", jloc, "%s joins while it holds the mutex the thread needs to leave its wait%s" % (jqn, p), key="signal:held:" + jqn)
    got = [i for i, c_ in notes if c_ == cv]
    ctx.check(True if got else None if hid else False, "signal", jloc, "%s joins without notifying the condition variable the thread waits on%s" % (jqn, p), key="signal:notify:" + jqn)
    if not got:
        return
    for a in used:
        i = max(x[2] for x in fl if x[0] == a)
        after = [(l, j, u) for l, j, u in slocks if l in locks and u > i]
        ctx.check(True if after else None if hid else False, "signal", jloc, "%s does not take the thread's mutex after setting %s: the notification can fall between the thread's last look and its wait%s"
                  % (jqn, a[2][-1], p), key="signal:mutex:" + jqn)
        if after:
            # notified after the mutex has been taken
            ok = any(n > min(j for l, j, u in after) and n > i for n in got)
            ctx.check(True if ok else None if hid else False, "signal", jloc, "%s notifies before it has set the flag and taken the mutex%s" % (jqn, p), key="signal:order:" + jqn)


# ---------------------------------------------------------------- owner and start
def evidence(st, T, ev=None):
    return any(e[0] in ('join',) and e[1] == T for e in (ev if ev is not None else st.events()))


def owner(ctx, P, qn, cls, ms, T, get, starters, joiners, field, running):
    ds = [m for m in ms if m.dtor and m.body is not None]
    for d in ds:
        if not d.body:
            continue
    dj = [d for d in ds if any(j.key == d.key for j in joiners)]
    if dj:
        d = dj[0]
        for st, fl in get(d)[0]:
            joined = evidence(st, T)
            olds = old_values(st)
            off = any(v is None and k is True or v is not None and (a == T and v is False or a in running and v != running[a]) for a, v, n, k, i in olds)
            ctx.check(True if joined or off else None if hidden_sync(st) else False, "owner", "%s (%s:%s)" % (d.qn, d.file, d.line),
                      "the destructor leaves the thread %s running (path %s)" % (field, pathstr(st, 3)), key="owner:" + qn)
        return
    # no destructor stops it: the function that starts it must not return before it is stopped
    for m in starters:
        w = "%s (%s:%s)" % (m.qn, m.file, m.line)
        for st, fl in get(m)[0]:
            ev = st.events()
            k = [i for i, e in enumerate(ev) if started(st, T, e)]
            if not k or fl[0] == 'X':
                continue
            off = [o for o in old_values(st) if o[4] > k[0] and o[3] is True and o[1] is not None and o[2] is not None and isc(o[2]) and bool(o[2][1]) == o[1]]
            if any(e[0] == 'join' and e[1] == T for e in ev[k[0]:]) or off and any(e[0] == 'join' and e[1] == T for s2, f2 in get(m)[0] for e in s2.events()):
                ctx.ok("owner", w, "joined before returning")
                continue
            runs = [i for i, e in enumerate(ev) if e[0] == 'run' and i > k[0]]
            hs = [e for e in ev[k[0]:runs[-1]] if e[0] == 'handler'] if runs else []
            if not runs or not hs:
                ctx.check(None if hidden_sync(st) else False, "owner", w, "nothing joins the thread %s before its owner goes away (path %s)" % (field, pathstr(st, 2)), key="owner:" + qn)
                continue
            loop = ev[runs[-1]][1]
            for h in hs:
                if h[2] is None:
                    ctx.und("owner", h[3], "what the handler does is not known")
                    continue
                for v, cs, hev in h[2]:
                    erronly = any(any(isinstance(y, tuple) and y and (y[:2] == ('sym', 'signal') or y[0] == 'init' and y[1][:2] == ('v', 990)) for y in subterms(t)) for t, b in cs) \
                        or any(x[0] == 'call' and 'error_code' in str(x[1]) for x in hev)
                    off = any(x[0] == 'axchg' and x[1] in set(a for a, b_ in running.items()) | {x[1]} for x in hev)
                    j = any(x[0] == 'join' and x[1] == T for x in hev)
                    # a path that found it stopped already
                    cd = dict((t, b) for t, b in cs)
                    already = any(x[0] == 'axchg' and x[3] in cd and isc(x[2]) and cd[x[3]] == bool(x[2][1]) for x in hev) or any(x[0] == 'acasfail' or x[0] == 'joinable' and x[1] == T and cd.get(x[3]) is False for x in hev)
                    s_ = any(x[0] == 'stop' and x[1] == loop for x in hev)
                    hid = any(x[0] in ('pcall',) for x in hev)
                    ctx.check(True if j or already else None if hid or erronly else False, "owner", h[3], "the signal handler does not stop the thread %s" % field, key="owner:handler:" + qn)
                    ctx.check(True if s_ else None if hid or erronly else False, "owner", h[3], "the signal handler does not stop the server's loop", key="owner:loop:" + qn)


def starts(ctx, get, starters, T, field):
    for m in starters:
        w = "%s (%s:%s)" % (m.qn, m.file, m.line)
        for st, fl in get(m)[0]:
            ev = st.events()
            k = [i for i, e in enumerate(ev) if started(st, T, e)]
            if not k:
                continue
            if len(k) > 1:
                ctx.check(None, "start", ev[k[1]][5], "the thread %s is started twice" % field)
            if any(e[0] == 'run' for e in ev[k[0]:]):
                ctx.ok("start", w, "started once: the function blocks")
                continue
            olds = [o for o in old_values(st) if o[4] < k[0]]
            rmw = [o for o in olds if o[3] is True and o[2] is not None]
            good = any(o[1] is not None and isc(o[2]) and bool(o[2][1]) != o[1] for o in rmw) or any(o[3] == 'joinable' and o[0] == T and o[1] is False for o in olds)
            same = any(o[1] is not None and isc(o[2]) and bool(o[2][1]) == o[1] for o in rmw)
            hid = hidden_sync(st)
            held = st_locked(ev, k[0] - 1, k[0]) if k[0] else False
            ctx.check(True if good else None if hid or held else False, "start", w,
                      ("the thread %s is started although it runs already (path %s)" if same else "the thread %s is started without having found that it does not run (path %s)") % (field, pathstr(st, 4)), key="start:" + m.qn)
