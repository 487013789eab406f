"""P30: common-tag changes reach every later payload and are race-free."""
import copy
import re
from collections import Counter
from common import *
import p13

EXPLANATION = (
    "The registry's operations on the common tags are interpreted abstractly: on every path an update leaves exactly the given value under the given key, an erase removes "
    "exactly the key, and the reader returns the configured map. The method that posts the batches is interpreted: on every path, at every post, the publisher's tags must "
    "be the result of a loop over the registry's common tags, read in the same cycle, that starts from no tags and adds each key with its value. The lockset analysis of "
    "P13 decides that all accesses to the configured map and to the publisher's tags are ordered.")
ASSUMPTIONS = ["std::map behaves as documented", "P19: the sending thread waits for its tasks before the next cycle"]
RULES = {
    "update": "setting a common tag leaves exactly the value under the key",
    "erase": "erasing a common tag removes exactly the key",
    "read": "the common tags read are the configured ones",
    "fresh": "payloads are built with the common tags read from the registry in the same publishing cycle",
    "all": "every common tag is taken over with its value, and nothing else",
    "guarded": "accesses to the common tags do not race",
}
REG = 'spectator::Registry'
ISMAP = re.compile(r'\b(unordered_)?map<std::(__cxx11::)?(basic_)?string\b.*?, *std::(__cxx11::)?(basic_)?string\b')


def last(q):
    return str(q).split('::')[-1]


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    registry(ctx)
    publisher(ctx)
    guarded(ctx)


def ismap(t):
    """the configured map"""
    return isinstance(t, tuple) and t and t[0] in ('addr', 'init') and t[2] and t[2][-1] == 'common_tags'


def registry(ctx):
    P = ctx.prog
    fs = [f for f in P.fns.values() if f.body is not None and not f.lam and f.rect is not None and f.rect.rec == REG and not f.ctor
          and (any(x.get('k') == 'Mem' and x.get('f') == 'common_tags' for x in P.walk(f.body)) or not f.ps and ISMAP.search(f.rt.s))]
    ctx.need("registry methods that use the common tags", len(fs), 2)
    wr = {'update': 0, 'erase': 0, 'read': 0}
    for f in fs:
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        strs = [d.get('n') for d, T in zip(f.ps, f.pt) if 'basic_string' in T.noref().s or 'string_view' in T.noref().s]
        kind = 'update' if len(strs) == 2 else 'erase' if len(strs) == 1 else 'read' if 'map<' in f.rt.s and not f.ps else None
        if kind is None:
            ctx.und("read", w, "what the method does with the common tags is not recognised")
            continue
        wr[kind] += 1
        res, I = runfn(ctx, f, Rec(lambda g: False))
        k = ('init', ('p', strs[0]), ()) if strs else None
        v = ('init', ('p', strs[1]), ()) if len(strs) == 2 else None
        for st, fl in res:
            if fl[0] not in ('R', 'N'):
                continue
            p = " (path %s)" % pathstr(st, 3)
            effects(ctx, f, w, kind, st, fl, k, v, I, p)
    for kd in wr:
        if not wr[kd]:
            ctx.und(kd, REG, "no method for it is recognised")


def isv(t, v):
    """the text of a string parameter"""
    if t == v or t is not None and t[0] == 'init' and t[1] == v[1] and t[2] == ():
        return True
    if t is not None and t[0] == 'agg' and any(x == v for _, x in t[2]):
        return True
    return t is not None and v in subterms(t)


def effects(ctx, f, w, kind, st, fl, k, v, I, p):
    ev = st.events()
    conds = st.conds()
    hid = hidden(st) or bool(I.loops)
    calls = []                 # operations on the map
    for e in ev:
        if e[0] == 'call' and e[2] is not None and ismap(e[2]):
            calls.append((last(e[1]), e[3] or (), e[4], e[5]))
        elif e[0] == 'pcallee' and isinstance(e[2], tuple) and e[2][0] == 'call' and len(e[2]) > 2 and ismap(e[2][2]):
            calls.append((last(e[1]), e[2][3:], e[2], e[3]))
    reads = ('find', 'end', 'begin', 'cend', 'cbegin', 'count', 'contains', 'size', 'empty', 'at', 'lower_bound')
    finds = [c_ for c_ in calls if c_[0] == 'find']
    ends = {c_[2] for c_ in calls if c_[0] in ('end', 'cend')}
    found = None
    for t, val in conds:
        s = set(x for x in subterms(t) if isinstance(x, tuple))
        if any(c_[2] in s for c_ in finds) and ends & s and t[0] in ('eq', 'eq0', 'call', 'ret'):
            found = not val
        for c_ in calls:
            if c_[0] in ('count', 'contains') and c_[2] in s or t == c_[2]:
                if t == c_[2]:
                    found = val
                elif t[0] == 'eq0':
                    found = not val
    for e in ev:
        # insertions that tell whether there was one
        if e[0] == 'call' and last(e[1]) in ('emplace', 'insert', 'try_emplace') and e[2] is not None and ismap(e[2]):
            for t, val in conds:
                if t == ('fld', e[4], ('second',)):
                    found = not val
    for c_ in finds:
        # what an operator== or != of the two returned
        for e in ev:
            if e[0] in ('call', 'pcallee') and last(e[1]) in ('operator==', 'operator!='):
                ret = e[4] if e[0] == 'call' else e[2]
                got = [val for t, val in conds if t == ret]
                if got:
                    found = got[-1] if last(e[1]) == 'operator!=' else not got[-1]
    if kind == 'read':
        muts = [c_ for c_ in calls if c_[0] not in reads]
        ctx.check(not muts, "read", w, "reading the common tags changes them: %s" % [c_[0] for c_ in muts] + p)
        r = fl[1]
        fresh = r is not None and r[0] == 'ret' and any(e[0] == 'call' and e[4] == r and not e[3] for e in ev) and r[1].endswith('map::' + last(r[1]))
        ctx.check(True if ismap(r) else False if fresh else None if hid or r is None or r[0] not in ('agg', 'init', 'c') else False, "read", w, "the tags returned are %s%s" % (show(r)[:60] if r else '?', p), key="read")
        return
    if kind == 'erase':
        er = [c_ for c_ in calls if c_[0] == 'erase']
        other = [c_ for c_ in calls if c_[0] not in reads + ('erase',)]
        for c_ in other:
            ctx.check(None if hid else False, "erase", c_[3], "%s on the common tags%s" % (c_[0], p), key="erase:" + c_[0])
        if not er:
            ctx.check(True if found is False else None if hid else False, "erase", w, "a common tag that is there is not removed" + p, key="erase:none")
        for c_ in er:
            a = c_[1]
            ok = len(a) == 1 and (a[0] == k or isv(a[0], k) or any(a[0] == x[2] or x[2] in subterms(a[0]) for x in finds if x[1] and isv(x[1][0], k)))
            ctx.check(True if ok else False if len(a) == 1 and a[0][0] in ('init', 's', 'cstr') else None, "erase", c_[3], "what is erased is %s%s" % ([show(x)[:40] for x in a], p), key="erase:key")
        return
    # ---- update: the value under the key afterwards
    setto, how = None, []
    for i, e in enumerate(ev):
        if e[0] == 'strset':
            t = e[1]
            src = [c_ for c_ in calls if c_[2] in subterms(t)]
            if not src:
                continue
            c_ = src[-1]
            if c_[0] in ('find', 'at', 'operator[]', 'try_emplace', 'emplace', 'insert', 'lower_bound'):
                how.append(('set', c_, e[2]))
    for c_ in calls:
        if c_[0] in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            how.append(('ins', c_, None))
        elif c_[0] not in reads + ('operator[]', 'erase'):
            how.append(('odd', c_, None))
    stored = [(kk, x) for kk, x in st.mem.items() if kk[0][0] == 'mem' and any(c_[2] in subterms(kk[0]) for c_ in calls if c_[0] == 'operator[]')]
    good = None
    for h, c_, val in how:
        if h == 'set':
            key = c_[1][0] if c_[1] else None
            if key is not None and not isv(key, k):
                ctx.check(False if key[0] in ('init',) else None, "update", c_[3], "the element of %s is set%s" % (show(key)[:40], p), key="update:key")
                continue
            if c_[0] == 'find' and found is not True:
                ctx.check(False if found is False else None, "update", c_[3], "an element that is not there is set%s" % p, key="update:missing")
                continue
            ok = isv(val, v)
            ctx.check(True if ok else False if val[0] in ('init', 's', 'cstr') else None, "update", c_[3], "the value set is %s%s" % (show(val)[:40], p), key="update:value")
            good = True
        elif h == 'ins':
            a = c_[1]
            pair = []
            for x in a:
                if x[0] == 'agg' and x[2] and x[2][0][0] and x[2][0][0][0] in ('first', 'second'):
                    d = dict(x[2])
                    for nm in ('first', 'second'):
                        y = [t for q, t in d.items() if q and q[0] == nm]
                        pair.append(y[0] if y else ('?',))
                else:
                    pair.append(x)
            if len(pair) < 2:
                ctx.und("update", c_[3], "what is inserted is not known" + p)
                good = None if good is None else good
                continue
            ctx.check(True if isv(pair[0], k) else False if pair[0][0] in ('init', 's') else None, "update", c_[3], "the key inserted is %s%s" % (show(pair[0])[:40], p), key="update:key")
            ctx.check(True if isv(pair[1], v) else False if pair[1][0] in ('init', 's') else None, "update", c_[3], "the value inserted is %s%s" % (show(pair[1])[:40], p), key="update:value")
            if c_[0] != 'insert_or_assign':
                erased = any(x[0] == 'erase' and x[1] and (isv(x[1][0], k)) for x in calls[:calls.index(c_)])
                settoo = any(h2 == 'set' and isv(val2, v) for h2, c2, val2 in how)
                ok = found is False or erased or settoo
                ctx.check(True if ok else None if hid else False, "update", c_[3], "a tag that is already there keeps its old value" + p, key="update:keep")
            good = True
        else:
            ctx.check(None if hid else False, "update", c_[3], "%s on the common tags%s" % (c_[0], p), key="update:" + c_[0])
    if good is None:
        ind = [c_ for c_ in calls if c_[0] == 'operator[]']
        if ind and isv(ind[-1][1][0], k) if ind and ind[-1][1] else False:
            ss = [e for e in ev if e[0] == 'strset' and ind[-1][2] in subterms(e[1])]
            got = ss[-1][2] if ss else (stored[-1][1] if stored else None)
            ctx.check(True if got is not None and isv(got, v) else None, "update", ind[-1][3], "the value set is %s%s" % (show(got)[:40] if got else '?', p), key="update:value")
        else:
            same = any(t[0] in ('streq', 'call') and val and any(v == x for x in subterms(t)) for t, val in conds)
            ctx.check(True if same else None if hid or how else False, "update", w, "the tag is not set" + p, key="update:none")
    for c_ in calls:
        if c_[0] == 'erase':
            i = calls.index(c_)
            ok = c_[1] and isv(c_[1][0], k) and any(x[0] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]') for x in calls[i:])
            ctx.check(True if ok else None, "update", c_[3], "a tag is erased by an update" + p, key="update:erase")


# ---------------------------------------------------------------- the publisher
class Post(Rec):
    """records, at each post, the value of the publisher's tags"""

    def __init__(self, cells):
        self.cells = cells
        super().__init__(self.rec, lambda g: True)

    def rec(self, fn):
        return fn.name == 'post' and fn.qn.startswith('asio') or fn.rect is not None and (fn.rect.rec in (REG, 'spectator::HttpClient') or str(fn.rect.rec).endswith('BlockingCounter') or 'DoNotOptimize' in str(fn.rect.rec)) \
            or fn.name in ('handle_aggr_response', 'get_http_config', 'measurements_to_json')

    def call(self, I, fn, obj, args, st, fr, node):
        if self.rec(fn) and (fn.name == 'post' or fn.name == 'measurements_to_json'):
            for root, path in self.cells:
                st.event('tags at', I.raw(st, root, path), (root, path), fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?')
        return super().call(I, fn, obj, args, st, fr, node)


def publisher(ctx):
    P = ctx.prog
    PUB = 'spectator::Publisher'
    posters = [f for f in P.fns.values() if f.body is not None and f.rect is not None and f.rect.rec == PUB and not f.lam
               and any(isinstance(x.get('fn'), int) and f.tu.fns[x['fn']].name == 'post' for x in P.walk(f.body))]
    ctx.need("methods that post batches", len(posters), 1)
    recs = [r for r in P.records.values() if r.qn == PUB]
    cells = [n for r in recs for n, T in r.ft.items() if T.noref().rec == 'spectator::Tags']
    if len(set(cells)) != 1:
        ctx.und("fresh", PUB, "the publisher's copy of the common tags is not recognised")
        return
    cell = cells[0]
    inst = [f for f in posters if 'Registry' in str(f.rect.s)] or posters
    # of the methods that post, the ones nothing else of the publisher wraps
    for f in inst[:1]:
        tops = callers(P, f)
        for g in tops or [f]:
            cycle(ctx, P, g, cell, f)
    # nobody else changes them after construction
    for f in P.fns.values():
        if f.body is None or f.rect is None or f.rect.rec != PUB or f.ctor:
            continue


def callers(P, f):
    """the method of the same class that calls it, if it does not read the tags itself"""
    if any(isinstance(x.get('fn'), int) and f.tu.fns[x['fn']].name in ('CommonTags', 'Measurements') for x in P.walk(f.body)):
        return []
    return [g for g in P.fns.values() if g.body is not None and g.rect is not None and g.rect.s == f.rect.s and not g.lam and g.key != f.key
            and any(isinstance(x.get('fn'), int) and g.tu.fns[x['fn']].key == f.key for x in P.walk(g.body))]


def cycle(ctx, P, f, cell, poster):
    w = "%s (%s:%s)" % (f.qn, f.file, f.line)
    cls = f.rect.s
    res, I = runfn(ctx, f, Post([(('this', f.rect.rec), (cell,))]))
    n = 0
    done = set()
    runs = [(st, st.events()) for st, fl in res]
    for L in I.loops.values():
        runs += [(b, b.events()) for b in L['backs']]
    for st, ev in runs:
        for i, e in enumerate(ev):
            if e[0] != 'tags at':
                continue
            n += 1
            v = e[1]
            k = (v, tuple(id(x) for x in ev[:i] if x[0] == 'rfor'))
            if k in done:
                continue
            done.add(k)
            judge(ctx, w, st, I, v, ev[:i], e, " (path %s)" % pathstr(st, 3))
    if not n:
        ctx.und("fresh", w, "where payloads are built is not recognised")
    ctx.anchor("posts and payloads", n)


def judge(ctx, w, st, I, v, ev, e, p):
    hid = any(x[0] == 'pcall' or x[0] == 'call' and str(x[1]) == '(lambda)' for x in ev)
    if v is None or v[0] == 'init' and v[1][0] == 'this':
        ctx.check(None if hid else False, "fresh", e[3], "batches are posted with the common tags of an earlier cycle" + p, key="fresh")
        return
    got = [x for x in ev if x[0] == 'op' and x[1].name == 'CommonTags']
    t = v
    u, n = v, 0
    while u[0] == 'tags+':
        u, n = u[1], n + 1
    if n and u[0] == 'lp' and u[1] in I.loops:
        # left from within the loop over the tags
        L = I.loops[u[1]]
        fl = {fl[0] for s_, fl in L['exits'] for q in L['W'] if q[0] != 'ref' and I.raw(s_, *q) == v}
        ctx.check(False if fl else None, "all", L['loc'], "the loop over the common tags stops early, or adds a tag twice" + p, key="all:break")
        return
    if t[0] == 'lp' and t[1] in I.loops:
        L = I.loops[t[1]]
        k = [q for q in L['W'] if q[0] != 'ref' and L['head'].mem.get(q) == t]
        # the posting loop itself may carry the cell unchanged
        if not k:
            ctx.und("fresh", e[3], "the publisher's tags are not known" + p)
            return
        x0 = I.raw(L['entry'], *k[0])
        if not (x0 is not None and x0[0] in ('tags', 'tags+')):
            if x0 is not None and x0[0] == 'init' and all(I.raw(b, *k[0]) == t or True for b in L['backs']) and x0[1][0] == 'this':
                ctx.check(None if hid else False, "fresh" if not got else "all", e[3], "the common tags are added to those of the last cycle" + p, key="fresh:start")
            else:
                ctx.und("all", e[3], "what the tags start from is not known" + p)
            return
        ctx.check(x0 == ('tags', ()), "all", e[3], "the tags start from %s%s" % (show(x0)[:60], p), key="all:start")
        rf = [x for x in L['entry'].events() + L['head'].events() if x[0] == 'rfor']
        src = rf[-1] if rf else None
        if src is not None and isinstance(src[1], tuple) and src[1][0] == 'addr' and src[1][1][0] == 'g':
            ctx.check(None if hid else False, "fresh", src[3], "the common tags are read from a variable that outlives the cycle" + p, key="fresh:static")
            return
        fromreg = src is not None and any(g[4] in subterms(src[2]) or g[4] == src[2] or g[4] in subterms(src[1]) for g in got if src[2] is not None or src[1] is not None)
        if not fromreg and src is not None:
            a = src[1]
            if a is not None and a[0] == 'addr':
                val = I.raw(L['entry'], a[1], a[2])
                fromreg = any(val == g[4] for g in got)
                stale = val is not None and val[0] == 'init' and val[1][0] in ('this', 'g')
            else:
                stale = False
        ctx.check(True if fromreg else None if not (src is not None and not got and not hid) else False, "fresh", e[3], "the tags are not read from the registry in this cycle" + p, key="fresh:source")
        m0 = len(L['head'].conds())
        for b in L['backs']:
            y = I.raw(b, *k[0])
            bp = " (path %s)" % [(show(tt)[:60], vv) for tt, vv in b.conds()[m0:]][:3]
            if y == t:
                ctx.check(False if len(b.conds()) > m0 else None if hid else False, "all", L['loc'], "a common tag is left out" + bp, key="all:skip")
                continue
            if y is None or y[0] != 'tags+' or y[1] != t:
                ctx.und("all", L['loc'], "what is added to the tags is not known" + bp)
                continue
            a, c_ = y[2], y[3]
            fa, fc = field(a), field(c_)
            ctx.check(True if fa == 'first' else False if fa is not None or lit(a) else None, "all", L['loc'], "the key taken over is %s" % show(a)[:60] + bp, key="all:key")
            ctx.check(True if fc == 'second' else False if fc is not None or lit(c_) else None, "all", L['loc'], "the value taken over is %s" % show(c_)[:60] + bp, key="all:value")
        for s_, fl in L['exits']:
            if fl[0] not in ('N', 'B'):
                continue
            if fl[0] == 'B':
                ctx.check(None if hid else False, "all", L['loc'], "the loop over the common tags stops early" + p, key="all:break")
        return
    if t[0] in ('tags', 'tags+'):
        ctx.check(False if not got and not hid else None, "fresh", e[3], "batches are posted with the tags %s%s" % (show(t)[:60], p), key="fresh")
        return
    if any(g[4] in subterms(t) for g in got):
        ctx.und("all", e[3], "how the tags are made from the registry's is not known" + p)
        return
    ctx.und("fresh", e[3], "the publisher's tags are %s%s" % (show(t)[:60], p))


def field(t):
    """first or second of the element visited"""
    if t[0] == 'intern':
        t = t[1]
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] in ('init', 'fld') and x[2] and x[2][-1] in ('first', 'second'):
            return x[2][-1]
        if isinstance(x, tuple) and x and x[0] in ('init', 'fld') and len(x[2]) > 1 and 'first' in x[2]:
            return 'first'
        if isinstance(x, tuple) and x and x[0] in ('init', 'fld') and len(x[2]) > 1 and 'second' in x[2]:
            return 'second'
    return None


def lit(t):
    return t[0] == 'intern' and t[1][0] == 's'


def guarded(ctx):
    sub = copy.copy(ctx)
    sub.items, sub.rules, sub.anchors, sub.functions, sub._seen, sub.count = [], {}, {}, set(), set(), {}
    p13.run(sub)
    n = 0
    for i in sub.items:
        if i[0] == 'bad' and 'common_tags' in i[3]:
            ctx.bad("guarded", i[2], i[3], key="guarded:" + str(i[2])[:40])
            n += 1
    if not n:
        ctx.ok("guarded", "repository", "lockset analysis of every access")
    ctx.anchor("accesses to guarded state", sub.anchors.get("accesses to guarded state", 0))
