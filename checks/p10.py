"""P10: the same identity always yields the same meter."""
from tables import *

EXPLANATION = (
    "Every function of the registry that hands out a meter, and the lookup of the percentile meters' cache, is interpreted abstractly together with everything it "
    "calls, the hash table opaque. On each path the returned pointer is traced to where it comes from: an element of the table reached through an insertion or a "
    "successful lookup, or the pointer that a known-new insertion put in. The key used, the identity the inserted meter is made with and the identity asked for are "
    "compared; operations that replace or remove elements are violations; a plain store after a failed lookup must be in the lookup's critical section. Equality and "
    "hash of identities are compared with the specified functions, and the cached hash with its invariant.")
ASSUMPTIONS = ["the table's emplace, insert and try_emplace leave an existing element of an equal key unchanged and are atomic under the table's mutex (P13)",
               "tags and interned references compare and hash by content (P08, P09)"]
RULES = {
    "returned": "a lookup returns the table's meter for the identity, or the one it has just inserted",
    "key": "table key and the new meter's identity are the identity asked for",
    "keep": "an existing meter is never replaced or removed by a lookup",
    "atomic": "a decision to create from an earlier failed lookup is made in one critical section",
    "nonnull": "what is put into a table points to a meter",
    "supplier": "the cache's suppliers make the meter of the identity they are given",
    "equal": "identities are equal exactly if names and tags are",
    "hash": "the hash is a function of name and tags only, and a cached one is reset or copied together with them",
}
REG = 'spectator::Registry'
CACHE = 'spectatord::expiring_cache'
ID = 'spectator::Id'


def idparts(t):
    """(name, tags) terms of an identity"""
    if t is None:
        return None
    if t[0] == 'addr':
        return None
    if t[0] == 'init':
        return (('init', t[1], t[2] + ('name_', 'data')), ('init', t[1], t[2] + ('tags_',)))
    if t[0] == 'agg':
        d = dict(t[2])
        n = d.get(('name_', 'data'), d.get(('name_',)))
        g = d.get(('tags_',))
        if n is not None and g is not None:
            return n, g
    return None


def handing(ctx):
    """functions of registry and cache that hand out a meter"""
    out = []
    for fn in ctx.prog.fns.values():
        if fn.body is None or fn.lam or fn.rect is None or fn.rt is None:
            continue
        if fn.rect.rec == REG and 'shared_ptr<' in fn.rt.s and any(k in fn.rt.s for k in kinds(ctx)):
            if fn.name != 'GetLogger':
                out.append(fn)
        if fn.rect.rec == CACHE and 'shared_ptr<' in fn.rt.s:
            out.append(fn)
    return sorted(out, key=lambda f: (f.file, f.line, f.key))


def kinds(ctx):
    if not hasattr(ctx, 'kinds10'):
        r = ctx.prog.record('spectator::detail::all_meters')
        ctx.kinds10 = {t.ta[0].rec for t in r.ft.values() if t.rec == 'spectator::detail::meter_map' and t.ta and t.ta[0] is not None}
        ctx.need("meter kinds", len(ctx.kinds10), 9)
    return ctx.kinds10


def asked(fn):
    ps = {p["n"]: T for p, T in zip(fn.ps, fn.pt)}
    for n, T in ps.items():
        if T.noref().rec == ID:
            return idparts(('init', ('p', n), ()))
    name = [n for n, T in ps.items() if 'string_view' in T.noref().s or 'basic_string' in T.noref().s]
    tags = [n for n, T in ps.items() if T.noref().rec == 'spectator::Tags']
    if len(name) == 1 and len(tags) == 1:
        return (('intern', ('init', ('p', name[0]), ())), ('init', ('p', tags[0]), ()))
    return None


def clear(t):
    """a term whose meaning is known"""
    return not any(isinstance(x, tuple) and x and x[0] in ('hv', 'sym', 'lp', 'ret') for x in subterms(t))


def sameid(got, want):
    g = idparts(got)
    if g is None or want is None:
        return None
    if g == want:
        return True
    return False if all(clear(x) for x in g) else None


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fns = handing(ctx)
    ctx.need("functions that hand out meters", len(fns), 10)
    for fn in fns:
        lookup(ctx, fn)
    suppliers(ctx)
    identity(ctx)


def lookup(ctx, fn):
    w = "%s%s (%s:%s)" % (fn.qn, "<%s>" % fn.rect.ta[0].s if fn.rect.ta and fn.rect.ta[0] else "", fn.file, fn.line)
    want = asked(fn)
    if want is None:
        ctx.und("key", w, "the identity asked for is not recognised")
        return
    res, I = runfn(ctx, fn, Rec(lambda f: False))
    for st, fl in res:
        if fl[0] not in ('R', 'N'):
            continue
        acc = accesses(st)
        p = " (path %s)" % pathstr(st, 4)
        for a in acc:
            if a.op in INS and a.val is not None:
                nn = holds(a.val, Z) or a.val == Z
                ctx.check(False if nn else True, "nonnull", a.where, "a null pointer is put into %s%s" % (show(a.table), p), key="nonnull:" + fn.qn)
        if nullelement(st, acc):
            continue
        v = fl[1]
        made = {e[3]: e for e in st.events() if e[0] == 'make' and len(e) > 4}
        sup = {e[3]: e for e in st.events() if e[0] == 'pcall'}
        tabs = {a.table for a in acc if a.op in INS + SET + ('operator[]',)}
        # ---- keep
        for a in acc:
            if a.op in SET and a.op not in ('rehash',):
                ctx.bad("keep", a.where, "%s on %s by a lookup%s" % (a.op, show(a.table), p), key="keep:%s:%s" % (fn.qn, a.op))
        for (root, path), val in st.mem.items():
            if root[0] != 'mem':
                continue
            el = element(('init', root, path), acc)
            if el is not None and (not el[1] or el[1] == ('v',)):
                pr = present(st, acc, el[0])
                other = [a for a in acc if a.op in ('find', 'contains', 'count') and a.table == el[0].table and a.key == el[0].key]
                miss = [a for a in other if present(st, acc, a) is False]
                slot = any(t[0] == 'eq0' and vv and any(x == ('init', root, path) for x in lin_of(t[1])[1]) for t, vv in st.conds())
                if slot:
                    continue
                if miss:
                    ctx.check(bool(miss[0].locks & el[0].locks) or not miss[0].locks and not el[0].locks, "atomic", el[0].where, "looked up and stored in different critical sections" + p)
                else:
                    ctx.bad("keep", el[0].where, "an element of %s is overwritten%s" % (show(el[0].table), p))
        # an element taken with at() has to be known to be there (it throws otherwise)
        for n, a in enumerate(acc):
            if a.op != 'at' or a.key is None:
                continue
            before = [b for b in acc[:n] if b.table == a.table and b.key == a.key and (b.op in INS + ('operator[]',) or b.op in ('find', 'contains', 'count') and present(st, acc, b) is True)]
            if before:
                ctx.check(any((b.locks & a.locks) or (not a.locks and not b.locks) for b in before), "atomic", a.where,
                          "the meter is taken from the table in another critical section than the one that found it" + p, key="atomic:at:" + fn.qn)
        # ---- returned
        ok, why, src = origin(st, acc, v, made, sup)
        ctx.check(ok, "returned", w, why + p, key="returned:%s" % fn.qn)
        # ---- key
        for a in acc:
            if a.op in FIND + INS + ('insert_or_assign',) and a.key is not None:
                ctx.check(sameid(a.key, want), "key", "%s %s" % (w, a.op), "the key of %s at %s is not the identity asked for: %s%s" % (a.op, a.where, ", ".join(show(x)[:80] for x in idparts(a.key) or (a.key,)), p), key="key:%s" % fn.qn)
        for e in made.values():
            if e[1] in kinds(ctx) and e[2]:
                ctx.check(sameid(e[2][0], want), "key", "%s new %s" % (w, e[1]), "the new meter's identity is not the one asked for: %s%s" % (", ".join(show(x)[:80] for x in idparts(e[2][0]) or (e[2][0],)), p), key="key:%s" % fn.qn)
        for e in sup.values():
            ids = [x for x in e[2] if idparts(x) is not None and (x[0] == 'agg' or x == ('init', want[1][1], ()))]
            m = [sameid(x, want) for x in ids]
            ctx.check(True if True in m else False if m and not None in m else None, "key", w, "the supplier at %s is not given the identity asked for%s" % (e[4], p), key="key:%s" % fn.qn)


def origin(st, acc, v, made, sup):
    """(verdict, reason, access)"""
    el = element(v, acc)
    if el is not None and el[1] in ((), ('v',)):
        a = el[0]
        if a.op == 'find' and present(st, acc, a) is False:
            return False, "the element of a failed lookup is returned", a
        if a.op == 'find' and present(st, acc, a) is None:
            return None, "an element is returned without a check that there is one", a
        return True, "", a
    # the pointer that was inserted
    for a in acc:
        if a.op in INS and a.val is not None and (a.val == v or holds(a.val, v)):
            if present(st, acc, a) is False:
                return True, "", a
            miss = [b for b in acc if b.op in ('find', 'contains', 'count') and b.table == a.table and b.key == a.key and present(st, acc, b) is False]
            if miss:
                    if any((b.locks & a.locks) or (not a.locks and not b.locks) for b in miss):
                        return True, "", a
                    return False, "the new meter is returned although another thread may have inserted one since the lookup", a
            return False, "the new meter is returned even if there was one already", a
        if a.op == 'operator[]':
            s = [(r, p) for (r, p), x in st.mem.items() if r[0] == 'mem' and x == v and element(('init', r, p), acc) and element(('init', r, p), acc)[0] is a]
            if s:
                return True, "", a
    if v is not None and v in made and isinstance(v, tuple) and v[0] == 'addr':
        # unregistered: allowed only beyond a limit
        lim = [t for t, vv in st.conds() if any(isinstance(x, tuple) and x and x[0] == 'call' and last(x[1]) == 'size' for x in subterms(t))]
        return (True if lim else (None if hidden(st) else False)), "a meter that is not in the table is returned", None
    if v in sup:
        return False if acc else None, "a supplied meter that is not in the table is returned", None
    if v == Z:
        return False, "no meter is returned", None
    return None, "where the result %s comes from is not known" % (show(v)[:80] if v is not None else '?'), None


def holds(val, v):
    return val[0] == 'agg' and any(x == v for _, x in val[2])


def suppliers(ctx):
    """functions that make a percentile meter for the cache"""
    n = 0
    for fn in ctx.prog.fns.values():
        if fn.body is None or fn.rt is None or 'unique_ptr<' not in fn.rt.s or len(fn.pt) != 2 or fn.pt[1].noref().rec != ID:
            continue
        n += 1
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        want = idparts(('init', ('p', fn.ps[1]["n"]), ()))
        res, I = runfn(ctx, fn, Rec(lambda f: f.ctor and f.rect is not None and f.rect.rec.startswith('spectator::Percentile')))
        for st, fl in res:
            made = [e for e in st.events() if e[0] == 'make']
            cons = [e for e in st.events() if e[0] == 'op']
            m = [sameid(x, want) for e in cons + made for x in (e[3] if e[0] == 'op' else e[2]) if idparts(x) is not None and x[0] == 'agg' or isinstance(x, tuple) and x[0] == 'init' and x[2] == () and x[1] == ('p', fn.ps[1]["n"])]
            ctx.check(True if True in m else False if False in m else None, "supplier", w, "the meter is made with another identity")
    ctx.need("suppliers of the cache", n, 1)


def identity(ctx):
    P = ctx.prog
    this = ('this', ID)
    NAME, TAGS, HASH = (('init', this, ('name_', 'data')), ('init', this, ('tags_',)), ('init', this, ('hash_',)))
    eqs = [f for f in P.bodies(ID + '::operator==') + P.bodies(ID + '::operator!=') + P.bodies('spectator::operator==', lambda f: f.pt and f.pt[0].noref().rec == ID)]
    ctx.need("equality of identities", len(eqs), 1)
    for fn in eqs:
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn, Rec(lambda f: False))
        pos = fn.name == 'operator=='
        a = ('this', ID) if len(fn.ps) == 1 else ('p', fn.ps[0]["n"])
        b = ('p', fn.ps[-1]["n"])
        nm = sub(('init', a, ('name_', 'data')), ('init', b, ('name_', 'data')))
        for st, fl in res:
            if fl[0] != 'R':
                continue
            for s2, v in I.fork(st, fl[1]):
                name, tags, strange = None, None, False
                for t, tv in s2.conds():
                    if t[0] == 'eq0' and t[1] in (nm, sub(Z, nm)):
                        name = tv
                    elif t[0] == 'call' and last(t[1]) == 'operator==' and 'Tags' in t[1] and set(t[2:]) == {('init', a, ('tags_',)), ('init', b, ('tags_',))}:
                        tags = tv
                    elif strange is not True and all(clear(x) and x[0] != 'call' or x[0] == 'call' and last(x[1]) in ('hash', 'operator()') for x in subterms(t) if isinstance(x, tuple) and x and x[0] in ('call', 'hv', 'sym', 'lp', 'ret')):
                        strange = 'hash'           # equal hashes do not make identities equal
                    else:
                        strange = True
                if v == pos:
                    okv = True if name is True and tags is True else None if strange is True else False
                else:
                    okv = True if name is False or tags is False else None if strange else False
                ctx.check(okv, "equal", w, "result %s with names %s and tags %s (path %s)" % (v, *("equal" if x else "different" if x is False else "not compared" for x in (name, tags)), pathstr(s2, 4)))
    # ---- hash
    hs = P.bodies(ID + '::Hash') or [f for f in P.fns.values() if f.body is not None and f.rect is not None and f.rect.rec == ID and 'hash' in f.name.lower()]
    others = [f for f in P.bodies('std::hash::operator()') if f.pt and f.pt[0].noref().s.replace('const ', '').strip() in ('spectator::Id', 'Id')]
    if not hs and not others:
        ctx.need("hash of identities", 0, 1)
    full = None
    for fn in hs:
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn, Rec(lambda f: False))
        vals = set()
        for st, fl in res:
            if fl[0] != 'R':
                continue
            c0 = dict(st.conds())
            cached = fl[1] == HASH
            if cached:
                nz = any(t == ('eq0', HASH) and v is False for t, v in st.conds())
                ctx.check(True if nz else None if st.conds() else False, "hash", w, "a hash that was never computed is returned (path %s)" % pathstr(st, 4))
            else:
                bad_ = atoms_of(fl[1], (NAME, TAGS))
                ctx.check(True if not bad_ else False if any(clear(x) for x in bad_) else None, "hash", w, "the hash depends on %s" % [show(x)[:60] for x in bad_][:3])
                vals.add(strip_tmp(fl[1]))
            nv = st.mem.get((this, ('hash_',)))
            if nv is not None:
                ctx.check(True if nv == HASH or nv == Z or strip_tmp(nv) == strip_tmp(fl[1]) else False if clear(nv) else None, "hash", w, "the hash remembered (%s) is not the one returned (%s)" % (show(nv)[:60], show(fl[1])[:60]))
        ctx.check(len(vals) <= 1 or None, "hash", w, "different hashes on different paths: %s" % [show(x)[:60] for x in vals][:3])
    for fn in others:
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        pn = ('p', fn.ps[0]["n"])
        res, I = runfn(ctx, fn, Rec(lambda f: False))
        for st, fl in res:
            if fl[0] != 'R':
                continue
            bad_ = atoms_of(fl[1], (('init', pn, ('name_', 'data')), ('init', pn, ('tags_',)), ('init', pn, ('hash_',))))
            ctx.check(True if not bad_ else False if any(clear(x) for x in bad_) else None, "hash", w, "the hash depends on %s" % [show(x)[:60] for x in bad_][:3])
    # ---- nobody changes name or tags under a remembered hash
    n = 0
    for fn in P.fns.values():
        if fn.body is None or fn.lam or fn.rect is None or fn.rect.rec != ID or fn.st or fn.dtor:
            continue
        n += 1
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn, Rec(lambda f: False))
        for st, fl in res:
            if fl[0] == 'X':
                continue
            if fl[0] == 'R' and fl[1] is not None and fl[1][0] == 'agg' and fn.rt is not None and fn.rt.noref().rec == ID:
                d = dict(fl[1][2])
                h = d.get(('hash_',))
                src = h[1:] if h is not None and h[0] == 'init' and h[2] and h[2][-1] == 'hash_' else None
                if src is not None:
                    pre = src[1][:-1]
                    same = idparts(fl[1]) == (('init', src[0], pre + ('name_', 'data')), ('init', src[0], pre + ('tags_',)))
                    ctx.check(same, "hash", w, "the identity returned keeps a hash remembered for other tags", key="hash:stale:" + fn.name)
                elif h is not None:
                    ctx.check(True if h == Z else False if isc(h) else None, "hash", w, "the identity returned remembers the hash %s" % show(h)[:60])
            wr = [p for (r, p) in st.mem if r == this and p and p[0] in ('name_', 'tags_') and st.mem[(r, p)] != ('init', r, p)]
            if not wr and not fn.ctor:
                continue
            h = st.mem.get((this, ('hash_',)))
            if h is None and not fn.ctor:
                ctx.bad("hash", w, "changes %s and keeps the remembered hash" % wr[0][0], key="hash:stale:" + fn.name)
                continue
            if h is None:
                ctx.und("hash", w, "what a new identity remembers as its hash is not known")
                continue
            src = h[1] if h[0] == 'init' and h[2] == ('hash_',) else None
            copies = src is not None and all(st.mem[(this, p)] == ('init', src, p) for p in wr)
            ctx.check(True if h == Z or copies else False if isc(h) or src is not None else None, "hash", w, "a new identity starts with the remembered hash %s" % show(h)[:60])
    ctx.need("members of identities", n, 3)


def strip_tmp(t):
    """without the addresses of temporaries (stateless function objects)"""
    if isinstance(t, tuple):
        if t and t[0] == 'addr' and t[1][0] in ('t', 'v'):
            return ('addr', ('tmp',), ())
        return tuple(strip_tmp(x) for x in t)
    return t


def atoms_of(t, allowed):
    """leaves of a term other than the allowed ones and constants"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x or x in allowed:
            return
        if any(x[0] == 'init' and a[0] == 'init' and x[1] == a[1] and x[2][:len(a[2])] == a[2] for a in allowed):
            return
        if x[0] in ('c', 'f'):
            return
        if x[0] == 'call' and last(x[1]) in ('begin', 'end', 'cbegin', 'cend', 'data'):
            out.append(('call', x[1]))
            return
        if x[0] == 'addr':
            if x[1][0] not in ('t', 'v'):
                out.append(x)
            return
        if x[0] in ('init', 'ret', 'sym', 'hv', 'lp', 'fld', 'g'):
            out.append(x)
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y:
                        go(z[0] if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], int) else z)
                else:
                    go(y)
    go(t)
    return out
