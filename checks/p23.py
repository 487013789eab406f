"""P23: what an admin request may change."""
from admin import *
import tables
import p11

EXPLANATION = (
    "The admin request handler is interpreted abstractly with the request's method, URI and host as unknown texts. The conditions of its paths are decided on sets of texts that "
    "together make up every text (one text each, or all that begin with a prefix and go on differently), so every path is labelled with exactly the requests that take it. An operation that "
    "changes the registry may only stand on paths of the requests specified for it, after the loop that validates every tag, with the arguments the request gives. The registry's deletions are "
    "interpreted down to the hash tables they touch, and the identity parsed from the URI is compared position by position.")
ASSUMPTIONS = ["Poco hands the handler the request line's method, URI and Host header, and its JSON parser and Var conversions throw or give what they say",
               "a URI is compared as the client sent it (no percent decoding, query strings count as part of it), as the code documents"]
RULES = {
    "gate": "only a localhost POST to /config/common_tags, or DELETE below /metrics/A or /metrics/g, changes anything",
    "host": "localhost is recognised with and without a port",
    "valid": "common tags are changed only after every key was found allowed and every value a string",
    "allowed": "the allowed tags are the documented ones",
    "apply": "each tag of the request is deleted when its value is empty and set to it otherwise",
    "kind": "a delete names the kind of meter in its path",
    "table": "deleting touches only the table of that kind",
    "id": "the meter deleted is the one named by the rest of the path",
}
ALLOWED = {"mantisJobId", "mantisJobName", "mantisUser", "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"}


def tri(b, sure):
    return True if b else (False if sure else None)


def states(ctx):
    """[(path of the requests, events, state, what)] for whole paths and for iterations of loops"""
    paths, I, fn = handler(ctx)
    out = [(p, p.st.events(), 'path') for p in paths]
    parts = ctx._parts
    for lid, L in I.loops.items():
        for b in L['backs']:
            out.append((Path(b, ('N',), parts, I), after_loop(b, lid), lid))
    return out, I, fn


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    rows, I, fn = states(ctx)
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    want = {(u, m): 0 for u, m in WANT}
    nev = 0
    for p, evs, kind in rows:
        es = effects(evs)
        rq = requests(p)
        hid = hidden(p.st) or p.mixed
        for e in es:
            nev += 1
            for u, m, h, sure in rq:
                ok = (u, m) in WANT and h == 'local' and e[1].name in WANT[(u, m)]
                ctx.check(tri(ok, sure), "gate", e[5], "%s is called for %s %s from %s host" % (e[1].name, m, u if u != 'other' else '(another URI)', 'a local' if h == 'local' else 'another'), key="gate:%s:%s:%s" % (m, u, h))
        if kind != 'path':
            continue
        for u, m, h, sure in rq:
            if (u, m) in WANT and u not in ('/config/common_tags', 'A?', 'g?') and h == 'local':
                k = u[0]
                want[(u, m)] += 1
                name = 'DeleteMeter' if u.endswith('/') else 'DeleteAllMeters'
                mine = [e for e in es if e[1].name == name]
                ctx.check(tri(len(mine) == 1 and len(es) == 1, sure and not hid), "kind", w,
                          "DELETE /metrics/%s calls %s, specified one %s" % (u + ('...' if u.endswith('/') else ''), [e[1].name for e in es], name), key="delete:" + u)
                for e in mine:
                    t = e[3][0] if e[3] else None
                    ctx.check(None if t is None or t[0] != 's' else tri(t[1] == k, sure), "kind", e[5], "DELETE /metrics/%s deletes meters of kind %s" % (u, show(t) if t else '?'), key="kind:" + u)
                    if name == 'DeleteMeter' and len(e[3]) > 1:
                        ident(ctx, e, p)
            if (u, m) == ('/config/common_tags', 'POST') and h == 'local':
                want[(u, m)] += 1
    for (u, m), n in want.items():
        if u not in ('A?', 'g?'):
            ctx.check(True if n else None, "host", w, "no path was found for a local %s %s" % (m, u))
    # localhost has to be let in, whatever the spelling
    locs = {}
    for p, evs, kind in rows:
        if kind != 'path':
            continue
        es = {e[1].name for e in effects(evs)}
        for x in p.sure['host']:
            if hclass(x) == 'local':
                for u, m, h, sure in requests(p):
                    if (u, m) in (('A', 'DELETE'), ('g', 'DELETE')):
                        locs.setdefault((repr(x), u), []).append((bool(es), sure and not hidden(p.st)))
    for (x, u), rs in sorted(locs.items()):
        ctx.check(True if any(a for a, _ in rs) else False if all(s for _, s in rs) else None, "host", w, "a request to host %s is not taken as local (DELETE /metrics/%s)" % (x, u), key="host:%s" % x)
    ctx.anchor("operations that change something", nev)
    tags(ctx, rows, I, w)
    deletes(ctx)
    parsed(ctx)


WANT = {('/config/common_tags', 'POST'): ('UpdateCommonTag', 'EraseCommonTag')}
for _k in 'Ag':
    WANT[(_k, 'DELETE')] = WANT[(_k + '/', 'DELETE')] = WANT[(_k + '?', 'DELETE')] = ('DeleteMeter', 'DeleteAllMeters')
    WANT[(_k + '?', 'DELETE')] = ()


# ------------------------------------------------------------------ common tags
def element(e, which):
    """(container value, index) when the term is the key or value of an element of a JSON object"""
    if e[0] == 'init' and isinstance(e[1], tuple) and e[1][0] == 'mem' and e[1][1][0] == 'jext' and len(e[2]) == 2 and e[2][0][0] == 'i' and e[2][1] == which:
        return e[1][1], e[2][0][1]
    if e[0] == 'at' and isinstance(e[1], tuple) and e[1][0] == 'addr':
        return element(('init',) + e[1][1:], which)
    return None


def text_of(v):
    """the JSON value a text was extracted from"""
    if v[0] == 'init' and isinstance(v[1], tuple) and v[1][0] == 'mem' and v[1][1][0] == 'jext' and not v[2]:
        return v[1][1][1]
    if v[0] == 'jext':
        return v[1]
    if v[0] == 'init' and isinstance(v[1], tuple) and v[1][0] == 'mem' and v[1][1][0] == 'jext' and v[2] == (('i', Z),):
        return v[1][1][1]
    return None


def allowed_set(ctx, start):
    """the constant texts of the container that begins at an address"""
    if start[0] != 'addr':
        return None, None
    root, path = start[1], tuple(x for x in start[2] if x != ('i', Z))
    if root[0] == 'this' and len(path) == 1:
        for f in ctx.prog.record(root[1]).fields:
            if f['n'] == path[0]:
                if f.get('i') is None:
                    return None, path[0]
                return {x["v"] for x in ctx.prog.walk(f['i']) if x.get("k") == "Str"}, path[0]
    return None, None


def tags(ctx, rows, I, w):
    # loops that establish the validity of every element
    valid = {}
    for lid, L in I.loops.items():
        objs = set()
        for b in L['backs']:
            seen_, keyok, strok, odd = None, None, None, False
            for t, v in b.conds():
                if t[0] == 'in':
                    e = element(t[2], 'first')
                    if e is not None and is_index(e[1], lid):
                        keyok = v if keyok is not False else False
                        seen_ = e[0]
                        S, f = allowed_set(ctx, t[1])
                        if S is None:
                            ctx.und("allowed", L['loc'], "the list of allowed tags is not understood: %s" % show(t[1]))
                        else:
                            ctx.check(S == ALLOWED, "allowed", L['loc'], "the allowed tags are %s" % sorted(S ^ ALLOWED), key="allowed")
                            unchanged(ctx, f)
                elif t[0] == 'jis' and t[2] == 'string':
                    e = element(t[1], 'second')
                    if e is not None and is_index(e[1], lid):
                        strok = v
                        seen_ = seen_ or e[0]
            objs.add((seen_, keyok is True, strok is True))
        # the loop is left early only for good
        early = [fl for x, fl in L['exits'] if fl[0] == 'N' and not at_end(x, lid)]
        over = {o for o, _, _ in objs} - {None}
        if len(over) == 1:
            valid[lid] = (next(iter(over)), all(k for _, k, _ in objs), all(s for _, _, s in objs), not early)
    n = 0
    for p, evs, kind in rows:
        es = [e for e in effects(evs) if e[1].name in ('UpdateCommonTag', 'EraseCommonTag')]
        if kind != 'path' and not es:
            # an iteration of a loop that applies: does it skip an element?
            if any(e[1].name in ('UpdateCommonTag', 'EraseCommonTag') for q, ev2, k2 in rows if k2 == kind for e in effects(ev2)):
                ctx.check(None if hidden(p.st) else False, "apply", I.loops[kind]['loc'], "a tag of the request is skipped (path %s)" % pathstr(p.st, 3), key="skip")
            continue
        if not es:
            continue
        if not any((u, m) == ('/config/common_tags', 'POST') for u, m, h, s in requests(p)):
            continue
        before = [e[1] for e in p.st.events() if e[0] == 'loop']
        if kind != 'path':
            before = before[:max(j for j, e in enumerate(before) if e == kind)] if kind in before else before
        for e in es:
            n += 1
            el = element(content_of(e[3][0]), 'first')
            if el is None:
                ctx.check(False if text_of(content_of(e[3][0])) is not None or e[3][0][0] == 's' else None, "apply", e[5], "the tag changed is %s" % show(e[3][0]), key="apply:key")
                continue
            obj, ix = el
            vs = [valid[l] for l in before if l in valid and valid[l][0] == obj]
            ok = any(k and s and c_ for _, k, s, c_ in vs)
            known = understood(p.st) and all(understood(b) for l in before if l in I.loops for b in I.loops[l]['backs'])
            ctx.check(True if ok else False if known else None, "valid", e[5],
                      "common tags are changed although %s" % ("not every key and value of the request was checked before" if not vs else
                      "the loop before checks %s" % ['%s%s%s' % ('keys ' if k else '', 'values ' if s else '', '' if c_ else '(not all of them)') for _, k, s, c_ in vs]), key="valid")
            inloop = kind != 'path' and is_index(ix, kind)
            if kind == 'path' and (ix[0] == 'lp' and not at_end(p.st, ix[1])):
                ctx.check(False if understood(p.st) else None, "apply", e[5], "the changes end after this one", key="apply:last")
            elif kind == 'path' and isc(ix):
                ctx.check(False if understood(p.st) else None, "apply", e[5], "only element %s is changed" % show(ix), key="apply:last")
            else:
                ctx.check(True if inloop and len(es) == 1 else False if len(es) > 1 and understood(p.st) else None, "apply", e[5], "not exactly one change for each tag (%d)" % len(es), key="apply:one")
            empty = None
            V = None
            for t, v in p.st.conds():
                x = emptiness(t, v, obj, ix)
                empty = x if x is not None else empty
            if e[1].name == 'EraseCommonTag':
                ctx.check(True if empty is True else False if empty is False or not unknown(p, obj) else None, "apply", e[5], "a tag is deleted although its value is %s" % ("not empty" if empty is False else "not known to be empty"), key="erase")
            else:
                ctx.check(True if empty is False else False if empty is True or not unknown(p, obj) else None, "apply", e[5], "a tag is set although its value is %s" % ("empty" if empty else "not known to be non-empty"), key="update")
                v = content_of(e[3][1]) if len(e[3]) > 1 else None
                src = text_of(v) if v is not None else None
                ctx.check(True if src is not None and element(src, 'second') == (obj, ix) else False if v is not None and (v[0] == 's' or src is not None or element(v, 'first') is not None) else None, "apply", e[5],
                          "a tag is set to %s" % (show(v)[:80] if v is not None else '?'), key="value")
    ctx.anchor("changes of common tags", n)
    # every element is visited before the response says so
    for lid, L in I.loops.items():
        if any(effects(after_loop(b, lid)) for b in L['backs']):
            early = [x for x, fl in L['exits'] if fl[0] == 'N' and not at_end(x, lid)]
            ctx.check(True if not early else False if all(understood(x) for x in early) else None, "apply", L['loc'], "the loop that changes the tags ends before the last", key="early")


def emptiness(t, v, obj, ix):
    """True: the element's value is empty, False: it is not, None: the condition does not say"""
    def mine(a):
        return text_of(a) is not None and element(text_of(a), 'second') == (obj, ix)
    if t[0] == 'not':
        return emptiness(t[1], not v, obj, ix)
    if t[0] in ('eq0', 'le0'):
        k, ts = lin_of(t[1]) if t[1][0] == 'lin' else (0, {t[1]: 1})
        ts = dict(ts)
        if len(ts) != 1 or next(iter(ts))[0] != 'size' or not mine(next(iter(ts))[1]):
            return None
        q = next(iter(ts.values()))
        f = (lambda n: q * n + k == 0) if t[0] == 'eq0' else (lambda n: q * n + k <= 0)
        if f(0) != v:
            return False
        # linear in the size: if neither 1 nor anything above it satisfies the condition, it is 0
        if f(1) != v and (t[0] == 'le0' and (q > 0) == v or t[0] == 'eq0' and (v is False and False or v and (-k) // q <= 0)):
            return True
        return None
    if t[0] == 'streq' and ('s', '') in (t[1], t[2]):
        a = t[1] if t[2] == ('s', '') else t[2]
        return v if mine(a) else None
    return None


def unknown(p, obj):
    """is there a condition on the request's values that was not understood?"""
    return not understood(p.st)


def content_of(v):
    from models import content
    return content(v) if v[0] != 'ref' else v


def is_index(t, lid):
    return isinstance(t, tuple) and t[0] == 'lp' and t[1] == lid


def understood(st):
    """is every condition of the path one whose meaning is known here?"""
    if hidden(st):
        return False
    for t, v in st.conds():
        t = constants(t)
        while t[0] == 'not':
            t = t[1]
        if t[0] in ('in', 'jis', 'found') or what_of(t):
            continue
        if t[0] in ('eq0', 'le0'):
            k, ts = lin_of(t[1]) if t[1][0] == 'lin' else (0, {t[1]: 1})
            if all(a[0] in ('lp', 'size', 'found_at', 'addr') for a in dict(ts)):
                continue
        if t[0] == 'streq' and any(x[0] == 's' or text_of(x) is not None or element(x, 'first') for x in t[1:3]):
            continue
        return False
    return True


def at_end(x, lid):
    """was the loop left by its own condition?"""
    for t, v in x.conds():
        if t[0] == 'le0' and not v and any(isinstance(y, tuple) and y and y[0] == 'lp' and y[1] == lid for y in subterms(t)):
            return True
        if t[0] == 'eq0' and v and any(isinstance(y, tuple) and y and y[0] == 'lp' and y[1] == lid for y in subterms(t)):
            return True
    return False


def unchanged(ctx, field):
    """nothing changes the list of allowed tags"""
    if field is None:
        return
    P = ctx.prog
    for f in P.fns.values():
        if f.body is None or not f.repo:
            continue
        for x in P.walk(f.body):
            if x.get("k") == "MCall" and isinstance(x.get("o"), dict) and x["o"].get("k") == "Mem" and x["o"].get("f") == field:
                m = f.tu.fns[x["fn"]]
                ctx.check(True if m.c or m.name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'front', 'back', 'at', 'operator[]') else False, "allowed", "%s (%s)" % (f.qn, f.tu.loc(x.get("l"))),
                          "the list of allowed tags is changed by %s" % m.name, key="allowed:changed")


# ------------------------------------------------------------------ deletions
def deletes(ctx):
    K = p11.kinds(ctx)
    want = {'A': 'spectator::AgeGauge', 'g': 'spectator::Gauge'}
    for name in ('DeleteMeter', 'DeleteAllMeters'):
        fs = ctx.prog.bodies("spectator::Registry::" + name)
        ctx.need("registry function " + name, len(fs), 1)
        fn = fs[0]
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        S = ('init', ('p', fn.ps[0]['n']), ())
        res, I = runfn(ctx, fn, Client(), this=('lv', ('this', fn.rect.rec), ()))
        lits = {'A', 'g'}
        for st, fl in res:
            for t, v in st.conds():
                if any(x == S for x in subterms(t)):
                    lits |= lits_in(t, S)
        P = partition(lits)
        for st, fl in res:
            acc = [a for a in tables.accesses(st) if a.op in tables.SET and a.table is not None]
            for x in P:
                r = True
                for t, v in st.conds():
                    if any(y == S for y in subterms(t)):
                        y = truth(t, S, x)
                        r = r if y in (v, 'implied') else (None if y is None and r else False)
                        if r is False:
                            break
                if r is False:
                    continue
                sure = r is True and not hidden(st) and not I.loops
                k = x.pre if not x.open else ''
                if k not in want:
                    ctx.check(tri(not acc, sure), "table", w, "%s touches %s for the kind %r" % (name, [table_kind(K, a) for a in acc], x), key="table:%s:other" % name)
                    if name == 'DeleteMeter' and fl[0] == 'R':
                        ctx.check(True if fl[1] == Z else False if isc(fl[1]) and sure else None, "table", w, "%s reports a deletion for the kind %r" % (name, x), key="table:%s:ret" % name)
                    continue
                looked = [a for a in tables.accesses(st) if a.op in tables.FIND and a.table is not None and table_kind(K, a) == want[k] and a.key is not None]
                if name == 'DeleteMeter' and not acc and looked and all(isid(a.key, fn.ps[1]['n']) for a in looked):
                    ctx.check(None if fl[0] != 'R' or fl[1] != Z else True, "table", w, "nothing is deleted after looking the meter up")
                    continue
                kinds = [table_kind(K, a) for a in acc]
                ctx.check(None if None in kinds else tri(kinds == [want[k]], sure), "table", w, "%s of kind %s touches %s" % (name, k, kinds), key="table:%s:%s" % (name, k))
                if kinds != [want[k]]:
                    continue
                a = acc[0]
                if name == 'DeleteAllMeters':
                    ctx.check(True if a.op == 'clear' else None, "table", a.where, "%s does %s" % (name, a.op))
                else:
                    same = a.op == 'erase' and a.key is not None and isid(a.key, fn.ps[1]['n'])
                    if a.op == 'erase' and any(b.ret == a.key and isid(b.key, fn.ps[1]['n']) for b in looked):
                        ctx.check(True if fl[0] == 'R' and fl[1] == ONE else None, "table", a.where, "what was looked up is erased")
                        continue
                    ctx.check(True if same else False if a.op == 'clear' else None, "table", a.where, "%s does %s(%s)" % (name, a.op, show(a.key) if a.key else ''), key="table:one:" + k)
                    if fl[0] == 'R' and same:
                        v = fl[1]
                        h = erased(v, a)
                        ctx.check(h if h is not None else None, "table", w, "%s returns %s, specified whether something was deleted" % (name, show(v)), key="table:ret:" + k)


def erased(v, a):
    """is the value 'the erased number is not 0'?"""
    if isc(v):
        return False
    n = a.ret
    for t in (('le0', sub(ONE, n)), ('not', ('eq0', n)), ('not', ('le0', n)), n):
        if v == t:
            return True
    if v[0] in ('le0', 'eq0', 'not') and any(x == n for x in subterms(v)):
        return False
    return None


def isid(t, pname):
    """the term is the parameter, or a copy of it"""
    if t == ('init', ('p', pname), ()):
        return True
    if t[0] == 'agg' and t[2]:
        return all(v == ('init', ('p', pname), p) or isc(v) for p, v in t[2]) and any(v[0] == 'init' for _, v in t[2])
    if t[0] in ('fld',) and t[2] == ():
        return isid(t[1], pname)
    return False


def table_kind(K, a):
    if a.table[0] != 'addr':
        return None
    for x in a.table[2]:
        if x in K:
            return K[x]
    return None


# ------------------------------------------------------------------ the identity
def ident(ctx, e, p):
    """the identity deleted is parsed from the URI after /metrics/A/"""
    v = e[3][1]
    S = sym('uri')
    args = None
    if v[0] == 'ret' and v[1] == 'admin::parse_id':
        for x in p.st.events():
            if x[0] == 'op' and x[4] == v and x[3]:
                args = x[3][0]
    if args is None:
        ctx.check(None, "id", e[5], "the identity deleted is %s" % show(v)[:80])
        return
    n = len('/metrics/A/')
    base = add(('addr', ('strbuf', S), (('i', Z),)), c(n))
    ok = args[0] == 'bytes' and args[1] == base and args[2] == sub(('size', S), c(n))
    known = args[0] == 'bytes' and all(x[0] != 'ret' for x in subterms(args) if isinstance(x, tuple) and x)
    ctx.check(True if ok else False if known or args == S else None, "id", e[5], "the identity is parsed from %s, specified the URI after %d characters" % (show(args)[:80], n), key="id:from")


def parsed(ctx):
    fs = ctx.prog.bodies("admin::parse_id")
    if not fs:
        ctx.und("id", "admin", "the function that parses an identity was not found")
        return
    fn = fs[0]
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn, Client())
    S = ('init', ('p', fn.ps[0]['n']), ())
    B = ('addr', ('strbuf', S), (('i', Z),))
    N = ('size', S)

    def text(t):
        """(start, length) inside the text"""
        if t[0] == 'intern':
            t = t[1]
        if t == S:
            return Z, N
        if t[0] == 'bytes':
            o = sub(t[1], B)
            if not any(x == B for x in subterms(o)):
                return o, t[2]
        return None

    def isfind(t, ch, start):
        return t[0] == 'find' and t[1] in ('find', 'find_first_of') and t[2] == S and t[3] == ('s', ch) and t[4] == start

    def notfound(st, ch, start):
        return any(t[0] == 'found' and not v and isfind(t[1], ch, start) for t, v in st.conds())

    def added(st, t, lo):
        """tags t = base + one added; the separator before it at lo: check key and value, return where the value ends"""
        k, v = text(t[2]), text(t[3])
        if k is None or v is None:
            return None, None
        eq = v[0]
        E = sub(eq, ONE)
        ok = k[0] == add(lo, ONE) and isfind(E, '=', add(lo, ONE)) and k[1] == sub(E, add(lo, ONE))
        end = add(v[0], v[1])
        okv = isfind(end, ',', eq) or (end == N and notfound(st, ',', eq))
        return ok and okv, end

    F = None
    for st, fl in res:
        if fl[0] != 'R' or fl[1][0] != 'agg':
            ctx.und("id", w, "a result that is not understood")
            continue
        ent = dict(fl[1][2])
        names = [v for v in ent.values() if v[0] == 'intern']
        tg = [v for v in ent.values() if v[0] in ('tags', 'tags+', 'lp')]
        if len(names) != 1 or len(tg) != 1:
            ctx.und("id", w, "a result that is not understood: %s" % show(fl[1])[:80])
            continue
        nm, t = text(names[0]), tg[0]
        if nm is None:
            ctx.und("id", w, "a name that is not understood: %s" % show(names[0])[:80])
            continue
        whole = nm == (Z, N) and notfound(st, ',', Z)
        part = nm[0] == Z and isfind(nm[1], ',', Z)
        ctx.check(True if whole or part else None if hidden(st) else False, "id", w, "the name is the text from %s, %s characters" % (show(nm[0]), show(nm[1])[:60]), key="id:name")
        if whole:
            ctx.check(True if t == ('tags', ()) else False if t[0] == 'tags+' else None, "id", w, "an identity without a comma gets tags", key="id:none")
            continue
        if not part:
            continue
        F = nm[1]
        if t[0] == 'tags+' and t[1][0] == 'lp':
            L = sepvar(I, t[1][1], F)
            if L is None:
                ctx.und("id", w, "the separators' positions are not understood")
                continue
            ok, end = added(st, t, L)
            ctx.check(True if ok and end == N else False if ok is False and end is not None and not hidden(st) else None, "id", w, "a tag is added from the wrong part of the text: %s" % show(t)[:120], key="id:tag")
        elif t[0] == 'lp' or t == ('tags', ()):
            # nothing more: there has to be no further '='
            more = t[0] == 'lp' and not any(x[0] == 'found' and not v for x, v in st.conds())
            L = sepvar(I, t[1], F) if t[0] == 'lp' else None
            more = L is not None and not notfound(st, '=', add(L, ONE))
            comma = [v for x, v in st.conds() if x[0] == 'eq0']
            if t == ('tags', ()) and not I.loops:
                ctx.check(None, "id", w, "tags are not parsed on a path")
            elif t == ('tags', ()):
                # only on a path that cannot be (the comma that was found is not one)
                ctx.check(True if False in comma else None, "id", w, "tags are not parsed on a path")
            else:
                ctx.check(None if L is None else True if not more else None if hidden(st) else False, "id", w, "the tags end although a tag may follow (path %s)" % pathstr(st, 4), key="id:more")
        else:
            ctx.und("id", w, "tags that are not understood: %s" % show(t)[:80])
    for lid, L in I.loops.items():
        for b in L['backs']:
            tv = [(k, v) for k, v in b.mem.items() if v[0] == 'tags+' and v[1][0] == 'lp' and v[1][1] == lid]
            same = [k for k in L['W'] if k[0] != 'ref' and I.is_tags_key(L, k)] if hasattr(I, 'is_tags_key') else None
            pos = sepvar(I, lid, F) if F is not None else None
            if pos is None or len(tv) != 1:
                ctx.check(None, "id", L['loc'], "an iteration that is not understood")
                continue
            ok, end = added(b, tv[0][1], pos)
            nxt = [b.mem.get(k) for k in L['W'] if k[0] != 'ref' and L['head'].mem.get(k) == pos]
            good = ok and len(nxt) == 1 and nxt[0] == end
            known = ok is not None and len(nxt) == 1
            ctx.check(True if good else False if known and not hidden(b) else None, "id", L['loc'], "a tag is added from the wrong part of the text, or the next one is looked for in the wrong place: %s, next %s" % (
                show(tv[0][1])[:120], show(nxt[0])[:60] if nxt else '?'), key="id:tag")


def sepvar(I, lid, F):
    """the loop's variable that holds the position of the separator (it starts at the first)"""
    L = I.loops.get(lid)
    if L is None:
        return None
    r = [L['head'].mem.get(k) for k in L['W'] if k[0] != 'ref' and L['entry'].mem.get(k) == F]
    if not r and all(k[0] == 'ref' or (L['entry'].mem.get(k) or ('?',))[0] in ('tags', 'tags+') for k in L['W']):
        return F    # no position changes in the loop at all
    return r[0] if len(r) == 1 else None
