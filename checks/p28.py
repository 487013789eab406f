"""P28: nothing that points into a meter outlives the protection of the table that owns it."""
from common import *

EXPLANATION = (
    "The classes of meters (and of the cache's entries) are found from the types of the hash tables that lie next to a mutex. Over the typed syntax tree of the whole "
    "repository every place is then examined where a raw pointer, reference, iterator or container of them could outlive the lock: types of fields, of results and of "
    "reference parameters; locals whose initialiser takes a meter, or a part of one, out of a temporary owning pointer; locals that are set under a lock and used after its scope; "
    "and owning pointers built over a pointer they do not own. Where a function's result is followed it is followed back through members, smart pointers, iterators and "
    "locals to what owns it: a parameter, the object itself, or a table.")
ASSUMPTIONS = ["a shared_ptr keeps its object alive (and is never made from a pointer another owner will free, which is rule adopt)",
               "callers keep the object alive whose member function they call"]
RULES = {
    "field": "no field is a raw pointer or reference to a meter, and nothing that a table's owner hands out has one to an identity or its tags",
    "result": "a function that reads a table hands out owning pointers or copies",
    "out": "nothing that points into a table's meters is put into the caller's containers",
    "temporary": "no local keeps a part of a meter whose owning pointer is a temporary",
    "scope": "what points into a table is not used after the lock it was taken under is released",
    "adopt": "an owning pointer to a meter owns what it points to",
}
LOCKS = ('absl::MutexLock', 'absl::ReaderMutexLock', 'absl::WriterMutexLock', 'absl::ReleasableMutexLock', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock',
         'absl::MutexLockMaybe', 'std::shared_lock')
MUTEX = ('absl::Mutex', 'std::mutex', 'std::shared_mutex', 'std::recursive_mutex')
OWN = ('std::shared_ptr', 'std::unique_ptr')
PART = ('spectator::Id', 'spectator::Tags')


def parts(T, d=0):
    if T is None or isinstance(T, int) or d > 12:
        return
    yield T
    if T.to is not None:
        yield from parts(T.to, d + 1)
    for a in T.ta or ():
        yield from parts(a, d + 1)


def views(T, what):
    """does a value of this type hold raw pointers or references to one of these classes?"""
    return any(x.k in ('ptr', 'ref') and x.to is not None and x.to.rec in what for x in parts(T))


class World:
    def __init__(self, ctx):
        P = self.P = ctx.prog
        self.tables = {}            # (record, field) -> record of the owner
        self.meters = set()
        self.entries = set()
        for r in P.records.values():
            if not any(T.rec in MUTEX for T in r.ft.values()):
                continue
            for f, T in r.ft.items():
                if T.rec and 'map' in T.rec and T.ta and len(T.ta) > 1 and T.ta[1] is not None and not isinstance(T.ta[1], int):
                    V = T.ta[1]
                    ms = self.pointees(V)
                    rr = P.records.get(V.s)
                    if rr is not None and V.rec not in OWN:
                        inner = set().union(*[self.pointees(g) for g in rr.ft.values()]) if rr.ft else set()
                        if inner:
                            self.entries.add(V.rec)
                            ms |= inner
                    if ms:
                        self.tables[(r.qn, f)] = r
                        self.meters |= ms
        for r in P.records.values():
            if any(b.rec == 'spectator::Meter' for b in r.bases):
                self.meters.add(r.qn)
        self.owners = {r for r, _ in self.tables}
        self.fn_local = {}
        self.told = set()

    def pointees(self, T):
        out = set()
        for x in parts(T):
            y = x.ta[0] if x.rec in OWN and x.ta else x.to if x.k == 'ptr' else None
            if y is not None and not isinstance(y, int) and y.rec and any(m.name in ('MeterId', 'Update', 'Measure', 'Record') for m in self.methods(y)):
                out.add(y.rec)
        return out

    def methods(self, T, d=0):
        r = self.P.records.get(T.s.replace('const ', ''))
        if r is None or d > 4:
            return []
        return list(r.methods) + [m for b in r.bases for m in self.methods(b, d + 1)]

    # ---- where an expression's object comes from
    def inits(self, f):
        """local -> [(initialiser, is range)]"""
        if f.key not in self.fn_local:
            m = {}
            for n in self.P.walk(f.body):
                if n.get('k') == 'Decl':
                    for v in n['v']:
                        if isinstance(v, dict) and v.get('i') is not None:
                            m.setdefault(v['d'], []).append(v['i'])
                elif n.get('k') == 'RFor':
                    m.setdefault(n['v']['d'], []).append(n['r'])
                elif n.get('k') == 'Bin' and n.get('op') == '=' and n['a'].get('k') == 'Ref' and n['a'].get('d') is not None:
                    m.setdefault(n['a']['d'], []).append(n['b'])
            self.fn_local[f.key] = m
        return self.fn_local[f.key]

    def istable(self, n):
        return n.get('k') == 'Mem' and any(n.get('f') == f and n.get('rec') == r for r, f in self.tables)

    def fromtable(self, f, e, seen=()):
        """does the expression reach into a table?"""
        ini = self.inits(f)
        for n in self.P.walk(e):
            if self.istable(n):
                return True
            if n.get('k') == 'Ref' and n.get('d') in ini and n['d'] not in seen:
                if any(self.fromtable(f, i, seen + (n['d'],)) for i in ini[n['d']]):
                    return True
        return False


def children(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    W = World(ctx)
    P = ctx.prog
    ctx.need("tables of meters next to a mutex", len(W.tables), 1)
    ctx.need("classes of meters", len(W.meters), 9)
    fns = [f for f in P.fns.values() if f.body is not None and f.repo and not (f.file or '').startswith('tools/')]
    handed = fields(ctx, W, fns)
    reach = readers(W, fns)
    for f in sorted(fns, key=lambda f: (f.file, int(f.line), f.key)):
        ctx.fn(f)
        results(ctx, W, f, reach)
        temporaries(ctx, W, f)
        scopes(ctx, W, f)
        adopt(ctx, W, f)


def readers(W, fns):
    """functions that read a table, with everything that calls them and passes their result on"""
    out = {}
    for f in fns:
        if any(W.istable(n) for n in W.P.walk(f.body)):
            out[f.key] = "reads a table"
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.key in out or not views(f.rt, W.meters | W.entries):
                continue
            for n in W.P.walk(f.body):
                if n.get('k') in ('MCall', 'Call') and 'fn' in n:
                    g = f.tu.fns[n['fn']]
                    if g.key in out and views(g.rt, W.meters | W.entries):
                        out[f.key] = "passes on the result of " + g.qn
                        ch = True
                        break
    return out


def fields(ctx, W, fns):
    # classes whose objects leave a function of a table's owner, or of the registry
    out = set()
    for f in fns:
        if f.rect is not None and (f.rect.rec in W.owners or any(T.rec in W.owners for T in fieldtypes(W, f.rect)) or f.rect.rec in W.meters or 'Registry' in f.rect.rec):
            for T in [f.rt] + [p for p in f.pt if p.k in ('ref', 'ptr') and p.to is not None and not p.to.const]:
                out |= {x.rec for x in parts(T) if x.rec}
    n = 0
    for r in sorted(W.P.records.values(), key=lambda r: (r.loc, r.type.s)):
        if r.qn in ('std::pair',) or not r.qn.startswith(('spectator', 'admin', 'metatron')):
            continue
        for fl, T in r.ft.items():
            n += 1
            if views(T, W.meters | W.entries):
                ctx.bad("field", r.loc, "%s::%s is %s, which does not keep the meter alive" % (r.qn, fl, T.s[:100]), key="field:%s:%s" % (r.qn, fl))
            elif r.qn in out and views(T, set(PART)):
                ctx.bad("field", r.loc, "%s::%s is %s: the identity it points to dies with its meter, and objects of this class are handed out by the tables' owner" % (
                    r.qn, fl, T.s[:100]), key="field:%s:%s" % (r.qn, fl))
    ctx.anchor("fields", n)
    ctx.ok("field", "repository", "%d fields of %d classes" % (n, len(W.P.records)))
    return out


def fieldtypes(W, T):
    r = W.P.records.get(T.s)
    if r is None:
        return ()
    out = []
    for x in r.ft.values():
        out.append(x)
        rr = W.P.records.get(x.s)
        if rr is not None:
            out += rr.ft.values()
    return out


def own_part(W, f, e, seen=()):
    """the returned pointer or reference goes to a parameter, the object itself or its own member: True; to a table: False; else None"""
    k = e.get('k')
    if W.istable(e):
        return False
    if k == 'This':
        return True
    if k == 'Ref':
        if e.get('d') is None:
            return None
        if any(p.get('d') == e['d'] for p in f.ps):
            return True
        ini = W.inits(f).get(e['d'])
        if not ini or e['d'] in seen:
            return None
        vs = [own_part(W, f, i, seen + (e['d'],)) for i in ini]
        return False if False in vs else None if None in vs else True
    if k == 'Mem':
        return own_part(W, f, e['b'], seen)
    if k == 'MCall' and isinstance(e.get('o'), dict):
        r = own_part(W, f, e['o'], seen)
        return r
    if k in ('Call', 'Ctor') and e.get('a'):
        vs = [own_part(W, f, i, seen) for i in e['a'] if i.get('k') not in ('Int', 'Str', 'Null', 'Zero')]
        return False if False in vs else None if None in vs or not vs else True
    if k in ('Null', 'Int', 'Zero'):
        return True
    if k == 'Cond':
        vs = [own_part(W, f, i, seen) for i in (e['a'], e['b'])]
        return False if False in vs else None if None in vs or not vs else True
    cs = [c_ for c_ in children(e)]
    if len(cs) == 1:
        return own_part(W, f, cs[0], seen)
    return None


def results(ctx, W, f, reach):
    w = "%s (%s:%s)" % (f.qn, f.file, f.line)
    if f.ctor or f.dtor or f.rt is None:
        return
    both = W.meters | W.entries
    if f.rect is not None and f.rect.rec in W.meters | set(PART):
        return
    if views(f.rt, both | set(PART)) or (f.rt.k == 'ref' and any(x.rec in OWN and x.ta and not isinstance(x.ta[0], int) and x.ta[0] is not None and x.ta[0].rec in W.meters for x in parts(f.rt))):
        direct = f.key in reach
        vs = [own_part(W, f, n['e']) for n in W.P.walk(f.body) if n.get('k') == 'Ret' and isinstance(n.get('e'), dict)]
        filled = [n for n in W.P.walk(f.body) if n.get('k') == 'MCall' and f.tu.fns[n['fn']].name in ('push_back', 'emplace_back', 'insert', 'emplace', 'assign')
                  and f.rt.k not in ('ptr', 'ref') and any(W.fromtable(f, a) for a in n.get('a') or ())]
        if direct and reach[f.key] != "reads a table" and False not in vs and not filled:
            ctx.ok("result", w, reach[f.key] + ", where it is judged")
        elif False in vs or filled:
            first = f.qn not in {W.P.fns[k].qn for k in W.told}
            W.told.add(f.key)
            if first:
                ctx.bad("result", w, "%s is handed out: the meters may be freed while it is used" % f.rt.s[:90], key="result:" + f.qn)
        else:
            ctx.check(True if vs and None not in vs else None, "result", w, "where %s points to is not known" % f.rt.s[:90])
    elif any(x.rec in OWN and x.ta and not isinstance(x.ta[0], int) and x.ta[0] is not None and x.ta[0].rec in W.meters for x in parts(f.rt)):
        ctx.ok("result", w, "owning pointers")
    for p, T in zip(f.ps, f.pt):
        if T.k in ('ref', 'ptr') and T.to is not None and not T.to.const and T.to.k not in ('ptr',) and views(T.to, both) and not f.lam:
            put = [n for n in W.P.walk(f.body) if n.get('k') == 'MCall' and any(x.get('k') == 'Ref' and x.get('d') == p.get('d') for x in W.P.walk(n.get('o')))
                   and any(W.fromtable(f, a) for a in n.get('a') or ())]
            ctx.check(False if put else True, "out", w, "%s receives pointers into a table through %s" % (T.s[:90], p.get('n')), key="out:%s:%s" % (f.qn, p.get('n')))


def peel(e):
    while isinstance(e, dict) and e.get('k') in ('Cast', 'Mat', 'ExprC', 'Par') and isinstance(e.get('e'), dict):
        e = e['e']
    return e


def temp_owner(W, f, e):
    """is the object reached through a temporary owning pointer?"""
    e = peel(e)
    while isinstance(e, dict):
        T = f.tu.types[e['t']] if isinstance(e.get('t'), int) else None
        k = e.get('k')
        if T is not None and T.rec in OWN and e.get('vc') in ('r', 'x') and k in ('MCall', 'Call', 'Ctor', 'PCall'):
            # returned by value by some function, or made here
            if k == 'Ctor' and e.get('a') and peel(e['a'][0]).get('vc') == 'l' and len(e['a']) == 1:
                return False
            return T.ta and T.ta[0] is not None and not isinstance(T.ta[0], int) and T.ta[0].rec in W.meters
        if k == 'MCall' and isinstance(e.get('o'), dict):
            e = peel(e['o'])
        elif k == 'Mem':
            e = peel(e['b'])
        elif k == 'Un' and isinstance(e.get('e'), dict):
            e = peel(e['e'])
        elif k == 'Call' and len(e.get('a') or ()) == 1 and e.get('opc'):
            e = peel(e['a'][0])
        else:
            return False
    return False


def temporaries(ctx, W, f):
    both = W.meters | set(PART)
    for n in W.P.walk(f.body):
        if n.get('k') != 'Decl':
            continue
        for v in n['v']:
            if not isinstance(v, dict) or not isinstance(v.get('i'), dict) or not isinstance(v.get('t'), int):
                continue
            T = f.tu.types[v['t']]
            if T.k in ('ptr', 'ref') and T.to is not None and T.to.rec in both:
                t = temp_owner(W, f, v['i'])
                ctx.check(not t, "temporary", "%s (%s:%s) %s" % (f.qn, f.file, f.line, v.get('n')), "%s points into a meter whose owning pointer is gone at the end of the statement" % v.get('n'),
                          key="temporary:%s:%s" % (f.qn, v.get('n')))


def viewlike(W, T):
    if views(T, W.meters | W.entries | set(PART)):
        return True
    if T.k in ('ptr', 'ref') and T.to is not None and (T.to.rec in ('std::pair',) or T.to.rec in OWN):
        return True
    return bool(T.rec) and 'iterator' in T.rec and (any(x.rec in W.meters for x in parts(T)) or any(m + '>' in T.s or m + ',' in T.s for m in W.meters | W.entries))


def islock(f, s):
    if s.get('k') != 'Decl':
        return False
    return any(isinstance(v, dict) and isinstance(v.get('t'), int) and f.tu.types[v['t']].rec in LOCKS for v in s['v'])


def lockcall(f, s, names):
    return s.get('k') == 'Expr' and isinstance(s.get('e'), dict) and s['e'].get('k') == 'MCall' and f.tu.fns[s['e']['fn']].name in names and \
        f.tu.fns[s['e']['fn']].rect is not None and f.tu.fns[s['e']['fn']].rect.rec in MUTEX + LOCKS


def scopes(ctx, W, f):
    """locals set inside a lock's scope with something that points into a table, and used behind it"""
    if not any(W.istable(n) for n in W.P.walk(f.body)):
        return
    P = W.P
    decl = {}
    for n in P.walk(f.body):
        if n.get('k') == 'Decl':
            for v in n['v']:
                if isinstance(v, dict) and isinstance(v.get('t'), int):
                    decl[v['d']] = (v, f.tu.types[v['t']])
    n_ = 0

    def visit(block, after):
        """after: nodes that run behind this block"""
        nonlocal n_
        ss = block.get('s') or []
        for i, s in enumerate(ss):
            rest = ss[i + 1:]
            if islock(f, s):
                end = next((j for j, x in enumerate(rest) if lockcall(f, x, ('Release', 'unlock'))), len(rest))
                n_ += 1
                judge(rest[:end], rest[end:] + after)
            elif lockcall(f, s, ('Lock', 'lock', 'ReaderLock')):
                end = next((j for j, x in enumerate(rest) if lockcall(f, x, ('Unlock', 'unlock', 'ReaderUnlock'))), len(rest))
                n_ += 1
                judge(rest[:end], rest[end:] + after)
            sub_(s, rest + after)

    def sub_(s, after):
        if s.get('k') == 'Block':
            visit(s, after)
            return
        for c_ in children(s):
            if c_.get('k') == 'Lam':
                continue
            sub_(c_, after)

    def judge(inside, after):
        inner = {v['d'] for s in inside for n in P.walk(s) if n.get('k') == 'Decl' for v in n['v'] if isinstance(v, dict)}
        if not after:
            return
        top = {v['d'] for s in inside if s.get('k') == 'Decl' for v in s['v'] if isinstance(v, dict)}
        used = {n['d'] for s in after for n in P.walk(s) if n.get('k') == 'Ref' and n.get('d') is not None}
        sets = {}
        for s in inside:
            for n in P.walk(s):
                d, val = assigned(f, n)
                if d is not None:
                    sets.setdefault(d, []).extend(val)
                if n.get('k') == 'Decl':
                    for v in n['v']:
                        if isinstance(v, dict) and isinstance(v.get('i'), dict) and v['d'] in top:
                            sets.setdefault(v['d'], []).append(v['i'])
        for d, vals in sets.items():
            if d not in decl or d not in used or (d in inner and d not in top):
                continue
            v, T = decl[d]
            if viewlike(W, T):
                if f.key in W.told and any(n.get('k') == 'Ret' and any(x.get('k') == 'Ref' and x.get('d') == d for x in P.walk(n)) for s in after for n in P.walk(s)):
                    continue            # it is the result that is handed out
                ctx.check(not any(W.fromtable(f, x) for x in vals), "scope", "%s (%s:%s) %s" % (f.qn, f.file, f.line, v.get('n')),
                          "%s points into a table and is used after the lock is released" % v.get('n'), key="scope:%s:%s" % (f.qn, v.get('n')))
    visit(f.body if f.body.get('k') == 'Block' else {'s': [f.body]}, [])
    if n_:
        ctx.ok("scope", "%s (%s:%s)" % (f.qn, f.file, f.line), "%d critical sections" % n_)


def assigned(f, n):
    """(local, [values]) of an assignment or an addition to a container"""
    if n.get('k') in ('Bin', 'CAsg') and str(n.get('op', '')).endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
        l = peel(n['a'])
        if l.get('k') == 'Ref':
            return l.get('d'), [n['b']]
    if n.get('k') in ('MCall', 'Call') and 'fn' in n:
        g = f.tu.fns[n['fn']].name
        if g in ('operator=', 'push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'reset'):
            o = n.get('o')
            a = list(n.get('a') or ())
            if not isinstance(o, dict) and a:
                o, a = a[0], a[1:]
            o = peel(o) if isinstance(o, dict) else None
            if o is not None and o.get('k') == 'Ref':
                return o.get('d'), a
    return None, ()


def adopt(ctx, W, f):
    for n in W.P.walk(f.body):
        if n.get('k') not in ('Ctor', 'MCall') or not isinstance(n.get('fn'), int):
            continue
        g = f.tu.fns[n['fn']]
        if n['k'] == 'MCall' and g.name != 'reset':
            continue
        T = f.tu.types[n['t']] if n['k'] == 'Ctor' else g.rect
        if T is None or T.rec not in OWN + ('std::__shared_ptr',) or not T.ta or T.ta[0] is None or isinstance(T.ta[0], int) or T.ta[0].rec not in W.meters:
            continue
        a = n.get('a') or []
        if not a or g.pt is None or not g.pt:
            continue
        A = g.pt[0]
        if A.k != 'ptr':
            # the aliasing constructor shares the ownership of its first argument
            continue
        e = peel(a[0])
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        k = e.get('k')
        if k == 'New' or (k == 'MCall' and f.tu.fns[e['fn']].name == 'release'):
            ctx.ok("adopt", w)
        elif (k == 'MCall' and f.tu.fns[e['fn']].name in ('get', 'operator->', 'data')) or (k == 'Un' and e.get('op') == '&'):
            ctx.bad("adopt", w, "an owning pointer to %s is made from a pointer that something else owns" % T.ta[0].rec, key="adopt:" + f.qn)
        elif k in ('Null', 'Zero', 'Int'):
            continue
        else:
            ini = W.inits(f).get(e.get('d')) if k == 'Ref' else None
            ks = [peel(i).get('k') for i in ini or ()]
            ctx.check(True if ks and all(x == 'New' for x in ks) else False if ini and any(W.fromtable(f, i) for i in ini) else None, "adopt", w,
                      "an owning pointer to %s is made from a pointer whose owner is not known" % T.ta[0].rec)
