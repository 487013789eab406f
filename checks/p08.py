"""P08: the string pool."""
from common import *
import ivl

EXPLANATION = (
    "The generated character table is compared entry by entry with the Atlas set. Intern is abstractly interpreted with the table opaque: on "
    "every path the reference returned must be one found in the table or inserted into it, and what is inserted must be a private, "
    "NUL-terminated copy whose every byte is the table's image of the argument's byte (shown from the copying loop's body and bounds). "
    "Queries over all functions of the program show that references are only made inside the pool, that pool entries are never removed, "
    "replaced or freed while the process runs, that the pool object itself is never destroyed, and that its hash and equality are those of the text.")
ASSUMPTIONS = ["texts are shorter than 4 GiB", "hopscotch_map finds an entry iff an equal key was inserted, and insert never replaces one"]
RULES = {
    "table": "the table maps letters, digits and . - _ ~ ^ to themselves and every other byte to _",
    "copy": "the interned copy has len+1 bytes: the image of every byte of the text, then NUL",
    "key": "what is inserted is keyed by the private copy with its full length, and refers to that same copy",
    "result": "the reference returned is one held by the table",
    "keep": "entries of the table are never removed, replaced or freed",
    "locked": "look-up and insertion happen with the pool's mutex held",
    "maker": "references to text are made nowhere but in the pool",
    "pool": "the pool lives until the process ends",
    "equal": "pool hash and equality depend on the whole text and its length only; references compare by identity",
    "whole": "every form of intern_str hands over the whole text",
}
POOL = 'spectator::StringPool'
OKCH = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.-_~^")


def byte_of(t, text):
    """the index of a term that is a byte of the text, or None"""
    if t[0] == 'cast':
        return byte_of(t[3], text)
    if t[0] == 'init' and t[1] == ('mem', text) and len(t[2]) == 1 and t[2][0][0] == 'i':
        return t[2][0][1]
    if t[0] == 'lin' and len(t[2]) == 1 and t[1] == 0 and t[2][0][1] == 1:
        return byte_of(t[2][0][0], text)
    return None


def image(ctx, w, v, text):
    """(index, problem) of a value that is the table image of a byte of the text"""
    if v[0] == 'cast':
        return image(ctx, w, v[3], text)
    if v[0] == 'init' and v[1][0] == 'g' and v[1][1].endswith('kAtlasChars') and len(v[2]) == 1:
        ix = v[2][0][1]
        b = byte_of(ix, text)
        if b is None:
            return None, None
        x, u8 = ix, False
        while x[0] == 'cast' or (x[0] == 'lin' and len(x[2]) == 1 and x[1] == 0):
            if x[0] == 'lin':
                x = x[2][0][0]
                continue
            if x[1] == 8 and not x[2]:
                u8 = True
            x = x[3]
        return b, None if u8 else "bytes above 127 index outside the table"
    b = byte_of(v, text)
    if b is not None:
        return b, "the byte is stored as it is"
    if isc(v):
        return None, "a constant is stored"
    return None, None


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    p = ctx.prog
    # ---- table
    n = 0
    for src, tu in sorted(p.tus.items()):
        for name, g in tu.globals.items():
            if name.endswith('kAtlasChars'):
                t = ivl.table_of(g)
                if t is None:
                    ctx.und("table", name, "not a constant table")
                    continue
                n += 1
                ctx.check(len(t) == 256, "table", "%s in %s" % (name, src), "%d entries" % len(t))
                for i, x in enumerate(t):
                    ctx.check(x & 255 == (i if i in OKCH else 95), "table", "%s in %s" % (name, src), "byte %d (%r) maps to %d" % (i, chr(i), x))
    ctx.need("character tables", n)
    # ---- who makes references
    made = 0
    for fn in p.bodies():
        for e in p.walk([fn.body, fn.inits]):
            if e.get("k") == "Ctor":
                f2 = fn.tu.fns[e["fn"]]
                if f2.rect is not None and f2.rect.rec == 'spectator::StrRef' and len(e.get("a", [])) == 1 and f2.pt and f2.pt[0].k == 'ptr':
                    made += 1
                    ctx.check(fn.rect is not None and fn.rect.rec == POOL or in_pool(p, fn), "maker", "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l"))),
                              "a reference to text is made outside the pool")
            if e.get("k") in ("Bin", "CAsg") and e.get("op") == "=" and e["a"].get("k") == "Mem" and e["a"].get("rec") == 'spectator::StrRef':
                ctx.check(fn.rect is not None and fn.rect.rec in (POOL, 'spectator::StrRef'), "maker", "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l"))), "a reference's text is changed")
    ctx.anchor("places that make references", made)
    # ---- the table is append-only
    tab = [nm for nm, t in p.record(POOL).ft.items() if t.rec in ('tsl::hopscotch_map', 'std::unordered_map', 'absl::flat_hash_map', 'std::map')]
    if not tab:
        ctx.und("keep", POOL, "no table member")
    grow = {'find', 'end', 'begin', 'cbegin', 'cend', 'insert', 'emplace', 'try_emplace', 'emplace_hint', 'size', 'empty', 'reserve', 'contains', 'count', 'at', 'rehash',
            'max_load_factor', 'load_factor', 'bucket_count'}
    drop = {'erase', 'clear', 'swap', 'insert_or_assign', 'extract', 'operator='}
    uses = 0
    for fn in p.bodies():
        for e in p.walk([fn.body, fn.inits]):
            if e.get("k") == "MCall" and e["o"].get("k") == "Mem" and e["o"].get("rec") == POOL and e["o"]["f"] in tab:
                f2 = fn.tu.fns[e["fn"]]
                uses += 1
                if fn.dtor:
                    continue
                w = "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l")))
                ctx.check(True if f2.name in grow else False if f2.name in drop else None, "keep", w, "the table's %s is called" % f2.name)
    ctx.need("uses of the table", uses)
    # ---- the pool object
    for fn in p.bodies():
        for e in p.walk(fn.body):
            if e.get("k") == "Decl":
                for v in e["v"]:
                    T = fn.tu.types[v["t"]]
                    if T.noref().rec == POOL:
                        w = "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l")))
                        ctx.check(T.k == 'ref', "pool", w, "the pool is destroyed %s" % ("when the process exits, while references are in use" if v.get("st") else "at the end of the block"))
            if e.get("k") == "Del" and any(fn.tu.types[x["t"]].rec == POOL or (fn.tu.types[x["t"]].to is not None and fn.tu.types[x["t"]].to.rec == POOL) for x in [e["e"]] if "t" in x):
                ctx.bad("pool", "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l"))), "the pool is deleted")
            if e.get("k") == "Decl":
                for v in e["v"]:
                    T = fn.tu.types[v["t"]]
                    if T.rec in ('std::unique_ptr', 'std::shared_ptr') and T.ta and T.ta[0] is not None and T.ta[0].rec == POOL:
                        ctx.bad("pool", "%s (%s)" % (fn.qn, fn.tu.loc(e.get("l"))), "the pool is destroyed when its owner is")
    pools = p.bodies('spectator::the_str_pool')
    for fn in pools:
        st = [v for e in p.walk(fn.body) if e.get("k") == "Decl" for v in e["v"] if v.get("st")]
        ctx.check(True if st else None, "pool", "%s (%s:%s)" % (fn.qn, fn.file, fn.line), "no static pool")
        news = [e for e in p.walk(fn.body) if e.get("k") == "New"]
        inst = [v for v in st if v.get("i")]
        for e in news:
            ins = any(e is x for v in inst for x in p.walk(v["i"]))
            ctx.check(True if ins else None, "pool", "%s (%s:%s)" % (fn.qn, fn.file, fn.line), "the pool is not made by the static's initialiser")
    # ---- Intern
    fns = [f for f in p.bodies(POOL + '::Intern') if len(f.ps) == 2]
    ctx.need("Intern", len(fns))
    for fn in fns:
        intern(ctx, fn, tab)
    for fn in p.bodies(POOL + '::Intern'):
        if len(fn.ps) == 1:
            forward(ctx, fn, lambda f: f.qn == POOL + '::Intern' and len(f.pt) == 2)
    for fn in p.bodies('spectator::intern_str'):
        forward(ctx, fn, lambda f: f.qn == POOL + '::Intern' and len(f.pt) == 2)
    equality(ctx)


def in_pool(p, fn):
    """a lambda or helper inside a pool method"""
    return fn.qn.startswith(POOL + '::')


def forward(ctx, fn, pred):
    w = "%s(%s) (%s:%s)" % (fn.qn, fn.pt[0].s, fn.file, fn.line)
    T = fn.pt[0].noref()
    # a counted text must not go through a form that takes a C string
    res, I = runfn(ctx, fn, Rec(lambda f: pred(f) or T.k != 'ptr' and len(f.pt) == 1 and f.pt[0].k == 'ptr' and f.qn in (POOL + '::Intern', 'spectator::intern_str')))
    src = ('init', ('p', fn.ps[0]["n"] or '0'), ())
    if T.k == 'ptr':
        P, N = src, ('strlen', src)
    elif T.rec == 'std::basic_string_view':
        P, N = ('svp', src), ('svn', src)
    else:
        P, N = ('addr', ('strbuf', src), (('i', Z),)), ('size', src)
    for st, fl in res:
        if fl[0] != 'R':
            continue
        cs = ops(st)
        ctx.check(seen(len(cs) == 1, st), "whole", w, "the pool is asked %d times (path %s)" % (len(cs), pathstr(st)))
        if len(cs) != 1:
            continue
        if len(cs[0][3]) == 1:
            ctx.bad("whole", w, "the text is cut at its first NUL")
            continue
        a, n = cs[0][3]
        sa, sn = set(subterms(a)), set(subterms(n))
        ok = None
        if a == P and (n == N or I.dom.prove_eq0(st, sub(n, N))):
            ok = True
        elif n != N and (isc(n) or (n[0] in ('lin', 'cast', 'strlen') and (N in sn or n == ('strlen', P)))):
            ok = False
        elif a != P and P in sa:
            ok = False
        ctx.check(ok, "whole", w, "the pool gets %s with length %s" % (show(a), show(n)))
        if fl[1] is not None and not (fl[1] == cs[0][4] or cs[0][4] in set(subterms(fl[1]))):
            ctx.check(False if isc(fl[1]) else None, "whole", w, "the pool's answer is not what is returned: %s" % show(fl[1]))


def intern(ctx, fn, tab):
    p = ctx.prog
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    res, I = runfn(ctx, fn)
    text, ln = (('init', ('p', x["n"]), ()) for x in fn.ps)
    mux = None
    for st, fl in res:
        if fl[0] != 'R':
            continue
        path = pathstr(st)
        ev = st.events()
        # -- locked
        held = False
        tcalls = []
        for e in ev:
            if e[0] == 'lock' and any(POOL == x[1] for x in subterms(e[1]) if isinstance(x, tuple) and len(x) > 1 and x[0] == 'this'):
                held = True
            elif e[0] == 'unlock':
                held = False
            elif e[0] == 'call' and e[2] is not None and any(isinstance(x, tuple) and x[:1] == ('addr',) and x[2][:1] and x[2][0] in tab for x in [e[2]]):
                tcalls.append(e)
                ctx.check(held, "locked", "%s %s" % (w.split(" ")[0], e[1].rsplit('::', 1)[-1]), "the table is used without the pool's mutex (%s)" % e[5] if len(e) > 5 else "")
        # -- what is inserted
        ins = [e for e in tcalls if e[1].rsplit('::', 1)[-1] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign')]
        fnd = [e for e in tcalls if e[1].rsplit('::', 1)[-1] == 'find']
        frees = [e[3][0] for e in ev if e[0] == 'call' and e[1] in ('free', 'std::free')] + [e[1] for e in ev if e[0] == 'del']
        copies = set()
        for e in ins:
            kp, kl, vp = entry(e[3])
            if kp is None:
                ctx.und("key", w, "inserted: %s" % (tuple(show(x) for x in e[3]),))
                continue
            allocd = [x for x in ev if x[0] == 'call' and x[1] in ('malloc', 'std::malloc', 'calloc', 'operator new', 'strndup') and x[4] == kp]
            heap = kp[0] == 'addr' and kp[1][0] == 'heap' or kp[0] == 'heap'
            ctx.check(True if allocd or heap else False if kp == text or text in set(subterms(kp)) or kp[0] == 'addr' else None, "key", w,
                      "the table's key is %s, which is not the pool's own copy" % show(kp))
            ctx.check(True if kl == ln or I.dom.prove_eq0(st, sub(kl, ln)) else False if isc(kl) or lin_of(kl) else None, "key", w, "the key's length is %s" % show(kl))
            if vp is not None:
                ctx.check(True if vp == kp else False if vp == text or isc(vp) else None, "key", w, "the reference's text is %s, the key's %s" % (show(vp), show(kp)))
            if allocd or heap:
                copies.add(kp)
                for a in allocd:
                    if a[1] in ('malloc', 'std::malloc', 'operator new'):
                        t = I.truth(st, I.le(add(ln, ONE), decast(a[3][0])))
                        # a size that is known to be smaller
                        ctx.check(True if t is True else False if lin_of(decast(a[3][0])) or decast(a[3][0]) == ln or isc(a[3][0]) else None, "copy", w, "the copy gets %s bytes for a text of %s" % (show(a[3][0]), show(ln)))
                content(ctx, w, I, st, kp, text, ln, ev.index(e))
        # -- what is returned
        d = data_of(fl[1])
        ok, why = None, "returned: %s" % show(fl[1])
        if d is None:
            pass
        elif d == text:
            ok = False
        elif d == Z:
            ok = False
        elif d in copies:
            won = [t for t, v in st.conds() if v and any(isinstance(x, tuple) and x[:1] == ('ret',) and 'insert' in str(x[1]) or isinstance(x, tuple) and 'emplace' in str(x[1:2]) for x in subterms(t))]
            ok = True if won else False
            why = "the new copy is returned without knowing that it was inserted"
        elif d[0] == 'init' and d[2][-2:] == ('second', 'data'):
            its = set(subterms(d))
            its |= {v for (root, pth), v in st.mem.items() if any(isinstance(x, tuple) and x[:1] == ('addr',) and x[1] == root for x in its)}
            if any(isinstance(x, tuple) and x[:1] == ('ret',) and 'find' in str(x[1]) for x in its):
                hit = [1 for t, v in st.conds() for x in [t] if isinstance(x, tuple) and 'operator' in str(x) or 'find' in str(x)]
                okey = [e for e in fnd if any(e[4] == x for x in its)]
                ok = True if hit and okey else None
                why = "an entry is returned that was not found"
                for e in okey:
                    kp, kl, _ = entry(e[3])
                    if kp is not None:
                        ctx.check(True if kl == ln else False if isc(kl) or lin_of(kl) else None, "key", w, "looked up with length %s" % show(kl))
            else:
                ok = True
        ctx.check(ok, "result", w, why + " (path %s)" % path)
        # -- freed
        for x in frees:
            if x in copies:
                gone = [v for t, v in st.conds() if 'insert' in str(t) or 'emplace' in str(t)]
                ctx.check(True if gone and gone[-1] is False else False if gone else None, "keep", w, "the copy is freed although the table may hold it (path %s)" % path)
                ctx.check(d != x, "keep", w, "the freed copy is returned")


def entry(vals):
    """(key text, key length, value text) of an insertion or look-up"""
    if len(vals) >= 1 and vals[0][0] == 'agg':
        d = dict(vals[0][2])
        g = lambda *ks: next((d[q] for q in d for kk in ks if q[-len(kk):] == kk), None)
        kp, kl = g(('first', 's'), ('s',)), g(('first', 'len'), ('len',))
        vp = g(('second', 'data'))
        if vp is None and len(vals) > 1:
            vp = data_of(vals[1])
        return kp, kl, vp
    return None, None, None


def data_of(v):
    if v is None:
        return None
    if v[0] == 'agg':
        d = dict(v[2])
        return d.get(('data',))
    if v[0] == 'init':
        return ('init', v[1], v[2] + ('data',))
    return None


def content(ctx, w, I, st, cp, text, ln, upto):
    """the copy's bytes: image of every byte, then NUL"""
    lv = I.deref(cp)
    root = lv[1]
    base = lv[2][:-1] if lv[2] and isinstance(lv[2][-1], tuple) else lv[2]

    def writes(s):
        return [(pth[len(base)][1], v) for (r, pth), v in s.mem.items() if r == root and len(pth) == len(base) + 1 and pth[:len(base)] == base and isinstance(pth[-1], tuple)]
    done = None
    why = "no loop that fills the copy was recognised"
    for lid, L in I.loops.items():
        for b in L['backs']:
            for ix, v in writes(b):
                lps = [x for x in set(subterms(ix)) if isinstance(x, tuple) and x[:1] == ('lp',) and x[1] == lid]
                if len(lps) != 1:
                    continue
                lp = lps[0]
                off = I.raw(b, *lp[2:4]) if False else None
                bi, prob = image(ctx, w, v, text)
                if prob:
                    ctx.bad("copy", w, prob)
                    done = False
                    continue
                if bi is None:
                    why = "the byte stored is %s" % show(v)
                    continue
                if decast(bi) != decast(ix):
                    ctx.bad("copy", w, "byte %s of the text is stored at %s" % (show(bi), show(ix)))
                    done = False
                    continue
                # bounds: index runs 0..len-1 in steps of one
                e0 = L['entry'] if isinstance(L['entry'], State) else L['entry'][0]
                first = I.raw(e0, lp[2], lp[3]) if (lp[2], lp[3]) in e0.mem else e0.mem.get((lp[2], lp[3]))
                nxt = b.mem.get((lp[2], lp[3]))
                if decast(ix) != lp:
                    why = "index %s" % show(ix)
                    continue
                step = sub(decast(nxt), lp) if nxt is not None else None
                cover = first == Z and step == ONE
                if first is not None and isc(first) and first != Z or step is not None and isc(step) and step != ONE:
                    ctx.bad("copy", w, "the copying loop runs from %s in steps of %s" % (show(first), show(step)))
                    done = False
                    continue
                ex = [I.truth(x[0], I.le(ln, lp)) for x in L['exits']]
                inb = I.truth(b, I.le(add(lp, ONE), ln))
                if not cover:
                    why = "loop from %s, step %s" % (first, step)
                elif all(t is True for t in ex) and ex:
                    done = True if done is None else done
                else:
                    stops = [x[0] for x, t in zip(L['exits'], ex) if t is not True]
                    known = [x for x in stops if I.truth(x, I.le(add(lp, ONE), ln)) is True or lin_conds(x, lp, ln)]
                    if known:
                        ctx.bad("copy", w, "the copying loop can end before the last byte (path %s)" % pathstr(known[0]))
                        done = False
                    else:
                        why = "end of the copying loop not understood"
                if inb is not True and cover:
                    if lin_conds(b, lp, ln):
                        ctx.bad("copy", w, "the copying loop can run past the last byte (path %s)" % pathstr(b))
                        done = False
    ctx.check(done if done is not False else True, "copy", w, why)
    last = [v for ix, v in writes(st) if ix == ln or I.dom.prove_eq0(st, sub(ix, ln))]
    zero = [e for e in st.events() if e[0] == 'call' and e[1] == 'calloc']
    ctx.check(True if zero or (last and last[-1] == Z) else False if last and isc(last[-1]) or done is True and not hidden(st) else None, "copy", w, "no NUL ends the copy")


def lin_conds(s, lp, ln):
    """is the path's last look at the index a comparison with the length?"""
    for t, v in s.conds():
        ts = set(subterms(t))
        if lp in ts and ln in ts and t[0] in ('le0', 'eq0'):
            return True
    return False


def equality(ctx):
    p = ctx.prog
    for fn in p.bodies('spectator::StringComparer::operator()'):
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn)
        a, b = (('init', ('p', x["n"]), ()) for x in fn.ps[:2])
        P = [('init', x[1], ('s',)) for x in (a, b)]
        N = [('init', x[1], ('len',)) for x in (a, b)]
        for st, fl in res:
            if fl[0] != 'R':
                continue
            r = fl[1]
            for s2, same in I.fork(st.clone(), I.eq(N[0], N[1])):
                cmp = [x for x in set(subterms(r)) if isinstance(x, tuple) and x[:2] == ('call', 'memcmp')]
                if not same:
                    ctx.check(True if r == Z else False if isc(r) or cmp else None, "equal", w, "texts of different length compare as %s" % show(r))
                    continue
                full = [x for x in cmp if set(x[2:4]) == set(P) and x[4] in N]
                ctx.check(True if full and r[0] == 'eq0' and r[1] in (full[0], ('lin', 0, ((full[0], 1),))) else False if isc(r) and not any(
                    'memcmp' in str(t) or P[0] in set(subterms(t)) for t, v in st.conds()) or (cmp and not full) else None,
                    "equal", w, "texts of equal length compare as %s" % show(r))
    for fn in p.bodies('spectator::StringHasher::operator()'):
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn)
        a = ('init', ('p', fn.ps[0]["n"]), ())
        P, N = ('init', a[1], ('s',)), ('init', a[1], ('len',))
        for st, fl in res:
            if fl[0] != 'R':
                continue
            r = fl[1]
            hs = [e for e in st.events() if e[0] == 'call' and len(e[3]) >= 2 and e[3][0] == P]
            ok = None
            for e in hs:
                if e[3][1] == N:
                    ok = True if e[4] == r or e[4] in set(subterms(r)) else None
                elif lin_of(e[3][1]) and N in set(subterms(e[3][1])):
                    ok = False
            if not hs and P in set(subterms(r)) and not any(isinstance(x, tuple) and x[:1] == ('init',) and x[1] == ('mem', P) for x in subterms(r)):
                ok = False
            ctx.check(ok, "equal", w, "the hash is %s" % show(r))
    for fn in p.bodies('spectator::StrRef::operator==') + p.bodies('spectator::StrRef::operator!='):
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn)
        x, y = ('init', ('p', fn.ps[0]["n"]), ('data',)), ('init', ('this', 'spectator::StrRef'), ('data',))
        for st, fl in res:
            if fl[0] != 'R':
                continue
            for s2, same in I.fork(st.clone(), I.eq(x, y)):
                t = I.truth(s2, fl[1])
                ctx.check(None if t is None else t == (same == fn.name.endswith('==')), "equal", w, "references to %s text compare as %s" % ("the same" if same else "different", t))
