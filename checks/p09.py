"""P09: tag sets: storage ownership and bounds, order, uniqueness, last-wins, equality."""
from common import *

EXPLANATION = (
    "Every member function of Tags is abstractly interpreted from every representation its object can be in (inline, heap, moved-from) with the "
    "contents as a symbolic sequence of segments of the old contents and new entries. malloc, realloc and free are modelled with liveness and "
    "capacity, every element access, block copy and allocation is checked against them, and each function must leave every object in one of "
    "the representations again, with the contents its meaning prescribes: the representation invariant is inductive over all sequences of "
    "additions, copies and moves. Look-ups by binary search are modelled by their position's defining property, after checking the comparator.")
ASSUMPTIONS = ["memory is not exhausted", "sets have fewer than 2^60 entries", "a set that was moved from is only destroyed or assigned to",
               "std::lower_bound and std::copy are correct"]
RULES = {
    "bounds": "every element access and block copy stays inside the storage it addresses, and that storage is live",
    "copy-direction": "overlapping block copies run in the direction that preserves the source",
    "own": "storage is freed exactly once, by its owner, and belongs to exactly one set",
    "repr": "every operation leaves each set inline with at most the inline capacity, or on the heap with a capacity that is really allocated",
    "content": "the entries afterwards are those the operation prescribes: sorted, unique, last value wins",
    "order": "the binary search uses the key order",
    "lookup": "has and at tell exactly whether the key is there and its value",
    "equality": "== compares the sizes and all the entries",
    "hash": "the hash depends on the entries only",
    "all": "add_all and the list constructor add every entry once, in order, with key and value in place",
    "whole": "every form of add inserts its own key and value",
}
CLS = 'spectator::Tags'
TH = ('this', CLS)
SZ = 16


def inner(v):
    """the pointer inside a StrRef value"""
    while True:
        if v[0] == 'agg' and len(v[2]) == 1:
            v = v[2][0][1]
        elif v[0] == 'fld' and v[2] and v[2][-1] == 'data':
            v = v[1] if len(v[2]) == 1 else ('fld', v[1], v[2][:-1])
        elif v[0] == 'init' and v[2] and v[2][-1] == 'data' and v[1][0] == 'p':
            v = ('init', v[1], v[2][:-1])
        else:
            return v


def div(t, k):
    t = decast(t)
    if isc(t):
        return c(t[1] // k) if t[1] % k == 0 else None
    if t[0] == 'lin':
        if t[1] % k or any(q % k for _, q in t[2]):
            return None
        r = c(t[1] // k)
        for a, q in t[2]:
            r = add(r, scale(a, q // k))
        return r
    return None


class TC(Client):
    def __init__(self, ctx, nm):
        self.ctx, self.nm = ctx, nm
        self.rep = {}
        self.dirty = False
        self.where = '?'
        self.inserts = False      # record additions instead of entering them
        self.cmp_ok = {}

    # ---- reporting
    def say(self, v, rule, where, detail):
        k = (rule, where, detail if v is not True else '')
        self.rep[k] = v

    def decided(self, I, st, t):
        r = I.truth(st, t)
        return r

    # ---- buffers
    def buf(self, st, root, path):
        nm = self.nm
        if path[:2] == (nm['U'], nm['arr']):
            rest = path[2:]
            key = ('in', root)
        elif root in st.x.get('heaps', ()):
            rest = path
            key = root
        else:
            return None
        if rest and isinstance(rest[0], tuple) and rest[0][0] == 'i':
            return key, decast(rest[0][1]), rest[1:]
        return key, None, rest

    def cap(self, st, key):
        return c(self.nm['N']) if key[0] == 'in' else st.x[('cap', key)]

    def inside(self, I, st, key, a, n, where, what):
        if key[0] != 'in' and not st.x.get(('live', key), False):
            self.say(False, "bounds", where, "%s: the storage has been freed" % what)
            return
        C = self.cap(st, key)
        for lo, hi, why in ((Z, a, "before the storage"), (add(a, n), C, "beyond its %s entries" % show(C))):
            t = I.truth(st, I.le(decast(lo), decast(hi)))
            if t is not True and self.kn(lo) and self.kn(hi):
                t = False
            self.say(t if t in (True, False) else None, "bounds", where, "%s from %s for %s entries reaches %s (path %s)" % (what, show(a), show(n), why, pathstr(st, 6) if t is not True else ''))

    def kn(self, t):
        t = decast(t)
        return all(x[0] in ('init', 'lboff', 'svn', 'size') for x, _ in (t[2] if t[0] == 'lin' else [] if isc(t) else [(t, 1)]))

    def access(self, I, st, root, path, write, fr, node):
        b = self.buf(st, root, path)
        if b is None or b[1] is None or I.quiet:
            return
        self.inside(I, st, b[0], b[1], ONE, fr.tu.loc(node.get("l")) if node else '?', "write" if write else "read")

    # ---- contents
    def cut(self, I, st, segs, pos):
        acc, left = Z, []
        pos = decast(pos)
        for i, (n, s) in enumerate(segs):
            if self.eq(I, st, pos, acc):
                return left, list(segs[i:])
            end = decast(add(acc, n))
            if I.truth(st, I.le(end, pos)) is True:
                left.append((n, s))
                acc = end
                continue
            if I.truth(st, I.le(pos, end)) is True and s[0] in ('old', 'junk'):
                k = sub(pos, acc)
                r = (decast(sub(end, pos)), (s[0], s[1], decast(add(s[2], k))) if s[0] == 'old' else s)
                return left + [(decast(k), s)], [r] + list(segs[i + 1:])
            return None
        if not self.eq(I, st, pos, acc):
            left.append((decast(sub(pos, acc)), ('junk',)))
        return left, []

    def eq(self, I, st, a, b):
        d = decast(sub(a, b))
        return d == Z or (not isc(d) and (I.dom.prove_eq0(st, d) or (I.truth(st, I.le(d, Z)) is True and I.truth(st, I.le(Z, d)) is True)))

    def norm(self, I, st, segs):
        out = []
        for n, s in segs:
            if self.eq(I, st, n, Z):
                continue
            if out and s[0] == 'old' and out[-1][1][0] == 'old' and out[-1][1][1] == s[1] and self.eq(I, st, add(out[-1][1][2], out[-1][0]), s[2]):
                out[-1] = (decast(add(out[-1][0], n)), out[-1][1])
            else:
                out.append((n, s))
        return out

    def put(self, I, st, key, a, new, n):
        """overwrite [a, a+n) of a buffer's contents"""
        segs = st.x.get(('cnt', key))
        if segs is None:
            return
        lr = self.cut(I, st, segs, a)
        if lr is not None:
            mr = self.cut(I, st, lr[1], n) if lr[1] else ([], [])
            if mr is None:
                # what is left of the old contents cannot be told apart: forget it
                mr = ([], [(self.cap(st, key), ('junk',))])
        if lr is None or mr is None or new is None:
            st.x[('cnt', key)] = None
            return
        st.x[('cnt', key)] = tuple(self.norm(I, st, lr[0] + list(new) + mr[1]))

    def get(self, I, st, key, a, n):
        segs = st.x.get(('cnt', key))
        if segs is None:
            return None
        lr = self.cut(I, st, segs, a)
        if lr is None:
            return None
        m = self.cut(I, st, lr[1], n)
        return None if m is None else m[0]

    def val(self, st, v):
        """a stored key or value: parameters, old entries"""
        v = inner(v)
        if v[0] == 'init' and v[2]:
            p = v[2][:-1] if v[2][-1] == 'data' else v[2]
            b = self.buf(st, v[1], p)
            if b is not None and b[1] is not None and b[2] in (('key',), ('value',)):
                ow = st.x.get(('owner', b[0]), v[1])
                return ('o' + b[2][0][0], ow, b[1])
        return v

    def stored(self, I, st, root, path, v):
        nm = self.nm
        if path[:1] == (nm['U'],) and path[1:] and path[1] in ('#u', nm['cap']):
            if st.x.get(('cnt', ('in', root))):
                st.x[('cnt', ('in', root))] = ((c(nm['N']), ('junk',)),)
            st.x[('clob', root)] = False
            return
        b = self.buf(st, root, path)
        if b is None:
            return
        key, off, rest = b
        if key[0] == 'in':
            st.x[('clob', root)] = True
        if off is None:
            st.x[('cnt', key)] = ()
            return
        if I.quiet:
            self.dirty = True
        if not rest:
            ks = [x for p, x in v[2] if p[:1] == ('key',)] if v[0] == 'agg' else [('fld', v, ('key',))]
            vs = [x for p, x in v[2] if p[:1] == ('value',)] if v[0] == 'agg' else [('fld', v, ('value',))]
            el = ('el', self.val(st, ks[0]) if len(ks) == 1 else ('?',), self.val(st, vs[0]) if len(vs) == 1 else ('?',))
        else:
            old = self.get(I, st, key, off, ONE)
            if old is None or len(old) != 1:
                o = ('?',), ('?',)
            elif old[0][1][0] == 'old':
                o = ('ok', old[0][1][1], old[0][1][2]), ('ov', old[0][1][1], old[0][1][2])
            elif old[0][1][0] == 'el':
                o = old[0][1][1:]
            else:
                o = ('?',), ('?',)
            el = ('el', self.val(st, v), o[1]) if rest[0] == 'key' else ('el', o[0], self.val(st, v))
        self.put(I, st, key, off, [(ONE, el)], ONE)

    def bulk(self, I, st, dst, src, n, fr, node):
        name = fr.tu.fns[node["fn"]].name if node is not None and node.get("fn") is not None else '?'
        where = fr.tu.loc(node.get("l")) if node is not None else '?'
        dl, sl = I.deref(dst), I.deref(src)
        d, s = self.buf(st, dl[1], dl[2]), self.buf(st, sl[1], sl[2])
        if 'mem' in name:
            n = div(n, SZ)
        if d is None and s is None:
            return
        if I.quiet:
            self.dirty = True
        if d is None or n is None:
            self.say(None, "bounds", where, "block copy to %s" % show(dst))
            if d is not None:
                st.x[('cnt', d[0])] = None
            return
        n = decast(n)
        da = d[1] if d[1] is not None else Z
        if not I.quiet:
            self.inside(I, st, d[0], da, n, where, "block copy to")
        if d[0][0] == 'in':
            st.x[('clob', d[0][1])] = True
        if s is None:
            st.x[('cnt', d[0])] = None
            return
        sa = s[1] if s[1] is not None else Z
        if not I.quiet:
            self.inside(I, st, s[0], sa, n, where, "block copy from")
        if s[0] == d[0]:
            apart = any(I.truth(st, I.le(decast(x), decast(y))) is True for x, y in ((add(da, n), sa), (add(sa, n), da)))
            down = I.truth(st, I.le(da, sa))
            ok = apart or (down is True if name in ('copy', 'copy_n', 'move') else down is False or I.truth(st, I.le(sa, da)) is True if 'backward' in name else name == 'memmove')
            if not I.quiet:
                self.say(True if ok else False if down is not None or I.truth(st, I.le(sa, da)) is True else None, "copy-direction", where,
                         "%s of %s entries from %s to %s overwrites entries it has not copied yet" % (name, show(n), show(sa), show(da)))
            if not ok:
                st.x[('cnt', d[0])] = None
                return
        self.put(I, st, d[0], da, self.get(I, st, s[0], sa, n), n)

    # ---- calls
    def call(self, I, fn, obj, args, st, fr, node):
        q = fn.qn
        where = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        if self.inserts and fn.rect is not None and fn.rect.rec == CLS and not fn.c and not fn.ctor and not fn.dtor and len(fn.ps or fn.pt) == 2 and not fn.asg and fn.name not in ('operator=',):
            vals = tuple(I.argval(st, a, p) for a, p in zip(args, fn.pt))
            st.event('op', fn, I.addr(obj[1], obj[2]), vals, Z, where)
            return [(st, Z)]
        if q.startswith('spectator::intern_str'):
            v = I.argval(st, args[0], fn.pt[0])
            I.n += 1
            t = ('ret', q, I.n)
            st.event('call', q, None, (v,), t, where)
            return [(st, ('agg', 'spectator::StrRef', ((('data',), t),)))]
        if q in ('malloc', 'std::malloc', 'calloc', 'std::calloc'):
            n = I.rval(st, args[0], fn.pt[0])
            if 'calloc' in q:
                n2 = I.rval(st, args[1], fn.pt[1])
                n = scale(n, n2[1]) if isc(n2) else scale(n2, n[1]) if isc(n) else ('?',)
            return [(st, self.alloc(I, st, n, ()))]
        if q in ('realloc', 'std::realloc'):
            p, n = I.rval(st, args[0], fn.pt[0]), I.rval(st, args[1], fn.pt[1])
            old = self.owner_of(I, st, p, where, "realloc")
            cnt = st.x.get(('cnt', old)) if old is not None else None
            if old is not None:
                st.x[('live', old)] = False
            return [(st, self.alloc(I, st, n, cnt))]
        if q in ('free', 'std::free'):
            p = I.rval(st, args[0], fn.pt[0])
            if p == Z:
                return [(st, Z)]
            old = self.owner_of(I, st, p, where, "free")
            if old is not None:
                st.x[('live', old)] = False
            return [(st, Z)]
        if q == 'std::lower_bound' and len(args) == 4:
            return self.lower(I, fn, args, st, fr, node, where)
        return None

    def owner_of(self, I, st, p, where, what):
        lv = I.deref(p)
        b = self.buf(st, lv[1], lv[2])
        if b is None:
            self.say(None, "own", where, "%s of %s" % (what, show(p)))
            return None
        if b[0][0] == 'in' or b[1] not in (None, Z):
            self.say(False, "own", where, "%s of %s, which was not allocated" % (what, show(p)))
            return None
        if not st.x.get(('live', b[0]), False):
            self.say(False, "own", where, "%s of storage that was freed before (path %s)" % (what, pathstr(st, 6)))
            return None
        self.say(True, "own", where, what)
        return b[0]

    def alloc(self, I, st, n, cnt):
        I.n += 1
        root = ('heap', 'm%d' % I.n)
        k = div(n, SZ)
        if k is None:
            # whole entries that surely fit
            I.n += 1
            k = ('sym', 'entries', I.n)
        st.x['heaps'] = st.x.get('heaps', ()) + (root,)
        st.x[('cap', root)] = k
        st.x[('live', root)] = True
        st.x[('cnt', root)] = cnt
        return I.addr(root, (('i', Z),))

    def lower(self, I, fn, args, st, fr, node, where):
        a, b = [I.rval(st, args[i], fn.pt[i]) for i in range(2)]
        v = inner(I.rval(st, args[2], fn.pt[2]) if not (args[2][0] == 'lv') else I.load(st, args[2][1], args[2][2], fn.pt[2].noref()))
        cm = args[3] if args[3][0] != 'lv' else I.raw(st, args[3][1], args[3][2])
        ok = self.comparator(I, st, cm, fr, node)
        if not I.quiet:
            self.say(ok, "order", where, "the search is ordered by %s" % self.cmp_ok.get(cm[1] if cm[0] == 'lam' else None, '?'))
        n = sub(b, a)
        I.n += 1
        off = ('lboff', I.n)
        I.dom.ranges[off] = (0, 1 << 60)
        lv = I.deref(a)
        bf = self.buf(st, lv[1], lv[2])
        s2 = st.clone()
        if bf is not None and bf[1] == Z:
            for s, o in ((st, off), (s2, n)):
                s.x['lb'] = s.x.get('lb', ()) + ((bf[0], decast(o), decast(n), v),)
        I.assume(st, I.le(add(off, ONE), n), True)
        I.assume(s2, I.le(Z, n), True)
        return [(st, add(a, off)), (s2, b)]

    def comparator(self, I, st, cm, fr, node):
        if cm[0] != 'lam':
            return None
        if cm[1] in self.cmp_ok:
            return self.cmp_ok[cm[1]] == 'key'
        I.quiet += 1
        T, K = ('p', '#tag'), ('p', '#key')
        rs = I.call_lam(cm, [('lv', T, ()), ('lv', K, ())], st.clone(), fr, node)
        I.quiet -= 1
        if len(rs) != 1:
            return None
        t = rs[0][1]
        tk = ('init', T, ('key', 'data'))
        kk = [('init', K, ('data',)), ('init', K, ())]
        txt = show(t)
        self.cmp_ok[cm[1]] = txt
        for k in kk:
            if t in (('le0', add(('call', 'strcmp', tk, k), ONE)), ('le0', add(('call', 'std::strcmp', tk, k), ONE))):
                self.cmp_ok[cm[1]] = 'key'
                return True
            # the same comparison of the other sign
            if t in (('le0', sub(ONE, ('call', 'strcmp', k, tk))),):
                self.cmp_ok[cm[1]] = 'key'
                return True
        known = t[0] in ('le0', 'not') and all(x[0] != 'ret' for x in subterms(t) if isinstance(x, tuple) and x)
        return False if known else None


class An:
    def __init__(self, ctx):
        self.ctx = ctx
        P = ctx.prog
        rec = P.record(CLS)
        nm = {}
        for n, T in rec.ft.items():
            if T.k == 'rec' and T.union:
                nm['U'] = n
                for k, x in P.records.items():
                    if x.type.s == T.s:
                        for m, y in x.ft.items():
                            if y.k == 'int':
                                nm['cap'] = m
                            elif y.rec == 'std::array':
                                nm['arr'], nm['N'] = m, y.ta[1]
                            elif y.k == 'arr':
                                nm['arr'], nm['N'] = m, y.n
            elif T.k == 'ptr':
                nm['begin'] = n
            elif T.k == 'int':
                nm['size'] = n
        self.nm = nm
        self.known = set(nm) == {'U', 'cap', 'arr', 'N', 'begin', 'size'} and len(rec.fields) == 3
        self.large = [m for m in rec.methods if m.body is not None and m.name == 'is_large' and m.c]
        self.ms = [m for m in rec.methods if m.body is not None]

    def interp(self, inserts=False):
        cl = TC(self.ctx, self.nm)
        cl.inserts = inserts
        I = Interp(self.ctx.prog, cl, model_tags=False)
        return I, cl

    def entry(self, I, cl, states):
        """entry states for objects {root: kind}"""
        st = State()
        nm = self.nm
        st.x['heaps'] = ()
        sts = [st]
        for root, kind in states.items():
            size = ('init', root, (nm['size'],))
            I.dom.ranges[size] = (0, 1 << 60)
            key = ('in', root)
            for s in sts:
                if kind == 'S':
                    s.mem[(root, (nm['begin'],))] = I.addr(root, (nm['U'], nm['arr'], ('i', Z)))
                    s.x[('cnt', key)] = ((size, ('old', root, Z)),)
                    I.assume(s, I.le(size, c(nm['N'])), True)
                elif kind == 'L':
                    hp = ('heap', 'of ' + root[1])
                    K = ('init', root, (nm['U'], nm['cap']))
                    I.dom.ranges[K] = (0, 1 << 60)
                    s.mem[(root, (nm['begin'],))] = I.addr(hp, (('i', Z),))
                    s.mem[(root, (nm['U'], '#u'))] = ('u', nm['cap'], K)
                    s.x['heaps'] += (hp,)
                    s.x[('cap', hp)], s.x[('live', hp)] = K, True
                    s.x[('cnt', hp)] = ((size, ('old', root, Z)),)
                    s.x[('owner', hp)] = root
                    s.x[('cnt', key)] = ()
                    I.assume(s, I.le(size, K), True)
                elif kind == 'M':
                    s.mem[(root, (nm['begin'],))] = Z
                    s.x[('cnt', key)] = ()
                elif kind == 'new':
                    s.x[('cnt', key)] = ()
            if kind in ('S', 'L'):
                out = []
                for s in sts:
                    I.quiet += 1
                    rs = I.run(self.large[0], this=('lv', root, ()), st=s)
                    I.quiet -= 1
                    for y, fl in rs:
                        if fl[0] == 'R':
                            if isc(fl[1]):
                                if bool(fl[1][1]) == (kind == 'L'):
                                    out.append(y)
                            elif I.truth(y, fl[1]) in (None, kind == 'L'):
                                I.assume(y, fl[1], kind == 'L')
                                out.append(y)
                sts = out
        return sts

    def kind(self, I, st, root):
        """(kind, buffer, reason)"""
        nm = self.nm
        size = I.raw(st, root, (nm['size'],))
        beg = I.raw(st, root, (nm['begin'],))
        if beg is None or size is None:
            return None, None, "unknown"
        if beg == Z:
            return 'M', None, ''
        lv = I.deref(beg)
        cl = I.client
        b = cl.buf(st, lv[1], lv[2])
        if b is None or b[1] not in (None, Z):
            if b is not None:
                return 'bad', None, "the first entry is at %s" % show(beg)
            return None, None, "the entries are at %s" % show(beg)
        I.quiet += 1
        rs = I.run(self.large[0], this=('lv', root, ()), st=st.clone())
        I.quiet -= 1
        tv = set()
        for y, fl in rs:
            if fl[0] == 'R':
                tv.add(bool(fl[1][1]) if isc(fl[1]) else I.truth(y, fl[1]))
        if b[0][0] == 'in':
            if b[0][1] != root:
                return 'bad', b[0], "the entries are in another set's inline storage"
            if tv != {False}:
                return ('bad' if None not in tv or cl.kn(size) else None), b[0], "inline, but is_large is %s for size %s" % (sorted(tv, key=str), show(size))
            ok = I.truth(st, I.le(size, c(nm['N'])))
            return ('S', b[0], '') if ok is True else (('bad' if cl.kn(size) else None), b[0], "inline with size %s" % show(size))
        if not st.x.get(('live', b[0]), False):
            return 'bad', b[0], "the storage in use has been freed"
        if tv != {True}:
            return ('bad' if None not in tv or cl.kn(size) else None), b[0], "on the heap, but is_large is %s for size %s" % (sorted(tv, key=str), show(size))
        u = st.mem.get((root, (nm['U'], '#u')))
        cp = u[2] if u is not None and u[0] == 'u' and u[1] == nm['cap'] else I.raw(st, root, (nm['U'], nm['cap']))
        if st.x.get(('clob', root)):
            return 'bad', b[0], "on the heap, but its capacity was overwritten by inline entries"
        if cp is None or (cp[0] == 'init' and cp[1] == root and u is None):
            return 'bad', b[0], "on the heap, but its capacity was never set"
        cp = decast(cp)
        for x, y, why in ((size, cp, "size %s exceeds capacity %s"), (cp, st.x[('cap', b[0])], "capacity %s exceeds the %s entries allocated")):
            t = I.truth(st, I.le(decast(x), decast(y)))
            if t is not True:
                return ('bad' if t is False or (cl.kn(x) and cl.kn(y)) else None), b[0], why % (show(x), show(y))
        return 'L', b[0], ''

    def exits(self, fn, objs, this=None, args=None, inserts=False):
        """run from entry kinds; yields (I, client, state, flow)"""
        I, cl = self.interp(inserts)
        cl.where = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        for s0 in self.entry(I, cl, objs):
            for st, fl in I.run(fn, this=this, args=args, st=s0):
                self.ctx.paths += 1
                yield I, cl, st, fl
        self.ctx.fn(fn)
        self.ctx.calls += I.ncalls
        for (rule, where, detail), v in cl.rep.items():
            self.ctx.check(v, rule, where, detail or RULES[rule])

    def expect(self, I, cl, st, w, root, want, owned, desc, contents=None, size=None, moved=False):
        """object root is well formed afterwards, with these contents: list of segments"""
        k, b, why = self.kind(I, st, root)
        path = pathstr(st, 6)
        if k is None:
            self.ctx.und("repr", w, "%s of %s: %s" % (desc, root[1], why))
            return
        if k == 'bad' or (k == 'M' and not moved):
            self.ctx.bad("repr", w, "%s: %s is %s (path %s)" % (desc, root[1], why or "without storage", path))
            return
        self.ctx.ok("repr", w, desc)
        if k == 'L':
            if b in owned:
                self.ctx.bad("own", w, "%s: two sets use the same storage (path %s)" % (desc, path))
            owned.add(b)
        if contents is None or k == 'M':
            return
        sz = decast(I.raw(st, root, (self.nm['size'],)))
        if not cl.eq(I, st, sz, size):
            self.ctx.check(False if cl.kn(sz) else None, "content", w, "%s: the size is %s instead of %s (path %s)" % (desc, show(sz), show(size), path))
            return
        segs = st.x.get(('cnt', b))
        got = None
        if segs is not None and not cl.dirty:
            lr = cl.cut(I, st, segs, sz)
            got = cl.norm(I, st, lr[0]) if lr is not None else None
        if got is None:
            self.ctx.und("content", w, "%s: contents not followed" % desc)
            return
        exp = cl.norm(I, st, contents)
        same = len(got) == len(exp) and all(cl.eq(I, st, a[0], b_[0]) and self.same(I, cl, st, a[1], b_[1]) for a, b_ in zip(got, exp))
        unk = any(s[0] == 'el' and ('?',) in s for _, s in got)
        self.ctx.check(True if same else None if unk else False, "content", w, "%s: the entries are %s instead of %s (path %s)" % (desc, self.txt(got), self.txt(exp), path))

    def same(self, I, cl, st, a, b):
        if a == b:
            return True
        if a[0] == 'el' and b[0] == 'el':
            return all(x == y or (x[0] == y[0] and x[0] in ('ok', 'ov') and x[1] == y[1] and cl.eq(I, st, x[2], y[2])) for x, y in zip(a[1:], b[1:]))
        if a[0] == 'old' and b[0] == 'old':
            return a[1] == b[1] and cl.eq(I, st, a[2], b[2])
        return False

    def txt(self, segs):
        return [("%s@%s for %s" % (s[1][1], show(s[2]), show(n)) if s[0] == 'old' else s[0] if s[0] == 'junk' else
                 "{%s,%s}" % tuple(show(x) if x[0] not in ('ok', 'ov') else "%s.%s@%s" % (x[1][1], x[0], show(x[2])) for x in s[1:])) for n, s in segs]

    def leaks(self, I, st, w, owned, desc):
        for h in st.x.get('heaps', ()):
            if st.x.get(('live', h)) and h not in owned:
                self.ctx.bad("own", w, "%s: storage is never freed (path %s)" % (desc, pathstr(st, 6)))
                return
        self.ctx.ok("own", w, desc)

    def size0(self, root):
        return ('init', root, (self.nm['size'],))

    def old(self, root):
        return [(self.size0(root), ('old', root, Z))]

    # ---- operations
    def construct(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        if fn.ctor == 'def':
            for I, cl, st, fl in self.exits(fn, {TH: 'new'}):
                owned = set()
                self.expect(I, cl, st, w, TH, None, owned, "default construction", [], Z)
                self.leaks(I, st, w, owned, "default construction")
            return 1
        O = ('p', fn.ps[0]["n"] or '0')
        n = 0
        for kd in ('S', 'L'):
            d = "%s construction from %s" % (fn.ctor, {'S': 'an inline set', 'L': 'a heap set'}[kd])
            for I, cl, st, fl in self.exits(fn, {O: kd, TH: 'new'}):
                if fl[0] != 'R':
                    continue
                n += 1
                owned = set()
                self.expect(I, cl, st, w, TH, None, owned, d, self.old(O), self.size0(O))
                if fn.ctor == 'copy':
                    self.expect(I, cl, st, w, O, None, owned, d + " (source)", self.old(O), self.size0(O))
                else:
                    self.expect(I, cl, st, w, O, None, owned, d + " (source)", moved=True)
                self.leaks(I, st, w, owned, d)
        return n

    def assign(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        O = ('p', fn.ps[0]["n"] or '0')
        copy = fn.pt[0].noref().const
        n = 0
        nmz = {'S': 'an inline set', 'L': 'a heap set', 'M': 'a moved-from set'}
        for tk in ('S', 'L', 'M'):
            for kd in ('S', 'L', 'self'):
                if kd == 'self' and tk == 'M':
                    continue
                d = "assignment of %s to %s" % (nmz.get(kd, 'itself'), nmz[tk])
                objs = {TH: tk} if kd == 'self' else {TH: tk, O: kd}
                for I, cl, st, fl in self.exits(fn, objs, args=[('lv', TH, ())] if kd == 'self' else None):
                    if fl[0] != 'R':
                        continue
                    n += 1
                    owned = set()
                    src = TH if kd == 'self' else O
                    self.expect(I, cl, st, w, TH, None, owned, d, self.old(src), self.size0(src))
                    if kd != 'self':
                        if copy:
                            self.expect(I, cl, st, w, O, None, owned, d + " (source)", self.old(O), self.size0(O))
                        else:
                            self.expect(I, cl, st, w, O, None, owned, d + " (source)", moved=True)
                    self.leaks(I, st, w, owned, d)
        return n

    def destroy(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        n = 0
        for kd in ('S', 'L', 'M'):
            for I, cl, st, fl in self.exits(fn, {TH: kd}):
                n += 1
                self.leaks(I, st, w, set(), "destruction of %s" % {'S': 'an inline set', 'L': 'a heap set', 'M': 'a moved-from set'}[kd])
        return n

    def addition(self, fn):
        w = "%s(%s) (%s:%s)" % (fn.qn.replace('spectator::', ''), ", ".join(t.s for t in fn.pt)[:60], fn.file, fn.line)
        n = 0
        ps = [('init', ('p', p["n"]), ()) for p in fn.ps]
        for kd in ('S', 'L'):
            for I, cl, st, fl in self.exits(fn, {TH: kd}):
                if fl[0] != 'R':
                    continue
                n += 1
                d = "addition to %s" % {'S': 'an inline set', 'L': 'a heap set'}[kd]
                K, V = [self.arg(I, st, p, fn, i) for i, p in enumerate(ps)]
                owned = set()
                lbs = [x for x in st.x.get('lb', ())]
                if not lbs or K is None:
                    self.expect(I, cl, st, w, TH, None, owned, d)
                    self.ctx.und("content", w, "%s: no binary search for the key was recognised" % d)
                    self.leaks(I, st, w, owned, d)
                    continue
                key, off, m, v = lbs[-1]
                s0 = self.size0(TH)
                if not self.isarg(I, st, v, fn, 0) or not cl.eq(I, st, m, s0):
                    self.ctx.check(False, "content", w, "%s: the search is for %s among %s entries" % (d, show(v), show(m)))
                    continue
                Kt, Vt = v, None
                hit = self.hit(I, cl, st, off, v, s0)
                segs = st.x.get(('cnt', self.kind(I, st, TH)[1])) if self.kind(I, st, TH)[1] else None
                Vn = self.valarg(I, st, fn, segs)
                if hit is True:
                    want = [(off, ('old', TH, Z)), (ONE, ('el', ('ok', TH, off), Vn)), (sub(s0, add(off, ONE)), ('old', TH, add(off, ONE)))]
                    self.expect(I, cl, st, w, TH, None, owned, d + " of a key it has", want, s0)
                elif hit is False:
                    want = [(off, ('old', TH, Z)), (ONE, ('el', v, Vn)), (sub(s0, off), ('old', TH, off))]
                    self.expect(I, cl, st, w, TH, None, owned, d + " of a new key", want, add(s0, ONE))
                else:
                    self.expect(I, cl, st, w, TH, None, owned, d)
                    self.ctx.bad("content", w, "%s: whether the key is there is not looked at (path %s)" % (d, pathstr(st, 6))) if not hidden(st) else self.ctx.und("content", w, d)
                self.leaks(I, st, w, owned, d)
        return n

    def arg(self, I, st, p, fn, i):
        return p

    def isarg(self, I, st, v, fn, i):
        """is v the interned i-th parameter (or the parameter itself)?"""
        nm = fn.ps[i]["n"]
        if v == ('init', ('p', nm), ()):
            return True
        return self.interned(st, v, nm)

    def interned(self, st, v, nm):
        for e in st.events():
            if e[0] in ('call', 'op') and e[4] is not None and (inner(e[4]) == v or e[4] == v or (v[0] == 'fld' and v[1] == e[4])):
                if str(e[1] if e[0] == 'call' else e[1].qn).startswith('spectator::intern_str') and e[3] and self.plain(e[3][0], nm):
                    return True
        return v[0] == 'ret' and False

    def plain(self, t, nm):
        a = ('init', ('p', nm), ())
        return t == a or (t[0] in ('sv', 'bytes') and t[1] == ('svp', a) and t[2] == ('svn', a)) or t == ('cstr', a) or (
            t[0] == 'sv' and t[1] == a and t[2] == ('strlen', a))

    def valarg(self, I, st, fn, segs):
        nm = fn.ps[1]["n"]
        if segs:
            for n, s in segs:
                if s[0] == 'el':
                    v = s[2]
                    if v == ('init', ('p', nm), ()) or self.interned(st, v, nm):
                        return v
        return ('init', ('p', nm), ())

    def hit(self, I, cl, st, off, K, s0):
        """does the path know that the entry at off has key K?"""
        if cl.eq(I, st, off, s0):
            return False
        for t, v in st.conds():
            if t[0] != 'eq0':
                continue
            l = t[1]
            ats = dict(l[2]) if l[0] == 'lin' else {l: 1}
            ks = [a for a in ats if a[0] in ('init', 'hv', 'fld') and self.iskey(cl, st, a, off, I)]
            if len(ats) == 2 and len(ks) == 1 and any(inner(a) == K or a == K or (a[0] == 'fld' and a[1] == K) for a in ats):
                return v
        return None

    def iskey(self, cl, st, a, off, I):
        p = a[2] if a[0] == 'init' else a[3] if a[0] == 'hv' else None
        r = a[1] if a[0] == 'init' else a[2] if a[0] == 'hv' else None
        if p is None or p[-2:] != ('key', 'data'):
            return False
        b = cl.buf(st, r, p[:-2])
        return b is not None and b[1] is not None and cl.eq(I, st, b[1], off)

    def lookups(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        n = 0
        for kd in ('S', 'L'):
            for I, cl, st, fl in self.exits(fn, {TH: kd}):
                if fl[0] != 'R':
                    continue
                n += 1
                lbs = st.x.get('lb', ())
                s0 = self.size0(TH)
                if not lbs:
                    self.ctx.und("lookup", w, "no binary search for the key was recognised")
                    continue
                key, off, m, v = lbs[-1]
                if not self.isarg(I, st, v, fn, 0) or not cl.eq(I, st, m, s0):
                    self.ctx.bad("lookup", w, "the search is for %s among %s entries" % (show(v), show(m)))
                    continue
                hit = self.hit(I, cl, st, off, v, s0)
                r = fl[1]
                path = pathstr(st, 6)
                if fn.rt.k == 'bool' or fn.rt.w == 1 or fn.rt.s == 'bool':
                    if not isc(r) and hit is None and I.truth(st, r) is None:
                        # the result is the comparison itself
                        s2 = st.clone()
                        I.assume(s2, r, True)
                        h1 = self.hit(I, cl, s2, off, v, s0)
                        s3 = st.clone()
                        I.assume(s3, r, False)
                        h0 = self.hit(I, cl, s3, off, v, s0)
                        self.ctx.check(True if h1 is True and h0 is False else False if h1 is False and h0 is True else None, "lookup", w, "returns %s (path %s)" % (show(r), path))
                        continue
                    tv = bool(r[1]) if isc(r) else I.truth(st, r)
                    self.ctx.check(None if tv is None or (hit is None and hidden(st)) else tv == hit, "lookup", w, "returns %s when the key is %s (path %s)" % (
                        show(r), {True: "there", False: "not there", None: "not compared"}[hit], path))
                else:
                    v2 = cl.val(st, r)
                    if hit is True:
                        ok = v2[0] == 'ov' and v2[1] == TH and cl.eq(I, st, v2[2], off)
                        self.ctx.check(True if ok else False, "lookup", w, "returns %s for a key that is there (path %s)" % (show(r), path))
                    elif hit is False:
                        self.ctx.check(v2 == Z, "lookup", w, "returns %s for a key that is not there (path %s)" % (show(r), path))
                    else:
                        self.ctx.bad("lookup", w, "returns %s without comparing the key (path %s)" % (show(r), path))
        return n

    def equality(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        O = ('p', fn.ps[0]["n"] or '0')
        n = 0
        for tk in ('S', 'L'):
            for kd in ('S', 'L'):
                for I, cl, st, fl in self.exits(fn, {TH: tk, O: kd}):
                    if fl[0] != 'R':
                        continue
                    n += 1
                    a, b = self.size0(TH), self.size0(O)
                    r = fl[1]
                    path = pathstr(st, 6)
                    differ = I.truth(st, I.eq(a, b)) is False
                    same = cl.eq(I, st, a, b)
                    ptr = [I.raw(st, x, (self.nm['begin'],)) for x in (TH, O)]
                    full = False
                    for t in subterms(r) if not isc(r) else [y for t_, _ in st.conds() for y in subterms(t_)]:
                        if isinstance(t, tuple) and t and t[0] == 'call' and str(t[1]).endswith('memcmp') and len(t) == 5:
                            k = div(t[4], SZ)
                            if set(t[2:4]) == set(ptr) and k is not None and (cl.eq(I, st, k, a) or cl.eq(I, st, k, b)):
                                full = t
                    empty = cl.eq(I, st, a, Z) and cl.eq(I, st, b, Z)
                    if isc(r) and r[1] == 0:
                        dc = full and any(t == ('eq0', full) and v is False for t, v in st.conds())
                        ok = differ or bool(dc)
                        self.ctx.check(True if ok else None if hidden(st) or unk(st) else False, "equality", w, "returns false (path %s)" % path)
                    elif isc(r):
                        ec = full and any(t == ('eq0', full) and v is True for t, v in st.conds())
                        self.ctx.check(True if empty or (same and ec) else None if hidden(st) or unk(st) else False, "equality", w, "returns true (path %s)" % path)
                    elif full and r == ('eq0', full):
                        self.ctx.check(True if same else False, "equality", w, "compares the entries of sets of sizes %s and %s" % (show(a), show(b)))
                    else:
                        mm = any(isinstance(t, tuple) and t and t[0] == 'call' and str(t[1]).endswith('memcmp') for t in subterms(r))
                        self.ctx.check(False if mm else None, "equality", w, "returns %s (path %s)" % (show(r), path))
        return n

    def addall(self, fn):
        """every entry of the source (a range of entries, or a list) is added once, in order"""
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        n = 0
        lst = fn.ctor is not None
        O = ('p', fn.ps[0]["n"] or '0')
        for kd in (('S', 'L') if not lst else ('x',)):
            objs = {O: kd} if not lst else {TH: 'new'}
            got = list(self.exits(fn, objs, inserts=True))
            if not got:
                continue
            I = got[0][0]
            loops = list(I.loops.values())
            outer = [e for _, _, st, fl in got for e in st.events() if e[0] == 'op']
            if len(loops) != 1:
                self.ctx.und("all", w, "%d loops" % len(loops))
                continue
            L = loops[0]
            for st in L['backs']:
                n += 1
                o = ops(st)
                path = pathstr(st, 6)
                if len(o) != 1:
                    self.ctx.check(None if hidden(st) else False, "all", w, "%d additions for one entry (path %s)" % (len(o), path))
                    continue
                e = o[0]
                if e[2] != I.addr(TH, ()):
                    self.ctx.bad("all", w, "the addition is to %s" % show(e[2]))
                    continue
                vs = [inner(x) for x in e[3]]
                names = ('key', 'value') if not lst else ('first', 'second')
                loc = [self.eloc(x) for x in vs]
                if None in loc:
                    self.ctx.und("all", w, "%s is added" % [show(x) for x in vs])
                    continue
                ok = loc[0][0] == loc[1][0] and (loc[0][1], loc[1][1]) == names
                self.ctx.check(ok, "all", w, "%s.%s is added as key and %s.%s as value" % (show(loc[0][0]) if loc[0][0] else '', loc[0][1], show(loc[1][0]) if loc[1][0] else '', loc[1][1]))
            # the range: from the first to the last, one step each
            if not lst:
                beg = ('lv', O, ())
                p0 = I.raw(L['entry'], O, (self.nm['begin'],))
                its = [k for k in L['W'] if k[0] != 'ref']
                step = None
                for k in its:
                    e0 = I.raw(L['entry'], k[0], k[1])
                    if e0 == p0 or e0 == Z:
                        h = I.raw(L['head'], k[0], k[1])
                        bs = [sub(I.raw(b, k[0], k[1]), h) for b in L['backs']]
                        step = (k, e0, bs, h)
                        if e0 == p0:
                            break
                if step is None:
                    self.ctx.und("all", w, "no iterator over the source was recognised")
                else:
                    k, e0, bs, h = step
                    self.ctx.check(all(b == ONE for b in bs), "all", w, "the iterator advances by %s" % [show(b) for b in bs])
                    for st, fl in L['exits']:
                        if fl[0] != 'N':
                            self.ctx.check(False if fl[0] in ('B', 'R') else None, "all", w, "the loop ends early (path %s)" % pathstr(st, 6))
                            continue
                        end = add(e0, self.size0(O))
                        ok = I.dom.prove_eq0(st, sub(I.raw(st, k[0], k[1]), end)) or I.truth(st, I.le(end, I.raw(st, k[0], k[1]))) is True
                        self.ctx.check(True if ok else None if hidden(st) else False, "all", w, "the loop ends at %s instead of %s" % (show(I.raw(st, k[0], k[1])), show(end)))
            else:
                rf = fn.body is not None and [x for x in self.ctx.prog.walk(fn.body) if x.get('k') == 'RFor']
                self.ctx.check(True if rf else None, "all", w, "the list is not walked by a range loop")
                for st, fl in L['exits']:
                    if fl[0] in ('B', 'R'):
                        self.ctx.bad("all", w, "the loop ends early (path %s)" % pathstr(st, 6))
            for _, cl, st, fl in got:
                if lst:
                    self.expect(I, cl, st, w, TH, None, set(), "list construction", [], Z)
        return n

    def eloc(self, x):
        """(element, field) of a value read from an entry"""
        if x[0] in ('init', 'hv'):
            p = x[2] if x[0] == 'init' else x[3]
            r = x[1] if x[0] == 'init' else x[2]
            if p and p[-1] == 'data':
                p = p[:-1]
            if p and p[-1] in ('key', 'value', 'first', 'second'):
                return (('at', r, p[:-1]), p[-1])
        if x[0] == 'fld':
            p = x[2][:-1] if x[2][-1] == 'data' else x[2]
            if p and p[-1] in ('key', 'value', 'first', 'second'):
                return (('at', x[1], p[:-1]), p[-1])
        if x[0] in ('sv', 'bytes', 'svp'):
            return self.eloc(x[1]) if x[0] != 'svp' else self.eloc(x[1])
        return None

    def walked(self, I, w, kd):
        """the loop of the hash function passes over the entries, first to last, one at a time"""
        if len(I.loops) != 1:
            return
        L = next(iter(I.loops.values()))
        p0 = I.raw(L['entry'], TH, (self.nm['begin'],))
        k = next((k for k in L['W'] if k[0] != 'ref' and I.raw(L['entry'], k[0], k[1]) == p0 and I.loctype.get(k) is not None and I.loctype[k].k == 'ptr'), None)
        if k is None:
            return
        h = I.raw(L['head'], k[0], k[1])
        for b in L['backs']:
            d = sub(I.raw(b, k[0], k[1]), h)
            self.ctx.check(True if d == ONE else False if d[0] == 'c' else None, "hash", w, "the hash moves on by %s entries" % show(d))
        for st, fl in L['exits']:
            if fl[0] != 'N':
                continue
            x = I.raw(st, k[0], k[1])
            end = add(p0, self.size0(TH))
            ok = I.dom.prove_eq0(st, sub(x, end)) or I.truth(st, I.le(end, x)) is True
            self.ctx.check(True if ok else None, "hash", w, "the hash stops at %s instead of %s" % (show(x), show(end)))

    def hashing(self, fn):
        w = "%s (%s:%s)" % (fn.qn.replace('spectator::', ''), fn.file, fn.line)
        n = 0
        for kd in ('S', 'L'):
            for I, cl, st, fl in self.exits(fn, {TH: kd}):
                if fl[0] != 'R':
                    continue
                n += 1
                L = list(I.loops.values())
                self.walked(I, w, kd)
                terms_ = [fl[1]]
                for l in L:
                    for b in l['backs'] + [l['entry']]:
                        for k in l['W']:
                            if k[0] != 'ref' and (b is not l['entry'] or k in b.mem):
                                v = I.raw(b, k[0], k[1])
                                T = I.loctype.get(k)
                                if T is not None and T.k == 'ptr':
                                    continue
                                terms_.append(v)
                bad, unk_ = None, False
                for t in terms_:
                    for x in subterms(t):
                        if not isinstance(x, tuple) or not x:
                            continue
                        if x[0] == 'init' and x[2] and x[2][-1] in (self.nm['cap'],):
                            bad = "the capacity"
                        if x[0] == 'addr' and x[1] in (TH,) + tuple(st.x.get('heaps', ())):
                            if not any(y[0] in ('init', 'hv') for y in [x]):
                                bad = "an address"
                        if x[0] in ('ret', 'sym'):
                            unk_ = True
                self.ctx.check(False if bad else True, "hash", w, "the hash depends on %s" % bad)
        return n


def unk(st):
    return any(e[0] == 'loop' for e in st.events())


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    A = An(ctx)
    ctx.need("member functions of Tags", len(A.ms), 5)
    if not A.known or not A.large:
        ctx.und("repr", CLS, "unknown representation: %s" % sorted(A.nm))
        return
    n = 0
    for m in A.ms:
        try:
            if m.ctor in ('def', 'move', 'copy'):
                n += A.construct(m)
            elif m.ctor:
                n += A.addall(m)
            elif m.dtor:
                n += A.destroy(m)
            elif m.name == 'operator=':
                n += A.assign(m)
            elif m.name == 'add':
                n += A.addition(m)
            elif m.name in ('has', 'at'):
                n += A.lookups(m)
            elif m.name == 'operator==':
                n += A.equality(m)
            elif m.name == 'add_all':
                n += A.addall(m)
            elif m.name == 'hash':
                n += A.hashing(m)
        except AnalysisBroken as e:
            ctx.und("repr", m.qn, "not analysable: %s" % e)
    ctx.need("analysed exits", n, 20)
