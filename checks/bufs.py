"""Client that knows fixed buffers, files and receives."""
from common import *

FILLS = {"read": 1, "pread": 1, "recv": 1, "recvfrom": 1}


class Bufs(Client):
    def __init__(self):
        self.found = []          # (verdict, rule, where, detail)
        self.skip = {"spectatord::Logger"}

    def typeof(self, I, root, path):
        T = I.loctype.get((root, ()))
        if T is None and root[0] in ('this', 'heap'):
            nm = root[1] if root[0] == 'this' else None
            r = I.prog.records.get(nm) or next((x for x in I.prog.records.values() if x.qn == nm), None)
            T = r.type if r is not None else None
        for i, p in enumerate(path):
            if T is None:
                return None
            T = T.noref()
            if isinstance(p, tuple) and p[0] == 'i':
                T = T.to if T.k == 'arr' else T.ta[0] if T.k == 'rec' and T.ta else None
            elif T.k == 'rec':
                r = I.prog.records.get(T.rec) or next((x for x in I.prog.records.values() if x.type.s == T.s), None)
                T = r.ft.get(p) if r is not None else None
            else:
                return None
        return T

    def capacity(self, I, root, path):
        T = self.typeof(I, root, path)
        if T is None:
            return None
        T = T.noref()
        if T.k == 'arr':
            return T.n
        if T.k == 'rec' and T.rec == 'std::array' and isinstance(T.ta[1], int):
            return T.ta[1]
        return None

    def region(self, I, p):
        """(root, path of the array, offset, capacity) a pointer points into"""
        lv = I.deref(p)
        if lv[2] and isinstance(lv[2][-1], tuple) and lv[2][-1][0] == 'i':
            return lv[1], lv[2][:-1], lv[2][-1][1], self.capacity(I, lv[1], lv[2][:-1])
        return lv[1], lv[2], Z, None

    def say(self, v, rule, where, detail):
        self.found.append((v, rule, where, detail))

    def within(self, I, st, p, n, where, what):
        if I.quiet:
            return
        root, path, off, N = self.region(I, p)
        if N is None:
            # memory this analysis does not know
            if root[0] in ('v', 't', 'this', 'g'):
                self.say(None, "bounds", where, "%s: unknown buffer %s" % (what, show(p)))
            return
        for a, b, why in ((Z, off, "before the buffer"), (add(off, n), c(N), "beyond its %d bytes" % N), (Z, n, "a negative length")):
            t = I.truth(st, I.le(decast(a), decast(b)))
            k = self.known(I, a) and self.known(I, b)
            self.say(True if t is True else False if t is False or k else None, "bounds", where, "%s %s%s: %s bytes at %s" % (what, "reaches " if why != "a negative length" else "", why, show(n), show(off)) if t is not True else what)

    def known(self, I, t):
        t = decast(t)
        return all(x in self.lens for x, _ in (t[2] if t[0] == 'lin' else [] if isc(t) else [(t, 1)]))

    lens = ()

    def access(self, I, st, root, path, write, fr, node):
        if I.quiet:
            return
        for j, p in enumerate(path):
            if isinstance(p, tuple) and p[0] == 'i':
                N = self.capacity(I, root, path[:j])
                if N is None or root[0] not in ('v', 't', 'this', 'g', 'heap'):
                    continue
                where = fr.tu.loc(node.get("l")) if node else '?'
                i = p[1]
                for a, b in ((Z, i), (add(i, ONE), c(N))):
                    t = I.truth(st, I.le(decast(a), decast(b)))
                    k = self.known(I, i)
                    self.say(True if t is True else False if t is False or k else None, "bounds", where,
                             "%s of byte %s of %d (path %s)" % ("write" if write else "read", show(i), N, pathstr(st)) if t is not True else "access")

    def index(self, I, st, obj, i, n, fr, node, checked):
        if I.quiet or checked:
            return
        if I.capacity_of(obj) if hasattr(I, 'capacity_of') else False:
            return
        where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
        if self.capacity(I, obj[1], obj[2]) is not None:
            return                      # decided at the access
        for a, b in ((Z, i), (add(i, ONE), n)):
            t = I.truth(st, I.le(decast(a), decast(b)))
            fully = isc(i) and n[0] == 'size'
            self.say(True if t is True else False if t is False or fully else None, "bounds", where,
                     "element %s of a list of %s (path %s)" % (show(i), show(n), pathstr(st)) if t is not True else "element")

    def cstr(self, I, st, what, p, fr, node):
        """a function reads p up to its terminator"""
        if I.quiet:
            return
        where = fr.tu.loc(node.get("l")) if node and node.get("l") else '?'
        root, path, off, N = self.region(I, p)
        if N is None:
            return
        self.say(self.terminated(I, st, root, path, off, N), "terminated", where, "the text at %s given to %s has no terminator inside its buffer (path %s)" % (show(p), what, pathstr(st)))

    def terminated(self, I, st, root, path, off, N):
        if st.x.get(('text', root, path)):
            return True
        for (r, p), v in st.mem.items():
            if r == root and p[:len(path)] == path and len(p) == len(path) + 1 and isinstance(p[-1], tuple) and v == Z:
                k = p[-1][1]
                if I.truth(st, I.le(decast(off), decast(k))) is True and I.truth(st, I.le(decast(add(k, ONE)), c(N))) is True:
                    return True
        return False

    def call(self, I, fn, obj, args, st, fr, node):
        q = fn.qn
        where = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        if q in self.skip:
            I.n += 1
            t = ('ret', q, I.n)
            I.typed(t, fn.rt)
            return [(st, t)]
        if q == 'asio::buffer':
            a0 = args[0]
            T0 = fn.pt[0].noref()
            n = I.rval(st, args[1], fn.pt[1]) if len(args) > 1 else None
            if T0.k == 'ptr':
                p = I.rval(st, a0, fn.pt[0])
            elif a0[0] == 'lv':
                p = I.addr(a0[1], a0[2] + (('i', Z),))
                N = self.capacity(I, a0[1], a0[2])
                if N is None:
                    return None
                if n is None:
                    n = c(N)
                elif isc(n):
                    n = c(min(n[1], N))
                else:
                    return None
            else:
                return None
            return [(st, ('abuf', p, n))] if n is not None else None
        if '::async_receive' in q or '::async_read_some' in q:
            vals = tuple(I.argval(st, a, p) for a, p in zip(args, list(fn.pt) + [None] * len(args)))
            st.event('arm', I.addr(obj[1], obj[2]) if obj is not None else None, vals, where)
            I.n += 1
            return [(st, ('ret', q, I.n))]
        nm = q[2:] if q.startswith('::') else q
        if nm in FILLS:
            i = FILLS[nm]
            p, n = I.rval(st, args[i], fn.pt[i]), I.rval(st, args[i + 1], fn.pt[i + 1])
            self.within(I, st, p, n, where, "%s()" % nm)
            vals = tuple(I.argval(st, a, t) for a, t in zip(args, fn.pt))
            root, path, off, N = self.region(I, p)
            I.havoc(st, root, path)
            st.x[('text', root, path)] = False
            I.n += 1
            t = ('ret', nm, I.n)
            I.dom.ranges[t] = (-1, n[1] if isc(n) else None)
            if not isc(n):
                I.assume(st, I.le(t, n), True)
            self.lens = tuple(self.lens) + (t, ('cast', 32, 1, t))
            st.event('call', nm, None, vals, t, where)
            return [(st, t)]
        if nm in ('fgets', 'std::fgets'):
            p, n, f_ = [I.rval(st, a, t) for a, t in zip(args, fn.pt)]
            self.within(I, st, p, n, where, "fgets()")
            root, path, off, N = self.region(I, p)
            I.havoc(st, root, path)
            I.n += 1
            t = ('ret', 'fgets', I.n)
            st.event('call', 'fgets', None, (p, n, f_), t, where)
            s2 = st.clone()
            st.x[('text', root, path)] = True
            s2.x[('text', root, path)] = False
            I.assume(st, I.eq(t, Z), False)
            I.assume(s2, I.eq(t, Z), True)
            return [(st, t), (s2, t)]
        if nm in ('fread', 'std::fread'):
            p, a, b = [I.rval(st, args[i], fn.pt[i]) for i in range(3)]
            n = scale(b, a[1]) if isc(a) else scale(a, b[1]) if isc(b) else ('?',)
            self.within(I, st, p, n, where, "fread()")
            return None
        if nm in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'memset', 'std::memset', 'strncpy', 'snprintf') and nm not in ():
            p = I.rval(st, args[0], fn.pt[0])
            n = I.rval(st, args[1 if nm == 'snprintf' else 2], fn.pt[1 if nm == 'snprintf' else 2])
            self.within(I, st, p, n, where, nm)
            return None
        return None


def report(ctx, cl, rules=None):
    seen_ = {}
    for v, rule, where, detail in cl.found:
        if rules is not None and rule not in rules:
            continue
        k = (rule, where, detail)
        o = seen_.get(k)
        if o is None or (o is True and v is not True) or (o is None and v is False):
            seen_[k] = v
    for (rule, where, detail), v in seen_.items():
        ctx.check(v, rule, where, detail)
