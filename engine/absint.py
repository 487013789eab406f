"""Path-partitioned abstract interpreter over the exported program.

Values are value numbers (terms.py); numeric facts are linear inequalities
(dom.py); loops are solved by havocking what they modify and keeping the
candidate inequalities that are inductive.  There is no solver and nothing of
the analysed program is run."""
import re
from terms import *
from dom import State, Dom, cons
from extract import AnalysisBroken, Exhausted

MAXPATHS = 6000


class Frame:
    __slots__ = ("fn", "tu", "depth", "this", "caps", "up")

    def __init__(self, fn, depth, this, caps=None, up=None):
        self.fn, self.tu, self.depth, self.this, self.caps, self.up = fn, fn.tu, depth, this, caps or {}, up

    def T(self, e):
        return self.tu.types[e["t"]]


class Client:
    """what a check may override"""

    def inline(self, fn):
        return True

    def call(self, I, fn, obj, args, st, fr, node):
        return None

    def access(self, I, st, root, path, write, fr, node):
        pass

    def assumed(self, I, st, t, val):
        """extra consequences of a condition; False when infeasible"""
        return True

    def loop_candidates(self, I, entry, head, W):
        return []

    def throws(self, fn):
        return not fn.nx

    def watch(self, T):
        """local objects of this type leave a ('gone', address, value) event when their scope ends"""
        return False


def norm_qn(q):
    q = q.replace("std::__atomic_base::", "std::atomic::").replace("std::__atomic_float::", "std::atomic::")
    q = q.replace("std::__shared_ptr_access::", "std::shared_ptr::").replace("std::__shared_ptr::", "std::shared_ptr::")
    q = q.replace("std::_Optional_base_impl::", "std::optional::").replace("std::__cxx11::", "std::")
    q = re.sub(r"std::atomic::atomic_\w+|std::atomic_\w+::", "std::atomic::", q)
    return q


STD_LEAF = ("std::basic_string", "std::basic_string_view", "std::shared_ptr", "std::unique_ptr", "std::function",
            "std::vector", "std::map", "std::unordered_map", "std::set", "std::thread", "std::atomic")


class Interp:
    def __init__(self, prog, client=None, model_tags=True):
        self.on_store = getattr(client, 'stored', None)
        self.prog = prog
        self.client = client or Client()
        self.dom = Dom()
        self.n = 0
        self.quiet = 0
        self.lamdepth = 0
        self.abrupt = []
        self.stack = []
        self.loops = {}
        self.ptratoms = set()
        self.loctype = {}
        self.trydepth = 0
        self.model_tags = model_tags
        self.unroll = 40
        self.analysed = set()
        self.ncalls = 0
        self.unknown = set()
        import models
        self.models = models.MODELS
        self.M = models
        self._nqn = {}

    # ------------------------------------------------------------ naming
    def fresh(self, tag, T=None):
        self.n += 1
        t = ('sym', tag, self.n)
        self.typed(t, T)
        return t

    def typed(self, t, T):
        if T is not None:
            if T.k == 'ref':
                T = T.to
            if t[0] in ('c', 'lin', 'f', 'poly', 'agg', 's'):
                return t
            r = T.range()
            if r:
                self.dom.ranges.setdefault(t, r)
            elif T.k == 'ptr':
                self.ptratoms.add(t)
                self.dom.ranges.setdefault(t, (0, None))
        return t

    # ------------------------------------------------------------ types
    def is_tags(self, T):
        return self.model_tags and T is not None and T.k == 'rec' and T.rec == 'spectator::Tags'

    def is_agg(self, T):
        if T is None or T.k == 'arr':
            return T is not None
        if T.k != 'rec' or self.is_tags(T):
            return False
        if T.lam:
            return False
        if T.repo or T.rec in ('std::pair', 'std::optional', 'std::array', 'std::tuple'):
            return True
        return False

    def fields(self, T):
        """[(path, Type)] of the direct members of an aggregate"""
        if T.k == 'arr':
            if T.n is not None and T.n <= 64:
                return [((('i', c(i)),), T.to) for i in range(T.n)]
            return []
        if T.rec == 'std::pair':
            return [(('first',), T.ta[0]), (('second',), T.ta[1])]
        if T.rec == 'std::tuple':
            return [((('t', i),), x) for i, x in enumerate(T.ta)]
        if T.rec == 'std::optional':
            return [(('#has',), None), (('#val',), T.ta[0])]
        if T.rec == 'std::array':
            n = T.ta[1]
            if isinstance(n, int) and n <= 64:
                return [((('i', c(i)),), T.ta[0]) for i in range(n)]
            return []
        r = self.prog.records.get(T.s.replace('const ', '', 1) if T.s.startswith('const ') else T.s)
        if r is None:
            return []
        out = []
        for b in r.bases:
            if b is not None and self.is_agg(b):
                out += self.fields(b)
        if r.union:
            return [(('#u',), None)]
        for f in r.fields:
            out.append(((f["n"],), r.tu.types[f["t"]]))
        return out

    # ------------------------------------------------------------ memory
    def addr(self, root, path):
        if root[0] == 'mem' and len(path) == 1 and isinstance(path[0], tuple) and path[0][0] == 'i':
            return add(root[1], path[0][1])
        if root[0] == 'mem' and not path:
            return root[1]
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
            return add(('addr', root, path[:-1] + (('i', Z),)), path[-1][1])
        return ('addr', root, path)

    def split_ptr(self, p):
        """pointer term -> (base atom, offset)"""
        k, d = lin_of(p)
        if not d:
            return None, p
        cands = [a for a, q in d.items() if q == 1]
        if not cands:
            return None, p
        base = None
        for a in cands:
            if a[0] == 'addr':
                base = a
                break
        if base is None:
            for a in cands:
                if a in self.ptratoms:
                    base = a
                    break
        if base is None:
            base = cands[0]
        return base, sub(p, base)

    def deref(self, p):
        if p[0] == 'lv':
            return p
        base, off = self.split_ptr(p)
        if base is None:
            return ('lv', ('mem', p), (('i', Z),))
        if base[0] == 'addr':
            root, path = base[1], base[2]
            if path and path[-1] == ('i', Z):
                return ('lv', root, path[:-1] + (('i', off),))
            if off == Z:
                return ('lv', root, path)
            return ('lv', root, path + (('i', off),))
        return ('lv', ('mem', base), (('i', off),))

    def project(self, v, rest):
        if not rest:
            return v
        if v[0] == 'agg':
            ent = []
            for p, x in v[2]:
                if p == rest:
                    return x
                if rest[:len(p)] == p:
                    return self.project(x, rest[len(p):])
                if p[:len(rest)] == rest:
                    ent.append((p[len(rest):], x))
            if ent:
                return ('agg', '?', tuple(ent))
            # a list of elements read at an unknown index
            if isinstance(rest[0], tuple) and rest[0][0] == 'i' and not isc(rest[0][1]):
                return ('elem', v, rest)
            if v[1] == 'zero':
                return Z
            return ('fld', v, rest)
        if v[0] == 'fld':
            return ('fld', v[1], v[2] + rest)
        return ('fld', v, rest)

    def raw(self, st, root, path):
        """value number at a location, without building aggregates; None if only sub-locations are known"""
        m = st.mem
        v = m.get((root, path))
        if v is not None:
            return v
        for i in range(len(path) - 1, -1, -1):
            v = m.get((root, path[:i]))
            if v is not None:
                return self.project(v, path[i:])
            if i > 0:
                pass
        if root[0] == 'lit' and len(path) == 1 and isc(path[0][1]):
            s, i = root[1], path[0][1][1]
            if 0 <= i < len(s):
                return c(ord(s[i]) if ord(s[i]) < 128 else ord(s[i]) - 256)
            if i == len(s):
                return Z
        if root[0] == 'strbuf' and len(path) == 1 and isc(path[0][1]) and root[1][0] == 's':
            return self.raw(st, ('lit', root[1][1]), path)
        if root[0] == 'g':
            g = self.global_const(root[1], path)
            if g is not None:
                return g
        ver = st.ver.get(root, 0)
        if ver:
            return ('hv', ver, root, path)
        if root[0] in ('v', 't') and root[0] == 'v':
            return ('undef', root, path)
        return ('init', root, path)

    def global_const(self, name, path):
        for tu in self.prog.tus.values():
            g = tu.globals.get(name)
            if g is not None and g.get("apv") is not None:
                v = g["apv"]
                T = tu.types[g["t"]]
                return self.apv(v, path, T)
        return None

    def apv(self, v, path, T=None):
        for e in path:
            if v is None:
                return None
            if 'a' in v:
                if not (isinstance(e, tuple) and e[0] == 'i' and isc(e[1])):
                    return None
                i = e[1][1]
                if not 0 <= i < len(v['a']):
                    return None
                v = v['a'][i]
            elif 's' in v:
                # std::array: struct with one array member
                if isinstance(e, tuple) and e[0] == 'i' and len(v['s']) == 1:
                    v = self_apv_unwrap(v['s'][0])
                    if v is None or 'a' not in v or not isc(e[1]) or not 0 <= e[1][1] < len(v['a']):
                        return None
                    v = v['a'][e[1][1]]
                else:
                    return None
        if v is None:
            return None
        if 's' in v and T is not None and not path and T.k == 'rec':
            # durations are integers: nanoseconds (absl) or ticks (chrono)
            ii = [x.get('i') for x in v['s']]
            if T.rec.startswith('absl::') and T.rec.endswith('Duration') and len(ii) == 2 and None not in ii and int(ii[1]) % 4 == 0:
                return c(int(ii[0]) * 10**9 + int(ii[1]) // 4)
            if T.rec == 'std::chrono::duration' and len(ii) == 1 and ii[0] is not None:
                return c(int(ii[0]))
            return None
        if 'i' in v:
            return c(int(v['i']))
        if 'f' in v:
            return f(float.fromhex(v['f']) if v['f'] not in ('nan', 'inf', '-inf') else float(v['f']))
        return None

    def load(self, st, root, path, T):
        if T is not None and T.k == 'ref':
            T = T.to
        if T is not None and self.is_agg(T):
            fs = self.fields(T)
            if fs:
                if (root, path) in st.mem and st.mem[(root, path)][0] not in ('agg',):
                    hassub = any(k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path for k in st.mem)
                    if not hassub:
                        return st.mem[(root, path)]
                anc = None
                if not any(k[0] == root and k[1][:len(path)] == path for k in st.mem):
                    for i in range(len(path) - 1, -1, -1):
                        v = st.mem.get((root, path[:i]))
                        if v is not None:
                            anc = self.project(v, path[i:])
                            break
                    if anc is not None:
                        return anc
                ent = []
                for p, ft in fs:
                    v = self.load(st, root, path + p, ft)
                    ent.append((p, v))
                return ('agg', T.s.replace('const ', '', 1), self.flat(ent))
        v = self.raw(st, root, path)
        if T is not None and v is not None:
            if v[0] in ('init', 'hv', 'fld', 'undef', 'elem', 'sym'):
                self.typed(v, T)
        return v

    def flat(self, ent):
        out = []
        for p, v in ent:
            if v[0] == 'agg' and v[1] not in ('zero',) and v[2]:
                out += [(p + q, x) for q, x in v[2]]
            else:
                out.append((p, v))
        return tuple(out)

    def store(self, st, root, path, v, T=None):
        if self.on_store is not None:
            self.on_store(self, st, root, path, v)
        m = st.mem
        n = len(path)
        # symbolic or constant index into something written at another index
        for i, e in enumerate(path):
            if isinstance(e, tuple) and e[0] == 'i':
                pre = path[:i]
                for k in [k for k in m if k[0] == root and len(k[1]) > i and k[1][:i] == pre and isinstance(k[1][i], tuple)
                          and k[1][i][0] == 'i' and k[1][i] != e]:
                    if not self.dom.prove_ne0(st, sub(k[1][i][1], e[1])):
                        m[k] = self.fresh('alias')
                if not isc(e[1]) and (root, pre) in m and m[(root, pre)][0] == 'agg':
                    m[(root, pre)] = self.fresh('arr')
        for k in [k for k in m if k[0] == root and len(k[1]) > n and k[1][:n] == path]:
            del m[k]
        if v[0] == 'agg' and v[2] and v[1] not in ('zero',) and not (v[1] == 'list'):
            m.pop((root, path), None)
            for p, x in v[2]:
                m[(root, path + p)] = x
        else:
            m[(root, path)] = v
        if T is not None:
            self.loctype[(root, path)] = T

    def havoc(self, st, root, path, tag='hv'):
        m = st.mem
        n = len(path)
        if root[0] in ('mem', 'this', 'g') and not path:
            for k in [k for k in m if k[0] == root]:
                del m[k]
            self.n += 1
            st.ver[root] = self.n
            return
        for k in [k for k in m if k[0] == root and len(k[1]) > n and k[1][:n] == path]:
            del m[k]
        m[(root, path)] = self.fresh(tag, self.loctype.get((root, path)))

    # ------------------------------------------------------------ conditions
    def negate(self, t):
        if isc(t):
            return c(0 if t[1] else 1)
        if t[0] == 'not':
            return t[1]
        if t[0] == 'fc':
            return ('fc', t[1], t[2], ''.join(x for x in '<=>?' if x not in t[3]))
        return ('not', t)

    def eq(self, a, b):
        """term for a == b over integers / pointers / opaque values"""
        if a == b and a[0] not in ('f', 'poly'):
            return ONE
        for x, y in ((a, b), (b, a)):
            if x[0] == 's' and y[0] == 's':
                return c(x == y)
        if a[0] == 'intern' and b[0] == 'intern':
            return self.streq(a[1], b[1])
        d = sub(a, b)
        if isc(d):
            return c(d[1] == 0)
        if d[0] == 'lin':
            ad = [x for x, k in d[2] if x[0] == 'addr']
            if len(ad) == 2 and len(d[2]) == 2 and ad[0][1] != ad[1][1] and not (ad[0][1][0] == 'mem' or ad[1][1][0] == 'mem'):
                return Z
            if len(d[2]) == 2 and all(x[0] == 'intern' for x, _ in d[2]) and d[1] == 0:
                return self.streq(d[2][0][0][1], d[2][1][0][1])
        if d[0] == 'addr' or (d[0] == 'intern'):
            return Z
        # normal sign
        _, dd = lin_of(d)
        from dom import homog
        hk, s = homog(dd)
        if s < 0:
            d = scale(d, -1)
        return ('eq0', d)

    def streq(self, a, b):
        if a == b:
            return ONE
        if a[0] == 's' and b[0] == 's':
            return c(a[1] == b[1])
        if key(a) > key(b):
            a, b = b, a
        return ('streq', a, b)

    def le(self, a, b):
        d = sub(a, b)
        if isc(d):
            return c(d[1] <= 0)
        return ('le0', d)

    def fcmp(self, a, b, ops):
        """float comparison: true when the outcome is one of ops ('<','=','>','?')"""
        a, b = self.fnorm(a), self.fnorm(b)
        if isf(a) and isf(b):
            x, y = a[1], b[1]
            if x == 'nan' or y == 'nan':
                o = '?'
            else:
                o = '<' if x < y else '>' if x > y else '='
            return c(o in ops)
        if a == ('f', 'nan') or b == ('f', 'nan'):
            return c('?' in ops)
        if a != b:
            # difference compared with zero -> compare the two sides; single scaled atom -> the atom
            for x, y, o in ((a, b, ops), (b, a, ops.translate(str.maketrans('<>', '><')))):
                if isf(y) and x[0] == 'poly':
                    p = dict(x[1])
                    if len(p) == 1 and y[1] != 'nan':
                        (m, k), = p.items()
                        if k != 1.0 and not (len(m) == 1 and m[0][1] == 1 and k == 1.0):
                            nx = poly({m: 1.0})
                            oo = o if k > 0 else o.translate(str.maketrans('<>', '><'))
                            if nx[0] != 'poly' or y[1] == 0.0:
                                return self.fcmp(nx, f(y[1] / k), oo)
                    if len(p) == 2 and y[1] == 0.0 and () not in p and sorted(p.values()) == [-1.0, 1.0]:
                        pos = [m for m, k in p.items() if k > 0][0]
                        neg = [m for m, k in p.items() if k < 0][0]
                        return self.fcmp(poly({pos: 1.0}), poly({neg: 1.0}), o)
            if key(a) > key(b) or (isf(a) and not isf(b)):
                if not (isf(b) and not isf(a)):
                    a, b = b, a
                    ops = ops.translate(str.maketrans('<>', '><'))
        ops = ''.join(x for x in '<=>?' if x in ops)
        if a == b:
            pos = '=?'
            if not set(ops) & set(pos):
                return Z
            if set(pos) <= set(ops):
                return ONE
        if not ops:
            return Z
        if len(ops) == 4:
            return ONE
        return ('fc', a, b, ops)

    def fnorm(self, a):
        if a[0] == 'c':
            return f(a[1])
        if a[0] == 'lin':
            return poly(poly_of(a))
        return a

    def isint_atom(self, st, a):
        """float value that is a converted integer can't be NaN"""
        return a in self.dom.ranges

    def fpossible(self, st, a, b):
        s = st.facts.get(('fcp', a, b), '<=>?')
        na, nb = st.facts.get(('fcp', a, a), '=?'), st.facts.get(('fcp', b, b), '=?')
        if a != b:
            if na == '=' and (isf(b) or nb == '='):
                s = s.replace('?', '')
            if na == '?' or (not isf(b) and nb == '?'):
                s = '?' if '?' in s else ''
        if '?' in s and self.never_nan(a) and self.never_nan(b):
            s = s.replace('?', '')
        # constants: bounds known from other comparisons with constants
        if isf(b) and b[1] != 'nan' and a != b:
            lo, los, hi, his = None, False, None, False
            for k, v in st.facts.items():
                if isinstance(k, tuple) and k[0] == 'fcp' and k[1] == a and isf(k[2]) and k[2] != b:
                    y = k[2][1]
                    vv = v.replace('?', '')
                    if '?' not in v:
                        s = s.replace('?', '')
                    else:
                        continue
                    if '>' not in vv:
                        if hi is None or y < hi or (y == hi and '=' not in vv):
                            hi, his = y, '=' not in vv
                    if '<' not in vv:
                        if lo is None or y > lo or (y == lo and '=' not in vv):
                            lo, los = y, '=' not in vv
            y = b[1]
            if hi is not None:
                if hi < y or (hi == y and his):
                    s = s.replace('>', '').replace('=', '')
                elif hi == y:
                    s = s.replace('>', '')
            if lo is not None:
                if lo > y or (lo == y and los):
                    s = s.replace('<', '').replace('=', '')
                elif lo == y:
                    s = s.replace('<', '')
            if a in self.dom.ranges:
                l, h = self.dom.bounds(st, a)
                if l is not None:
                    if l > y:
                        s = s.replace('<', '').replace('=', '')
                    elif l == y:
                        s = s.replace('<', '')
                if h is not None:
                    if h < y:
                        s = s.replace('>', '').replace('=', '')
                    elif h == y:
                        s = s.replace('>', '')
        return s

    def never_nan(self, a):
        if isf(a):
            return a[1] != 'nan'
        return a in self.dom.ranges

    def truth(self, st, t):
        k = t[0]
        if k == 'c':
            return t[1] != 0
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        if k == 'f':
            return t[1] != 0
        if k == 'le0':
            if self.dom.prove_le0(st, t[1]):
                return True
            if self.dom.prove_le0(st, sub(ONE, t[1])):
                return False
            return None
        if k == 'eq0':
            if self.dom.prove_ne0(st, t[1]):
                return False
            if self.dom.prove_eq0(st, t[1]):
                return True
            if t in st.facts:
                return st.facts[t]
            return None
        if k == 'fc':
            if t[1] == t[2]:
                p = st.facts.get(('fcp', t[1], t[1]), '=?')
                if self.never_nan(t[1]):
                    p = p.replace('?', '')
                if p == '=?':
                    # some comparison excluded NaN
                    for kk, v in st.facts.items():
                        if isinstance(kk, tuple) and kk[0] == 'fcp' and t[1] in (kk[1], kk[2]) and '?' not in v:
                            p = '='
                            break
            else:
                p = self.fpossible(st, t[1], t[2])
            if not p:
                return False
            if all(x in t[3] for x in p):
                return True
            if not any(x in t[3] for x in p):
                return False
            return None
        if k in ('lin', 'addr'):
            if k == 'addr':
                return True
            if self.dom.prove_ne0(st, t):
                return True
            if self.dom.prove_eq0(st, t):
                return False
            return None
        if k == 's':
            return True
        if k == 'intern':
            return True
        r = st.facts.get(t)
        if r is not None:
            return r
        if t in self.dom.ranges or k in ('cast', 'band', 'shr'):
            if self.dom.prove_ne0(st, t):
                return True
            if self.dom.prove_eq0(st, t):
                return False
        return None

    def assume(self, st, t, val):
        """add t==val; False if infeasible"""
        k = t[0]
        if k == 'c':
            return (t[1] != 0) == val
        if k == 'f':
            return (t[1] != 0) == val
        if k == 'not':
            return self.assume(st, t[1], not val)
        tr = self.truth(st, t)
        if tr is not None and tr != val:
            return False
        if k == 'le0':
            ok = self.dom.assume_le0(st, t[1] if val else sub(ONE, t[1]))
        elif k == 'eq0':
            ok = self.dom.assume_eq0(st, t[1]) if val else self.dom.assume_ne0(st, t[1])
            st.facts[t] = val
        elif k == 'fc':
            ops = t[3] if val else ''.join(x for x in '<=>?' if x not in t[3])
            kk = ('fcp', t[1], t[2])
            cur = st.facts.get(kk, '=?' if t[1] == t[2] else '<=>?')
            new = ''.join(x for x in cur if x in ops)
            st.facts[kk] = new
            ok = bool(new)
        elif k == 'lin' or (t in self.dom.ranges and not isinstance(st.facts.get(t), bool)):
            ok = self.dom.assume_ne0(st, t) if val else self.dom.assume_eq0(st, t)
            if k != 'lin':
                st.facts[t] = val
        else:
            st.facts[t] = val
            ok = True
        if ok and tr is None:
            st.trail = cons(st.trail, (t, val))
        if ok:
            ok = self.client.assumed(self, st, t, val)
        return ok

    def fork(self, st, t):
        """[(state, bool)]"""
        tr = self.truth(st, t)
        if tr is not None:
            return [(st, tr)]
        out = []
        s2 = st.clone()
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        out = [(st, ())]
        for e in es:
            nx = []
            for s, vs in out:
                for s2, v in self.ev(e, s, fr):
                    nx.append((s2, vs + (v,)))
            out = nx
        return out

    def rval(self, st, v, T):
        """lvalue -> its value"""
        if isinstance(v, tuple) and v and v[0] == 'lv':
            return self.load(st, v[1], v[2], T)
        return v

    def cond(self, e, st, fr):
        k = e["k"]
        if k == "Bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["a"], st, fr):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["b"], s, fr)
            return out
        if k == "Un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["e"], st, fr)]
        if k == "Cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean") and "cv" not in e:
            out = []
            for s, v in self.ev(e["e"], st, fr):
                out += self.fork(s, self.tobool(s, v, fr.T(e["e"])))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            v = self.rval(s, v, fr.T(e))
            out += self.fork(s, self.tobool(s, v, fr.T(e)))
        return out

    def tobool(self, st, v, T):
        if v[0] in ('c', 'le0', 'eq0', 'fc', 'not', 'streq', 'call'):
            if v[0] == 'call' and T is not None and T.k == 'ptr':
                return self.negate(self.eq(v, Z))
            return v
        if T is not None and T.k == 'float':
            return self.fcmp(v, f(0), '<>?')
        if T is not None and T.k in ('int', 'enum', 'ptr'):
            return self.negate(self.eq(v, Z))
        if v[0] == 'lin':
            return self.negate(self.eq(v, Z))
        return v

    def obj_lv(self, v, st, T=None):
        """an object expression's value -> lvalue (temporary when it is a value)"""
        if v[0] == 'lv':
            return v
        self.n += 1
        root = ('t', self.n)
        self.store(st, root, (), v, T)
        return ('lv', root, ())

    def ev(self, e, st, fr):
        k = e["k"]
        cv = e.get("cv")
        if cv is not None and k not in ("Call", "MCall", "Ctor", "StmtE"):
            return [(st, c(int(cv)))]
        cf = e.get("cf")
        if cf is not None and k not in ("Call", "MCall", "StmtE"):
            return [(st, f(parse_hex(cf)))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unknown.add(k)
            return [(st, self.fresh('unk_' + k, fr.T(e) if "t" in e else None))]
        return m(e, st, fr)

    def e_Int(self, e, st, fr):
        return [(st, c(int(e["v"])))]

    def e_Flt(self, e, st, fr):
        return [(st, f(parse_hex(e["v"])))]

    def e_Str(self, e, st, fr):
        return [(st, ('lv', ('lit', e["v"]), ()))]

    def e_Null(self, e, st, fr):
        return [(st, Z)]

    def e_Zero(self, e, st, fr):
        return [(st, self.zero(fr.T(e)))]

    def zero(self, T):
        if T is not None:
            if T.k == 'float':
                return f(0)
            if self.is_agg(T):
                fs = self.fields(T)
                if fs:
                    return ('agg', T.s, self.flat([(p, self.zero(ft)) for p, ft in fs]))
                return ('agg', 'zero', ())
            if self.is_tags(T):
                return ('tags', ())
        return Z

    def e_This(self, e, st, fr):
        return [(st, self.addr(fr.this[1], fr.this[2]) if fr.this else Z)]

    def e_FnRef(self, e, st, fr):
        return [(st, ('fn', fr.tu.fns[e["fn"]].key))]

    def e_MFn(self, e, st, fr):
        return [(st, ('fn', fr.tu.fns[e["fn"]].key))]

    def var_lv(self, e, st, fr):
        d = e["d"]
        if e.get("g"):
            return ('lv', ('g', e["g"]), ())
        if d in fr.caps:
            return fr.caps[d]
        r = st.refs.get((fr.depth, d))
        if r is not None:
            return r
        return ('lv', ('v', fr.depth, d), ())

    def e_Ref(self, e, st, fr):
        if e.get("g") and e["g"] and e.get("sl"):
            self.static_init(e, st, fr)
        lv = self.var_lv(e, st, fr)
        if e.get("g") and e.get("rf"):
            v = st.mem.get((lv[1], ()))
            if v is not None and v[0] == 'reflv':
                return [(st, v[1])]
            return [(st, self.deref(('init', lv[1], ())))]
        return [(st, lv)]

    def static_init(self, e, st, fr):
        pass

    def e_Mem(self, e, st, fr):
        out = []
        for s, v in self.ev(e["b"], st, fr):
            if e.get("ar"):
                lv = self.deref(v)
            else:
                lv = self.obj_lv(v, s, fr.T(e["b"]))
            fname = e["f"]
            if e.get("rec", "").startswith("std::pair") or e.get("rec", "") == "std::pair":
                pass
            ft = fr.tu.types[e["ft"]] if "ft" in e else None
            path = lv[2] if fname == "(anon)" else lv[2] + (fname,)
            if e.get("un") and not (ft is not None and self.is_agg(ft)):
                self.loctype.setdefault((lv[1], path), ft)
            if ft is not None and ft.k == 'ref':
                v2 = self.raw(s, lv[1], path)
                if v2[0] == 'reflv':
                    out.append((s, v2[1]))
                else:
                    self.typed(v2, ft)
                    out.append((s, self.deref(v2)))
            else:
                out.append((s, ('lv', lv[1], path)))
        return out

    def e_Idx(self, e, st, fr):
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st, fr):
            if fr.T(e["a"]).k != 'ptr' and a[0] != 'lv':
                a, b = b, a
            lv = self.deref(add(a, b)) if a[0] != 'lv' else ('lv', a[1], a[2] + (('i', b),))
            out.append((s, lv))
        return out

    # ---- casts
    def e_Cast(self, e, st, fr):
        ck = e["ck"]
        out = []
        T = fr.T(e)
        for s, v in self.ev(e["e"], st, fr):
            out.append((s, self.cast(ck, v, T, fr.T(e["e"]), s, fr, e)))
        return out

    def union_key(self, st, lv):
        return None

    def cast(self, ck, v, T, F, st, fr, e):
        if ck == "LValueToRValue":
            if v[0] != 'lv':
                return v
            self.client.access(self, st, v[1], v[2], False, fr, e)
            r = self.load_u(st, v[1], v[2], T, e.get("e") or e.get("a") or e)
            return self.fold(st, r)
        if ck == "ArrayToPointerDecay":
            if v[0] == 'lv':
                return self.addr(v[1], v[2] + (('i', Z),))
            return v
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.icast(st, v, T)
        if ck in ("IntegralToFloating",):
            if isc(v):
                return f(v[1])
            return v
        if ck == "FloatingToIntegral":
            return self.f2i(v, T)
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean" or ck == "FloatingToBoolean":
            return self.tobool(st, v, F)
        if ck == "FloatingCast":
            if T.w == 32:
                return ('f32', v)
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return v
        if ck == "ToVoid":
            return Z
        return v

    def load_u(self, st, root, path, T, e):
        """load that knows about unions"""
        if e.get("k") == "Mem" and e.get("un"):
            u = st.mem.get((root, path[:-1] + ('#u',)))
            if u is not None:
                if u[0] == 'u' and u[1] == path[-1]:
                    return u[2]
                if u[0] == 'u':
                    return self.typed(('reint', T.s, u[2]), T)
                return self.typed(('fld', u, (path[-1],)), T)
            if (root, path) not in st.mem:
                for i in range(len(path) - 1, -1, -1):
                    v = st.mem.get((root, path[:i]))
                    if v is not None:
                        if v[0] == 'agg':
                            uu = self.project(v, path[i:-1] + ('#u',))
                            if uu[0] == 'u' and uu[1] == path[-1]:
                                return uu[2]
                            if uu[0] == 'u':
                                return self.typed(('reint', T.s, uu[2]), T)
                        break
        return self.load(st, root, path, T)

    def fold(self, st, v):
        if v[0] in ('c', 'f', 's', 'agg', 'addr'):
            return v
        if v[0] in ('lin', 'idiv', 'shr', 'band', 'mod', 'cast') or v in self.dom.ranges:
            lo, hi = self.dom.bounds(st, v)
            if lo is not None and lo == hi:
                return c(lo)
        return v

    def icast(self, st, v, T):
        r = T.range()
        if r is None:
            return v
        if v[0] in ('le0', 'eq0', 'fc', 'not', 'streq'):
            return v
        return self.wrap(st, v, T, True)

    def wrap(self, st, v, T, conv=False):
        r = T.range()
        if r is None:
            return v
        if isc(v):
            x = v[1]
            if r[0] <= x <= r[1]:
                return v
            x &= (1 << T.w) - 1
            if T.sg and x >> (T.w - 1):
                x -= 1 << T.w
            return c(x)
        lo, hi = self.dom.bounds(st, v)
        if lo is not None and hi is not None and r[0] <= lo and hi <= r[1]:
            return v
        if T.sg and not conv:
            return v            # signed overflow is undefined: assumed not to happen
        cst, d = lin_of(v)
        if any(a in self.ptratoms or a[0] in ('addr',) for a in d):
            # pointer differences: their own range is not tracked
            pd = sum(1 for a in d if a in self.ptratoms or a[0] == 'addr')
            if pd == 1:
                return v
        if v[0] == 'cast' and v[1] >= T.w:
            return self.wrap(st, v[3], T, True)
        if r[0] <= (lo if lo is not None else -(1 << 200)) and hi is None and T.w == 64 and lo is not None:
            return v
        return ('cast', T.w, 1 if T.sg else 0, v)

    def f2i(self, v, T):
        if isf(v) and v[1] != 'nan' and abs(v[1]) < 2 ** 63:
            return c(int(v[1]))
        if v[0] in ('lin', 'c') or v in self.dom.ranges:
            return v          # integer converted to floating and back
        return ('f2i', T.w or 64, 1 if T.sg else 0, v)

    # ---- operators
    def e_Un(self, e, st, fr):
        op = e["op"]
        T = fr.T(e)
        out = []
        if op == "!":
            for s, b in self.cond(e["e"], st, fr):
                out.append((s, c(0 if b else 1)))
            return out
        for s, v in self.ev(e["e"], st, fr):
            if op == "*":
                out.append((s, self.deref(v)))
            elif op == "&":
                out.append((s, self.addr(v[1], v[2]) if v[0] == 'lv' else v))
            elif op == "-":
                out.append((s, fmul(f(-1), v) if T.k == 'float' else self.wrap(s, scale(v, -1), T)))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                out.append((s, self.wrap(s, sub(scale(v, -1), ONE), T, True)))
            elif op in ("++", "--"):
                FT = fr.T(e["e"])
                old = self.cast("LValueToRValue", v, FT, FT, s, fr, e)
                if FT.k == 'float':
                    new = fadd(old, f(1 if op == "++" else -1))
                else:
                    new = add(old, c(1 if op == "++" else -1))
                    if FT.isint():
                        new = self.wrap(s, new, FT)
                self.write(s, v, new, FT, fr, e)
                out.append((s, old if e.get("post") else v))
            else:
                out.append((s, self.fresh('un' + op, T)))
        return out

    def write(self, st, lv, v, T, fr, e):
        self.client.access(self, st, lv[1], lv[2], True, fr, e)
        t = e.get("a") or e.get("e") or {}
        if isinstance(t, dict) and t.get("k") == "Mem" and t.get("un") and not self.is_agg(T):
            self.store(st, lv[1], lv[2][:-1] + ('#u',), ('u', lv[2][-1], v))
            return
        self.store(st, lv[1], lv[2], v, T)

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, c(1 if b else 0)) for s, b in self.cond(e, st, fr)]
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st, fr):
                out += self.ev(e["b"], s, fr)
            return out
        if op == "=":
            out = []
            for s, v in self.ev(e["b"], st, fr):
                for s2, lv in self.ev(e["a"], s, fr):
                    T = fr.T(e["a"])
                    v2 = self.rval(s2, v, T)
                    self.write(s2, lv, v2, T, fr, e)
                    out.append((s2, lv))
            return out
        out = []
        AT = fr.T(e["a"])
        for s, (a, b) in self.evs([e["a"], e["b"]], st, fr):
            a, b = self.rval(s, a, AT), self.rval(s, b, fr.T(e["b"]))
            out.append((s, self.fold(s, self.binop(s, op, a, b, fr.T(e), AT, fr.T(e["b"])))))
        return out

    def binop(self, st, op, a, b, T, AT, BT):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if AT.k == 'float' or BT.k == 'float':
                o = {"<": '<', ">": '>', "<=": '<=', ">=": '=>', "==": '=', "!=": '<>?'}[op]
                return self.fcmp(a, b, o)
            if op == "<":
                return self.le(add(a, ONE), b)
            if op == ">":
                return self.le(add(b, ONE), a)
            if op == "<=":
                return self.le(a, b)
            if op == ">=":
                return self.le(b, a)
            if a[0] in ('le0', 'eq0', 'fc', 'not', 'streq') or b[0] in ('le0', 'eq0', 'fc', 'not', 'streq'):
                # comparing truth values
                for x, y in ((a, b), (b, a)):
                    if isc(y):
                        r = x if y[1] else self.negate(x)
                        return r if op == "==" else self.negate(r)
            r = self.eq(a, b)
            return r if op == "==" else self.negate(r)
        if T.k == 'float':
            if op == '+':
                return fadd(a, b)
            if op == '-':
                return fadd(a, b, -1)
            if op == '*':
                return fmul(a, b)
            if op == '/':
                return fdiv(a, b)
        if op == '+':
            return self.wrap(st, add(a, b), T) if T.k != 'ptr' else add(a, b)
        if op == '-':
            r = sub(a, b)
            if AT.k == 'ptr':
                return r
            return self.wrap(st, r, T)
        if op == '*':
            if isc(a):
                return self.wrap(st, scale(b, a[1]), T)
            if isc(b):
                return self.wrap(st, scale(a, b[1]), T)
            if key(a) > key(b):
                a, b = b, a
            return self.typed(('mul', a, b), T)
        if op == '/':
            if isc(b) and b[1] == 1:
                return a
            if isc(a) and isc(b) and b[1]:
                q = abs(a[1]) // abs(b[1])
                return c(q if (a[1] < 0) == (b[1] < 0) else -q)
            return self.typed(('idiv', a, b), T)
        if op == '%':
            if isc(a) and isc(b) and b[1]:
                q = abs(a[1]) % abs(b[1])
                return c(q if a[1] >= 0 else -q)
            if isc(b) and b[1] == 2:
                lo, hi = self.dom.bounds(st, a)
                if lo is not None and lo == hi:
                    return c(lo % 2)
            return self.typed(('mod', a, b), T)
        if op == '<<':
            if isc(b):
                return self.wrap(st, scale(a, 1 << b[1]), T, not T.sg)
            if isc(a):
                return self.typed(('shl', a, b), T)
            return self.typed(('shl', a, b), T)
        if op == '>>':
            if isc(b):
                if isc(a):
                    return c(a[1] >> b[1])
                if b[1] == 0:
                    return a
                if a[0] == 'shr' and isinstance(a[2], int):
                    return ('shr', a[1], a[2] + b[1])
                return ('shr', a, b[1])
            return self.typed(('shrv', a, b), T)
        if op in ('&', '|', '^'):
            if isc(a) and isc(b):
                return c({'&': a[1] & b[1], '|': a[1] | b[1], '^': a[1] ^ b[1]}[op])
            if op == '&':
                for x, y in ((a, b), (b, a)):
                    if isc(y):
                        lo, hi = self.dom.bounds(st, x)
                        m = y[1]
                        if m >= 0 and (m & (m + 1)) == 0 and lo is not None and lo >= 0 and hi is not None and hi <= m:
                            return x
                        if m == 0:
                            return Z
            if T.k == 'bool' or (a[0] in ('le0', 'eq0', 'fc', 'not', 'streq', 'c') and b[0] in ('le0', 'eq0', 'fc', 'not', 'streq', 'c')):
                ta, tb = self.truth(st, a), self.truth(st, b)
                if op == '&':
                    if ta is False or tb is False:
                        return Z
                    if ta:
                        return b
                    if tb:
                        return a
                if op == '|':
                    if ta or tb:
                        return ONE
                    if ta is False:
                        return b
                    if tb is False:
                        return a
            if key(a) > key(b):
                a, b = b, a
            return self.typed(({'&': 'band', '|': 'bor', '^': 'bxor'}[op], a, b), T)
        return self.fresh('bin' + op, T)

    def e_CAsg(self, e, st, fr):
        out = []
        T = fr.T(e["a"])
        CT = fr.tu.types[e["ct"]] if e.get("ct") is not None and e["ct"] >= 0 else T
        for s, (b,) in self.evs([e["b"]], st, fr):
            for s2, lv in self.ev(e["a"], s, fr):
                BT = fr.T(e["b"])
                b2 = self.rval(s2, b, BT)
                old = self.cast("LValueToRValue", lv, T, T, s2, fr, e)
                a = old
                if CT.k == 'float' and T.k != 'float' and isc(a):
                    a = f(a[1])
                if T.k == 'ptr':
                    r = add(a, b2) if e["op"] == '+' else sub(a, b2)
                else:
                    r = self.binop(s2, e["op"], a, b2, CT, CT, BT)
                    if CT.k == 'float' and T.k != 'float':
                        r = self.f2i(r, T)
                    elif T.isint():
                        r = self.wrap(s2, r, T, CT is not T)
                r = self.fold(s2, r)
                self.write(s2, lv, r, T, fr, e)
                out.append((s2, lv))
        return out

    def e_Cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e["c"], st, fr):
            out += self.ev(e["a"] if b else e["b"], s, fr)
        return out

    def e_SizeOf(self, e, st, fr):
        return [(st, c(int(e.get("cv", 1))))]

    def e_Typeid(self, e, st, fr):
        if "ot" in e:
            return [(st, ('typeid', fr.tu.types[e["ot"]].s))]
        return [(s, ('typeid?', self.rval(s, v, None))) for s, v in self.ev(e["e"], st, fr)]

    def e_Throw(self, e, st, fr):
        if e.get("e"):
            for s, v in self.ev(e["e"], st, fr):
                self.abrupt.append((s, ('X', v)))
        else:
            self.abrupt.append((st, ('X', None)))
        return []

    def e_StmtE(self, e, st, fr):
        out = []
        for s, fl in self.exec(e["s"], st, fr):
            if fl[0] == 'N':
                out.append((s, self.fresh('stmte')))
            else:
                self.abrupt.append((s, fl))
        return out

    def e_Mat(self, e, st, fr):
        if e["e"]["k"] == "StdIL":
            # the list stands for its array
            return self.ev(e["e"], st, fr)
        out = []
        for s, lv in self.ev_temp(e["e"], st, fr):
            out.append((s, lv))
        return out

    def ev_temp(self, e, st, fr):
        """evaluate a prvalue into a new temporary"""
        self.n += 1
        root = ('t', self.n)
        out = []
        for s in self.ev_into(e, st, fr, ('lv', root, ())):
            g = s.mem.get((root, ()))
            if g is not None and g[0] == 'guard':
                # a lock guard that dies at the end of the full expression
                self.M.guard_release(self, s, ('lv', root, ()))
            out.append((s, ('lv', root, ())))
        return out

    def e_IL(self, e, st, fr):
        T = fr.T(e)
        a = e["a"]
        out = []
        if not (T.k == 'rec' or T.k == 'arr'):
            if not a:
                return [(st, self.zero(T))]
            return self.ev(a[0], st, fr)
        for s, vs in self.evs(a, st, fr):
            vs = [self.rval(s, v, fr.T(x)) for v, x in zip(vs, a)]
            if T.k == 'arr' or T.rec == 'std::array' and not e.get("f"):
                ent = [((('i', c(i)),), v) for i, v in enumerate(vs)]
                n = T.n if T.k == 'arr' else None
                if n and len(vs) < n and n <= 64:
                    fv = self.zero(T.to)
                    ent += [((('i', c(i)),), fv) for i in range(len(vs), n)]
                if not ent:
                    out.append((s, ('agg', 'zero', ())))
                else:
                    out.append((s, ('agg', T.s, self.flat(ent))))
            else:
                names = e.get("f") or []
                ent = []
                un = T.union
                for i, v in enumerate(vs):
                    nm = names[i] if i < len(names) else str(i)
                    if T.rec == 'std::array':
                        if v[0] == 'agg':
                            ent += list(v[2])
                            if v[1] == 'zero':
                                ent += [(p, self.zero(ft)) for p, ft in self.fields(T)]
                        else:
                            ent.append(((), v))
                    elif un:
                        ent.append((('#u',), ('u', nm, v)))
                    elif nm.startswith("(base)"):
                        if v[0] == 'agg':
                            ent += list(v[2])
                    elif nm == "(anon)":
                        if v[0] == 'agg':
                            ent += list(v[2])
                    else:
                        ent.append(((nm,), v))
                if not a and T.rec == 'std::array':
                    ent = [(p, self.zero(ft)) for p, ft in self.fields(T)]
                if T.rec == 'std::array' and len(ent) == 1 and ent[0][0] == ():
                    out.append((s, ent[0][1]))
                else:
                    out.append((s, ('agg', T.s.replace('const ', '', 1), self.flat(ent))))
        return out

    def e_StdIL(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_ArrLoop(self, e, st, fr):
        return [(s, self.rval(s, v, fr.T(e))) for s, v in self.ev(e["e"], st, fr)]

    def e_Lam(self, e, st, fr):
        fn = fr.tu.fns[e["fn"]]
        caps = []
        for cp in e["caps"]:
            if cp.get("this"):
                caps.append(('this', fr.this))
            elif cp.get("ref"):
                lv = self.var_lv({"d": cp["d"], "n": cp["n"]}, st, fr)
                if "i" in cp and cp["i"] and cp["i"]["k"] not in ("Ref",):
                    r = self.ev(cp["i"], st, fr)
                    if len(r) == 1:
                        st, lv = r[0]
                        lv = self.obj_lv(lv, st)
                caps.append((cp["d"], 'ref', lv))
            else:
                r = self.ev(cp["i"], st, fr) if cp.get("i") else [(st, self.var_lv(cp, st, fr))]
                st, v = r[0]
                T = fr.T(cp["i"]) if cp.get("i") else None
                caps.append((cp["d"], 'val', self.rval(st, v, T)))
        return [(st, ('lam', fn.key, tuple(caps)))]

    def e_New(self, e, st, fr):
        T = fr.tu.types[e["at"]]
        self.n += 1
        root = ('heap', self.n)
        if e.get("n"):
            out = []
            for s, n in self.ev(e["n"], st, fr):
                s.event('new', root, T.s, n)
                out.append((s, ('addr', root, (('i', Z),))))
            return out
        st.event('new', root, T.s, None)
        if e.get("i"):
            return [(s, ('addr', root, ())) for s in self.ev_into(e["i"], st, fr, ('lv', root, ()))]
        return [(st, ('addr', root, ()))]

    def e_Del(self, e, st, fr):
        out = []
        for s, v in self.ev(e["e"], st, fr):
            s.event('delete', v)
            out.append((s, Z))
        return out

    def e_PCall(self, e, st, fr):
        out = []
        for s, vs in self.evs([e["f"]] + e["a"], st, fr):
            fv = self.rval(s, vs[0], None)
            args = [(v, fr.T(x)) for v, x in zip(vs[1:], e["a"])]
            if fv[0] == 'fn' and fv[1] in self.prog.fns:
                out += self.call(self.prog.fns[fv[1]], None, [v for v, _ in args], s, fr, e)
            elif fv[0] == 'lam':
                out += self.call_lam(fv, [v for v, _ in args], s, fr, e)
            else:
                t = self.fresh('pcall', fr.T(e))
                s.event('pcall', fv, tuple(self.rval(s, v, T) for v, T in args), t, fr.tu.loc(e.get("l")))
                out.append((s, t))
        return out

    # ------------------------------------------------------------ calls
    def nqn(self, fn):
        q = self._nqn.get(fn.key)
        if q is None:
            q = self._nqn[fn.key] = norm_qn(fn.qn)
        return q

    def e_Call(self, e, st, fr):
        fn = fr.tu.fns[e["fn"]]
        out = []
        for s, vs in self.evs(e["a"], st, fr):
            out += self.call(fn, None, list(vs), s, fr, e)
        return out

    def e_MCall(self, e, st, fr):
        fn = fr.tu.fns[e["fn"]]
        out = []
        for s, vs in self.evs([e["o"]] + e["a"], st, fr):
            o = vs[0]
            if e.get("ar"):
                obj = self.deref(o)
            elif o[0] == 'lv':
                obj = o
            elif o[0] == 'lam':
                out += self.call_lam(o, list(vs[1:]), s, fr, e, fn)
                continue
            else:
                obj = self.obj_lv(o, s, fr.T(e["o"]))
            if fn.lam and not fn.conv:
                lv = self.raw(s, obj[1], obj[2])
                if lv[0] == 'lam':
                    out += self.call_lam(lv, list(vs[1:]), s, fr, e, fn)
                    continue
            out += self.call(fn, obj, list(vs[1:]), s, fr, e)
        return out

    def e_Ctor(self, e, st, fr):
        self.n += 1
        root = ('t', self.n)
        T = fr.T(e)
        out = []
        for s in self.ev_into(e, st, fr, ('lv', root, ())):
            out.append((s, self.load(s, root, (), T)))
            for k in [k for k in s.mem if k[0] == root]:
                del s.mem[k]
        return out

    def ev_into(self, e, st, fr, lv):
        """evaluate an initialiser into an object; returns states"""
        T = fr.T(e) if "t" in e else None
        if e["k"] == "Ctor":
            fn = fr.tu.fns[e["fn"]]
            if e.get("el") and e["a"]:
                return self.ev_into(e["a"][0], st, fr, lv)
            out = []
            for s, vs in self.evs(e["a"], st, fr):
                for s2, v in self.call(fn, lv, list(vs), s, fr, e, ctor=True):
                    out.append(s2)
            return out
        if e["k"] in ("Mat",) and False:
            pass
        out = []
        for s, v in self.ev(e, st, fr):
            v = self.rval(s, v, T)
            self.store(s, lv[1], lv[2], v, T)
            out.append(s)
        return out

    def call_lam(self, lam, args, st, fr, node, target=None):
        fn = self.prog.fns.get(lam[1])
        if (fn is None or fn.body is None) and target is not None:
            fn = target          # the instantiation of a generic lambda
        if fn is None or fn.body is None:
            t = self.fresh('lam')
            self.unknown.add(lam[1])
            st.event('call', '(lambda)', None, tuple(args), t, fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?')
            return [(st, t)]
        this = None
        caps = {}
        for cp in lam[2]:
            if cp[0] == 'this':
                this = cp[1]
            elif cp[1] == 'ref':
                caps[cp[0]] = cp[2]
            else:
                self.n += 1
                root = ('t', self.n)
                self.store(st, root, (), cp[2])
                caps[cp[0]] = ('lv', root, ())
        if sum(1 for x in self.stack if x is fn) > 1:
            return [(st, self.fresh('rec'))]
        return self.run_fn(fn, this, args, st, fr, caps)

    def call(self, fn, obj, args, st, fr, node, ctor=False):
        """-> [(state, value)]; for constructors the object is obj and the value is ignored"""
        self.ncalls += 1
        r = self.client.call(self, fn, obj, args, st, fr, node)
        if r is not None:
            return r
        if fn.nr:
            st.event('noreturn', fn.qn)
            self.abrupt.append((st, ('E', fn.qn)))
            return []
        q = self.nqn(fn)
        m = self.models.get(q)
        if m is not None:
            r = m(self, fn, obj, args, st, fr, node)
            if r is not None:
                return r
        r = self.M.generic(self, q, fn, obj, args, st, fr, node)
        if r is not None:
            return r
        if fn.body is not None and not fn.v and self.client.inline(fn) and self.stack.count(fn) < 2 and len(self.stack) < 40:
            return self.run_fn(fn, obj, args, st, fr, node=node)
        if fn.body is not None and fn.v and not (node or {}).get("virt") and self.client.inline(fn):
            return self.run_fn(fn, obj, args, st, fr, node=node)
        return self.opaque(fn, obj, args, st, fr, node)

    def argval(self, st, v, pt):
        if v[0] != 'lv':
            return v
        T = pt.to if pt is not None and pt.k == 'ref' else pt
        if pt is not None and pt.k == 'ref' and not (T.const or getattr(pt, 'rv', False) or '&&' in pt.s):
            return ('ref', self.addr(v[1], v[2]))
        return self.load(st, v[1], v[2], T)

    def objkey(self, st, obj):
        if obj is None:
            return Z
        t = st.mem.get((obj[1], obj[2]))
        if t is not None and t[0] != 'agg':
            return t
        if obj[2] and obj[1][0] in ('v', 't'):
            r = self.raw(st, obj[1], obj[2])
            if r is not None and r[0] == 'fld' and r[1][0] in ('ret', 'call') and r[2]:
                return r
        a = self.addr(obj[1], obj[2])
        ver = st.ver.get(obj[1], 0)
        w = st.x.get(('objver', obj[1], obj[2]), 0)
        for i in range(len(obj[2])):
            # state guarded by a mutex beside it may have changed whenever the mutex was free
            w += 1000 * max(0, st.x.get(('locks', obj[1], obj[2][:i]), 0) - 1)
        if ver or w:
            return ('at', a, ver, w)
        return a

    PURE = re.compile(r"^(std::(strlen|strcmp|memcmp|isnan|abs|lround|round|floor|ceil|tie|next|prev|distance)|fmt::.*|absl::.*|"
                      r"strcmp|strlen|memcmp|lround|isspace|isdigit|isalpha|toupper|tolower|compressBound)$")

    # arguments are forwarded into an element: copied when they are lvalues
    FORWARD = re.compile(r"(map|set|vector|deque|list)::(emplace|try_emplace|emplace_back|emplace_hint|insert|insert_or_assign|push_back)$")

    def opaque(self, fn, obj, args, st, fr, node, pure=None):
        q = self.nqn(fn)
        pts = list(fn.pt) + [None] * max(0, len(args) - len(fn.pt))
        fwd = obj is not None and bool(self.FORWARD.search(q))
        vals = tuple(self.load(st, a[1], a[2], p.to) if fwd and a[0] == 'lv' and p is not None and p.k == 'ref' else self.argval(st, a, p) for a, p in zip(args, pts))
        RT = fn.rt
        nocall = any(v[0] == 'ref' for v in vals)
        isconst = fn.m and (fn.c or fn.st) and not fn.ctor
        if pure is None:
            pure = (isconst or bool(self.PURE.match(q))) and not nocall and not fn.ctor
            if pure and not isconst and any(p is not None and p.k == 'ptr' and p.to is not None and not p.to.const and v[0] in ('addr', 'lin') for v, p in zip(vals, pts)):
                pure = False
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        if pure and RT.k != 'void':
            t = ('call', q) + ((self.objkey(st, obj),) if obj is not None else ()) + vals
            self.typed(t, RT)
            st.event('pcallee', q, t, loc)
        else:
            self.n += 1
            t = ('ret', q, self.n)
            self.typed(t, RT)
            st.event('call', q, self.addr(obj[1], obj[2]) if obj is not None else None, vals, t, loc)
            if obj is not None and not isconst:
                self.bump(st, obj)
            self.escapes(q, vals, st)
            for a, p in zip(args, pts):
                if p is None or fwd:
                    continue
                if p.k == 'ref' and a[0] == 'lv' and not p.to.const and '&&' not in p.s:
                    self.havoc(st, a[1], a[2])
                elif p.k == 'ref' and a[0] == 'lv' and '&&' in p.s:
                    pass
                elif p.k == 'ptr' and p.to is not None and not p.to.const and a[0] in ('addr', 'lin'):
                    lv = self.deref(a)
                    if lv[1][0] in ('v', 't', 'heap'):
                        # a buffer: all of it
                        pth = lv[2]
                        while pth and isinstance(pth[-1], tuple) and pth[-1][0] == 'i':
                            pth = pth[:-1]
                        self.havoc(st, lv[1], pth)
                    elif lv[1][0] in ('this', 'g', 'p'):
                        pth = lv[2]
                        if pth and isinstance(pth[-1], tuple) and pth[-1][0] == 'i':
                            pth = pth[:-1]
                        self.havoc(st, lv[1], pth)
        if ctorlike(fn):
            self.store(st, obj[1], obj[2], ('new', q) + vals if pure is not False and not nocall else t)
            return [(st, Z)]
        if self.trydepth and self.client.throws(fn) and not pure:
            s2 = st.clone()
            s2.event('thrown', q)
            self.abrupt.append((s2, ('X', None)))
        if RT.k == 'ref':
            return [(st, self.deref(t))]
        return [(st, t)]

    def lam_writes(self, lam, st):
        """cells outside its own frame that calling a closure may write"""
        fn = self.prog.fns.get(lam[1])
        if fn is None or fn.body is None or sum(1 for x in self.stack if x is fn) or self.lamdepth > 3:
            return ()
        s0 = st.clone()
        ab, self.abrupt = self.abrupt, []
        n0 = len(self.unknown)
        self.quiet += 1
        self.lamdepth += 1
        out = set()
        try:
            args = []
            for p in fn.pt:
                t = self.fresh('larg', p.noref() if p.k == 'ref' else p)
                args.append(('lv', ('mem', t), ()) if p.k == 'ref' else t)
            fr = Frame(fn, 900, None)
            res = [s for s, _ in self.call_lam(lam, args, s0, fr, None)] + [a[0] for a in self.abrupt]
            for s in res:
                for k in set(s.mem) | set(st.mem):
                    if k[0][0] in ('v', 't') and not any(j[0] == k[0] for j in st.mem) and not any(cp[1] == 'ref' and cp[2][1] == k[0] for cp in lam[2] if cp[0] != 'this'):
                        continue
                    if k[0][0] == 'mem' and str(k[0]).find('larg') >= 0:
                        continue
                    if s.mem.get(k) != st.mem.get(k):
                        out.add(k)
                for r, v in s.ver.items():
                    if st.ver.get(r, 0) != v and r[0] not in ('v', 't'):
                        out.add((r, ()))
        finally:
            self.abrupt = ab
            self.quiet -= 1
            self.lamdepth -= 1
        return tuple(sorted(out, key=str))

    def escapes(self, q, vals, st):
        """a closure handed to code that is not entered may be called: at once, or whenever other code runs"""
        if self.lamdepth:
            return
        new = set()
        for v in vals:
            if isinstance(v, tuple) and v:
                for x in ([v] if v[0] == 'lam' else [y for y in subterms(v) if isinstance(y, tuple) and y and y[0] == 'lam']):
                    if len(x) == 3:
                        new |= set(self.lam_writes(x, st))
        old = st.x.get('escaped', frozenset())
        for root, path in sorted(new | old, key=str):
            self.havoc(st, root, path)
        if new and not q.startswith('std::'):
            st.x['escaped'] = old | frozenset(new)

    def bump(self, st, obj):
        root, path = obj[1], obj[2]
        if any(k[0] == root and k[1][:len(path)] == path for k in st.mem) or root[0] in ('v', 't', 'heap'):
            self.havoc(st, root, path)
        else:
            self.n += 1
            st.x[('objver', root, path)] = self.n

    def bind_params(self, fn, args, st, depth, fr):
        for i, p in enumerate(fn.ps):
            PT = fn.tu.types[p["t"]]
            v = args[i] if i < len(args) else None
            if v is None:
                self.store(st, ('v', depth, p["d"]), (), self.fresh('arg', PT), PT)
                continue
            if PT.k == 'ref':
                if v[0] != 'lv':
                    v = self.obj_lv(v, st, PT.to)
                st.refs[(depth, p["d"])] = v
            else:
                v = self.rval(st, v, PT)
                self.store(st, ('v', depth, p["d"]), (), v, PT)

    def run_fn(self, fn, this, args, st, fr, caps=None, node=None):
        """inline a body; returns [(state, value)]"""
        depth = (fr.depth if fr is not None else 0) + 1
        while any(True for _ in ()) and False:
            pass
        nf = Frame(fn, depth, this, caps, fr)
        self.analysed.add(fn.key)
        self.bind_params(fn, args, st, depth, fr)
        self.stack.append(fn)
        scope0 = st.x.get('scope', ())
        st.x['scope'] = ()
        try:
            outs = []
            states = [st]
            if fn.inits:
                states = self.do_inits(fn, st, nf)
            for s in states:
                outs += self.exec(fn.body, s, nf)
        finally:
            self.stack.pop()
        res = []
        for s, fl in outs:
            self.run_scope(s, nf, 0)
            s.x['scope'] = scope0
            v = None
            if fl[0] == 'R':
                v = fl[1]
            elif fl[0] == 'N':
                v = Z
            elif fl[0] in ('X', 'E'):
                self.gc(s, depth)
                self.abrupt.append((s, fl))
                continue
            else:
                continue
            self.gc(s, depth, v)
            res.append((s, v))
        # abrupt states raised inside (exceptions) already went through their scopes
        if len(res) > 48:
            res = self.merge_vals(res)
        if len(res) > MAXPATHS:
            raise Exhausted("too many paths in " + fn.qn)
        return res

    def merge_vals(self, res):
        groups = {}
        for s, v in res:
            groups.setdefault((id(s.ev), v), []).append(s)
        out = []
        for (_, v), ss in groups.items():
            out += [(s, v) for s in self.merge(ss)]
        return out

    def gc(self, st, depth, keep=None):
        dead = [k for k in st.mem if k[0][0] == 'v' and k[0][1] >= depth]
        if keep is not None and keep[0] == 'lv' and keep[1][0] == 'v' and keep[1][1] >= depth:
            st.event('dangling', keep)
        for k in dead:
            del st.mem[k]
        for k in [k for k in st.refs if k[0] >= depth]:
            del st.refs[k]

    def do_inits(self, fn, st, nf):
        states = [st]
        T = fn.rect
        for i in fn.inits:
            nx = []
            for s in states:
                if "f" in i:
                    path = nf.this[2] if i["f"] == "(anon)" else nf.this[2] + (i["f"],)
                    FT = fn.tu.types[i["ft"]]
                    if i["e"] is None:
                        nx.append(s)
                        continue
                    if FT.k == 'ref':
                        for s2, v in self.ev(i["e"], s, nf):
                            s2.mem[(nf.this[1], path)] = ('reflv', v)
                            nx.append(s2)
                        continue
                    if FT.k == 'rec' and FT.union and i["e"]["k"] == "Ctor":
                        # the union's default initialiser
                        nx += self.union_init(FT, s, nf, path)
                        continue
                    self.loctype[(nf.this[1], path)] = FT
                    nx += self.ev_into(i["e"], s, nf, ('lv', nf.this[1], path))
                else:
                    nx += self.ev_into(i["e"], s, nf, nf.this)
            states = nx
        return states

    def union_init(self, FT, st, nf, path):
        rec = None
        for r in self.prog.records.values():
            if r.type.rid == FT.rid and r.type.s == FT.s:
                rec = r
        if rec is not None:
            for fd in rec.fields:
                if fd.get("i"):
                    fr2 = Frame.__new__(Frame)
                    fr2.fn, fr2.tu, fr2.depth, fr2.this, fr2.caps, fr2.up = nf.fn, rec.tu, nf.depth, nf.this, {}, nf
                    return self.ev_into(fd["i"], st, fr2, ('lv', nf.this[1], path + (fd["n"],)))
        return [st]

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None:
            return [(st, ('N',))]
        saved, self.abrupt = self.abrupt, []
        try:
            r = getattr(self, "s_" + s["k"])(s, st, fr)
            r = r + self.abrupt
        finally:
            self.abrupt = saved
        return r

    def s_Expr(self, s, st, fr):
        return [(x, ('N',)) for x, _ in self.ev(s["e"], st, fr)]

    def s_Null(self, s, st, fr):
        return [(st, ('N',))]

    def s_Label(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    def s_Goto(self, s, st, fr):
        raise Exhausted("goto in " + fr.fn.qn)

    def s_UnkS(self, s, st, fr):
        self.unknown.add(s.get("cls"))
        return [(st, ('N',))]

    def s_Break(self, s, st, fr):
        return [(st, ('B',))]

    def s_Continue(self, s, st, fr):
        return [(st, ('C',))]

    def s_Ret(self, s, st, fr):
        if not s.get("e"):
            return [(st, ('R', Z))]
        out = []
        RT = fr.fn.rt
        for x, v in self.ev(s["e"], st, fr):
            if RT.k != 'ref':
                v = self.rval(x, v, RT)
            out.append((x, ('R', v)))
        return out

    def s_Block(self, s, st, fr):
        n0 = len(st.x.get('scope', ()))
        cur = [st]
        done = []
        for q in s["s"]:
            nx = []
            for x in cur:
                for y, fl in self.exec(q, x, fr):
                    if fl[0] == 'N':
                        nx.append(y)
                    else:
                        done.append((y, fl))
            if len(nx) > 24:
                nx = self.merge(nx)
            if len(nx) + len(done) > MAXPATHS:
                raise Exhausted("too many paths in " + fr.fn.qn)
            cur = nx
            if not cur:
                break
        res = [(x, ('N',)) for x in cur] + done
        for x, fl in res:
            self.run_scope(x, fr, n0)
        return res

    def run_scope(self, st, fr, n0):
        sc = st.x.get('scope', ())
        while len(sc) > n0:
            kind, data = sc[-1]
            sc = sc[:-1]
            st.x['scope'] = sc
            if kind == 'guard':
                self.M.guard_release(self, st, data)
            elif kind == 'watch':
                v = st.mem.get((data[1], data[2]))
                kept = v is not None and v[0] == 'addr' and any(r != data[1] and isinstance(x, tuple) and any(y == v for y in subterms(x)) for (r, _), x in st.mem.items())
                st.event('gone', self.addr(data[1], data[2]), v, kept)
            elif kind == 'dtor':
                fn, lv = data
                r = self.call(fn, lv, [], st, fr, None)
                if len(r) == 1 and r[0][0] is st:
                    pass
                elif r:
                    # keep one representative: copy it over this state
                    b = r[0][0]
                    for a in State.__slots__:
                        setattr(st, a, getattr(b, a))

    def s_Decl(self, s, st, fr):
        cur = [st]
        for v in s["v"]:
            nx = []
            for x in cur:
                nx += self.decl(v, x, fr)
            cur = nx
        return [(x, ('N',)) for x in cur]

    def dtor_of(self, T):
        r = self.prog.records.get(T.s.replace('const ', '', 1) if T.s.startswith('const ') else T.s)
        if r is None:
            return None
        for m in r.methods:
            if m.dtor and m.body is not None and not m.dflt:
                return m
        return None

    def decl(self, v, st, fr):
        T = fr.tu.types[v["t"]]
        if v.get("st"):
            root = ('g', v["g"])
            if (root, ()) in st.mem or any(k[0] == root for k in st.mem):
                return [st]
            if v.get("apv") is not None:
                return [st]
            if not T.const and T.noref().k in ('int', 'bool', 'float', 'enum'):
                return [st]       # arbitrary value: previous calls
            if T.k == 'ptr' and not T.const and v.get("i") and v["i"]["k"] in ("Null",):
                return [st]
            if v.get("i"):
                if T.k == 'ref':
                    out = []
                    for x, lv in self.ev(v["i"], st, fr):
                        x.mem[(root, ())] = ('reflv', lv)
                        out.append(x)
                    return out
                st.event('static', v["g"])
                out = self.ev_into(v["i"], st, fr, ('lv', root, ()))
                for x in out:
                    x.x[('statv', root)] = tuple(sorted(((k, t) for k, t in x.mem.items() if k[0] == root), key=repr))
                return out
            return [st]
        lv = ('lv', ('v', fr.depth, v["d"]), ())
        for k in [k for k in st.mem if k[0] == lv[1]]:
            del st.mem[k]
        self.loctype[(lv[1], ())] = T
        if T.k == 'ref':
            out = []
            for x, r in self.ev(v["i"], st, fr):
                if r[0] != 'lv':
                    r = self.obj_lv(r, x, T.to)
                x.refs[(fr.depth, v["d"])] = r
                if v.get("binds"):
                    self.bind(v, x, fr, r)
                out.append(x)
            return out
        if not v.get("i"):
            st.mem[(lv[1], ())] = ('undef', lv[1], ())
            self.typed(st.mem[(lv[1], ())], T)
            return [st]
        out = []
        for x in self.ev_into(v["i"], st, fr, lv):
            g = x.mem.get((lv[1], ()))
            if T.k == 'rec' and self.client.watch(T):
                x.x['scope'] = x.x.get('scope', ()) + (('watch', lv),)
            if g is not None and g[0] == 'guard':
                x.x['scope'] = x.x.get('scope', ()) + (('guard', lv),)
            elif T.k == 'rec' and T.repo and not self.is_tags(T):
                d = self.dtor_of(T)
                if d is not None:
                    x.x['scope'] = x.x.get('scope', ()) + (('dtor', (d, lv)),)
            if v.get("binds"):
                self.bind(v, x, fr, lv)
            out.append(x)
        return out

    def bind(self, v, st, fr, lv):
        fs = self.fields(fr.tu.types[v["t"]].noref())
        for i, b in enumerate(v["binds"]):
            if i < len(fs):
                st.refs[(fr.depth, b["d"])] = ('lv', lv[1], lv[2] + fs[i][0])
                if "hv" in b:
                    st.refs[(fr.depth, b["hv"])] = st.refs[(fr.depth, b["d"])]

    def s_If(self, s, st, fr):
        out = []
        pre = [st]
        n0 = len(st.x.get('scope', ()))
        if s.get("init"):
            pre = [x for x, fl in self.exec(s["init"], st, fr) if fl[0] == 'N']
        if s.get("cv"):
            nx = []
            for x in pre:
                nx += self.decl(s["cv"], x, fr)
            pre = nx
        for x in pre:
            for y, b in self.cond(s["c"], x, fr):
                out += self.exec(s["a"] if b else s.get("b"), y, fr)
        for x, fl in out:
            self.run_scope(x, fr, n0)
        ns = [x for x, fl in out if fl[0] == 'N']
        if len(ns) > 24:
            out = [(x, ('N',)) for x in self.merge(ns)] + [o for o in out if o[1][0] != 'N']
        return out

    def s_Switch(self, s, st, fr):
        pre = [st]
        if s.get("init"):
            pre = [x for x, fl in self.exec(s["init"], st, fr) if fl[0] == 'N']
        if s.get("cv"):
            nx = []
            for x in pre:
                nx += self.decl(s["cv"], x, fr)
            pre = nx
        body = s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]
        # flatten case labels
        items = []   # (labels, stmt)
        for q in body:
            labs = []
            while q is not None and q["k"] in ("Case", "Default"):
                if q["k"] == "Case":
                    labs.append((int(q["v"]), int(q.get("v2", q["v"]))))
                else:
                    labs.append('default')
                q = q["s"]
            items.append((labs, q))
        alllabs = [l for labs, _ in items for l in labs if l != 'default']
        out = []
        for x in pre:
            for y, v in self.ev(s["c"], x, fr):
                v = self.rval(y, v, fr.T(s["c"]))
                rest = y
                targets = []
                dflt = None
                for ix, (labs, _) in enumerate(items):
                    for l in labs:
                        if l == 'default':
                            dflt = ix
                            continue
                        if rest is None:
                            continue
                        if l[0] == l[1]:
                            t = self.eq(v, c(l[0]))
                        else:
                            t = None
                        if t is not None:
                            rs = self.fork(rest, t)
                            rest = None
                            for z, b in rs:
                                if b:
                                    targets.append((z, ix))
                                else:
                                    rest = z
                        else:
                            z = rest.clone()
                            if self.assume(z, self.le(c(l[0]), v), True) and self.assume(z, self.le(v, c(l[1])), True):
                                targets.append((z, ix))
                if rest is not None:
                    if dflt is not None:
                        targets.append((rest, dflt))
                    else:
                        out.append((rest, ('N',)))
                for z, ix in targets:
                    n0 = len(z.x.get('scope', ()))
                    cur = [z]
                    for _, q in items[ix:]:
                        nx = []
                        for w in cur:
                            for w2, fl in self.exec(q, w, fr):
                                if fl[0] == 'N':
                                    nx.append(w2)
                                elif fl[0] == 'B':
                                    self.run_scope(w2, fr, n0)
                                    out.append((w2, ('N',)))
                                else:
                                    out.append((w2, fl))
                        cur = nx
                        if not cur:
                            break
                    for w in cur:
                        self.run_scope(w, fr, n0)
                        out.append((w, ('N',)))
        return out

    def s_Case(self, s, st, fr):
        return self.exec(s["s"], st, fr)

    s_Default = s_Case

    def s_Try(self, s, st, fr):
        self.trydepth += 1
        try:
            outs = self.exec(s["body"], st, fr)
        finally:
            self.trydepth -= 1
        res = []
        for x, fl in outs:
            if fl[0] != 'X':
                res.append((x, fl))
                continue
            h = s["h"][0]
            if h.get("v"):
                root = ('v', fr.depth, h["v"]["d"])
                T = fr.tu.types[h["v"]["t"]]
                if T.k == 'ref':
                    x.refs[(fr.depth, h["v"]["d"])] = ('lv', ('mem', self.fresh('exc')), (('i', Z),))
                else:
                    x.mem[(root, ())] = self.fresh('exc')
            x.event('caught', fr.tu.types[h["v"]["t"]].s if h.get("v") else '...')
            res += self.exec(h["body"], x, fr)
        return res

    # ------------------------------------------------------------ loops
    def s_While(self, s, st, fr):
        def cond(x):
            if s.get("cv"):
                out = []
                for y in self.decl(s["cv"], x, fr):
                    out += self.cond(s["c"], y, fr)
                return out
            return self.cond(s["c"], x, fr)
        return self.loop(st, fr, cond, lambda x: self.exec(s["body"], x, fr), None, s)

    def s_Do(self, s, st, fr):
        def cond(x):
            return self.cond(s["c"], x, fr)
        return self.loop(st, fr, cond, lambda x: self.exec(s["body"], x, fr), None, s, do=True)

    def s_For(self, s, st, fr):
        out = []
        n0 = len(st.x.get('scope', ()))
        pre = [st]
        if s.get("init"):
            pre = [x for x, fl in self.exec(s["init"], st, fr) if fl[0] == 'N']

        def cond(x):
            if s.get("c") is None:
                return [(x, True)]
            return self.cond(s["c"], x, fr)

        def inc(x):
            if s.get("inc") is None:
                return [x]
            return [y for y, _ in self.ev(s["inc"], x, fr)]
        for x in pre:
            out += self.loop(x, fr, cond, lambda y: self.exec(s["body"], y, fr), inc, s)
        for x, fl in out:
            self.run_scope(x, fr, n0)
        return out

    def s_RFor(self, s, st, fr):
        out = []
        pre = [st]
        if s.get("init"):
            pre = [x for x, fl in self.exec(s["init"], st, fr) if fl[0] == 'N']
        RT = fr.T(s["r"])
        V = s["v"]
        for x0 in pre:
            for x, rv in self.ev(s["r"], x0, fr):
                lv = self.obj_lv(rv, x, RT)
                own = self.own_range(x, lv, RT, fr, s)
                size = sub(own[1], own[0]) if own else self.M.container_size(self, x, lv, RT)
                self.n += 1
                idx = ('v', fr.depth, 'rf%d_%d' % (V["d"], fr.depth))
                self.store(x, idx, (), Z)
                IT = type('T', (), {})()
                VT = fr.tu.types[V["t"]]
                elemT = VT.noref()
                x.event('rfor', self.addr(lv[1], lv[2]), self.load(x, lv[1], lv[2], RT) if (lv[1], lv[2]) in x.mem else None, fr.tu.loc(s.get("l")))

                def cond(y, lv=lv, size=size, idx=idx):
                    i = y.mem[(idx, ())]
                    return self.fork(y, self.le(add(i, ONE), size))

                def body(y, lv=lv, idx=idx, own=own):
                    i = y.mem[(idx, ())]
                    elv = self.deref(add(own[0], i)) if own else self.M.container_elem(self, y, lv, RT, i)
                    if VT.k == 'ref' or self.is_iter_ref(VT):
                        y.refs[(fr.depth, V["d"])] = elv
                        tgt = elv
                    else:
                        val = self.load(y, elv[1], elv[2], VT)
                        tgt = ('lv', ('v', fr.depth, V["d"]), ())
                        # the declared variable converts the element
                        val = self.M.convert(self, y, val, VT, V)
                        self.store(y, tgt[1], (), val, VT)
                    if V.get("binds"):
                        self.bind(V, y, fr, tgt)
                    return self.exec(s["body"], y, fr)

                def inc(y, idx=idx):
                    y.mem[(idx, ())] = add(y.mem[(idx, ())], ONE)
                    return [y]
                self.dom.ranges.setdefault(size, (0, 1 << 62)) if not isc(size) else None
                out += self.loop(x, fr, cond, body, inc, s)
        return out

    def own_range(self, st, lv, RT, fr, s):
        """(begin, end) pointers of a class of the repository that has such members"""
        T = RT.noref() if RT is not None else None
        if T is None or T.k != 'rec' or self.is_tags(T) or T.rec not in self.prog.records:
            return None
        rec = self.prog.records[T.rec]
        out = []
        for nm in ('begin', 'end'):
            ms = [m for m in rec.methods if m.name == nm and m.body is not None and not m.ps and m.rt is not None and m.rt.k == 'ptr']
            ms = [m for m in ms if m.c] or ms
            if not ms:
                return None
            self.quiet += 1
            rs = self.run_fn(ms[0], lv, [], st.clone(), fr, node=s)
            self.quiet -= 1
            if len(rs) != 1:
                return None
            out.append(rs[0][1])
        return out

    def is_iter_ref(self, T):
        return False

    def merge(self, states):
        """join states that differ in facts only"""
        if len(states) < 2:
            return states
        groups = []
        index = {}
        for s in states:
            k = (id(s.ev), len(s.mem))
            for g in index.get(k, ()):
                a = g[0]
                if a.mem == s.mem and a.refs == s.refs and a.ver == s.ver and a.x == s.x and a.locks == s.locks:
                    g.append(s)
                    break
            else:
                g = [s]
                groups.append(g)
                index.setdefault(k, []).append(g)
        out = []
        for g in groups:
            a = g[0]
            for b in g[1:]:
                self.join_facts(a, b)
            out.append(a)
        return out

    def join_facts(self, a, b):
        iv = {}
        for k, (lo, hi) in a.iv.items():
            l2, h2 = b.iv.get(k, (None, None))
            if k not in b.iv:
                l2, h2 = self.dom.bounds(b, lin(0, dict(k)))
            lo = None if lo is None or l2 is None else min(lo, l2)
            hi = None if hi is None or h2 is None else max(hi, h2)
            if lo is not None or hi is not None:
                iv[k] = (lo, hi)
        a.iv = iv
        a.ne = a.ne & b.ne
        nf = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if isinstance(k, tuple) and k[0] == 'fcp':
                if w is not None:
                    nf[k] = ''.join(x for x in '<=>?' if x in v or x in w)
            elif w == v:
                nf[k] = v
        a.facts = nf
        # common prefix of the trail
        ids = set()
        t = a.trail
        while t is not None:
            ids.add(id(t))
            t = t[0]
        t = b.trail
        sb = []
        while t is not None and id(t) not in ids:
            sb.append(t[1])
            t = t[0]
        sa, u = [], a.trail
        while u is not t:
            sa.append(u[1])
            u = u[0]
        # what was joined is kept for those who ask (State.alternatives)
        a.trail = cons(t, (('either', tuple(reversed(sa)), tuple(reversed(sb))), True)) if sa or sb else t

    def iterate(self, head, cond, body, inc, do):
        """one iteration from a head state: (exits [(st, flow)], backs [st])"""
        exits, backs = [], []
        n0 = len(head.x.get('scope', ()))

        def after(x):
            # end of body -> inc -> (do: cond)
            r = []
            if do:
                for y, b in cond(x):
                    if b:
                        backs.append(y)
                    else:
                        exits.append((y, ('N',)))
                return
            if inc is not None:
                for y in inc(x):
                    backs.append(y)
            else:
                backs.append(x)

        def run_body(x):
            for y, fl in body(x):
                if fl[0] in ('N', 'C'):
                    after(y)
                elif fl[0] == 'B':
                    exits.append((y, ('N',)))
                else:
                    exits.append((y, fl))
        saved, self.abrupt = self.abrupt, []
        try:
            if do:
                run_body(head)
            else:
                for x, b in cond(head):
                    if b:
                        run_body(x)
                    else:
                        exits.append((x, ('N',)))
            exits += self.abrupt
        finally:
            self.abrupt = saved
        if len(backs) > 24:
            backs = self.merge(backs)
        if len(exits) > 48:
            exits = [(x, ('N',)) for x in self.merge([x for x, fl in exits if fl[0] == 'N'])] + [e for e in exits if e[1][0] != 'N']
        return exits, backs

    def try_unroll(self, st, cond, body, inc, do):
        """execute a loop whose conditions are all decided; None when one is not"""
        cur = [st.clone()]
        exits = []
        first = True
        for _ in range(self.unroll):
            nx = []
            for h in cur:
                if do and first:
                    ex, bk = self.iterate_decided(h, None, body, inc)
                else:
                    ex, bk = self.iterate_decided(h, cond, body, inc)
                if ex is None:
                    return None
                exits += ex
                nx += bk
            first = False
            if len(nx) > 64:
                nx = self.merge(nx)
            if len(nx) > 256:
                return None
            cur = nx
            if not cur:
                return exits
        return None

    def iterate_decided(self, h, cond, body, inc):
        exits, backs = [], []
        saved, self.abrupt = self.abrupt, []
        try:
            if cond is None:
                cs = [(h, True)]
            else:
                nf = len(h.conds()) if False else None
                tr0 = h.trail
                cs = cond(h)
                if len({b for _, b in cs}) > 1:
                    return None, None
                if any(x.trail is not tr0 for x, _ in cs) and cs and len(cs) == 1 and False:
                    return None, None
            for x, b in cs:
                if not b:
                    exits.append((x, ('N',)))
                    continue
                for y, fl in body(x):
                    if fl[0] in ('N', 'C'):
                        if inc is not None:
                            backs += inc(y)
                        else:
                            backs.append(y)
                    elif fl[0] == 'B':
                        exits.append((y, ('N',)))
                    else:
                        exits.append((y, fl))
            exits += self.abrupt
        finally:
            self.abrupt = saved
        return exits, backs

    def loop(self, st, fr, cond, body, inc, node, do=False):
        self.quiet += 1
        lsave = dict(self.loops)
        un = self.try_unroll(st, cond, body, inc, do)
        self.quiet -= 1
        if un is not None:
            # again, with the client listening
            un = self.try_unroll(st, cond, body, inc, do)
            if un is not None:
                return un
        self.loops = lsave
        self.n += 1
        lid = self.n
        entry = st
        W, RW = {}, set()
        self.quiet += 1
        try:
            for _ in range(8):
                head = self.havoc_set(entry, W, RW, lid)
                exits, backs = self.iterate(head.clone(), cond, body, inc, do)
                ch = False
                for b in backs:
                    for k, v in b.mem.items():
                        if k in W or any((k[0], k[1][:i]) in W for i in range(len(k[1]))):
                            continue
                        hv = head.mem.get(k)
                        if hv == v:
                            continue
                        if hv is None and not self.outer(entry, k, fr):
                            continue
                        if hv is None and ('statv', k[0]) in b.x and b.x[('statv', k[0])] == tuple(sorted(((q, t) for q, t in b.mem.items() if q[0] == k[0]), key=repr)) \
                                and not any(isinstance(z, tuple) and z and z[0] in ('lp', 'hv', 'ret', 'now') for t in b.x[('statv', k[0])] for z in subterms(t[1])):
                            continue        # a static local that only its own initialiser writes, with a value no iteration changes
                        if hv is None and k[0][0] == 'mem' and any(isinstance(x, tuple) and len(x) > 2 and x[0] in ('lp', 'ret') and (
                                x[1] if x[0] == 'lp' else x[2]) is not None and isinstance(x[1] if x[0] == 'lp' else x[2], int) and (
                                x[1] if x[0] == 'lp' else x[2]) > lid for x in subterms(k[0][1])):
                            continue        # memory named by a symbol of this very iteration
                        if hv is None:
                            hv2 = self.raw(head, k[0], k[1])
                            if hv2 == v:
                                continue
                        W[k] = True
                        ch = True
                    for k, v in head.mem.items():
                        if k not in b.mem and k not in W:
                            W[k] = True
                            ch = True
                    for r, n in b.ver.items():
                        if head.ver.get(r, 0) != n and r not in RW:
                            RW.add(r)
                            ch = True
                    for k, v in b.refs.items():
                        if k in head.refs and head.refs[k] != v:
                            W[('ref', k)] = True
                            ch = True
                    for k, v in b.x.items():
                        if isinstance(k, tuple) and k[0] == 'objver' and head.x.get(k) != v and k not in RW:
                            RW.add(k)
                            ch = True
                if not ch:
                    break
            else:
                raise Exhausted("loop write set does not settle in %s" % fr.fn.qn)
            # candidates
            head = self.havoc_set(entry, W, RW, lid)
            cands = self.candidates(entry, head, W, exits, backs)
            cands = [t for t in cands if self.holds(entry, self.subst_entry(t, entry, head, W))]
            forced = getattr(self.client, 'forced', None)
            forced = [t for t in cands if forced(t)] if forced is not None else ()
            for _ in range(12):
                h = head.clone()
                ok = True
                for t in cands:
                    ok = self.assume_cand(h, t) and ok
                exits, backs = self.iterate(h.clone(), cond, body, inc, do)
                keep = []
                for t in cands:
                    if t in forced or all(self.holds(b, self.subst_entry(t, b, head, W)) for b in backs):
                        keep.append(t)
                if len(keep) == len(cands):
                    break
                cands = keep
        finally:
            self.quiet -= 1
        h = head.clone()
        for t in cands:
            self.assume_cand(h, t)
        h.event('loop', lid, fr.tu.loc(node.get("l")))
        hd = h.clone()
        exits, backs = self.iterate(h, cond, body, inc, do)
        if not self.quiet:
            self.loops[lid] = {"head": hd, "entry": entry, "backs": backs, "exits": [(x.clone(), f_) for x, f_ in exits], "fn": fr.fn, "loc": fr.tu.loc(node.get("l")),
                           "inv": cands, "W": W, "forced": forced}
        return exits

    def outer(self, entry, k, fr):
        """was this root alive before the loop?"""
        r = k[0]
        if r[0] in ('t', 'heap'):
            return any(q[0] == r for q in entry.mem)
        if r[0] == 'v':
            return any(q[0] == r for q in entry.mem)
        return True

    def havoc_set(self, st, W, RW, lid):
        h = st.clone()
        for r in RW:
            self.n += 1
            if r[0] == 'objver':
                h.x[r] = self.n
                continue
            h.ver[r] = self.n
            for k in [k for k in h.mem if k[0] == r]:
                del h.mem[k]
        for k in W:
            if k[0] == 'ref':
                h.refs[k[1]] = ('lv', ('mem', ('lpref', lid, k[1])), (('i', Z),))
                continue
            t = ('lp', lid, k[0], k[1])
            T = self.loctype.get(k)
            for q in [q for q in h.mem if q[0] == k[0] and len(q[1]) > len(k[1]) and q[1][:len(k[1])] == k[1]]:
                del h.mem[q]
            old = self.raw(st, k[0], k[1])
            if T is not None:
                self.typed(t, T)
            elif old is not None:
                if old in self.ptratoms or (old[0] == 'lin' and self.split_ptr(old)[0] in self.ptratoms) or old[0] == 'addr':
                    self.ptratoms.add(t)
                elif isc(old) and T is None and k[0][0] == 'v' and isinstance(k[0][2], str):
                    self.dom.ranges.setdefault(t, (0, 1 << 62))
            h.mem[k] = t
        return h

    def candidates(self, entry, head, W, exits, backs):
        out = []
        ints = []
        for k in W:
            if k[0] == 'ref':
                continue
            x0 = self.raw(entry, k[0], k[1])
            x = head.mem.get(k)
            if x is None or x0 is None:
                continue
            T = self.loctype.get(k)
            if x0[0] in ('c', 'lin', 'addr') or x0 in self.dom.ranges or x0 in self.ptratoms:
                if T is not None and T.k in ('float', 'rec'):
                    continue
                ints.append((x, x0))
        for x, x0 in ints:
            out.append(('le0', sub(x0, x)))
            out.append(('le0', sub(x, x0)))
            if self.truth(entry, self.negate(self.eq(x0, Z))):
                out.append(('ne', x))
        # bounds that the loop itself compares with
        seen = set()
        for s in [b for b in backs] + [e for e, _ in exits]:
            for t, val in s.conds():
                if t in seen or t[0] not in ('le0', 'eq0'):
                    continue
                seen.add(t)
                cst, d = lin_of(t[1])
                if any(x in d for x, _ in ints):
                    for k in (-1, 0, 1):
                        out.append(('le0', add(t[1], c(k))))
                        out.append(('le0', add(scale(t[1], -1), c(k))))
        for i, (x, x0) in enumerate(ints):
            for y, y0 in ints[i + 1:]:
                d = sub(sub(x, x0), sub(y, y0))
                out.append(('le0', d))
                out.append(('le0', scale(d, -1)))
                d2 = sub(x, y)
                out.append(('le0', d2))
                out.append(('le0', scale(d2, -1)))
        out += self.client.loop_candidates(self, entry, head, W)
        u = []
        for t in out:
            if t not in u and (t[0] == 'cl' or not isc(t[1])):
                u.append(t)
        return u

    def subst_entry(self, t, st, head, W):
        """the candidate with the loop symbols replaced by the values in st"""
        m = {}
        for k in W:
            if k[0] == 'ref':
                continue
            x = head.mem.get(k)
            if x is not None:
                v = self.raw(st, k[0], k[1])
                m[x] = v if v is not None else ('sym', '?', 0)
        return self.subst(t, m)

    def subst(self, t, m):
        if t[0] == 'cl':
            return t[:2] + tuple(self.subst_lin(x, m) for x in t[2:])
        if t[0] == 'ne':
            return ('ne', self.subst_lin(t[1], m))
        return (t[0], self.subst_lin(t[1], m))

    def subst_lin(self, t, m):
        cst, d = lin_of(t)
        r = c(cst)
        for a, k in d.items():
            r = add(r, scale(m.get(a, a), k))
        return r

    def holds(self, st, t):
        if t[0] == 'cl':
            return self.client.cand_holds(self, st, t)
        if t[0] == 'ne':
            return self.truth(st, self.negate(self.eq(t[1], Z))) is True
        if t[0] == 'eq0':
            return self.dom.prove_eq0(st, t[1])
        return self.dom.prove_le0(st, t[1])

    def assume_cand(self, st, t):
        if t[0] == 'cl':
            return self.client.cand_assume(self, st, t)
        if t[0] == 'ne':
            return self.dom.assume_ne0(st, t[1])
        if t[0] == 'eq0':
            return self.dom.assume_eq0(st, t[1])
        return self.dom.assume_le0(st, t[1])

    # ------------------------------------------------------------ entry
    def run(self, fn, this=None, args=None, st=None, setup=None):
        """analyse fn as an entry point with unknown parameters; [(state, flow)]"""
        st = st or State()
        if this is None and fn.m and not fn.st and not fn.lam:
            this = ('lv', ('this', fn.rect.rec), ())
        av = []
        for i, p in enumerate(fn.ps):
            if args is not None and i < len(args) and args[i] is not None:
                av.append(args[i])
                continue
            T = fn.tu.types[p["t"]]
            if T.k == 'ref':
                av.append(('lv', ('p', p["n"] or str(i)), ()))
            else:
                av.append(self.typed(('init', ('p', p["n"] or str(i)), ()), T))
        if setup:
            setup(st, av)
        saved, self.abrupt = self.abrupt, []
        caps = getattr(self, 'entry_caps', None)
        r = [(s, ('R', v)) for s, v in self.run_fn(fn, this, av, st, None, caps)]
        r += self.abrupt
        self.abrupt = saved
        return r


def self_apv_unwrap(v):
    while v is not None and 's' in v and len(v['s']) == 1:
        v = v['s'][0]
    return v


def ctorlike(fn):
    return bool(fn.ctor)


def parse_hex(s):
    if s in ('nan', '-nan', 'inf', '-inf') or s.lower().startswith('nan'):
        return float(s.replace('-nan', 'nan'))
    return float.fromhex(s)
