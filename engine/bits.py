"""Bit-provenance interpretation of scalar integer code: every integer is a vector of bits, each known to be 0, 1 or a named
bit of the input. Branches must be decided by the bits that are known; where one is not, Split is raised and the caller
partitions the input by fixing its highest open bit. Sound for every input of the partition."""
from ivl import Split, Unsupported, Wrong, Ret, Brk, Cont, table_of


class BV:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    @property
    def w(self):
        return len(self.b)

    def lo(self, sg=False):
        v = sum(1 << k for k, x in enumerate(self.b) if x == 1 and x is not True)
        if sg and self.b and self.b[-1] != 0:
            v -= 1 << self.w
            if self.b[-1] != 1:
                v = -(1 << (self.w - 1)) + sum(1 << k for k, x in enumerate(self.b[:-1]) if x == 1)
        return v

    def hi(self, sg=False):
        v = sum(1 << k for k, x in enumerate(self.b) if x != 0)
        if sg and self.b and self.b[-1] != 0:
            if self.b[-1] == 1:
                return v - (1 << self.w)
            return v & ~(1 << (self.w - 1))
        return v

    def const(self):
        return all(x in (0, 1) for x in self.b)

    def resize(self, w, sg):
        if w <= self.w:
            return BV(self.b[:w])
        return BV(self.b + ((self.b[-1] if sg else 0),) * (w - self.w))

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        if self.const():
            return "%d:%d" % (self.lo(), self.w)
        return "".join("01"[x] if x in (0, 1) else "x" if x else "?" for x in reversed(self.b))


def k(v, w):
    return BV((v >> i) & 1 for i in range(w))


def sym(name, n, w):
    return BV([(name, i) if i < n else 0 for i in range(w)])


class Str:
    """a string view of symbolic content: name, offset 0, length BV"""

    def __init__(self, name, n):
        self.name, self.n = name, n


class Obj:
    """aggregate in memory"""

    def __init__(self, union=False):
        self.f = {}
        self.union = union

    def copy(self):
        o = Obj(self.union)
        o.f = {a: (v.copy() if isinstance(v, Obj) else v) for a, v in self.f.items()}
        return o


class LV:
    __slots__ = ("d", "k")

    def __init__(self, d, k):
        self.d, self.k = d, k

    def get(self):
        if isinstance(self.d, Obj) and self.d.union:
            if 'raw' not in self.d.f:
                raise Unsupported("uninitialised union")
            return self.d.f['raw']
        m = self.d.f if isinstance(self.d, Obj) else self.d
        if self.k not in m:
            raise Unsupported("uninitialised %s" % (self.k,))
        return m[self.k]

    def put(self, v):
        if isinstance(v, Obj):
            v = v.copy()
        if isinstance(self.d, Obj) and self.d.union:
            self.d.f['raw'] = v
        elif isinstance(self.d, Obj):
            self.d.f[self.k] = v
        else:
            self.d[self.k] = v


class Bits:
    """hook(I, fn, obj, args) -> value or None: calls the client models"""

    def __init__(self, prog, hook):
        self.prog, self.hook = prog, hook
        self.steps = 0

    def call(self, fn, args, this=None, depth=0):
        if fn.body is None or depth > 30:
            raise Unsupported("call of " + fn.qn)
        env = {}
        for p, a in zip(fn.ps, args):
            env[p["d"]] = a.copy() if isinstance(a, Obj) and not isinstance(a, LV) else a
        f = Frame(self, fn, env, this, depth)
        try:
            f.stmt(fn.body)
        except Ret as r:
            return r.v
        return None


def rd(v):
    n = 0
    while isinstance(v, LV):
        v = v.get()
        n += 1
        if n > 50:
            raise Unsupported("reference cycle")
    return v


class Frame:
    def __init__(self, I, fn, env, this, depth):
        self.I, self.fn, self.env, self.this, self.depth = I, fn, env, this, depth
        self.tu = fn.tu

    def T(self, e):
        return self.tu.types[e["t"]] if "t" in e else None

    def truth(self, v):
        if not isinstance(v, BV):
            raise Unsupported("condition")
        if any(x == 1 and not isinstance(x, tuple) for x in v.b):
            return True
        if all(x == 0 for x in v.b):
            return False
        raise Split()

    # ---- statements
    def stmt(self, s):
        I = self.I
        I.steps += 1
        if I.steps > 2000000:
            raise Unsupported("too long")
        if s is None:
            return
        kd = s["k"]
        if kd == "Block":
            for x in s["s"]:
                self.stmt(x)
        elif kd == "Expr":
            self.ev(s["e"])
        elif kd == "Decl":
            for v in s["v"]:
                self.decl(v)
        elif kd == "If":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.decl(s["cv"])
            if self.truth(self.rv(s["c"])):
                self.stmt(s["a"])
            else:
                self.stmt(s.get("b"))
        elif kd in ("While", "For", "Do"):
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                raise Unsupported("loop with declaration")
            n = 0
            first = kd == "Do"
            while True:
                n += 1
                if n > 3000:
                    raise Unsupported("long loop")
                if not first and s.get("c") is not None and not self.truth(self.rv(s["c"])):
                    break
                try:
                    self.stmt(s["body"])
                except Brk:
                    break
                except Cont:
                    pass
                if kd == "For" and s.get("inc") is not None:
                    self.ev(s["inc"])
                if kd == "Do" and not self.truth(self.rv(s["c"])):
                    break
        elif kd == "RFor":
            r = rd(self.ev(s["r"]))
            if not isinstance(r, Obj) or 'n' not in r.f:
                raise Unsupported("range")
            for i in range(r.f['n']):
                self.env[s["v"]["d"]] = LV(r, i) if self.tu.types[s["v"]["t"]].k == 'ref' else rd(LV(r, i))
                try:
                    self.stmt(s["body"])
                except Brk:
                    break
                except Cont:
                    pass
        elif kd == "Switch":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.decl(s["cv"])
            v = self.rv(s["c"])
            sg = self.T(s["c"]).sg
            flat = []

            def fl(x):
                if x is None:
                    return
                flat.append(x)
                if x["k"] in ("Case", "Default"):
                    fl(x["s"])
            for x in (s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]):
                fl(x)
            at = dflt = None
            for i, x in enumerate(flat):
                if x["k"] == "Default":
                    dflt = i
                elif x["k"] == "Case":
                    lo = int(x["v"])
                    hi = int(x.get("v2", lo))
                    if v.lo(sg) >= lo and v.hi(sg) <= hi:
                        at = i
                        break
                    if not (v.hi(sg) < lo or v.lo(sg) > hi) and not any(
                            x in (0, 1) and x != ((lo >> j) & 1) for j, x in enumerate(v.b) if lo == hi):
                        raise Split()
            at = dflt if at is None else at
            if at is not None:
                try:
                    for x in flat[at:]:
                        if x["k"] not in ("Case", "Default"):
                            self.stmt(x)
                except Brk:
                    pass
        elif kd == "Ret":
            if s.get("e") is None:
                raise Ret(None)
            v = self.ev(s["e"])
            raise Ret(v if self.fn.rt.k == 'ref' else rd(v))
        elif kd == "Break":
            raise Brk()
        elif kd == "Continue":
            raise Cont()
        elif kd == "Null":
            pass
        else:
            raise Unsupported("statement " + kd)

    def decl(self, v):
        T = self.tu.types[v["t"]]
        if v.get("i") is None:
            self.env[v["d"]] = self.fresh(T)
            return
        x = self.ev(v["i"], T)
        if T.k == 'ref':
            if not isinstance(x, LV):
                cell = {0: x}
                x = LV(cell, 0)
            self.env[v["d"]] = x
        else:
            x = rd(x)
            self.env[v["d"]] = x.copy() if isinstance(x, Obj) else x

    def fresh(self, T):
        if T.k in ('rec', 'record', 'arr', 'array') or T.rec:
            o = Obj(bool(T.union))
            n = T.n
            if T.rec == 'std::array' and T.ta and len(T.ta) > 1:
                n = T.ta[1]
            if n is not None:
                o.f['n'] = int(n)
            return o
        return None

    # ---- expressions
    def rv(self, e):
        return rd(self.ev(e))

    def ck(self, v, T):
        if T is not None and T.isint() and isinstance(v, BV):
            return v.resize(T.w or 8, False)
        return v

    def ev(self, e, want=None):
        self.I.steps += 1
        kd = e["k"]
        T = self.T(e)
        w = (T.w or 8) if T is not None and T.isint() else 64
        if kd == "Int":
            return k(int(e["v"]), w)
        if "cv" in e and kd not in ("Ref", "Mem"):
            return k(int(e["cv"]), w)
        if kd == "Ref":
            d = e.get("d")
            if d in self.env:
                return LV(self.env, d) if not isinstance(self.env[d], LV) else self.env[d]
            if "cv" in e:
                return k(int(e["cv"]), w)
            g = self.tu.globals.get(e.get("g") or e.get("n"))
            if g is not None and isinstance(g.get("apv"), dict):
                if "i" in g["apv"]:
                    return k(int(g["apv"]["i"]), w)
                t = table_of(g)
                if t is not None:
                    o = Obj()
                    et = None
                    gt = self.tu.types[g["t"]] if "t" in g else T
                    if gt is not None:
                        et = gt.ta[0] if gt.ta else gt.to
                    for i, x in enumerate(t):
                        o.f[i] = k(x, et.w if et is not None and et.w else 64)
                    o.f['n'] = len(t)
                    return o
            raise Unsupported("name %s" % e.get("n"))
        if kd == "This":
            return self.this
        if kd == "Mem":
            b = self.ev(e["b"])
            b = rd(b)
            if b is None:
                raise Unsupported("member of unknown object")
            if isinstance(b, Obj):
                if e["f"] not in b.f and not b.union and self.tu.types[e["ft"]].rec:
                    b.f[e["f"]] = self.fresh(self.tu.types[e["ft"]])
                return LV(b, e["f"])
            raise Unsupported("member")
        if kd == "Idx":
            b = rd(self.ev(e["a"]))
            i = self.rv(e["b"])
            if isinstance(b, Obj):
                if not i.const():
                    raise Split()
                if 'n' in b.f and not 0 <= i.lo() < b.f['n']:
                    raise Wrong("index %d outside an array of %d" % (i.lo(), b.f['n']))
                return LV(b, i.lo())
            raise Unsupported("index")
        if kd == "Cast":
            c = e["ck"]
            if c == "ArrayToPointerDecay":
                return self.ev(e["e"])
            if c == "NoOp":
                return self.ev(e["e"])
            if c == "ToVoid":
                self.ev(e["e"])
                return None
            v = self.rv(e["e"])
            if c in ("LValueToRValue", "BitCast", "LValueBitCast", "LValueToRValueBitCast"):
                if isinstance(v, BV) and T is not None and T.isint():
                    return v.resize(w, False)
                return v
            if c in ("IntegralCast", "BooleanToSignedIntegral"):
                return v.resize(w, bool(self.T(e["e"]).sg))
            if c in ("IntegralToBoolean",):
                return k(int(self.truth(v)), w)
            if c in ("FloatingCast", "FloatingToIntegral", "IntegralToFloating") and isinstance(v, BV) and not v.const():
                self.I.steps += 1
                return BV((c, self.I.steps, i) for i in range(T.w or 64))      # other bits than the source's
            raise Unsupported("cast " + c)
        if kd in ("Mat", "StmtE"):
            return self.ev(e["e"])
        if kd == "SizeOf":
            T2 = self.tu.types[e["ot"]]
            n = T2.size or (T2.w // 8 if T2.w else None)
            if n is None:
                raise Unsupported("sizeof")
            return k(n, 64)
        if kd == "Zero":
            return k(0, w) if T.isint() else self.fresh(T)
        if kd == "IL":
            if T is not None and (T.rec or T.k in ('arr', 'array')):
                o = self.fresh(T)
                names = e.get("f")
                a = e.get("a", [])
                if T.union:
                    if a:
                        o.f['raw'] = self.rv(a[0])
                    return o
                if names is not None and len(names) == 1 and len(a) == 1 and a[0]["k"] == "IL" and T.rec == 'std::array':
                    inner = rd(self.ev(a[0]))
                    for i in range(o.f.get('n', 0)):
                        o.f[i] = inner.f.get(i, k(0, 8))
                    return o
                if names is not None:
                    for nm, x in zip(names, a):
                        o.f[nm] = self.rv(x)
                    return o
                for i, x in enumerate(a):
                    o.f[i] = self.rv(x)
                for i in range(len(a), o.f.get('n', 0)):
                    et = T.to
                    o.f[i] = k(0, et.w if et is not None and et.w else 8)
                return o
            if len(e.get("a", [])) == 1:
                return self.rv(e["a"][0])
            if not e.get("a"):
                return k(0, w)
        if kd == "Bin":
            op = e["op"]
            if op == "=":
                v = self.rv(e["b"])
                lv = self.ev(e["a"])
                if not isinstance(lv, LV):
                    raise Unsupported("assignment")
                lv.put(v)
                return lv
            if op == ",":
                self.ev(e["a"])
                return self.ev(e["b"])
            if op in ("&&", "||"):
                a = self.truth(self.rv(e["a"]))
                if op == "&&":
                    return k(1 if a and self.truth(self.rv(e["b"])) else 0, w)
                return k(1 if a or self.truth(self.rv(e["b"])) else 0, w)
            if not self.T(e["a"]).isint():
                raise Unsupported("operator %s on %s" % (op, self.T(e["a"]).s))
            return self.binop(op, self.rv(e["a"]), self.rv(e["b"]), w, bool(self.T(e["a"]).sg))
        if kd == "CAsg":
            lv = self.ev(e["a"])
            CT = self.tu.types[e["ct"]] if e.get("ct", -1) >= 0 else T
            v = self.binop(e["op"].rstrip("="), rd(lv).resize(CT.w, bool(T.sg)), self.rv(e["b"]), CT.w, bool(CT.sg))
            lv.put(v.resize(w, False))
            return lv
        if kd == "Un":
            op = e["op"]
            if op in ("++", "--"):
                lv = self.ev(e["e"])
                old = rd(lv)
                if not isinstance(old, BV):
                    raise Unsupported("++")
                lv.put(self.binop("+" if op == "++" else "-", old, k(1, old.w), old.w, False))
                return old if e.get("post") else lv
            if op in ("&", "*"):
                return self.ev(e["e"])
            v = self.rv(e["e"])
            if op == "+":
                return v
            if op == "!":
                return k(0 if self.truth(v) else 1, w)
            if op == "~" and v.const():
                return k(~v.lo(), w)
            if op == "-" and v.const():
                return k(-v.lo(), w)
            raise Split() if isinstance(v, BV) else Unsupported("unary " + op)
        if kd == "Cond":
            return self.ev(e["a"] if self.truth(self.rv(e["c"])) else e["b"])
        if kd in ("Call", "MCall"):
            return self.call(e)
        if kd == "Ctor":
            a = e.get("a", [])
            fn = self.tu.fns[e["fn"]]
            r = self.I.hook(self, fn, None, [self.ev(x) for x in a])
            if r is not None:
                return r
            if not a:
                return self.fresh(T)
            if len(a) == 1:
                return self.rv(a[0])
        raise Unsupported("expression " + kd)

    def call(self, e):
        fn = self.tu.fns[e["fn"]]
        n = fn.name
        obj = self.ev(e["o"]) if e["k"] == "MCall" else None
        args = [self.ev(x) for x in e["a"]]
        r = self.I.hook(self, fn, obj, args)
        if r is not None:
            return r
        o = rd(obj) if obj is not None else None
        if isinstance(o, Obj) and 'n' in o.f and fn.rect is not None and fn.rect.rec == 'std::array':
            if n in ("at", "operator[]"):
                i = rd(args[0])
                if not i.const():
                    raise Split()
                if not 0 <= i.lo() < o.f['n']:
                    raise Wrong("index %d outside an array of %d" % (i.lo(), o.f['n']))
                return LV(o, i.lo())
            if n in ("size", "max_size"):
                return k(o.f['n'], 64)
            if n == "data":
                return o
            if n == "fill":
                for i in range(o.f['n']):
                    o.f[i] = rd(args[0])
                return k(0, 8)
        if n in ("memcpy", "__builtin_memcpy"):
            v = rd(args[1])
            if isinstance(v, BV) and isinstance(args[0], LV) and rd(args[2]) == k(v.w // 8, 64):
                args[0].put(v)
                return args[0]
        if fn.qn in ("std::bit_cast", "absl::bit_cast"):
            return rd(args[0])
        if fn.qn in ("std::move", "std::forward", "std::as_const"):
            return args[0]
        if n in ("__builtin_clzll", "__builtin_clzl", "__builtin_clz"):
            v = rd(args[0])
            for i, x in enumerate(reversed(v.b)):
                if x == 1:
                    return k(i, 32)
                if x != 0:
                    raise Split()
            raise Wrong("clz of zero")
        if n == "__assert_fail":
            raise Wrong("assertion")
        if fn.qn in ("std::min", "std::max"):
            a, b = rd(args[0]), rd(args[1])
            sg = bool(fn.pt[0].noref().sg)
            le = a.hi(sg) <= b.lo(sg) or a.b == b.b
            ge = a.lo(sg) >= b.hi(sg)
            if not le and not ge:
                raise Split()
            return (a if le else b) if n == "min" else (b if le else a)
        vals = []
        for a, p in zip(args, fn.pt):
            v = a if p.k == 'ref' or p.k == 'ptr' else rd(a)
            vals.append(v)
        return self.I.call(fn, vals, o, self.depth + 1)

    def binop(self, op, a, b, w, sg):
        if not isinstance(a, BV) or not isinstance(b, BV):
            raise Unsupported("operands of " + op)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            p, q, r, s = a.lo(sg), a.hi(sg), b.lo(sg), b.hi(sg)
            same = a.b == b.b
            differ = any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(a.b, b.b))
            t = {"<": (q < r, p >= s or same), "<=": (q <= r or same, p > s), ">": (p > s, q <= r or same), ">=": (p >= s or same, q < r),
                 "==": (same, differ or q < r or s < p), "!=": (differ or q < r or s < p, same)}[op]
            if t[0]:
                return k(1, w)
            if t[1]:
                return k(0, w)
            raise Split()
        if op == "&":
            return BV(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else None for x, y in zip(a.b, b.b)).resize(w, False)
        if op == "|":
            return BV(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else None for x, y in zip(a.b, b.b)).resize(w, False)
        if op == "^":
            return BV(y if x == 0 else x if y == 0 else 0 if x == y and x is not None else (x ^ y) if x in (0, 1) and y in (0, 1) else None
                      for x, y in zip(a.b, b.b)).resize(w, False)
        if op in ("<<", ">>"):
            if not b.const():
                raise Split()
            n = b.lo()
            if n >= a.w:
                raise Wrong("shift by %d of %d bits" % (n, a.w))
            if op == "<<":
                return BV((0,) * n + a.b[:a.w - n])
            return BV(a.b[n:] + ((a.b[-1] if sg else 0),) * n)
        if op in ("*", "/", "%"):
            for x, y in ((a, b), (b, a)):
                if y.const():
                    v = y.lo()
                    if v and v & (v - 1) == 0 and (op == "*" or y is b) and (not sg or x.b[-1] == 0 or op == "*"):
                        n = v.bit_length() - 1
                        if op == "*":
                            return BV((0,) * n + x.b[:x.w - n])
                        if op == "/":
                            return BV(x.b[n:] + (0,) * n)
                        return BV(x.b[:n] + (0,) * (x.w - n))
        if op == "+" and all(x == 0 or y == 0 for x, y in zip(a.b, b.b)):
            return BV(y if x == 0 else x for x, y in zip(a.b, b.b))
        if op == "-" and all(y == 0 or (y == 1 and x == 1) for x, y in zip(a.b, b.b)):
            return BV(x if y == 0 else 0 for x, y in zip(a.b, b.b))
        if a.const() and b.const():
            x, y = a.lo(sg), b.lo(sg)
            if op == "+":
                return k(x + y, w)
            if op == "-":
                return k(x - y, w)
            if op == "*":
                return k(x * y, w)
            if op in ("/", "%"):
                if y == 0:
                    raise Wrong("division by zero")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return k(q if op == "/" else x - q * y, w)
        if op in ("+", "-", "*", "/", "%"):
            raise Split()
        raise Unsupported("operator " + op)


def partition(run, n, w, limit=5000):
    """run(BV) for a partition of all n-bit values of width w; yields (BV, result or exception)"""
    todo = [tuple(('n', i) if i < n else 0 for i in range(w))]
    cnt = 0
    while todo:
        b = todo.pop()
        cnt += 1
        if cnt > limit:
            raise Unsupported("too many pieces")
        v = BV(b)
        try:
            r = run(v)
        except Split:
            open_ = [i for i, x in enumerate(b) if isinstance(x, tuple)]
            if not open_:
                raise Unsupported("not decided for %d" % v.lo())
            i = open_[-1]
            todo.append(b[:i] + (1,) + b[i + 1:])
            todo.append(b[:i] + (0,) + b[i + 1:])
            continue
        except Wrong as x:
            r = x
        yield v, r
