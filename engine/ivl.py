"""Interval interpretation of scalar integer code, with splitting of the argument's interval wherever a branch, table
index or operation is not decided by the interval. Sound: every concrete run on a value of the interval takes the
interpreted branches and yields a value inside the resulting interval."""
from extract import AnalysisBroken


class Split(Exception):
    pass


class Unsupported(Exception):
    pass


class Wrong(Exception):
    """undefined behaviour for every value of the interval"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def table_of(g):
    v = g.get("apv")
    while isinstance(v, dict):
        if 'a' in v:
            return [int(x['i']) for x in v['a']] if all('i' in x for x in v['a']) else None
        if 's' in v and len(v['s']) == 1:
            v = v['s'][0]
        else:
            return None
    return None


class Ivl:
    def __init__(self, prog, table_access=None):
        self.prog = prog
        self.tables = {}
        self.steps = 0
        self.accessed = []

    def wrap(self, v, T):
        r = T.range() if T is not None else None
        if r is None:
            return v
        lo, hi = v
        if r[0] <= lo and hi <= r[1]:
            return v
        m = 1 << T.w
        if lo == hi:
            x = lo % m
            if T.sg and x >= m >> 1:
                x -= m
            return (x, x)
        # a whole interval in one window
        if (lo - r[0]) // m == (hi - r[0]) // m:
            k = (lo - r[0]) // m * m
            return (lo - k, hi - k)
        raise Split()

    def signed_ok(self, v, T):
        r = T.range()
        if r is None or not T.sg:
            return
        if v[0] > r[1] or v[1] < r[0]:
            raise Wrong("signed overflow")
        if v[0] < r[0] or v[1] > r[1]:
            raise Split()

    # ---- functions
    def call(self, fn, args, depth=0):
        if fn.body is None or depth > 30:
            raise Unsupported("call of " + fn.qn)
        env = {}
        for p, a in zip(fn.ps, args):
            env[p["d"]] = a
        f = Frame(self, fn, env, depth)
        try:
            f.stmt(fn.body)
        except Ret as r:
            return r.v
        return (0, 0)


class Frame:
    def __init__(self, I, fn, env, depth):
        self.I, self.fn, self.env, self.depth = I, fn, env, depth
        self.tu = fn.tu

    def T(self, e):
        return self.tu.types[e["t"]] if "t" in e else None

    def truth(self, v):
        if isinstance(v, tuple):
            if v[0] > 0 or v[1] < 0:
                return True
            if v == (0, 0):
                return False
        raise Split()

    # ---- statements
    def stmt(self, s):
        self.I.steps += 1
        if s is None:
            return
        k = s["k"]
        if k == "Block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "Expr":
            self.ev(s["e"])
        elif k == "Decl":
            for v in s["v"]:
                if v.get("i") is not None:
                    self.env[v["d"]] = self.rv(v["i"])
                else:
                    self.env[v["d"]] = None
        elif k == "If":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.stmt({"k": "Decl", "v": [s["cv"]]})
            if self.truth(self.rv(s["c"])):
                self.stmt(s["a"])
            else:
                self.stmt(s.get("b"))
        elif k in ("While", "For", "Do"):
            if s.get("cv"):
                raise Unsupported("loop with declaration")
            if k == "For" and s.get("init"):
                self.stmt(s["init"])
            n = 0
            first = k == "Do"
            while True:
                n += 1
                if n > 2000:
                    raise Unsupported("long loop")
                if not first and s.get("c") is not None and not self.truth(self.rv(s["c"])):
                    break
                first = k == "Do"
                try:
                    self.stmt(s["body"])
                except Brk:
                    break
                except Cont:
                    pass
                if k == "For" and s.get("inc") is not None:
                    self.ev(s["inc"])
                if k == "Do" and not self.truth(self.rv(s["c"])):
                    break
        elif k == "Switch":
            if s.get("init"):
                self.stmt(s["init"])
            if s.get("cv"):
                self.stmt({"k": "Decl", "v": [s["cv"]]})
            v = self.rv(s["c"])
            flat = []

            def fl(x):
                if x is None:
                    return
                if x["k"] in ("Case", "Default"):
                    flat.append(x)
                    fl(x["s"])
                else:
                    flat.append(x)
            for x in (s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]):
                fl(x)
            at = dflt = None
            for i, x in enumerate(flat):
                if x["k"] == "Default":
                    dflt = i
                elif x["k"] == "Case":
                    lo = int(x["v"])
                    hi = int(x.get("v2", lo))
                    if v[0] >= lo and v[1] <= hi:
                        at = i
                        break
                    if not (v[1] < lo or v[0] > hi):
                        raise Split()
            at = dflt if at is None else at
            if at is not None:
                try:
                    for x in flat[at:]:
                        if x["k"] not in ("Case", "Default"):
                            self.stmt(x)
                except Brk:
                    pass
        elif k == "Ret":
            raise Ret(self.rv(s["e"]) if s.get("e") is not None else (0, 0))
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Null":
            pass
        else:
            raise Unsupported("statement " + k)

    # ---- expressions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, tuple) and v and v[0] == 'lv':
            v = self.get(v)
        return v

    def get(self, lv):
        v = self.env.get(lv[1])
        if v is None:
            raise Unsupported("uninitialised or unknown variable")
        if isinstance(v, tuple) and v and v[0] == 'lv':
            return self.get(v)
        return v

    def ev(self, e):
        self.I.steps += 1
        k = e["k"]
        T = self.T(e)
        if k in ("Int",):
            return (int(e["v"]),) * 2
        if "cv" in e and k != "Ref":
            return (int(e["cv"]),) * 2
        if k == "Ref":
            d = e.get("d")
            if d in self.env:
                return ('lv', d)
            if "cv" in e:
                return (int(e["cv"]),) * 2
            return self.glob(e)
        if k == "Cast":
            v = self.rv(e["e"])
            ck = e["ck"]
            if ck in ("IntegralCast", "BooleanToSignedIntegral"):
                return self.I.wrap(v, T)
            if ck in ("IntegralToBoolean",):
                return (1, 1) if self.truth(v) else (0, 0)
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay"):
                return v
            raise Unsupported("cast " + ck)
        if k in ("Mat", "StmtE"):
            return self.ev(e["e"])
        if k == "IL" and len(e.get("a", [])) == 1:
            return self.rv(e["a"][0])
        if k == "Bin":
            op = e["op"]
            if op == "=":
                v = self.rv(e["b"])
                lv = self.ev(e["a"])
                self.env[lv[1]] = v
                return lv
            if op == ",":
                self.ev(e["a"])
                return self.ev(e["b"])
            if op in ("&&", "||"):
                a = self.truth(self.rv(e["a"]))
                if op == "&&":
                    return (1, 1) if a and self.truth(self.rv(e["b"])) else (0, 0)
                return (1, 1) if a or self.truth(self.rv(e["b"])) else (0, 0)
            return self.binop(op, self.rv(e["a"]), self.rv(e["b"]), T, self.T(e["a"]))
        if k == "CAsg":
            lv = self.ev(e["a"])
            CT = self.tu.types[e["ct"]] if e.get("ct", -1) >= 0 else T
            v = self.binop(e["op"].rstrip("="), self.I.wrap(self.get(lv), CT), self.rv(e["b"]), CT, CT)
            self.env[lv[1]] = self.I.wrap(v, T)
            return lv
        if k == "Un":
            op = e["op"]
            if op in ("++", "--"):
                lv = self.ev(e["e"])
                old = self.get(lv)
                d = 1 if op == "++" else -1
                self.env[lv[1]] = self.I.wrap((old[0] + d, old[1] + d), T)
                return old if e.get("post") else lv
            v = self.rv(e["e"])
            if op == "-":
                return self.I.wrap((-v[1], -v[0]), T)
            if op == "+":
                return v
            if op == "!":
                return (0, 0) if self.truth(v) else (1, 1)
            if op == "~":
                return self.I.wrap((-v[1] - 1, -v[0] - 1), T)
            raise Unsupported("unary " + op)
        if k == "Cond":
            return self.rv(e["a"] if self.truth(self.rv(e["c"])) else e["b"])
        if k in ("Call", "MCall"):
            return self.call(e)
        if k == "Ctor" and len(e.get("a", [])) == 1:
            return self.rv(e["a"][0])
        raise Unsupported("expression " + k)

    def glob(self, e):
        n = e.get("g") or e.get("n")
        for nm in (n,):
            g = self.tu.globals.get(nm)
            if g is not None:
                t = table_of(g)
                if t is not None:
                    return ('tab', nm, t)
                if "apv" in g and "i" in g["apv"]:
                    return (int(g["apv"]["i"]),) * 2
        raise Unsupported("name %s" % n)

    def lookup(self, t, i):
        lo, hi = i
        if hi < 0 or lo >= len(t):
            raise Wrong("index %s outside a table of %d" % (i, len(t)))
        if lo < 0 or hi >= len(t):
            raise Split()
        xs = t[lo:hi + 1]
        return (min(xs), max(xs))

    def call(self, e):
        fn = self.tu.fns[e["fn"]]
        n = fn.qn.rsplit("::", 1)[-1]
        if e["k"] == "MCall":
            o = self.ev(e["o"])
            if isinstance(o, tuple) and o[0] == 'tab':
                if n in ("at", "operator[]"):
                    return self.lookup(o[2], self.rv(e["a"][0]))
                if n in ("size", "max_size"):
                    return (len(o[2]),) * 2
                if n == "empty":
                    return (int(not o[2]),) * 2
                if n in ("front", "back"):
                    x = o[2][0 if n == "front" else -1]
                    return (x, x)
            raise Unsupported("call of " + fn.qn)
        a = [self.rv(x) for x in e["a"]]
        if n in ("__builtin_clzll", "__builtin_clzl", "__builtin_clz"):
            w = 32 if n == "__builtin_clz" else 64
            lo, hi = a[0]
            if hi <= 0:
                raise Wrong("clz of zero") if hi == 0 and lo == 0 else Unsupported("clz")
            if lo <= 0:
                raise Split()
            return (w - hi.bit_length(), w - lo.bit_length())
        if n in ("__builtin_ctzll", "__builtin_ctzl", "__builtin_ctz", "__builtin_popcountll", "__builtin_popcount"):
            lo, hi = a[0]
            if lo != hi:
                raise Split()
            x = bin(lo & ((1 << 64) - 1)).count("1") if "pop" in n else (lo & -lo).bit_length() - 1
            return (x, x)
        if fn.qn in ("std::min", "std::max") and len(a) == 2:
            f = min if n == "min" else max
            return (f(a[0][0], a[1][0]), f(a[0][1], a[1][1]))
        if fn.qn.startswith("absl::numeric_internal") or fn.qn in ("absl::bit_width", "absl::countl_zero", "std::countl_zero"):
            lo, hi = a[0]
            if lo <= 0:
                raise Split()
            if n == "bit_width":
                return (lo.bit_length(), hi.bit_length())
            raise Unsupported(fn.qn)
        return self.I.call(fn, a, self.depth + 1)

    def binop(self, op, a, b, T, AT):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and isinstance(a[0], int) and isinstance(b[0], int)):
            raise Unsupported("operands of " + op)
        (p, q), (r, s) = a, b
        if op in ("<", "<=", ">", ">=", "==", "!="):
            t = {"<": (q < r, p >= s), "<=": (q <= r, p > s), ">": (p > s, q <= r), ">=": (p >= s, q < r),
                 "==": (p == q == r == s, q < r or s < p), "!=": (q < r or s < p, p == q == r == s)}[op]
            if t[0]:
                return (1, 1)
            if t[1]:
                return (0, 0)
            raise Split()
        if op == "+":
            v = (p + r, q + s)
        elif op == "-":
            v = (p - s, q - r)
        elif op == "*":
            xs = (p * r, p * s, q * r, q * s)
            v = (min(xs), max(xs))
        elif op in ("/", "%"):
            if r == s == 0:
                raise Wrong("division by zero")
            if r <= 0 <= s:
                raise Split()
            if op == "/":
                d = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                xs = [d(x, y) for x in (p, q) for y in (r, s)] + ([0] if p <= 0 <= q else [])
                v = (min(xs), max(xs))
            else:
                if r == s and p >= 0 and p // r == q // r:
                    v = (p % r, q % r)
                elif p == q and r == s:
                    x = abs(p) % abs(r) * (1 if p >= 0 else -1)
                    v = (x, x)
                else:
                    raise Split()
        elif op in ("<<", ">>"):
            if r != s:
                raise Split()
            if r < 0 or r >= (AT.w or 64):
                raise Wrong("shift by %d" % r)
            v = (p << r, q << r) if op == "<<" else (p >> r, q >> r)
            if op == "<<" and T is not None and not T.sg:
                return self.I.wrap(v, T)
        elif op in ("&", "|", "^"):
            if p != q or r != s:
                if op == "&" and r == s and r >= 0 and (r & (r + 1)) == 0 and p >= 0 and p // (r + 1) == q // (r + 1):
                    v = (p & r, q & r)
                    return v
                if op == "&" and r == s and p >= 0 and p.bit_length() == q.bit_length() and r < 0 and ((-r) & (-r - 1)) == 0:
                    return (p & r, q & r)
                raise Split()
            x = p & r if op == "&" else p | r if op == "|" else p ^ r
            v = (x, x)
        else:
            raise Unsupported("operator " + op)
        if T is not None and T.sg:
            self.I.signed_ok(v, T)
            return v
        return self.I.wrap(v, T)


def staircase(prog, fn, lo, hi, cuts=(), limit=40000):
    """[(lo, hi, result)] with singleton results covering [lo, hi] in order; ('wrong', text) as result for undefined behaviour"""
    I = Ivl(prog)
    pts = sorted({x for x in cuts if lo < x <= hi})
    todo = []
    a = lo
    for x in pts:
        todo.append((a, x - 1))
        a = x
    todo.append((a, hi))
    todo.reverse()
    out = []
    n = 0
    while todo:
        a, b = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many pieces")
        try:
            v = I.call(fn, [(a, b)])
            if isinstance(v, tuple) and v[0] == v[1]:
                r = v[0]
            else:
                raise Split()
        except Split:
            if a == b:
                raise Unsupported("not decided for %d" % a)
            m = (a + b) // 2
            todo += [(m + 1, b), (a, m)]
            continue
        except Wrong as w:
            r = ('wrong', str(w))
        if out and out[-1][2] == r:
            out[-1] = (out[-1][0], b, r)
        else:
            out.append((a, b, r))
    return out, n, I.steps
