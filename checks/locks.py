"""Lockset and lock-order analysis over the typed syntax tree.

Every function body of the repository is walked once, in evaluation order, with the set of locks held (RAII guards and manual
Lock/Unlock alike).  A location is an access path rooted at this, a parameter, a local or a global; references, iterators and
local smart pointers are resolved to the path they stand for.  Per function the walk yields
  need   accesses to guarded state without the guarding lock held       (path of the lock, of the data)
  acq    acquisitions, with what was held
  blk    blocking operations, with what was held
  calls  calls of repository functions, with the bindings of their parameters and what was held
and a bottom-up pass substitutes them into the callers.  No path is executed; the trees are those of the current source."""
import re

LOCKCLS = {"absl::MutexLock": "x", "absl::WriterMutexLock": "x", "absl::ReaderMutexLock": "s", "absl::ReleasableMutexLock": "x",
           "absl::MutexLockMaybe": "x", "std::lock_guard": "x", "std::unique_lock": "x", "std::scoped_lock": "x", "std::shared_lock": "s",
           "absl::SpinLockHolder": "x", "Poco::ScopedLock": "x"}
MUTEX = re.compile(r"^(const )?(mutable )?(absl::Mutex|std::(recursive_|shared_|timed_|recursive_timed_|shared_timed_)?mutex|Poco::(Fast)?Mutex)\b")
TAKE = {"Lock": "x", "WriterLock": "x", "lock": "x", "ReaderLock": "s", "lock_shared": "s"}
DROP = {"Unlock", "WriterUnlock", "unlock", "ReaderUnlock", "unlock_shared", "Release", "release"}
TRY = {"TryLock", "try_lock", "ReaderTryLock", "WriterTryLock", "try_lock_for", "try_lock_until", "try_lock_shared"}
MUTATE = {"insert", "emplace", "erase", "clear", "push_back", "pop_back", "push_front", "pop_front", "operator=", "operator[]", "try_emplace",
          "insert_or_assign", "swap", "emplace_back", "emplace_front", "assign", "resize", "reserve", "merge", "append", "operator+=", "push",
          "pop", "rehash", "operator++", "operator--", "reset", "shrink_to_fit", "emplace_hint", "extract"}
GETTERS = {"operator*", "operator->", "get", "begin", "end", "cbegin", "cend", "back", "front", "operator[]", "at", "find", "data", "rbegin",
           "value", "erase", "emplace", "insert", "try_emplace", "insert_or_assign", "lower_bound", "upper_bound", "rend", "operator++",
           "operator--", "ref", "move", "forward", "addressof", "as_const", "next", "prev"}
WAITS = {"wait", "wait_for", "wait_until", "Wait", "WaitWithTimeout", "WaitWithDeadline"}
BLOCK_FN = re.compile(r"^(::)?(usleep|nanosleep|sleep|clock_nanosleep|poll|ppoll|select|pselect|epoll_wait|connect|accept|recv|recvfrom|recvmsg|send|"
                      r"sendto|sendmsg|waitpid|wait|system|getaddrinfo|gethostbyname|pause|sigwait|flock|curl_easy_perform|curl_multi_perform|"
                      r"curl_multi_wait|curl_multi_poll|std::this_thread::sleep_for|std::this_thread::sleep_until|absl::SleepFor|"
                      r"asio::connect|asio::write|asio::read|asio::read_until)$")
BLOCK_M = re.compile(r"^(std::thread::join|std::jthread::join|absl::BlockingCounter::Wait|absl::Notification::WaitForNotification\w*|"
                     r"std::(__basic_future|future|shared_future)::(get|wait|wait_for|wait_until)|asio::thread_pool::(join|wait)|asio::io_context::run\w*|"
                     r"std::(counting_semaphore|binary_semaphore)::acquire|std::latch::wait|std::barrier::\w*wait|"
                     r"Poco::Net::\w+::(sendRequest|receiveResponse|connect|sendBytes|receiveBytes|stop|stopAll)|"
                     r"asio::basic_\w*socket\w*::(connect|send|receive|send_to|receive_from|write_some|read_some|wait)|"
                     r"Poco::Thread::(join|sleep))$")
DEFER = re.compile(r"^(asio::(post|dispatch|defer|co_spawn)|std::async|std::thread::thread|std::jthread::jthread|asio::\w+::(post|dispatch|defer))$")
POOL = re.compile(r"^(asio::(post|dispatch|defer)|std::async)$")


def isptrlike(t):
    return t is not None and (t.k == "ptr" or (t.rec or "") in ("std::unique_ptr", "std::shared_ptr"))


class Held:
    __slots__ = ("must", "cls", "where", "own", "mode", "vars")

    def __init__(self, must, cls, where, own, mode, vars=frozenset()):
        self.must, self.cls, self.where, self.own, self.mode, self.vars = must, cls, where, own, mode, vars

    def weak(self, vs):
        return Held(False, self.cls, self.where, self.own, self.mode, self.vars | vs)


class St:
    def __init__(self):
        self.held = {}      # lock path -> Held
        self.grd = {}       # guard variable -> lock path(s)
        self.alias = {}     # variable -> path it stands for
        self.lam = {}       # variable -> lambda function
        self.pend = {}      # captured local -> (name, lock, where): handed to another thread that may still run

    def copy(self):
        s = St()
        for a in ("held", "grd", "alias", "lam", "pend"):
            setattr(s, a, dict(getattr(self, a)))
        return s


def join(a, b, vs=frozenset()):
    if a is None:
        return b
    if b is None:
        return a
    r = St()
    for k in set(a.held) | set(b.held):
        x, y = a.held.get(k), b.held.get(k)
        if x and y:
            r.held[k] = x if not x.must or y.must else y
        else:
            r.held[k] = (x or y).weak(vs)
    for at in ("grd", "alias", "lam", "pend"):
        m = dict(getattr(a, at))
        m.update(getattr(b, at))
        setattr(r, at, m)
    return r


class Sum:
    """what one function does, in terms of its own this/parameters"""

    def __init__(self, fn):
        self.fn = fn
        self.need, self.acq, self.blk, self.calls = [], [], [], []
        self.pinv, self.pcall, self.leave, self.odd = [], [], [], []
        self.leak, self.esc, self.lowrite, self.naccess = [], [], [], 0
        self.drops, self.acc, self.pool, self.reacq = [], [], [], []
        self.exits = 0


class Locks:
    def __init__(self, prog, extra=()):
        self.P = prog
        self.gb = {}         # (record qn, field) -> mutex field
        self.recfields = {}
        for r in prog.records.values():
            for f, m in r.gb.items():
                self.gb[(r.qn, f)] = re.sub(r"^this->", "", m).strip("&() ")
        for rec, f, m in extra:
            rr = [r for r in prog.records.values() if r.qn == rec]
            if (rec, f) in self.gb or not rr or f not in rr[0].ft:
                continue
            if m not in rr[0].ft:
                ms = [n for n, t in rr[0].ft.items() if MUTEX.match(t.s)]
                m = ms[0] if len(ms) == 1 else m
            if "atomic" in rr[0].ft[f].s:
                continue
            self.gb[(rec, f)] = m
        self.sums = {}
        self.guardrec = {}   # repository RAII guard: record -> True
        self.addr_taken = set()
        self.callers = {}

    # ------------------------------------------------------------------ paths
    def ap(self, S, st, n):
        """access path of an expression, or None"""
        k = n.get("k")
        if k in ("Cast", "Mat", "Paren", "Expr", "Temp", "DefArg", "Opaque"):
            return self.ap(S, st, n["e"]) if isinstance(n.get("e"), dict) else None
        if k == "This":
            return ("this",)
        if k == "Ref":
            if "d" in n:
                d = n["d"]
                return st.alias.get(d, ("d", d))
            if "g" in n:
                return ("g", n["g"])
            return None
        if k == "Mem":
            if not isinstance(n.get("b"), dict):
                return ("g", str(n.get("f")))
            b = self.ap(S, st, n["b"])
            if b is None:
                return None
            if n.get("rec", "").startswith("std::") or n.get("rec", "").startswith("tsl::"):
                return b + ("[]",) if b[-1] != "[]" else b
            return b + (n["f"],)
        if k == "Un" and n.get("op") in ("&", "*"):
            return self.ap(S, st, n["e"])
        if k == "Idx":
            b = self.ap(S, st, n["a"])
            return b and (b + ("[]",) if b[-1] != "[]" else b)
        if k == "Cond":
            return None
        if k == "Ctor" and len(n.get("a") or []) == 1:
            t = self.S_tu(S).types[n["t"]] if "t" in n else None
            if t is not None and ("iterator" in t.s or isptrlike(t) or (t.rec or "") == "std::reference_wrapper"):
                return self.ap(S, st, n["a"][0])
            return None
        if k in ("MCall", "Call"):
            fn = self.S_tu(S).fns[n["fn"]] if isinstance(n.get("fn"), int) else None
            if fn is None:
                return None
            o = n.get("o") if k == "MCall" else None
            if fn.lam and fn.body is not None:
                return self.getter(fn)
            if fn.repo and fn.body is not None:
                g = self.getter(fn)
                if g is not None and g[0] == "this" and o is not None:
                    b = self.ap(S, st, o)
                    return b and b + g[1:]
                return None
            if fn.name in GETTERS:
                e = o if isinstance(o, dict) else (n["a"][0] if n.get("a") else None)
                b = self.ap(S, st, e) if e is not None else None
                if b is None:
                    return None
                ot = None
                if isinstance(o, dict) and "t" in o:
                    ot = self.S_tu(S).types[o["t"]].noref()
                if fn.name in ("get", "operator*", "operator->", "ref", "addressof", "as_const") and (ot is None or "ptr" in (ot.rec or "")):
                    return b + ("*",) if ot is not None and "ptr" in (ot.rec or "") and b != ("this",) and b[-1] == "[]" else b
                if fn.name in ("move", "forward", "ref", "addressof", "as_const"):
                    return b
                return b + ("[]",) if b[-1] != "[]" else b
        return None

    def S_tu(self, S):
        return S.fn.tu

    def getter(self, fn):
        """member path returned by a function whose body only returns a member"""
        r = self.gets.get(fn.key, 0)
        if r != 0:
            return r
        r = None
        self.gets[fn.key] = None
        rt = fn.rt
        if rt is not None and (rt.k in ("ref", "ptr") or "iterator" in rt.s):
            ps = []
            for x in self.P.walk(fn.body):
                if x.get("k") == "Ret" and isinstance(x.get("e"), dict):
                    class X:
                        pass
                    z = X()
                    z.fn = fn
                    ps.append(self.ap(z, St(), x["e"]))
            if ps and all(p is not None and p == ps[0] for p in ps) and (ps[0][0] == "this" or fn.lam):
                r = ps[0]
        self.gets[fn.key] = r
        return r

    gets = {}

    # ------------------------------------------------------------------ walking
    def summary(self, fn):
        s = self.sums.get(fn.key)
        if s is None:
            s = self.sums[fn.key] = Sum(fn)
            W = Walk(self, s)
            W.run()
        return s

    def cls_of(self, tu, n):
        """class of a mutex expression: record type and field"""
        k = n.get("k")
        if k in ("Cast", "Mat", "Paren") or (k == "Un" and n.get("op") in ("&", "*")):
            return self.cls_of(tu, n["e"])
        if k == "Mem":
            b = n.get("b")
            t = tu.types[b["t"]] if isinstance(b, dict) and "t" in b else None
            while t is not None and t.k in ("ref", "ptr") and t.to is not None:
                t = t.to
            s = re.sub(r"^const ", "", t.s) if t is not None else n.get("rec", "?")
            return "%s::%s" % (s, n["f"])
        if k == "Ref":
            return "%s" % n.get("n", n.get("g", "?"))
        return "?"


class Walk:
    def __init__(self, L, S):
        self.L, self.S = L, S
        self.fn = S.fn
        self.tu = S.fn.tu
        self.loops = []
        self.scope = 0
        self.seen = set()
        self.entry = {}
        self.cond = []     # variables of enclosing conditions
        self.lamlocals = None

    def loc(self, n):
        return self.tu.loc(n.get("l")) if n.get("l") else "%s:%s" % (self.fn.file, self.fn.line)

    def run(self):
        st = St()
        fn = self.fn
        self.exempt = fn.ctor or fn.dtor
        for i in fn.inits or []:
            e = i.get("i") or i.get("e") if isinstance(i, dict) else None
            if isinstance(e, dict):
                st = self.ex(st, e)
        self.paramdepth = True
        out = self.stmt(st, fn.body)
        if out is not None:
            self.leave(out, {"l": None}, "end")

    # -------------------------------------------------------------- exits
    def leave(self, st, n, how):
        self.S.exits += 1
        for p, h in st.held.items():
            if h.own == "m":
                self.S.leave.append((p, h, self.loc(n) if n.get("l") else "end of " + self.fn.qn))

    def popscope(self, st, depth):
        """release the guards declared at scope depth > depth"""
        if st is None:
            return None
        for v, (ps, d) in list(st.grd.items()):
            if d > depth:
                for p in ps:
                    h = st.held.get(p)
                    if h is not None and h.own == v:
                        del st.held[p]
                del st.grd[v]
        return st

    # -------------------------------------------------------------- statements
    def stmt(self, st, n):
        if st is None or n is None:
            return st
        if isinstance(n, list):
            for x in n:
                st = self.stmt(st, x)
                if st is None:
                    return None
            return st
        k = n.get("k")
        if k == "Block":
            self.scope += 1
            for x in n.get("s") or []:
                st = self.stmt(st, x)
                if st is None:
                    break
            self.scope -= 1
            return self.popscope(st, self.scope)
        if k == "Decl":
            for v in n["v"]:
                st = self.decl(st, v, n)
            return st
        if k == "Expr":
            return self.ex(st, n["e"])
        if k == "If":
            self.scope += 1
            for a in ("init", "cv"):
                if isinstance(n.get(a), (dict, list)):
                    x = n[a]
                    st = self.stmt(st, x) if isinstance(x, list) or x.get("k") else self.decl(st, x, n)
            t, f, vs = self.cnd(st, n["c"]) if isinstance(n.get("c"), dict) else (st, st.copy(), frozenset())
            self.cond.append(vs)
            a = self.stmt(t.copy(), n.get("a"))
            b = self.stmt(f.copy(), n.get("b")) if n.get("b") else f
            self.cond.pop()
            self.scope -= 1
            return self.popscope(join(a, b, vs), self.scope)
        if k in ("While", "Do", "For", "RFor"):
            self.scope += 1
            if isinstance(n.get("init"), (dict, list)):
                st = self.stmt(st, n["init"])
            if k == "RFor":
                st = self.ex(st, n["r"]) if isinstance(n.get("r"), dict) else st
                p = self.L.ap(self.S, st, n["r"]) if isinstance(n.get("r"), dict) else None
                for v in (n["v"] if isinstance(n["v"], list) else [n["v"]]):
                    t = self.tu.types[v["t"]] if "t" in v else None
                    if p is not None and "d" in v and (t is None or t.k == "ref"):
                        st.alias[v["d"]] = p + ("[]",) if p[-1] != "[]" else p
                rp = p
            self.loops.append({"b": [], "c": [], "d": self.scope})
            out = None
            cur = st
            for it in range(2):
                if cur is None:
                    break
                if k in ("While", "For") and isinstance(n.get("c"), dict):
                    t, f, vs = self.cnd(cur, n["c"])
                    out = join(out, f.copy())
                    cur = t
                elif k == "RFor":
                    if rp is not None:
                        self.touch(cur, n["r"], rp, False, "iteration")
                    out = join(out, cur.copy())
                elif k == "For":
                    pass
                self.scope += 1
                cur = self.stmt(cur.copy(), n.get("body"))
                self.scope -= 1
                cur = self.popscope(cur, self.scope)
                for c in self.loops[-1]["c"]:
                    cur = join(cur, c)
                self.loops[-1]["c"] = []
                if cur is not None and isinstance(n.get("inc"), dict):
                    cur = self.ex(cur, n["inc"])
                if k == "Do" and cur is not None:
                    t, f, vs = self.cnd(cur, n["c"])
                    out = join(out, f.copy())
                    cur = t
            L = self.loops.pop()
            if k != "Do" and not (k == "For" and not isinstance(n.get("c"), dict)) and cur is not None:
                out = join(out, cur)
            if k == "While" and self.const_true(n.get("c")) or k == "For" and not isinstance(n.get("c"), dict):
                out = None
            for b in L["b"]:
                out = join(out, b)
            self.scope -= 1
            return self.popscope(out, self.scope)
        if k in ("Break", "Continue"):
            if self.loops:
                L = self.loops[-1]
                s2 = self.popscope(st.copy(), L["d"])
                L["b" if k == "Break" else "c"].append(s2)
            return None
        if k == "Ret":
            if isinstance(n.get("e"), dict):
                st = self.ex(st, n["e"])
                self.escape(st, n)
            self.leave(st, n, "return")
            return None
        if k == "Switch":
            self.scope += 1
            st = self.ex(st, n["c"])
            self.loops.append({"b": [], "c": self.loops[-1]["c"] if self.loops else [], "d": self.scope})
            base, cur, hasdef = st.copy(), None, False
            body = n["body"].get("s") if n["body"].get("k") == "Block" else [n["body"]]
            for x in body or []:
                while isinstance(x, dict) and x.get("k") in ("Case", "Default"):
                    hasdef = hasdef or x["k"] == "Default"
                    cur = join(cur, base.copy())
                    x = x.get("s")
                if x is not None and cur is not None:
                    cur = self.stmt(cur, x)
            L = self.loops.pop()
            out = cur if hasdef else join(cur, base)
            for b in L["b"]:
                out = join(out, b)
            self.scope -= 1
            return self.popscope(out, self.scope)
        if k == "Try":
            self.scope += 1
            s0 = st.copy()
            a = self.stmt(st, n["body"])
            for h in n.get("h") or []:
                b = h.get("body") if isinstance(h, dict) and "body" in h else h
                hs = self.stmt(self.popscope(s0.copy(), self.scope), b)
                a = join(a, hs)
            self.scope -= 1
            return self.popscope(a, self.scope)
        if k == "Throw":
            self.ex(st, n)
            return None
        if k in ("Null", "Empty"):
            return st
        return self.ex(st, n)

    def const_true(self, c):
        while isinstance(c, dict) and c.get("k") == "Cast":
            c = c["e"]
        return isinstance(c, dict) and c.get("cv") not in (None, "0", 0)

    def vars(self, c):
        return frozenset(x.get("d", x.get("f")) for x in self.L.P.walk(c) if x.get("k") in ("Ref", "Mem"))

    def cnd(self, st, c):
        vs = self.vars(c)
        n = c
        neg = False
        while n.get("k") in ("Cast", "Un") and (n.get("k") == "Cast" or n.get("op") == "!"):
            neg ^= n.get("k") == "Un"
            n = n["e"]
        if n.get("k") == "Bin" and n.get("op") in ("&&", "||"):
            t1, f1, v1 = self.cnd(st, n["a"])
            if n["op"] == "&&":
                t2, f2, v2 = self.cnd(t1.copy(), n["b"])
                t, f = t2, join(f1, f2, vs)
            else:
                t2, f2, v2 = self.cnd(f1.copy(), n["b"])
                t, f = join(t1, t2, vs), f2
            return (f, t, vs) if neg else (t, f, vs)
        if n.get("k") == "MCall" and isinstance(n.get("fn"), int):
            fn = self.tu.fns[n["fn"]]
            ot = self.typ(n.get("o"))
            if fn.name in TRY and ot is not None and MUTEX.match(ot.s):
                p = self.L.ap(self.S, st, n["o"])
                t, f = st.copy(), st.copy()
                self.take(t, n["o"], p, "m", "x", n, trylock=True)
                return (f, t, vs) if neg else (t, f, vs)
            if fn.name in TRY | {"owns_lock", "operator bool"} and ot is not None and (ot.rec or "") in LOCKCLS:
                d = n["o"].get("d")
                if d in st.grd:
                    t, f = st.copy(), st.copy()
                    for p in st.grd[d][0]:
                        h = t.held.get(p)
                        t.held[p] = Held(True, h.cls if h else "?", self.loc(n), d, "x")
                        f.held.pop(p, None)
                    return (f, t, vs) if neg else (t, f, vs)
        st = self.ex(st, c)
        return st, st.copy(), vs

    # -------------------------------------------------------------- declarations
    def typ(self, n):
        t = self.tu.types[n["t"]] if isinstance(n, dict) and "t" in n else None
        while t is not None and t.k in ("ref", "ptr") and t.to is not None:
            t = t.to
        return t

    def decl(self, st, v, n):
        i = v.get("i")
        t = self.tu.types[v["t"]] if "t" in v else None
        d = v.get("d")
        rec = (t.rec or "") if t is not None else ""
        if rec in LOCKCLS or t is not None and self.own_guard(t):
            return self.guard(st, v, t, i, n)
        if isinstance(i, dict):
            lam = self.lam_of(i, st)
            if lam is not None and i.get("k") != "Ref":
                st.lam[d] = lam
                return self.caps(st, i)
            isref = t is not None and t.k == "ref"
            if isref and self.plain(i):
                self.regmem(st, i)          # naming a location is not an access to it
            else:
                st = self.ex(st, i)
            p = self.L.ap(self.S, st, i)
            if p is not None and t is not None:
                self.regcall(st, i)
                g = self.guarded(p)
                if isref or t.k == "ptr" or isptrlike(t) and not g or "iterator" in t.s or t.k == "ref":
                    if not (t.k == "ptr" and g and self.is_value_load(i)):
                        st.alias[d] = p
                        if isref or "iterator" in t.s:
                            return st
        elif isinstance(i, list):
            for x in i:
                st = self.ex(st, x)
        for b in v.get("b") or []:
            if isinstance(b, dict) and "d" in b and isinstance(i, dict):
                p = self.L.ap(self.S, st, i)
                if p is not None:
                    st.alias[b["d"]] = p + ("[]",) if p[-1] != "[]" else p
        return st

    def plain(self, i):
        while isinstance(i, dict) and i.get("k") in ("Mem", "Cast", "Ref", "This"):
            if i["k"] in ("Ref", "This"):
                return True
            i = i.get("b") if i["k"] == "Mem" else i.get("e")
        return False

    def regcall(self, st, i):
        """the members a repository function hands out references to"""
        while isinstance(i, dict) and i.get("k") in ("Cast", "Mat", "Ctor"):
            i = i.get("e") if i["k"] != "Ctor" else (i.get("a") or [None])[0]
        if not isinstance(i, dict) or i.get("k") not in ("Call", "MCall") or not isinstance(i.get("fn"), int):
            return
        fn = self.tu.fns[i["fn"]]
        if fn.body is None or not (fn.repo or fn.lam):
            return
        b = None if fn.lam else self.L.ap(self.S, st, i["o"]) if isinstance(i.get("o"), dict) else None
        for x in self.L.P.walk(fn.body):
            if x.get("k") == "Mem":
                class X:
                    pass
                z = X()
                z.fn = fn
                q = self.L.ap(z, St(), x)
                if q is not None:
                    self.mem(x, q if fn.lam else (b + q[1:] if b is not None and q[0] == "this" else None))

    def regmem(self, st, i):
        while isinstance(i, dict) and i.get("k") in ("Mem", "Cast"):
            if i["k"] == "Mem":
                self.mem(i, self.L.ap(self.S, st, i))
            i = i.get("b") if i["k"] == "Mem" else i.get("e")

    def is_value_load(self, i):
        while isinstance(i, dict) and i.get("k") == "Cast":
            if i.get("ck") == "LValueToRValue":
                return True
            i = i["e"]
        return isinstance(i, dict) and i.get("k") in ("MCall", "Call")

    def own_guard(self, t):
        """a repository class that locks in its constructor and unlocks in its destructor"""
        if not t.repo or not t.rec:
            return False
        r = self.L.guardrec.get(t.s)
        if r is None:
            self.L.guardrec[t.s] = r = False
            rr = self.L.P.records.get(re.sub("^const ", "", t.s))
            if rr is not None:
                ds = [m for m in rr.methods if m.dtor and m.body is not None]
                cs = [m for m in rr.methods if m.ctor and m.body is not None]
                if ds and self.L.summary(ds[0]).drops and any(self.L.summary(c).leave for c in cs):
                    r = True
            self.L.guardrec[t.s] = r
        return r

    def guard(self, st, v, t, i, n):
        d = v.get("d")
        mode = LOCKCLS.get(t.rec, "x")
        ps, owned = [], "yes"
        e = i
        while isinstance(e, dict) and e.get("k") in ("Cast", "Mat", "Paren"):
            e = e["e"]
        if isinstance(e, dict) and e.get("k") in ("Call", "MCall"):
            st = self.ex(st, e)
            fn = self.tu.fns[e["fn"]] if isinstance(e.get("fn"), int) else None
            src = None
            if fn is not None and fn.name == "move" and e.get("a"):
                x = e["a"][0]
                if x.get("d") in st.grd:
                    ps2, dep = st.grd.pop(x["d"])
                    for p in ps2:
                        if p in st.held:
                            h = st.held[p]
                            st.held[p] = Held(h.must, h.cls, h.where, d, h.mode, h.vars)
                    st.grd[d] = (ps2, self.scope)
                    return st
            if fn is not None and fn.body is not None:
                src = self.ret_lock(fn)
                if src is not None:
                    b = self.bindings(st, fn, e)
                    p = self.subst(src, b)
                    if p is not None:
                        self.take(st, None, p, d, mode, n, cls="%s::%s" % (fn.rect.s if fn.rect else "", p[-1]))
                        st.grd[d] = ([p], self.scope)
                        return st
            self.S.odd.append(("a lock is obtained from " + (fn.qn if fn else "?"), self.loc(n)))
            return st
        args = (e.get("a") or []) if isinstance(e, dict) and e.get("k") in ("Ctor", "IL") else []
        for a in args:
            at = self.typ(a)
            if at is not None and MUTEX.match(at.s):
                p = self.L.ap(self.S, st, a)
                if p is None:
                    p = ("?", self.L.cls_of(self.tu, a))
                ps.append((p, a))
            elif at is not None and at.rec and "defer_lock" in at.s:
                owned = "no"
            elif at is not None and at.rec and "try_to_lock" in at.s:
                owned = "try"
            elif at is not None and "adopt_lock" in at.s:
                owned = "adopt"
            else:
                st = self.ex(st, a)
        if not ps and self.own_guard(t):
            fn = self.tu.fns[e["fn"]] if isinstance(e, dict) and isinstance(e.get("fn"), int) else None
            b = self.bindings(st, fn, e) if fn is not None else {}
            for lp, h, w in (self.L.summary(fn).leave if fn is not None and fn.body is not None else []):
                p = self.subst(lp, b)
                if p is not None:
                    ps.append((p, None))
        for p, a in ps:
            if owned == "yes":
                self.take(st, a, p, d, mode, n)
            elif owned == "adopt" and p in st.held:
                h = st.held[p]
                st.held[p] = Held(h.must, h.cls, h.where, d, h.mode, h.vars)
            elif owned == "try":
                cls = self.L.cls_of(self.tu, a) if a is not None else "?"
                st.held[p] = Held(False, cls, self.loc(n), d, mode, frozenset([d]))
        st.grd[d] = ([p for p, a in ps], self.scope)
        return st

    def ret_lock(self, fn):
        b = fn.body
        for x in self.L.P.walk(b):
            if x.get("k") == "Ret" and isinstance(x.get("e"), dict):
                for y in self.L.P.walk(x["e"]):
                    if y.get("k") in ("Mem", "Ref") and "t" in y:
                        t = fn.tu.types[y["t"]]
                        if MUTEX.match(t.s):
                            class X:
                                pass
                            z = X()
                            z.fn = fn
                            return self.L.ap(z, St(), y)
        return None

    # -------------------------------------------------------------- locks
    def take(self, st, a, p, own, mode, n, trylock=False, cls=None):
        if cls is None:
            cls = self.L.cls_of(self.tu, a) if a is not None else (p[-1] if p else "?")
        if p is None:
            p = ("?", cls)
        w = self.loc(n)
        rec = a is not None and self.typ(a) is not None and "recursive" in self.typ(a).s
        key = (id(n), p)
        if key not in self.seen:
            self.seen.add(key)
            if not trylock:
                self.S.acq.append((p, cls, w, self.snap(st), rec))
        if p in st.held and not rec and not trylock:
            h = st.held[p]
            self.S.reacq.append((p, cls, w, h.where, h.must))
        st.held[p] = Held(True, cls, w, own, mode)

    def drop(self, st, p, n):
        if p is None:
            self.S.odd.append(("a lock that is not resolved is released", self.loc(n)))
            return
        if p in st.held:
            del st.held[p]
        else:
            self.S.drops.append((p, self.loc(n)))

    def snap(self, st):
        return {p: h for p, h in st.held.items()}

    # -------------------------------------------------------------- guarded state
    def guarded(self, p):   # noqa
        """the guarded prefix of a path is recognised at the member access, see mem(); here: does the path pass through one"""
        for i, x in enumerate(p):
            if isinstance(x, str) and i > 0 and any(f == x for (r, f) in self.L.gb):
                return True
        return False

    def gfind(self, p):
        """(lock path, data path) for a path into guarded state; None when it is not"""
        if "*" in p:
            q = p[:p.index("*")]
        else:
            q = p
        for i in range(1, len(q)):
            t = self.ptype.get(q[:i + 1])
            if t is not None:
                return t, q[:i + 1]
        return None

    ptype = None

    def touch(self, st, n, p, write, what):
        """an access to path p"""
        S = self.S
        if self.ptype is None:
            self.ptype = {}
        g = self.gfind(p)
        # state shared with tasks handed to other threads
        if p[0] == "d" and len(p) >= 2:
            base = p[:2]
            nm = n.get("n") or str(p)
            S.acc.append((base, p, write, self.snap(st), self.loc(n), what))
            if base in st.pend:
                nm, locks, w = st.pend[base]
                if write is not None and not any(l in st.held and st.held[l].must for l in locks):
                    S.lowrite.append((base, nm, self.loc(n), w))
        elif p[0] == "this":
            S.acc.append((p[:2], p, write, self.snap(st), self.loc(n), what))
        if g is None:
            return
        lock, data = g
        S.naccess += 1
        key = (id(n), "t", tuple(sorted((k, h.must) for k, h in st.held.items())))
        if key in self.seen:
            return
        self.seen.add(key)
        h = st.held.get(lock)
        if self.exempt and data[0] == "this" and len(data) == 2:
            return
        if h is not None and h.must:
            if write and h.mode == "s":
                S.need.append((lock, data, self.loc(n), "is written under the shared mode of its lock", True))
            return
        cvs = frozenset().union(*self.cond) if self.cond else frozenset()
        if h is not None and h.vars & cvs:
            S.odd.append(("%s is used where its lock is held only on a condition that also guards the use" % self.show(data), self.loc(n)))
            return
        if any(k[0] == "?" and k[1].split("::")[-1] == lock[-1] for k in st.held):
            S.odd.append(("the lock held for %s is not resolved to an object" % self.show(data), self.loc(n)))
            return
        S.need.append((lock, data, self.loc(n), "is used", False))

    def show(self, p):
        return ".".join(str(x) for x in (p[1:] if p[0] in ("this", "d") and len(p) > 1 else p))

    def mem(self, n, p):
        """register the guarded prefix of a member path; the lock is a member of the same object"""
        if self.ptype is None:
            self.ptype = {}
        rec, f = n.get("rec"), n.get("f")
        m = self.L.gb.get((rec, f))
        if m is None or p is None:
            return
        if m.startswith(".."):
            # the lock lives in the object one level up
            if len(p) >= 2:
                mm = m[2:].split("@")
                if p[-2] == mm[1]:
                    self.ptype[p] = p[:-2] + (mm[0],)
            return
        self.ptype[p] = p[:-1] + tuple(m.split("."))

    # -------------------------------------------------------------- expressions
    def ex(self, st, n, bind=False, write=False):
        if n is None or st is None:
            return st
        if isinstance(n, list):
            for x in n:
                st = self.ex(st, x)
            return st
        if not isinstance(n, dict):
            return st
        k = n.get("k")
        L, S = self.L, self.S
        if k == "Lam":
            return self.caps(st, n)
        if k == "Bin" and n.get("op") in ("&&", "||"):
            st = self.ex(st, n["a"])
            b = self.ex(st.copy(), n["b"])
            return join(st, b, self.vars(n["a"]))
        if k == "Cond":
            st = self.ex(st, n["c"])
            vs = self.vars(n["c"])
            self.cond.append(vs)
            r = join(self.ex(st.copy(), n["a"]), self.ex(st.copy(), n["b"]), vs)
            self.cond.pop()
            return r
        if k == "Bin" and n.get("op") in ("=",) or k == "CAsg":
            st = self.ex(st, n["b"])
            return self.ex(st, n["a"], write=True)
        if k == "Un" and n.get("op") in ("++", "--"):
            return self.ex(st, n["e"], write=True)
        if k == "Cast" or k == "Mat" or k == "Un":
            return self.ex(st, n["e"], write=write, bind=bind)
        if k == "Mem":
            if isinstance(n.get("b"), dict):
                st = self.ex(st, n["b"], bind=True)
            p = L.ap(S, st, n)
            if p is not None:
                self.mem(n, p)
                t = self.tu.types[n["t"]] if "t" in n else None
                if t is not None and not MUTEX.match(t.s):
                    self.touch(st, n, p, write, "member")
            return st
        if k == "Ref":
            if "d" in n:
                p = st.alias.get(n["d"])
                if p is not None:
                    t = self.tu.types[n["t"]] if "t" in n else None
                    if t is None or "iterator" not in t.s or write:
                        if self.ptype and self.gfind(p) is not None and not (isptrlike(t) and "*" in p):
                            self.touch(st, n, p, write, "alias")
                elif ("d", n["d"]) in st.pend or not bind:
                    t = self.tu.types[n["t"]] if "t" in n else None
                    if t is not None and not MUTEX.match(t.s):
                        self.touch(st, n, ("d", n["d"]), write, "local")
            return st
        if k in ("Call", "MCall", "Ctor", "PCall"):
            return self.call(st, n, bind, write)
        if k == "IL":
            return self.ex(st, n.get("a") or [])
        if k in ("SizeOf", "Typeid"):
            return st
        for a, v in n.items():
            if isinstance(v, dict) or isinstance(v, list) and v and isinstance(v[0], dict):
                st = self.ex(st, v)
        return st

    def caps(self, st, n):
        e = n
        while e.get("k") != "Lam":
            if not isinstance(e.get("e"), dict):
                e = (e.get("a") or [{}])[0]
            else:
                e = e["e"]
            if not e:
                return st
        for c in e.get("caps") or []:
            i = c.get("i")
            if isinstance(i, dict) and not c.get("this"):
                if c.get("ref"):
                    p = self.L.ap(self.S, st, i)
                    if p is not None and p != ("d", c.get("d")):
                        st.alias[c["d"]] = p
                else:
                    st = self.ex(st, i)
        return st

    def lam_of(self, a, st):
        e = a
        while isinstance(e, dict) and e.get("k") in ("Cast", "Mat", "Paren", "Ctor"):
            if e.get("k") == "Ctor":
                aa = e.get("a") or []
                if len(aa) != 1:
                    return None
                e = aa[0]
            else:
                e = e["e"]
        if isinstance(e, dict) and e.get("k") == "Call" and isinstance(e.get("fn"), int) and self.tu.fns[e["fn"]].name in ("ref", "move", "forward", "cref") \
                and e.get("a"):
            return self.lam_of(e["a"][0], st)
        if isinstance(e, dict) and e.get("k") == "Lam":
            return self.tu.fns[e["fn"]]
        if isinstance(e, dict) and e.get("k") == "Ref" and e.get("d") in st.lam:
            return st.lam[e["d"]]
        return None

    def bindings(self, st, fn, n):
        b = {}
        if n.get("k") == "MCall" and isinstance(n.get("o"), dict):
            b[("this",)] = self.L.ap(self.S, st, n["o"])
        for p, a in zip(fn.ps or [], n.get("a") or []):
            b[("d", p["d"])] = self.L.ap(self.S, st, a)
        return b

    def subst(self, p, b):
        if p is None:
            return None
        for r in (p[:1], p[:2]):
            if r in b:
                return b[r] + p[len(r):] if b[r] is not None else None
        if p[0] == "g" or p[0] == "?":
            return p
        return None

    def run_lam(self, st, lam, n, held=None, b=None):
        """the body of a lambda runs here, under what is held"""
        if lam.body is None:
            return
        sub = self.L.summary_lam(lam, st)
        self.S.calls.append((lam, {"lam": True}, self.snap(st) if held is None else held, self.loc(n)))

    def call(self, st, n, bind, write):
        L, S, k = self.L, self.S, n["k"]
        fn = self.tu.fns[n["fn"]] if isinstance(n.get("fn"), int) else None
        o = n.get("o") if isinstance(n.get("o"), dict) else None
        ot = self.typ(o)
        name = fn.name if fn is not None else ""
        # lock operations
        if o is not None and ot is not None:
            if MUTEX.match(ot.s):
                p = L.ap(S, st, o)
                if name in TAKE:
                    self.take(st, o, p, "m", TAKE[name], n)
                    return st
                if name in DROP:
                    self.drop(st, p, n)
                    return st
                if name in TRY:
                    q = p if p is not None else ("?", L.cls_of(self.tu, o))
                    st.held[q] = Held(False, L.cls_of(self.tu, o), self.loc(n), "m", "x", self.vars(n))
                    return st
                if name.startswith("Await") or name.startswith("LockWhen"):
                    S.odd.append(("conditional critical section", self.loc(n)))
                return st
            if (ot.rec or "") in LOCKCLS and o.get("k") == "Ref" and o.get("d") in st.grd:
                ps, dep = st.grd[o["d"]]
                for p in ps:
                    if name in TAKE:
                        self.take(st, None, p, o["d"], "x", n, cls=self.lastcls(p))
                    elif name in DROP:
                        self.drop(st, p, n)
                    elif name in TRY:
                        st.held[p] = Held(False, self.lastcls(p), self.loc(n), o["d"], "x", self.vars(n))
                return st
        # a lock object that is never named lives until the end of the expression
        if k == "Ctor" and fn is not None and (fn.rect.rec if fn.rect else None) in LOCKCLS:
            for a in n.get("a") or []:
                at = self.typ(a)
                if at is not None and MUTEX.match(at.s):
                    p = L.ap(S, st, a)
                    self.S.acq.append((p or ("?", L.cls_of(self.tu, a)), L.cls_of(self.tu, a), self.loc(n), self.snap(st), False))
            return st
        args = n.get("a") or []
        waits = o is not None and name in WAITS and ot is not None and ("condition_variable" in ot.s or "CondVar" in ot.s)
        if waits:
            own = set()
            for a in args[:1]:
                d = a.get("d")
                own |= set(st.grd[d][0]) if d in st.grd else {L.ap(S, st, a)}
            for a in args:
                lam = self.lam_of(a, st)
                if lam is not None:
                    st = self.caps(st, a) if self.has_lam(a) else st
                    self.run_lam(st, lam, n)
                else:
                    st = self.ex(st, a)
            held = {p: h for p, h in self.snap(st).items() if p not in own}
            S.blk.append(("waits on a condition variable", self.loc(n), held, True))
            if not any(p in st.held and st.held[p].must for p in own):
                S.odd.append(("waits on a condition variable with a lock that is not held", self.loc(n)))
            return st
        if k == "PCall" and isinstance(n.get("f"), dict):
            st = self.ex(st, n["f"])
        if o is not None:
            wr = name in MUTATE if not (fn is not None and fn.repo) else not fn.c and not fn.st
            it = "iterator" in (ot.s if ot is not None else "")
            if it:
                st = self.ex(st, o, bind=True)
                if name in ("operator*", "operator->", "operator++", "operator--"):
                    p = L.ap(S, st, o)
                    if p is not None and self.ptype and self.gfind(p) is not None:
                        self.touch(st, n, p, False, "iterator")
            else:
                st = self.ex(st, o, write=wr or write)
        defer = fn is not None and DEFER.match(fn.qn) is not None
        std = fn is not None and not fn.repo and (fn.qn.startswith("std::") or fn.qn.startswith("absl::") or fn.qn.startswith("__gnu"))
        lamargs = []
        for i, a in enumerate(args):
            lam = self.lam_of(a, st)
            if lam is not None:
                if self.has_lam(a):
                    st = self.caps(st, a)
                lamargs.append((i, lam))
                continue
            asg = k == "MCall" and False
            st = self.ex(st, a, write=(fn is not None and fn.name in ("swap", "exchange", "getline", "operator<<", "operator>>") and not fn.repo and i == 0))
        if k == "Ctor" and fn is not None and fn.ctor in ("copy", "move") and args:
            p = L.ap(S, st, args[0])
            if p is not None and fn.rect is not None:
                for (rec, f), m in L.gb.items():
                    if m.startswith("..") and rec == fn.rect.rec:
                        mm = m[2:].split("@")
                        if p[-1] == mm[1]:
                            if self.ptype is None:
                                self.ptype = {}
                            self.ptype[p + (f,)] = p[:-1] + (mm[0],)
                            self.touch(st, n, p + (f,), False, "copy")
        if k == "Call" and fn is not None and fn.qn in ("std::lock",) or fn is not None and fn.qn == "std::try_lock":
            for a in args:
                p = L.ap(S, st, a)
                if p is not None:
                    self.take(st, a, p, "m", "x", n)
        for i, lam in lamargs:
            self.lamarg(st, n, fn, i, lam, defer, std)
        if fn is None:
            if k == "PCall":
                f = n.get("f")
                ft = self.tu.types[f["t"]] if isinstance(f, dict) and "t" in f else None
                S.pcall.append((ft.s if ft is not None else "?", self.snap(st), self.loc(n)))
            return st
        # a parameter that is called
        if o is not None and fn.lam and o.get("k") in ("Ref", "Cast", "Call"):
            r = o
            while r.get("k") == "Cast" or r.get("k") == "Call" and r.get("a"):
                r = r["e"] if r["k"] == "Cast" else r["a"][0]
            d = r.get("d")
            if d is not None and any(p["d"] == d for p in self.fn.ps or []):
                S.pinv.append((d, self.snap(st), self.loc(n)))
                return st
            self.run_lam(st, fn, n)
            return st
        if o is not None and name == "operator()" and (ot.rec or "") == "std::function":
            S.pcall.append((ot.s, self.snap(st), self.loc(n)))
            return st
        if not fn.repo:
            if BLOCK_FN.match(fn.qn) and k != "MCall" or BLOCK_M.match(fn.qn):
                S.blk.append(("calls " + fn.qn, self.loc(n), self.snap(st), False))
                if BLOCK_M.match(fn.qn):
                    st.pend = {}
        if fn.repo or fn.body is not None:
            b = self.bindings(st, fn, n)
            if k == "Ctor":
                b[("this",)] = None
            lb = {}
            for i, lam in lamargs:
                if fn.ps and i < len(fn.ps):
                    lb[fn.ps[i]["d"]] = lam
            S.calls.append((fn, {"b": b, "lb": lb}, self.snap(st), self.loc(n)))
            if fn.body is not None and fn.key != self.fn.key:
                sub = L.summary(fn)
                for p, h, w in sub.leave:
                    q = self.subst(p, b)
                    if q is not None and not fn.ctor:
                        st.held[q] = Held(h.must, h.cls, self.loc(n), "m", h.mode)
                for p, w in sub.drops:
                    q = self.subst(p, b)
                    if q is not None and not fn.dtor:
                        st.held.pop(q, None)
        return st

    def lastcls(self, p):
        return str(p[-1])

    def has_lam(self, a):
        e = a
        while isinstance(e, dict) and e.get("k") in ("Cast", "Mat", "Paren", "Ctor"):
            e = (e.get("a") or [None])[0] if e["k"] == "Ctor" else e["e"]
        return isinstance(e, dict) and e.get("k") == "Lam"

    def lamarg(self, st, n, fn, i, lam, defer, std):
        S = self.S
        if lam.body is None:
            return
        if fn is not None and (defer or n["k"] == "Ctor" or not std and not fn.repo):
            self.deferred(st, n, fn, lam)
            return
        if fn is not None and fn.repo and fn.body is not None:
            if n["k"] == "Ctor" or not any(x[0] == (fn.ps[i]["d"] if fn.ps and i < len(fn.ps) else None) for x in self.L.summary(fn).pinv):
                # kept or passed on: assume it runs later, with nothing held
                self.deferred(st, n, fn, lam, pool=False)
            return     # substituted at the call
        self.run_lam(st, lam, n)

    def deferred(self, st, n, fn, lam, pool=True):
        S = self.S
        S.calls.append((lam, {"lam": True, "defer": True}, {}, self.loc(n)))
        if defer_kind(fn):
            S.pool.append((lam, n, self.loc(n), bool(POOL.match(fn.qn)) or bool(self.loops), {k: v for k, v in st.alias.items()}))
            byref = {}
            for x in self.L.P.walk(n):
                if x.get("k") == "Lam" and self.tu.fns[x["fn"]] is lam:
                    for c in x.get("caps") or []:
                        if c.get("ref") and "d" in c:
                            byref[("d", c["d"])] = c.get("n", "?")
            sub = self.L.summary(lam)
            for base, nm in byref.items():
                A = [a for a in sub.acc if a[0] == base]
                if A and any(a[2] for a in A):
                    common = None
                    for a in A:
                        hs = {p for p, h in a[3].items() if h.must}
                        common = hs if common is None else common & hs
                    st.pend[base] = (nm, common or set(), self.loc(n))

    # -------------------------------------------------------------- results that outlive the lock
    def escape(self, st, n):
        rt = self.fn.rt
        e = n["e"]
        if rt is None or self.fn.lam:
            return
        if not (rt.k in ("ref", "ptr") or "iterator" in rt.s or (rt.rec or "").endswith("string_view")):
            return
        if rt.k == "ptr" and self.is_value_load(e):
            x = e
            while isinstance(x, dict) and x.get("k") == "Cast":
                x = x["e"]
            if isinstance(x, dict) and x.get("k") in ("MCall", "Call"):
                return
        p = self.L.ap(self.S, st, e)
        if p is None or self.ptype is None:
            return
        g = self.gfind(p)
        if g is None or "*" in p:
            return
        h = st.held.get(g[0])
        if h is not None and h.own != "m":
            self.S.esc.append((g[1], self.loc(n)))


def defer_kind(fn):
    return fn is not None and DEFER.match(fn.qn) is not None


def _summary_lam(self, lam, st):
    return self.summary(lam)


Locks.summary_lam = _summary_lam
