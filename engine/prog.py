"""Merged view of the exported translation units: types, functions, records, globals."""
import os, sys
from extract import export_all, AnalysisBroken

sys.setrecursionlimit(20000)


class Type:
    __slots__ = ("s", "k", "w", "sg", "to", "n", "rec", "ta", "const", "size", "union", "repo", "ch", "lam", "rid")

    def __init__(self):
        for a in self.__slots__:
            setattr(self, a, None)

    def __repr__(self):
        return "T<%s>" % self.s

    def noref(self):
        return self.to if self.k == "ref" else self

    def range(self):
        if self.k in ("int", "bool", "enum") and self.w:
            if self.sg:
                return (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1)
            return (0, (1 << self.w) - 1)
        return None

    def isint(self):
        return self.k in ("int", "bool", "enum")


class Fn:
    __slots__ = ("key", "qn", "pt", "rt", "va", "nx", "nr", "m", "c", "st", "v", "rect", "acc", "ctor", "dtor", "conv",
                 "asg", "dflt", "lam", "ta", "hasbody", "repo", "file", "line", "tu", "body", "ps", "inits")

    def __init__(self):
        for a in self.__slots__:
            setattr(self, a, None)

    def __repr__(self):
        return "Fn<%s>" % self.qn

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1]


class TU:
    def __init__(self, src, j, prog):
        self.src, self.prog = src, prog
        self.types = [None] * len(j["types"])
        self.files = j["files"]
        tl = j["types"]
        for i, t in enumerate(tl):
            self.types[i] = Type()
        for i, t in enumerate(tl):
            o = self.types[i]
            for a in ("s", "k", "w", "sg", "n", "rec", "const", "size", "union", "repo", "ch", "rid"):
                if a in t:
                    setattr(o, a, t[a])
            if t.get("lambda"):
                o.lam = True
            if "to" in t and t["to"] >= 0:
                o.to = self.types[t["to"]]
            if "ta" in t:
                o.ta = [None if x is None else (self.types[x["t"]] if "t" in x else int(x["i"])) for x in t["ta"]]
        self.fns = []
        for f in j["fns"]:
            self.fns.append(prog.fn(f, self))
        self.globals = {}
        for g in j["globals"]:
            self.globals[g["g"]] = g

    def loc(self, l):
        if not l:
            return "?"
        f = os.path.normpath(self.files[l // 100000])
        r = self.prog.repo + "/"
        if f.startswith(r):
            f = f[len(r):]
        elif f.startswith(self.prog.gen):
            f = "<generated>" + f[len(self.prog.gen):]
        return "%s:%d" % (f, l % 100000)


class Record:
    def __init__(self, r, tu):
        self.qn, self.tu = r["qn"], tu
        self.type = tu.types[r["t"]]
        self.fields = r["fields"]
        self.ft = {f["n"]: tu.types[f["t"]] for f in r["fields"]}
        self.gb = {f["n"]: f["gb"] for f in r["fields"] if "gb" in f}
        self.bases = [tu.types[b] for b in r["bases"]]
        self.methods = [tu.fns[m] for m in r["methods"]]
        self.union = r.get("union", False)
        self.loc = tu.loc(r["l"])


class Prog:
    def __init__(self, repo=None):
        d = export_all(repo)
        self.repo, self.gen = d["repo"], d["gen"]
        self.fns = {}
        self.tus = {}
        self.records = {}   # type string -> Record
        self.by_qn = {}
        for src, j in d["tus"]:
            tu = TU(src, j, self)
            self.tus[src] = tu
            for f in j["funcs"]:
                o = tu.fns[f["fn"]]
                if o.body is None:
                    o.body, o.ps, o.inits, o.tu = f["body"], f["ps"], f.get("inits"), tu
                    o.file, o.line = tu.loc(f["l"]).rsplit(":", 1)
            for r in j["records"]:
                rr = Record(r, tu)
                self.records.setdefault(rr.type.s, rr)
        for o in self.fns.values():
            self.by_qn.setdefault(o.qn, []).append(o)

    def fn(self, f, tu):
        k = f["key"]
        if "@/" in k and "/../" in k:
            a, b = k.split("@/", 1)
            k = a + "@" + os.path.normpath("/" + b)
        o = self.fns.get(k)
        if o is None:
            o = self.fns[k] = Fn()
            o.key, o.qn = k, f["qn"]
            o.pt = [tu.types[x] for x in f["pt"]]
            o.rt = tu.types[f["rt"]]
            for a in ("va", "nx", "nr", "m", "c", "st", "v", "acc", "ctor", "dtor", "conv", "asg", "dflt", "lam", "repo"):
                if a in f:
                    setattr(o, a, f[a])
            if "rect" in f:
                o.rect = tu.types[f["rect"]]
            if "ta" in f:
                o.ta = [None if x is None else (tu.types[x["t"]] if "t" in x else int(x["i"])) for x in f["ta"]]
            o.hasbody = f.get("body")
            if o.repo:
                o.file, o.line = tu.loc(f["l"]).rsplit(":", 1)
        return o

    def bodies(self, qn=None, pred=None):
        r = [f for f in self.fns.values() if f.body is not None and (qn is None or f.qn == qn) and (pred is None or pred(f))]
        return sorted(r, key=lambda f: f.key)

    def one(self, qn, pred=None):
        r = self.bodies(qn, pred)
        if not r:
            raise AnalysisBroken("anchor vanished: no definition of " + qn)
        return r[0]

    def record(self, qn, pred=None):
        r = [x for x in self.records.values() if x.qn == qn and (pred is None or pred(x))]
        if not r:
            raise AnalysisBroken("anchor vanished: no record " + qn)
        return r[0]

    def walk(self, n):
        """all nodes of a JSON subtree"""
        if isinstance(n, dict):
            yield n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from self.walk(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    yield from self.walk(v)


if __name__ == "__main__":
    import time
    t = time.time()
    p = Prog()
    print(time.time() - t, len(p.fns), len([1 for f in p.fns.values() if f.body]))
    for f in p.bodies():
        if "lambda" not in f.qn:
            print(f.qn, f.file, f.line, f.rect.s if f.rect else "")
