"""P35: start-up opens exactly the configured listeners, each with its own parser."""
import re
from common import *
from absint import Frame

EXPLANATION = (
    "The server's Start is abstractly interpreted for every combination of its settings, the constructors of the listener classes (those that own an asio socket) and asio's own "
    "functions recorded: on every path the listeners that are constructed are matched against the settings under that path's conditions, with their flags, ports and paths traced "
    "back to the server's constructor parameters. The handler given to each is interpreted for any text, and so is the signal handler. Scope ends of local objects are events, so "
    "that a listener (or the signal set) that goes away before the event loop is run is seen. The listeners' constructors are interpreted down to the endpoint they bind.")
ASSUMPTIONS = ["asio delivers what arrives on an open socket with a posted receive, and the signals of a signal set, while the io_context runs",
               "the server's constructor gets the settings in the order its parameters name them (decided by P33)"]
RULES = {
    "udp": "the spectatord UDP listener is always opened once, on the configured port and address family",
    "statsd": "the statsd UDP listener is opened exactly if a statsd port is configured, on that port",
    "unix": "the unix datagram listener is opened exactly if a socket path is configured, on that path",
    "parser": "each listener hands every text to the parser of its protocol, once, and to nothing else",
    "started": "every listener is started once, before the event loop is run",
    "run": "the event loop of the listeners is run",
    "alive": "no listener, and not the signal set, goes away before the event loop ends",
    "path": "a stale socket file is removed, its directory made, and the umask lets every user write, before the socket is bound",
    "signals": "SIGINT and SIGTERM end the event loop and stop the server",
    "endpoint": "a listener's socket is bound to the endpoint its parameters give, and keeps its handler",
}
SRV = 'spectatord::Server'
THIS = ('this', SRV)
SYS = ('unlink', 'mkdir', 'umask', 'chmod', 'fchmod', 'remove', 'mkdirat', 'unlinkat')
SINGLE = (2, 15)


def listeners(P):
    """{record: (socket field, 'udp' or 'unix')}"""
    out = {}
    for q, r in P.records.items():
        if not q.startswith('spectatord::'):
            continue
        for n, T in r.ft.items():
            if T.k == 'rec' and 'socket' in T.s and 'asio' in T.s and 'acceptor' not in T.s:
                out[q] = (n, 'unix' if 'local' in T.s else 'udp')
    return out


class Setup(Rec):
    def __init__(self, L, near=None):
        self.L, self.near = L, near
        super().__init__(self.opaque, lambda fn: fn.repo)   # (what is opaque is recorded, not entered)

    def opaque(self, fn):
        if fn.rect is not None and fn.rect.rec in self.L:
            return True
        if fn.rect is not None and fn.rect.rec == SRV and fn.name in ('parse', 'parse_statsd', 'Stop'):
            return True
        if self.near is not None and fn.repo and fn.body is not None and not fn.lam and fn.key not in self.near:
            return True     # has nothing to do with listeners
        return (fn.name in SYS and not fn.repo) or fn.qn.startswith(('asio::', 'spectator::'))

    def watch(self, T):
        return any(q in T.s for q in self.L) or 'signal_set' in T.s

    def call(self, I, fn, obj, args, st, fr, node):
        if fn.qn.startswith(('spdlog::', 'fmt::')):
            I.n += 1
            t = ('ret', fn.qn, I.n)
            if fn.ctor and obj is not None:
                I.store(st, obj[1], obj[2], t)
                return [(st, Z)]
            return [(st, I.deref(t) if fn.rt.k == 'ref' else t)]
        return super().call(I, fn, obj, args, st, fr, node)


def starters(P, L):
    """methods of the listeners that post a receive"""
    out = set()
    ms = [m for m in P.fns.values() if m.body is not None and m.rect is not None and m.rect.rec in L and not m.lam]

    def calls(m):
        for x in P.walk(m.body):
            if x.get('k') in ('Call', 'MCall') and x.get('fn') is not None:
                yield m.tu.fns[x['fn']]
    for m in ms:
        if any(f.name.startswith('async_receive') or f.name.startswith('async_wait') for f in calls(m)):
            out.add(m.key)
    while True:
        new = {m.key for m in ms if m.key not in out and any(f.key in out for f in calls(m))}
        if not new:
            return out
        out |= new


def relevant(P, L):
    """functions that may open a listener or touch the file system or the event loop"""
    fs = [f for f in P.fns.values() if f.body is not None and f.repo]
    calls = {}
    for f in fs:
        calls[f.key] = [f.tu.fns[x[k]] for x in P.walk(f.body) for k in ('fn', 'ctor') if isinstance(x.get(k), int) and x[k] in (f.tu.fns if isinstance(f.tu.fns, dict) else range(len(f.tu.fns)))]
    out = {k for k, cs in calls.items() if any((g.name in SYS and not g.repo) or g.qn.startswith('asio::') or (g.rect is not None and g.rect.rec in L) or any(q in (g.rt.s or '') for q in L) for g in cs)}
    while True:
        new = {k for k, cs in calls.items() if k not in out and any(g.key in out for g in cs)}
        if not new:
            return out
        out |= new


def settings(ctx, ctor):
    """fields of the server that are its constructor's parameters: {field: parameter index}"""
    cl = Rec(lambda fn: fn.qn.startswith(('spectator::', 'asio::')) or fn.name == 'Logger' or (fn.ctor and 'cache' in fn.qn), lambda fn: fn.repo)
    res, I = runfn(ctx, ctor, cl)
    names = [p['n'] for p in ctor.ps]
    out, mixed = {}, {}
    for st, fl in res:
        for f in ctx.prog.record(SRV).ft:
            got = set()
            for (root, path), v in st.mem.items():
                if root == THIS and path[:1] == (f,):
                    got |= {x[1][1] for x in subterms(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'init' and isinstance(x[1], tuple) and x[1][0] == 'p'}
            if len(got) == 1 and list(got)[0] in names:
                out.setdefault(f, set()).add(names.index(list(got)[0]))
            else:
                out.setdefault(f, set()).add(None)
            plain = all(isinstance(v, tuple) and (isc(v) or v[0] == 'init') for (root, path), v in st.mem.items() if root == THIS and path[:1] == (f,))
            for x in got & set(names):
                mixed.setdefault(names.index(x), set()).add((f, plain))
    one = {f: list(v)[0] for f, v in out.items() if len(v) == 1 and None not in v}
    for k in range(4):
        if k not in one.values() and mixed.get(k):
            ctx.check(False if all(p for _, p in mixed[k]) else None, ('udp', 'udp', 'statsd', 'unix')[k], "%s (%s:%s)" % (ctor.qn, ctor.file, ctor.line),
                      "the server does not keep its parameter %s as it is: %s depends on other parameters" % (names[k], sorted(f for f, _ in mixed[k])))
    return one


def strip(t):
    t = decast(t)
    return t


def role(cl, fn, vals):
    """arguments of a listener's constructor by type"""
    r = {}
    for T, v in zip(fn.pt, vals):
        U = T.noref()
        if 'io_context' in U.s or 'executor' in U.s:
            r['io'] = v
        elif U.k == 'bool' or (U.k == 'int' and U.w == 1):
            r['v4'] = v
        elif U.k == 'int':
            r['port'] = strip(v)
        elif U.k == 'rec' and 'function' in U.s or v[0] == 'lam':
            r['handler'] = v
        elif 'string' in U.s or 'char' in U.s:
            r['path'] = v
        else:
            r['?'] = v
    return r


def field_of(t):
    """(field, rest) of a member of the server whose initial value t is"""
    if t is not None and t[0] == 'init' and t[1] == THIS and t[2]:
        return t[2][0], t[2][1:]
    return None


def pathof(t):
    """the member a text comes from"""
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'init' and x[1] == THIS:
            return x
    return None


def whole(t, x):
    """the text t is exactly the text x (as string, view or C string)"""
    if t == x or t in (('svof', x), ('sv', ('addr', ('strbuf', x), (('i', Z),)), ('size', x)), ('bytes', ('addr', ('strbuf', x), (('i', Z),)), ('size', x)), ('addr', ('strbuf', x), (('i', Z),))):
        return True
    return None


def ioaddr(v):
    return v[1] if v is not None and v[0] == 'ref' else v


def handler(ctx, I, fn, st, lam, want, kind, loc):
    """the parser a handler calls"""
    if lam is None or lam[0] != 'lam':
        ctx.und("parser", loc, "the %s listener's handler is %s" % (kind, show(lam)[:60] if lam else '?'))
        return
    s0 = st.clone()
    n0 = len(s0.events())
    buf = ('init', ('p', '#text'), ())
    outs = I.call_lam(lam, [buf], s0, Frame(fn, 900, ('lv', THIS, ())), None)
    for s, v in outs:
        evs = s.events()[n0:]
        ps = [e for e in evs if e[0] == 'op' and e[1].name in ('parse', 'parse_statsd') and e[1].rect is not None and e[1].rect.rec == SRV]
        odd = any(e[0] in ('pcall', 'call') and not str(e[1]).startswith('std::') for e in evs)
        if len(ps) == 1:
            e = ps[0]
            if e[1].name != want:
                ctx.bad("parser", loc, "the %s listener's texts go to %s" % (kind, e[1].name))
            else:
                ctx.check(True if e[3] and e[3][0] == buf else None if e[3] and any(x[0] == 'ret' for x in subterms(e[3][0]) if isinstance(x, tuple) and x) else False, "parser", loc,
                          "%s gets %s, not the received text" % (want, show(e[3][0]) if e[3] else 'nothing'))
        else:
            ctx.check(None if odd else False, "parser", loc, "the %s listener's text is parsed %d times (path %s)" % (kind, len(ps), pathstr(s)))
        ctx.anchor("handler paths", 1)
    if not outs:
        ctx.und("parser", loc, "the handler's paths are not known")


def on_path(ctx, I, fn, L, S, sets, st):
    ev = st.events()
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    pth = " (path %s)" % [(show(t)[:60], v) for t, v in st.conds() if 'log' not in show(t)][-6:]
    hid = hidden(st)
    runs = [i for i, e in enumerate(ev) if e[0] == 'op' and e[1].name in ('run', 'run_one', 'run_for', 'poll') and 'io_context' in e[1].qn]
    if any(ev[i][1].name != 'run' for i in runs):
        ctx.und("run", w, "the event loop is run by %s" % ev[runs[0]][1].name)
    made = [(i, e) for i, e in enumerate(ev) if e[0] == 'op' and e[1].ctor and e[1].rect is not None and e[1].rect.rec in L]
    if any(e[0] == 'loop' for e in ev) and not made:
        return ctx.und("run", w, "the listeners are opened in a loop")
    inv = {v: k for k, v in sets.items()}
    fv4, fport, fst, fsock = (inv.get(k) for k in range(4))
    if None in (fv4, fport, fst, fsock):
        return ctx.und("udp", w, "the server's settings were not found among its members")
    init = lambda *p: ('init', THIS, p)
    count = {'udp': 0, 'statsd': 0, 'unix': 0}
    for i, e in made:
        r = role(None, e[1], e[3])
        at = e[5]
        kind = None
        if L[e[1].rect.rec][1] == 'unix':
            kind = 'unix'
            x = pathof(r['path']) if 'path' in r else None
            f = field_of(x) if x is not None else None
            ctx.check(True if f and f[0] == fsock else False if f else None, "unix", at, "the unix listener is bound to %s" % show(r.get('path', Z))[:80])
            want = 'parse'
            cfg = I.truth(st, init(fsock, '#has'))
            ctx.check(True if cfg is True else None if hid or cfg is None and not f else False, "unix", at, "a unix listener is opened although no socket path may be configured" + pth)
            filesystem(ctx, I, st, ev[:i], ev, x, at, pth, hid)
        else:
            p = r.get('port')
            f = field_of(p)
            if p == init(fport):
                kind, want = 'udp', 'parse'
            elif f and f[0] == fst:
                kind, want = 'statsd', 'parse_statsd'
                cfg = I.truth(st, init(fst, '#has'))
                ctx.check(True if cfg is True else None if hid else False, "statsd", at, "a statsd listener is opened although no statsd port may be configured" + pth)
            else:
                known = p is not None and (isc(p) or f is not None or (p[0] == 'lin' and all(field_of(a) for a, _ in p[2])))
                ctx.check(False if known else None, "udp", at, "a UDP listener on port %s" % show(p or Z)[:60])
                continue
            fam = r.get('v4')
            f4 = field_of(strip(fam)) if fam is not None else None
            known = fam is not None and (isc(fam) or f4 is not None or fam[0] in ('not', 'eq0') and field_of(fam[1]))
            tv = I.truth(st, init(fv4)) if fam is not None and isc(fam) else None
            good = (f4 is not None and f4[0] == fv4) or (tv is not None and bool(fam[1]) == tv)
            ctx.check(True if good else False if known else None, kind, at, "the listener's address family is %s" % show(fam or Z)[:60])
        count[kind] += 1
        handler(ctx, I, fn, st, r.get('handler'), want, kind, at)
        # started once before the loop
        addr = e[2]
        go = [j for j, x in enumerate(ev) if x[0] == 'op' and x[1].key in S and x[2] == addr]
        if not runs:
            continue
        ctx.check(True if len(go) == 1 and go[0] < runs[0] else None if hid and not go else False, "started", at, "the %s listener is started %s" % (
            kind, "%d times" % len(go) if len(go) != 1 else "after the event loop") + pth)
        io = ioaddr(r.get('io'))
        ctx.check(True if ev[runs[0]][2] == io else None if io is None or io[0] != 'addr' else False, "run", ev[runs[0]][5], "the event loop that is run is not the %s listener's" % kind)
        for j, x in enumerate(ev[:runs[-1]]):
            if x[0] == 'gone' and j > i:
                if x[1] == addr or (addr[0] == 'addr' and addr[1] == x[1][1] and addr[2][:len(x[1][2])] == x[1][2]):
                    ctx.bad("alive", at, "the %s listener goes away before the event loop is run" % kind + pth)
                elif x[2] is not None and not x[3] and any(y == addr for y in subterms(x[2])):
                    ctx.check(None if x[2] != addr else False, "alive", at, "the owner of the %s listener goes away before the event loop is run" % kind + pth)
        ctx.ok("alive", at, kind)
    for kind, f in (('udp', None), ('statsd', fst), ('unix', fsock)):
        cfg = True if f is None else I.truth(st, init(f, '#has'))
        n = count[kind]
        if n > 1:
            ctx.check(None if hid else False, kind, w, "%d %s listeners are opened" % (n, kind) + pth)
        elif n == 0:
            ctx.check(True if cfg is False else None if hid or (cfg is None and f is not None and not any(field_of(x) and field_of(x)[0] == f for t, _ in st.conds() for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'init') and made == []) else False,
                      kind, w, "no %s listener is opened although one %s" % (kind, "is needed" if cfg else "may be configured") + pth)
        else:
            ctx.ok(kind, w, "")
    if not runs:
        ctx.check(None if hid else False, "run", w, "the event loop is not run" + pth)
    else:
        ctx.ok("run", w, "")
    signals(ctx, I, fn, st, ev, runs, w, pth, hid)


def filesystem(ctx, I, st, before, ev, path, at, pth, hid):
    if path is None:
        return ctx.und("path", at, "the socket's path is not known")
    sysop = [(e[1].name, e) for e in before if e[0] == 'op' and e[1].name in SYS]
    other = hid or any(e[0] == 'call' and 'filesystem' in str(e[1]) for e in before)
    asked = any(isinstance(x, tuple) and x and x[0] in ('ret', 'call') and re.search(r'stat|access|exists', str(x[1])) for t, _ in st.conds() for x in subterms(t))
    rm = [e for n, e in sysop if n in ('unlink', 'remove', 'unlinkat')]
    good = [e for e in rm if any(whole(v, path) for v in e[3])]
    ctx.check(True if good else None if other or asked or rm and all(pathof(v) is None for e in rm for v in e[3]) and rm else False, "path", at, "a stale socket file is not removed before the socket is bound" + pth)
    # the directory
    slash = None
    for t, v in st.conds():
        if t[0] == 'found' and t[1][0] == 'find' and t[1][1] in ('rfind', 'find_last_of') and t[1][2] == path and t[1][3] in (('s', '/'), c(47)):
            slash = (t[1], v)
    mk = [e for n, e in sysop if n in ('mkdir', 'mkdirat')]
    if slash is None:
        ctx.check(True if mk and False else None if mk or other or asked else False, "path", at, "the socket's directory is not made" + pth)
    elif slash[1]:
        d = ('bytes', ('addr', ('strbuf', path), (('i', Z),)), slash[0])
        okd = [e for e in mk if any(y == d for v in e[3] for y in subterms(v))]
        ctx.check(True if okd else False if not mk and not other and not asked else None, "path", at, "the directory of the socket is not made: mkdir %s" % [show(e[3][0])[:80] for e in mk] + pth)
        for e in okd:
            m = e[3][1] if len(e[3]) > 1 else None
            ctx.check(None if m is None or not isc(m) else m[1] & 0o111 == 0o111, "path", e[5], "the socket's directory cannot be entered by every user: mode %s" % (oct(m[1]) if m is not None and isc(m) else '?'))
    else:
        ctx.ok("path", at, "a path without directory")
    um = [e for n, e in sysop if n == 'umask']
    ch = any(e[0] == 'op' and e[1].name in ('chmod', 'fchmod') for e in ev)
    val = um[-1][3][0] if um else None
    ok = val is not None and isc(val) and val[1] & 0o22 == 0
    ctx.check(True if ok else None if ch or other or (val is not None and not isc(val)) else False, "path", at, "the umask is %s when the socket is bound: other users cannot send" % (show(val) if val is not None else "the inherited one") + pth)
    # the umask comes after the socket's own file is made: too late
    ctx.anchor("sockets bound", 1)


def signals(ctx, I, fn, st, ev, runs, w, pth, hid):
    sets = [(i, e) for i, e in enumerate(ev) if e[0] == 'op' and e[1].ctor and 'signal_set' in e[1].qn]
    if not sets:
        return ctx.check(None if hid or any(e[0] == 'op' and e[1].name in ('signal', 'sigaction') for e in ev) else False, "signals", w, "no signals are waited for" + pth)
    if not runs:
        return
    seen_ = set()
    for i, e in sets:
        nums = {v[1] for v in e[3] if isc(v)}
        for x in ev:
            if x[0] == 'op' and x[2] == e[2] and x[1].name == 'add':
                nums |= {v[1] for v in x[3] if isc(v)}
        waits = [(j, x) for j, x in enumerate(ev) if x[0] == 'op' and x[2] == e[2] and x[1].name == 'async_wait']
        for j, x in enumerate(ev[:runs[-1]]):
            if x[0] == 'gone' and x[1] == e[2]:
                ctx.bad("alive", e[5], "the signal set goes away before the event loop is run" + pth)
        if not waits:
            ctx.check(None if hid else False, "signals", e[5], "the signals are not waited for" + pth)
            continue
        j, x = waits[0]
        ctx.check(j < runs[0], "signals", x[5], "the signals are waited for after the event loop" + pth)
        seen_ |= nums
        lam = next((v for v in x[3] if v[0] == 'lam'), None)
        io = ioaddr(e[3][0]) if e[3] else None
        if lam is None:
            ctx.und("signals", x[5], "the signal handler is not understood")
            continue
        s0 = st.clone()
        n0, m0 = len(s0.events()), len(s0.conds())
        err = ('lv', ('p', '#ec'), ())
        for s, v in I.call_lam(lam, [err, ('init', ('p', '#signo'), ())], s0, Frame(fn, 900, ('lv', THIS, ())), None):
            evs = s.events()[n0:]
            if any(isinstance(y, tuple) and y == ('p', '#ec') for t, _ in s.conds()[m0:] for y in subterms(t)):
                continue        # an error of the wait itself
            ends = any(y[0] == 'op' and y[1].name == 'stop' and 'io_context' in y[1].qn and (y[2] == io or ev[runs[0]][2] == y[2]) for y in evs)
            stop = any(y[0] == 'op' and y[1].name == 'Stop' and y[1].rect is not None and y[1].rect.rec == SRV for y in evs)
            odd = any(y[0] in ('pcall', 'call') and not str(y[1]).startswith('std::') for y in evs)
            some = any(t[0] for t, _ in s.conds()[m0:]) and any(('p', '#signo') in list(subterms(t)) for t, _ in s.conds()[m0:])
            after = any(y[0] == 'op' and y[1].name == 'Stop' for y in ev[runs[-1]:])
            ctx.check(True if ends else None if odd else False, "signals", x[5], "a signal does not end the event loop" + (" for some signals" if some else ""))
            ctx.check(True if stop or after else None if odd else False, "signals", x[5], "a signal does not stop the server")
            ctx.anchor("signal handler paths", 1)
    ctx.check(all(k in seen_ for k in SINGLE) or (None if any(not isc(v) for i, e in sets for v in e[3][1:] if v[0] not in ('new', 'ret')) and len(seen_) == 0 else False), "signals", w, "the signals waited for are %s" % sorted(seen_))


def endpoint(ctx, L):
    n = 0
    for q, (sock, kind) in sorted(L.items()):
        for fn in [m for m in ctx.prog.fns.values() if m.body is not None and m.rect is not None and m.rect.rec == q and m.ctor and m.ps and not m.dflt]:
            w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
            cl = Setup({})
            cl.pred = lambda f: f.qn.startswith('asio::') or f.name == 'max_buffer_size'
            cl.inl = lambda f: f.repo and not cl.pred(f)
            cl.watch = lambda T: False
            res, I = runfn(ctx, fn, cl)
            P = {}
            for p, T in zip(fn.ps, fn.pt):
                U = T.noref()
                k = 'io' if 'io_context' in U.s else 'v4' if U.k == 'bool' or (U.k == 'int' and U.w == 1) else 'port' if U.k == 'int' else 'handler' if 'function' in U.s else 'path' if 'string' in U.s or 'char' in U.s else '?'
                P[k] = ('init', ('p', p['n']), ())
            for st, fl in res:
                if fl[0] in ('E', 'X'):
                    continue
                n += 1
                pth = " (path %s)" % pathstr(st, 4)
                mk = [e for e in st.events() if e[0] == 'op' and e[1].ctor and e[2] == ('addr', ('this', q), (sock,))]
                binds = [e for e in st.events() if e[0] == 'op' and e[1].name == 'bind']
                if len(mk) != 1 or binds or len(mk[0][3]) < 2:
                    ctx.check(False if len(mk) == 1 and len(mk[0][3]) < 2 and not binds and not hidden(st) else None, "endpoint", w, "the socket is not bound by its construction" + pth)
                    continue
                ep = mk[0][3][1]
                if ep[0] != 'new':
                    ctx.und("endpoint", w, "the endpoint is %s" % show(ep)[:80] + pth)
                    continue
                a = ep[2:]
                if kind == 'udp':
                    proto = a[0] if a else None
                    v = I.truth(st, P['v4']) if 'v4' in P else None
                    name = proto[1].split('::')[-1] if proto is not None and proto[0] == 'ret' else None
                    good = name in ('v4', 'v6') and v is not None and (name == 'v4') == v
                    ctx.check(True if good else False if name in ('v4', 'v6') else None, "endpoint", w, "the socket is bound to %s although ipv4_only is %s" % (name or '?', v) + pth)
                    port = decast(a[1]) if len(a) > 1 else None
                    ctx.check(True if port == P.get('port') else False if port is None and proto is not None or port is not None and (isc(port) or all(x[0] == 'init' for x in lin_of(port)[1])) else None,
                              "endpoint", w, "the socket is bound to port %s" % (show(port) if port is not None else "0") + pth)
                else:
                    t = a[0] if a else None
                    ctx.check(True if t is not None and (t == P.get('path') or whole(t, P.get('path'))) else None, "endpoint", w, "the socket is bound to %s" % (show(t)[:80] if t is not None else '?') + pth)
                H = P.get('handler')
                kept = [k for k, v in st.mem.items() if k[0] == ('this', q) and (v == H or (isinstance(v, tuple) and any(y == H for y in subterms(v))))]
                ctx.check(True if kept else None, "endpoint", w, "the handler is not kept" + pth)
    ctx.anchor("paths of listener constructors", n)


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    L = listeners(ctx.prog)
    fs = ctx.prog.bodies(SRV + '::Start')
    cs = [m for m in ctx.prog.fns.values() if m.body is not None and m.rect is not None and m.rect.rec == SRV and m.ctor and len(m.ps) >= 4]
    if not L or len(fs) != 1 or len(cs) != 1:
        for k in RULES:
            ctx.und(k, SRV, "listeners %s, Start %d, constructors %d" % (sorted(L), len(fs), len(cs)))
        return
    sets = settings(ctx, cs[0])
    S = starters(ctx.prog, L)
    cl = Setup(L, relevant(ctx.prog, L))
    res, I = runfn(ctx, fs[0], cl)
    n = 0
    for st, fl in res:
        if fl[0] in ('E', 'X'):
            continue
        n += 1
        on_path(ctx, I, fs[0], L, S, sets, st)
    ctx.need("paths of Start", n, 1)
    endpoint(ctx, L)
