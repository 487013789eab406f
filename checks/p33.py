"""P33: every combination of flags gives the documented start-up configuration."""
from common import *
from p19 import prove

EXPLANATION = (
    "main is interpreted over all combinations of flag values, each flag a symbol: whatever the path, the configuration the registry is built with must be the one the "
    "documented precedence gives under that path's conditions on the flags; the loop over the common tags must add exactly the complete pair it has just checked and leave with a "
    "failure status otherwise; the listeners must get the ports and the socket path of their flags. The port parser must accept exactly the integers 1 to 65535, and every flag's "
    "default is read off its generator.")
ASSUMPTIONS = ["absl parses the flags as declared", "GetSpectatorConfig gives the configured default"]
RULES = {
    "uri": "the URI and the certificates follow the precedence of the flags",
    "tags": "common tags are replaced only by complete pairs, otherwise start-up fails; --no_common_tags clears them and disables status metrics",
    "rest": "the other settings are their flags, or untouched",
    "listeners": "the listeners get the ports and path of their flags",
    "ports": "port flags accept exactly 1 to 65535",
    "defaults": "every flag's default is the documented one",
}
DEBUG = "https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update"
DEFAULTS = {'admin_port': 1234, 'port': 1234, 'statsd_port': 8125, 'age_gauge_limit': 1000, 'common_tags': '', 'uri': '', 'metatron_dir': '', 'debug': False, 'enable_external': False,
            'enable_socket': True, 'enable_statsd': False, 'ipv4_only': False, 'no_common_tags': False, 'verbose': False, 'verbose_http': False, 'meter_ttl': 900 * 10**9,
            'socket_path': '/run/spectatord/spectatord.unix'}
REG, SRV, ADM = 'spectator::Registry', 'spectatord::Server', 'admin::AdminServer'
FIELDS = ('common_tags', 'read_timeout', 'connect_timeout', 'batch_size', 'frequency', 'expiration_frequency', 'meter_ttl', 'age_gauge_limit', 'uri', 'external_uri', 'metatron_dir',
          'external_enabled', 'status_metrics_enabled', 'verbose_http')
EMPTY = ('tagmap', 'empty')


def flag(n):
    return ('flag', n)


def text(n):
    return ('init', ('mem', ('flag', n)), ())


class Main(Rec):
    def __init__(self):
        super().__init__(self.opaque, lambda fn: not self.opaque(fn))

    def opaque(self, fn):
        q = fn.qn
        if fn.name == 'GetSpectatorConfig':
            return True
        if fn.repo and fn.body is not None and not q.startswith(('spectator::', 'spectatord::', 'admin::', 'metatron::')):
            return False
        return q.startswith(('absl::flags_internal', 'absl::SetFlags', 'absl::SetProgram', 'absl::ParseCommandLine', 'backward', 'spdlog', 'fmt', 'spectator::', 'spectatord::', 'admin::')) \
            and not (fn.rect is not None and fn.rect.rec == 'spectator::Config')

    def call(self, I, fn, obj, args, st, fr, node):
        q, n = fn.qn, fn.name
        loc = fr.tu.loc(node.get("l")) if node is not None and node.get("l") else '?'
        if q == 'absl::GetFlag' and args:
            a = args[0]
            if a[0] == 'lv' and a[1][0] == 'g' and not a[2] and a[1][1].startswith('FLAGS_'):
                f = a[1][1][6:]
                if fn.rt.s.startswith(('std::basic_string', 'std::string')) or 'basic_string' in fn.rt.s:
                    return [(st, text(f))]
                I.typed(flag(f), fn.rt)
                return [(st, flag(f))]
            return None
        if q in ('exit', 'std::exit', '_exit', 'quick_exit', 'std::quick_exit') and args:
            st.event('exitwith', I.rval(st, args[0], fn.pt[0]))
            return None
        if q.startswith('spdlog::'):
            r = super().call(I, fn, None, [], st, fr, node) if fn.rt.k != 'void' else [(st, Z)]
            return r        # logging changes none of its arguments
        rec = fn.rect.rec if fn.rect is not None else ''
        if rec.endswith('ConvertibleToStringView') and fn.ctor and len(args) == 1 and obj is not None and not (fn.pt[0].noref().rec or '').endswith('ConvertibleToStringView'):
            I.store(st, obj[1], obj[2], ('ctsv', self.content(I, st, args[0], fn.pt[0])))
            return [(st, Z)]
        if rec == 'std::map' and obj is not None and fn.rect.ta and all('basic_string' in str(a) for a in fn.rect.ta[:2]):
            r = self.map(I, fn, obj, args, st, loc)
            if r is not None:
                return r
        if fn.ctor and rec == REG and self.opaque(fn) and args:
            # the configuration as it is handed over
            p = I.argval(st, args[0], fn.pt[0])
            cfg = {}
            if p is not None:
                lv = I.deref(p)
                for f in FIELDS:
                    cfg[f] = I.raw(st, lv[1], lv[2] + (f,))
                    if f in ('uri', 'external_uri', 'metatron_dir'):
                        cfg[f] = self.content(I, st, ('lv', lv[1], lv[2] + (f,)), None)
            st.event('registry', p, cfg, I.addr(obj[1], obj[2]), loc)
        return super().call(I, fn, obj, args, st, fr, node)

    def content(self, I, st, a, p):
        if a[0] == 'lv' and (p is None or 'basic_string<' in p.s):
            return I.raw(st, a[1], a[2])
        v = I.argval(st, a, p)
        if v is not None and v[0] == 'sv' and len(v) > 1:
            b = v[1]
            if b[0] == 'addr' and b[1][0] == 'strbuf':
                return b[1][1]
        return v

    def map(self, I, fn, obj, args, st, loc):
        n, k = fn.name, (obj[1], obj[2])
        here = I.addr(*k)
        same = bool(fn.pt) and fn.pt[0].noref().rec == 'std::map'
        if fn.ctor:
            if not args:
                I.store(st, *k, EMPTY)
                return [(st, Z)]
            if same and args[0][0] == 'lv':
                I.store(st, *k, I.raw(st, args[0][1], args[0][2]))
                return [(st, Z)]
            return None
        if n == 'operator=' and same:
            I.store(st, *k, I.raw(st, args[0][1], args[0][2]) if args[0][0] == 'lv' else args[0])
            return [(st, obj)]
        if n == 'clear':
            I.store(st, *k, EMPTY)
            return [(st, Z)]
        if n == 'swap' and same and args[0][0] == 'lv':
            a, b = I.raw(st, *k), I.raw(st, args[0][1], args[0][2])
            I.store(st, *k, b)
            I.store(st, args[0][1], args[0][2], a)
            return [(st, Z)]
        if n in ('operator[]', 'at') and len(args) == 1:
            key = self.content(I, st, args[0], fn.pt[0])
            st.event('mapkey', here, key, loc)
            I.store(st, *k, ('tagmap+', loc))
            return [(st, ('lv', ('mem', ('slot', loc)), ()))]
        if n in ('emplace', 'insert_or_assign', 'try_emplace') and len(args) == 2:
            key, v = (self.content(I, st, a, p) for a, p in zip(args, fn.pt))
            st.event('mapput', here, key, v, n == 'insert_or_assign', loc)
            I.store(st, *k, ('tagmap+', loc))
            return [(st, I.fresh('put', fn.rt))]
        if n in ('size', 'empty', 'begin', 'end', 'find', 'count', 'cbegin', 'cend'):
            return None
        st.event('mapother', here, n, loc)
        I.store(st, *k, ('tagmap?', loc))
        return [(st, I.fresh('map', fn.rt))] if fn.rt.k != 'ref' else None


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    P = ctx.prog
    mains = [f for f in P.bodies('main') if f.file.startswith('bin/') and 'test' not in f.file]
    ctx.need("main functions", len(mains), 1)
    for fn in mains:
        start(ctx, fn)
    ports(ctx)
    defaults(ctx)


def known(st, t):
    """the value of a flag on this path"""
    r = None
    for x, v in st.conds():
        if x == t:
            r = v
        elif x == ('not', t):
            r = not v
    return r


def empty(I, st, t):
    return I.truth(st, I.eq(('size', t), Z))


def own(t):
    """texts the rules know"""
    return t is not None and (t[0] == 's' or t[0] == 'init' and t[1][0] == 'mem' and isinstance(t[1][1], tuple) and t[1][1][0] in ('flag', 'ret'))


def start(ctx, fn):
    res, I = runfn(ctx, fn, Main())
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    n = 0
    loops = {}
    for st, fl in res:
        R = [e for e in st.events() if e[0] == 'registry']
        if not R:
            continue
        n += 1
        if len(R) > 1:
            ctx.bad('rest', R[1][4], "more than one registry is started")
            continue
        config(ctx, I, st, R[0], loops)
        listeners(ctx, I, st, R[0])
    ctx.need("paths on which the daemon starts", n, 1)
    fails(ctx, I, res, loops, w)


def config(ctx, I, st, R, loops):
    _, p, cfg, reg, loc = R
    base = None
    if p is not None and p[0] == 'ret' and 'GetSpectatorConfig' in p[1]:
        base = ('mem', p)
    if base is None:
        ctx.und('rest', loc, "the registry's configuration is not the one GetSpectatorConfig gave: %s" % show(p)[:80])
        return

    def untouched(f, v):
        return v is None or v[0] == 'init' and v[1] == base and v[2] and v[2][-1] == f

    def says(rule, f, want, ok, v):
        ctx.check(True if ok else (False if ok is False else None), rule, loc, "%s is %s" % (f, show(v)[:90] if v is not None else 'untouched') + (", expected %s on the path where %s" % (
            want, path(st)) if ok is not True else " as " + want), rule + ':' + f)

    def settled(v):
        """is a value known well enough to call it wrong?"""
        return v is None or not any(isinstance(x, tuple) and x and x[0] in ('hv', 'sym', 'lp', 'ret', 'call') and x != p for x in subterms(v)) \
            or v[0] == 'init' and v[1] == base

    # ---- which URI
    dbg, ext = known(st, flag('debug')), known(st, flag('enable_external'))
    uri = text('uri')
    e = empty(I, st, uri)
    case = None
    if dbg is True:
        case = 'debug'
    elif dbg is False and e is False:
        case = 'uri'
    elif dbg is False and e is True and ext is True:
        case = 'external'
    elif dbg is False and e is True and ext is False:
        case = 'default'
    u = cfg['uri']
    def given(which):
        """could the value be right in a case not ruled out?"""
        return {'debug': lambda v: v == ('s', DEBUG), 'uri': lambda v: v == uri, 'external': lambda v: v is not None and v[0] == 'init' and v[1] == base and v[2][-1] == 'external_uri',
                'default': lambda v: untouched('uri', v)}[which](u)
    poss = [k for k, ok in (('debug', dbg is not False), ('uri', dbg is not True and e is not True), ('external', dbg is not True and e is not False and ext is not False),
                            ('default', dbg is not True and e is not False and ext is not True)) if ok]
    wrong = [k for k in poss if not given(k)]
    ok = True if not wrong else (False if settled(u) else None)
    says('uri', 'uri', " / ".join(wrong or poss), ok, u)
    isext = 'external' in poss
    for f, on in (('external_enabled', lambda v: v == ONE), ('metatron_dir', lambda v: v == text('metatron_dir'))):
        v = cfg[f]
        bad_ = []
        for k in poss:
            if k == 'external':
                if not on(v):
                    bad_.append(k)
            elif not untouched(f, v):
                bad_.append(k)
        says('uri', f, "external publishing" if isext else "left alone", True if not bad_ else (False if settled(v) else None), v)
    # ---- common tags
    ct = text('common_tags')
    no, ce = known(st, flag('no_common_tags')), empty(I, st, ct)
    v = cfg['common_tags']
    sm = cfg['status_metrics_enabled']
    if no is True:
        says('tags', 'common_tags', "cleared", v == EMPTY if v is not None and v[0] in ('tagmap', 'init', 'lp', 'tagmap+') else (False if v is None else None), v)
        says('tags', 'status_metrics_enabled', "off", sm == Z if settled(sm) else None, sm)
    elif no is False:
        says('tags', 'status_metrics_enabled', "untouched", True if untouched('status_metrics_enabled', sm) else (False if settled(sm) else None), sm)
        tagcase(ctx, I, st, says, untouched, v, ce, loops, loc)
    else:
        # the flag was not looked at: right only if it makes no difference
        says('tags', 'status_metrics_enabled', "following --no_common_tags", False if settled(sm) else None, sm)
    # ---- the rest
    vh = known(st, flag('verbose_http'))
    v = cfg['verbose_http']
    if v == flag('verbose_http'):
        ok = False      # a default of true is lost
    elif vh is True:
        ok = v == ONE if settled(v) else None
    elif vh is False:
        ok = untouched('verbose_http', v) if settled(v) else None
    else:
        ok = False if untouched('verbose_http', v) or v is not None and isc(v) else (v is not None and v[0] == 'or' and flag('verbose_http') in v or None)
    says('rest', 'verbose_http', "the flag or the default", ok, v)
    for f in ('meter_ttl', 'age_gauge_limit'):
        v = cfg[f]
        says('rest', f, "its flag", v == flag(f) if settled(v) else (True if v == flag(f) else None), v)
    for f in ('read_timeout', 'connect_timeout', 'batch_size', 'frequency', 'expiration_frequency', 'external_uri'):
        v = cfg[f]
        says('rest', f, "untouched", True if untouched(f, v) else (False if settled(v) else None), v)


def path(st):
    out = []
    for t, v in st.conds():
        f = [x[1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'flag']
        if f:
            s = f[0] if t == flag(f[0]) else show(t)[:40]
            out.append(("" if v else "not ") + s)
    return ", ".join(out)[:160]


def split(t, d, at):
    """text of absl::StrSplit(text, d[, at])"""
    if t is None or t[0] != 'call' or t[1] != 'absl::StrSplit' or len(t) != 4 or t[2][0] != 'ctsv':
        return None
    dl = t[3]
    if at is None:
        return t[2][1] if dl == c(ord(d)) or dl == ('s', d) else None
    if dl[0] == 'call' and dl[1] == 'absl::MaxSplits' and len(dl) == 4 and dl[2] in (c(ord(d)), ('s', d)) and dl[3] == c(at):
        return t[2][1]
    return None


def strsplit(t):
    return [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'call' and x[1] == 'absl::StrSplit'] if t is not None else []


def outer(x):
    """the innermost split text: is this the split of the flag itself?"""
    return split(x, ',', None) == text('common_tags')


def pairsplit(x):
    """is x the split of one element of the flag's list at its first '='?"""
    s = split(x, '=', 1)
    if s is None:
        return None
    o = [y for y in strsplit(s) if outer(y)]
    return bool(o)


def tagcase(ctx, I, st, says, untouched, v, ce, loops, loc):
    if ce is True:
        says('tags', 'common_tags', "untouched: the flag is empty", True if untouched('common_tags', v) else (False if v is not None and v[0] in ('tagmap', 'tagmap+', 'lp') else None), v)
        return
    if ce is not False:
        says('tags', 'common_tags', "following --common_tags", True if False else (False if untouched('common_tags', v) or v == EMPTY else None), v)
        return
    if untouched('common_tags', v) or v == EMPTY:
        says('tags', 'common_tags', "the flag's pairs", False, v)
        return
    if v is None or v[0] != 'lp' or v[1] not in I.loops:
        says('tags', 'common_tags', "the flag's pairs", None, v)
        return
    lid, root, pth = v[1], v[2], v[3]
    if lid not in loops:
        loops[lid] = oneloop(ctx, I, lid, root, pth)
    says('tags', 'common_tags', "the flag's pairs", True if loops[lid] else None, v)


def oneloop(ctx, I, lid, root, pth):
    """the loop that fills the map: every iteration over the list adds its complete pair"""
    L = I.loops[lid]
    w = L['loc']
    ent = L['entry'].mem.get((root, pth))
    ctx.check(True if ent == EMPTY else (False if ent is not None and ent[0] == 'init' else None), 'tags', w, "the pairs are collected into %s" % ("an empty map" if ent == EMPTY else show(ent)[:60]
                                                                                                      if ent is not None else '?'), 'tags:into')
    if not L['backs']:
        ctx.und('tags', w, "no iteration of the loop over the pairs was seen")
        return False
    # every element is visited: the loop is left where the list is exhausted
    for b in L['backs']:
        ev = after_loop(b, lid)
        here = I.addr(root, pth)
        puts, odd = [], []
        keys = {e[3]: e for e in ev if e[0] == 'mapkey' and e[1] == here}
        for e in ev:
            if e[0] == 'mapput' and e[1] == here:
                puts.append((e[2], e[3], e[4], e[5]))
            elif e[0] == 'strset' and e[1][0] == 'slot' and e[1][1] in keys:
                puts.append((keys[e[1][1]][2], e[2], True, e[3]))
            elif e[0] == 'mapother' and e[1] == here:
                odd.append(e)
        n0 = len(L['head'].conds())
        cs = b.conds()[n0:]
        splits = {x for t, _ in cs for x in strsplit(t)} | {x for p in puts for t in p[:2] for x in strsplit(t)}
        P_ = {x for x in splits if pairsplit(x)}
        other = {x for x in splits if not pairsplit(x) and not outer(x)}
        O = {x for x in splits if outer(x)}
        if other or not O or odd or len(P_) > 1:
            bad = differ(other)
            ctx.check(False if bad else None, 'tags', w, bad or "the pairs are split in another way: %s" % "; ".join(show(x)[:70] for x in other), 'tags:split')
            continue
        ctx.ok('tags', w, "the flag is split at every ',' and each part at its first '='")
        if not P_:
            ctx.check(False if not puts and not hidden_since(ev) else None, 'tags', w, "a part is passed over without a look at it", 'tags:part')
            continue
        kv = next(iter(P_))
        lists = {y for t in [t for t, _ in cs] + [t for p in puts for t in p[:2]] for y in subterms(t)
                 if isinstance(y, tuple) and y and y[0] == 'call' and 'Splitter' in str(y[1]) and y[2:] == (kv,)}
        if len(lists) != 1:
            ctx.und('tags', w, "the parts of a pair are not followed")
            continue
        l = next(iter(lists))
        k0, k1 = ('fld', l, (('i', Z),)), ('fld', l, (('i', ONE),))
        pair = not any(isinstance(y, tuple) and len(y) == 3 and y[:2] == ('fld', l) and y[2] == (('i', Z),) for t in [t for t, _ in cs] for y in subterms(t)) and \
            any(isinstance(y, tuple) and len(y) == 3 and y[:2] == ('fld', l) and y[2] == ('second',) for t in [t for t, _ in cs] for y in subterms(t))
        if pair:
            k0, k1 = ('fld', l, ('first',)), ('fld', l, ('second',))
        two = True if pair else I.truth(b, I.eq(('size', l), c(2)))
        full = [I.truth(b, I.eq(('size', k), Z)) for k in (k0, k1)]
        ctx.check(two is True or (False if looked(cs, ('size', l), kv) else False if two is None else False), 'tags', w, "a pair has two parts" if two is True else
                  "a part without '=' is accepted", 'tags:two')
        for k, f in zip(('key', 'value'), full):
            ctx.check(f is False, 'tags', w, "an empty %s is refused" % k if f is False else "an empty %s is accepted" % k, 'tags:' + k)
        if len(puts) != 1:
            ctx.check(False if not hidden_since(ev) else None, 'tags', w, "%d pairs are stored for one part" % len(puts), 'tags:put')
            continue
        a, v, over, loc = puts[0]
        good = norm(a) == k0 and norm(v) == k1
        ctx.check(True if good else (False if {norm(a), norm(v)} <= {k0, k1} or norm(v)[0] == 's' else None), 'tags', loc, "the pair stored is (%s, %s)" % ("its key" if norm(a) == k0 else show(a)[:50],
                  "its value" if norm(v) == k1 else show(v)[:50]), 'tags:pair')
        ctx.check(True if over else None, 'tags', loc, "a repeated key takes the last value" if over else "a repeated key keeps its first value", 'tags:again')
    return True


def norm(t):
    while t is not None and t[0] in ('bytes', 'cstr') and False:
        t = t[1]
    return t


def looked(cs, t, kv):
    return any(t in subterms(x) for x, _ in cs)


def differ(other):
    """a split known to be another one"""
    for x in other:
        if x[0] == 'call':
            a = x[2:]
            if a and a[0][0] == 'ctsv' and all(simple(y) for y in a[1:]):
                return "the flag is split as %s" % show(x)[:100]
    return None


def simple(t):
    if t[0] in ('c', 's'):
        return True
    if t[0] == 'call' and t[1] == 'absl::MaxSplits':
        return True
    if t[0] == 'call' and str(t[1]).endswith(('SkipEmpty', 'AllowEmpty', 'SkipWhitespace', 'ByChar', 'ByString', 'ByAnyChar')):
        return True
    return t[0] in ('agg', 'new')


def hidden_since(ev):
    return any(e[0] == 'pcall' or e[0] == 'call' and any(isinstance(v, tuple) and v and v[0] == 'lam' for v in e[3] or ()) for e in ev)


def fails(ctx, I, res, loops, w):
    """incomplete pairs end the program with a failure status"""
    seen_ = False
    for lid in loops:
        L = I.loops[lid]
        n0 = len(L['head'].conds())
        hit = [(st, fl) for st, fl in res if any(e[0] == 'loop' and e[1] == lid for e in st.events()) and not any(e[0] == 'registry' for e in st.events())]
        for st, fl in hit:
            seen_ = True
            code = None
            if fl[0] == 'E':
                x = [e for e in st.events() if e[0] == 'noreturn']
                q = x[-1][1] if x else str(fl[1])
                arg = [e for e in st.events() if e[0] == 'exitwith']
                ok = True if q in ('abort', 'std::abort', 'std::terminate') else None
                if ok is None and arg:
                    ok = arg[-1][1] != Z if arg[-1][1][0] == 'c' else None
            elif fl[0] == 'R':
                ok = fl[1] != Z if fl[1][0] == 'c' else None
            else:
                ok = True if fl[0] == 'X' else None
            ctx.check(ok, 'tags', L['loc'], "an incomplete pair ends start-up with %s" % ("a failure" if ok else "success" if ok is False else "an unknown status"), 'tags:fail')
        # a part that ends the list early
        for st, fl in res:
            if not any(e[0] == 'registry' for e in st.events()) or not any(e[0] == 'loop' and e[1] == lid for e in st.events()):
                continue
            odd = [t for t, _ in st.conds()[n0:] if any(pairsplit(x) for x in strsplit(t))]
            ctx.check(not odd, 'tags', L['loc'], "start-up goes on after %s" % ("the loop over the pairs was left at one of them" if odd else "the last pair"), 'tags:break')
    if loops and not seen_:
        ctx.und('tags', w, "no path refuses the common tags")


def listeners(ctx, I, st, R):
    loc = R[4]
    reg = R[3]
    E = [e for e in st.events() if e[0] == 'op']
    srv = [e for e in E if e[1].ctor and e[1].rect.rec == SRV]
    adm = [e for e in E if e[1].ctor and e[1].rect.rec == ADM]
    starts = {e[2] for e in E if e[1].name == 'Start'}
    for what, lst in (('metrics listener', srv), ('admin service', adm)):
        ctx.check(seen(len(lst) == 1, st), 'listeners', loc, "%d %ss are made" % (len(lst), what), 'listeners:' + what)
        for e in lst:
            ctx.check(seen(e[2] in starts, st), 'listeners', e[5], "the %s is %sstarted" % (what, "" if e[2] in starts else "not "), 'listeners:start ' + what)
    ctx.check(seen(reg in starts, st), 'listeners', loc, "the registry is %sstarted" % ("" if reg in starts else "not "), 'listeners:start registry')
    port = lambda f: ('fld', flag(f), ('port',))
    isport = lambda v, f: True if v == port(f) else (False if v is not None and (v[0] == 'c' or v[0] == 'fld' and v[1][0] == 'flag') else None)
    for e in adm:
        ps = [d['n'] for d in e[1].ps or []]
        v = e[3][1] if len(e[3]) > 1 else None
        ctx.check(isport(v, 'admin_port'), 'listeners', e[5], "the admin service listens on %s" % show(v)[:60], 'listeners:admin port')
    for e in srv:
        if len(e[3]) != 5:
            ctx.und('listeners', e[5], "the listener takes other arguments")
            continue
        v4, p, sd, so, r = e[3]
        ctx.check(True if v4 == flag('ipv4_only') else (False if v4[0] in ('flag', 'c') else None), 'listeners', e[5], "IPv4 only is %s" % show(v4)[:60], 'listeners:ipv4')
        ctx.check(isport(p, 'port'), 'listeners', e[5], "the port is %s" % show(p)[:60], 'listeners:port')
        opt(ctx, st, e, sd, 'enable_statsd', port('statsd_port'), 'statsd port')
        opt(ctx, st, e, so, 'enable_socket', text('socket_path'), 'socket path')
        ctx.check(True if r == reg or r == ('ref', reg) else None, 'listeners', e[5], "the listener reports into the registry", 'listeners:registry')


def opt(ctx, st, e, v, f, want, what):
    on = known(st, flag(f))
    has = val = None
    if v is not None and v[0] == 'agg':
        d = dict(v[2])
        has = d.get(('#has',))
        val = d.get(('#val',))
        if val is None:
            val = {k: x for k, x in d.items() if k and k[0] == '#val'} or None
            val = next(iter(val.values())) if val and len(val) == 1 else val
    if has is None:
        ctx.und('listeners', e[5], "the %s handed over is %s" % (what, show(v)[:60] if v is not None else '?'))
        return
    if on is None:
        ctx.check(False if has in (ONE, Z) else (True if has == flag(f) else None), 'listeners', e[5], "the %s does not follow --%s" % (what, f), 'listeners:' + what)
        return
    if on != (has == ONE):
        ctx.check(False if has in (ONE, Z) else None, 'listeners', e[5], "with --%s%s the %s is %s" % ("" if on else "no", f, what, "given" if has == ONE else "missing"), 'listeners:' + what)
    elif on:
        ok = True if val == want else (False if isinstance(val, tuple) and val and (val[0] in ('c', 's') or val[0] == 'fld' and val[1][0] == 'flag' or val[0] == 'init' and val[1][0] == 'mem' and val[1][1][0] == 'flag') else None)
        ctx.check(ok, 'listeners', e[5], "the %s is %s" % (what, show(val)[:60] if isinstance(val, tuple) else val), 'listeners:' + what)
    else:
        ctx.ok('listeners', e[5], "without --%s there is no %s" % (f, what))


# ---------------------------------------------------------------- ports
class Port(Rec):
    def __init__(self):
        super().__init__(lambda fn: fn.qn.startswith('absl::'))

    def call(self, I, fn, obj, args, st, fr, node):
        if fn.qn == 'absl::ParseFlag' and len(args) == 3:
            p = I.argval(st, args[1], fn.pt[1])
            t = I.argval(st, args[0], fn.pt[0])
            I.n += 1
            v = I.fresh('port', fn.pt[1].to)
            lv = I.deref(p)
            s2 = st.clone()
            I.store(st, lv[1], lv[2], v)
            st.event('parsed', True, t, v, p)
            I.store(s2, lv[1], lv[2], I.fresh('rest', fn.pt[1].to))
            s2.event('parsed', False, t, None, p)
            return [(st, ONE), (s2, Z)]
        return super().call(I, fn, obj, args, st, fr, node)


def ports(ctx):
    P = ctx.prog
    fs = [f for f in P.fns.values() if f.body is not None and f.name == 'AbslParseFlag' and f.file.startswith('bin/') and len(f.pt) == 3]
    ctx.need("parsers of port flags", len(fs), 1)
    for fn in fs:
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn, Port())
        got = False
        for st, fl in res:
            if fl[0] != 'R':
                ctx.und('ports', w, "a path does not return")
                continue
            ps = [e for e in st.events() if e[0] == 'parsed']
            if len(ps) != 1:
                ctx.check(False if not ps and fl[1] == ONE and not hidden(st) else None if fl[1] != Z else None, 'ports', w, "the text is parsed %d times" % len(ps), 'ports:parse')
                continue
            _, ok, t, v, p = ps[0]
            whole = t == ('init', ('p', fn.ps[0]['n']), ()) or t is not None and any(isinstance(x, tuple) and x[:2] == ('p', fn.ps[0]['n']) for x in subterms(t))
            r = fl[1]
            outs = [(st, r == ONE)] if r in (ONE, Z) else [(s, b) for s, b in I.fork(st.clone(), r)]
            for s, b in outs:
                if not ok:
                    ctx.check(not b, 'ports', w, "a text that is no number is %s" % ("accepted" if b else "refused"), 'ports:nan')
                    continue
                # inside the range?
                inside = prove(I, s, sub(ONE, v)) and prove(I, s, sub(v, c(65535)))
                outside = prove(I, s, v) or prove(I, s, sub(c(65536), v))
                if b:
                    got = True
                    lo, hi = prove(I, s, sub(ONE, v)), prove(I, s, sub(v, c(65535)))
                    ctx.check(inside or False, 'ports', w, "accepted numbers are %s" % ("1 to 65535" if inside else "not limited to 1 to 65535"), 'ports:accept')
                    q = ('init', ('p', fn.ps[1]['n']), ())
                    lv = I.deref(q)
                    out = I.raw(s, lv[1], lv[2] + ('port',))
                    ctx.check(True if out == v else (False if out is not None and out[0] == 'c' else None), 'ports', w, "the flag's value is the number parsed" if out == v else "the flag's value is %s" % show(out)[:50], 'ports:value')
                else:
                    ctx.check(True if outside else False, 'ports', w, "refused numbers are %s" % ("outside 1 to 65535" if outside else "also inside 1 to 65535: " + str(pathstr(s))[:120]), 'ports:refuse')
        if not got:
            ctx.und('ports', w, "no text is accepted")


def defaults(ctx):
    P = ctx.prog
    n = 0
    for f in P.fns.values():
        if f.body is None or f.name != 'Gen' or f.rect is None or not f.rect.rec.split('::')[-1].startswith('AbslFlagDefaultGenFor'):
            continue
        name = f.rect.rec.split('::')[-1][len('AbslFlagDefaultGenFor'):]
        n += 1
        if name not in DEFAULTS:
            continue
        w = "--%s (%s:%s)" % (name, f.file, f.line)
        res, I = runfn(ctx, f, Rec(lambda g: False))
        for st, fl in res:
            v = None
            news = [e for e in st.events() if e[0] == 'new']
            if news:
                p = news[-1][1]
                root = p[1] if p[0] in ('addr', 'lv') else p
                for k in ((), ('port',)):
                    x = st.mem.get((root, k))
                    if x is not None:
                        v = x
                if v is not None and v[0] == 'agg':
                    v = dict(v[2]).get(('port',), v)
            if v is not None and v[0] == 'call' and v[1].endswith('InitDefaultValue') and len(v) == 3:
                v = v[2]
                if v[0] == 'agg':
                    v = dict(v[2]).get(('port',), v)
            want = DEFAULTS[name]
            if v is not None and isc(v):
                ctx.check(v[1] == int(want) if not isinstance(want, str) else None, 'defaults', w, "defaults to %s" % v[1], 'defaults:' + name)
            elif v is not None and v[0] == 's':
                ctx.check(v[1] == want, 'defaults', w, "defaults to '%s'" % v[1], 'defaults:' + name)
            else:
                ctx.und('defaults', w, "the default is %s" % (show(v)[:60] if v is not None else '?'))
    ctx.anchor("flags with a default", n)
