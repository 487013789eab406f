"""P22: TLS settings of every request when external publishing is enabled."""
from curls import *

EXPLANATION = (
    "Every method that sends a request is interpreted abstractly with libcurl's calls recorded. On every path that sends while external publishing is enabled, the last "
    "value given to each TLS option of that handle before the request must be the configured one; no reset may intervene. The pointers given to options that libcurl does "
    "not copy must live in the client. The configuration is followed from the publisher's to the client's.")
ASSUMPTIONS = ["libcurl honours its options", "the verifier installed is supplied by the deployment (metatron_sample.cc always refuses)"]
RULES = {
    "verify": "peer verification is on when the request is sent",
    "ca": "the CA file is the configured one and the system's CA path is off",
    "cert": "the client certificate and key are the configured ones",
    "verifier": "the verifier callback is installed, with the configured application name",
    "weaken": "nothing weakens the settings afterwards",
    "lives": "what libcurl keeps a pointer to lives until the request is sent",
    "config": "the client is given the publisher's configuration: enabled as configured, with the certificates found for it",
}
WANT = {64: ("verify", 'CURLOPT_SSL_VERIFYPEER'), 10065: ("ca", 'CURLOPT_CAINFO', 'ca_info'), 10097: ("ca", 'CURLOPT_CAPATH'),
        10025: ("cert", 'CURLOPT_SSLCERT', 'ssl_cert'), 10087: ("cert", 'CURLOPT_SSLKEY', 'ssl_key'),
        20108: ("verifier", 'CURLOPT_SSL_CTX_FUNCTION'), 10109: ("verifier", 'CURLOPT_SSL_CTX_DATA', 'app_name')}


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fs, meth, cs = attempts(ctx)
    for fn, rec in fs:
        requests(ctx, fn, rec)
    lives(ctx)
    config(ctx)


def external(conds):
    for t, v in conds:
        if t[0] == 'not':
            t, v = t[1], not v
        if t[0] in ('init', 'fld') and t[2] and t[2][-1] == 'external_enabled':
            return v
    return None


def text_field(v):
    """the configuration field a C string comes from"""
    if v[0] == 'addr' and v[1][0] == 'strbuf' and v[2] == (('i', Z),):
        t = v[1][1]
        if t[0] in ('init', 'fld') and t[2]:
            return t[2]
    return None


def requests(ctx, fn, rec):
    segs, I, bad, res = segments(ctx, fn, rec, opaque=('spectator::LogEntry',))
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    n = 0
    seen = set()
    for st, fl in [(s.st, None) for s in segs]:
        ev = st.events()
        alts = st.alternatives()
        for i, e in enumerate(ev):
            if not sends(e):
                continue
            n += 1
            h = e[3][0]
            if alts is None:
                ctx.und("verify", w, "too many ways to one request")
                continue
            if all(external(cs) is False for cs in alts):
                continue
            p = " (path %s)" % pathstr(st, 5)
            hid = any(x[0] == 'pcall' or x[0] == 'call' and (str(x[1]) == '(lambda)' or str(x[1]).startswith('spectator') and 'Logger' not in str(x[1])) for x in ev[:i])
            last, reset = {}, None
            for x in ev[:i]:
                if x[0] != 'op' or not x[3] or x[3][0] != h:
                    continue
                if x[1].qn == 'curl_easy_setopt' and isc(x[3][1]):
                    last[x[3][1][1]] = (x[3][2] if len(x[3]) > 2 else None, x[5])
                elif x[1].qn == 'curl_easy_setopt':
                    reset = x
                elif x[1].qn == 'curl_easy_reset':
                    last = {}
            if reset is not None:
                ctx.und("weaken", reset[5], "an option that is not known is set" + p)
                continue

            def chk(ok, rule, msg, where=None):
                k = (rule, msg)
                ctx.check(True if ok else (None if hid else False) if ok is False else None, rule, where or w, msg + p, key=rule + ":" + msg[:40])
            for o, want in WANT.items():
                rule, name = want[:2]
                if o not in last:
                    chk(False, rule, "%s is not set when the request is sent" % name)
                    continue
                v, where = last[o]
                if o == 64:
                    chk(None if not isc(v) else v != Z, rule, "%s is %s" % (name, show(v)), where)
                elif o == 10097:
                    chk(v == Z if isc(v) else False if text_field(v) or v[0] == 'addr' else None, rule, "%s is %s" % (name, show(v)[:40]), where)
                elif o == 20108:
                    chk('sslctx_metatron_verify' in str(v) if v[0] == 'fn' or isc(v) else None, rule, "%s is %s" % (name, show(v)[:60]), where)
                else:
                    f = text_field(v)
                    chk(f[-1] == want[2] and 'cert_info' in f if f is not None else False if isc(v) or v[0] == 'addr' and v[1][0] == 'lit' else None, rule, "%s is %s" % (name, ".".join(map(str, f)) if f else show(v)[:60]), where)
            # options that would let the system's trust in again
            if 216 in last:
                v = last[216][0]
                chk(None if not isc(v) else not v[1] & 16, "weaken", "CURLOPT_SSL_OPTIONS uses the system's CAs", last[216][1])
            for o, name in ((40309, 'CURLOPT_CAINFO_BLOB'), (10169, 'CURLOPT_CRLFILE')):
                if o in last and o == 40309:
                    chk(False, "weaken", "%s replaces the CA file" % name, last[o][1])
    ctx.need("requests sent", n + len(bad), 1)
    for b in sorted(set(bad)):
        ctx.und("verify", w, b)


def lives(ctx):
    """options whose data libcurl does not copy: the pointer must not go into a parameter passed by value, a local or a temporary of a function that does not send"""
    P = ctx.prog
    n = 0
    for f in P.fns.values():
        if f.body is None or 'http_client' not in str(f.file):
            continue
        byval = {d.get('d'): d.get('n') for d, T in zip(f.ps, f.pt) if T.k == 'rec'}
        local = {v.get('d'): v.get('n') for x in P.walk(f.body) if x.get('k') == 'Decl' for v in x.get('v') or ()
                 if not v.get('st') and f.tu.types[v['t']].k in ('rec', 'arr')}
        has_send = any(isinstance(x.get('fn'), int) and f.tu.fns[x['fn']].qn == 'curl_easy_perform' for x in P.walk(f.body))
        for x in P.walk(f.body):
            if not isinstance(x.get('fn'), int) or f.tu.fns[x['fn']].qn != 'curl_easy_setopt':
                continue
            a = x.get('a') or []
            if len(a) < 3:
                continue
            opt = None
            for y in P.walk(a[1]):
                if isinstance(y.get('v'), (int, str)) and str(y.get('v')).isdigit():
                    opt = int(y['v'])
            if opt not in (10109, 10015, 10010):
                continue
            n += 1
            refs = [y for y in P.walk(a[2]) if y.get('k') == 'Ref' and y.get('d') is not None]
            bad = [byval.get(y['d']) or local[y['d']] for y in refs if y.get('d') in byval or y.get('d') in local]
            temp = [y for y in P.walk(a[2]) if y.get('k') in ('Mat',)]
            where = f.tu.loc(x['l']) if x.get('l') else f.qn
            ctx.check(False if (bad or temp) and not has_send else True, "lives", where, "libcurl keeps a pointer into %s, which is gone when the request is sent" % (bad[0] if bad else 'a temporary'))
    ctx.anchor("options libcurl does not copy", n)


def config(ctx):
    P = ctx.prog
    HCrec = 'spectator::HttpClient'
    makers = [f for f in P.fns.values() if f.body is not None and not f.lam and f.rt is not None and f.rt.noref().rec == 'spectator::HttpClientConfig' and not f.ctor and f.name not in ('operator=', 'move', 'forward')
              and str(f.file).startswith(('spectator', 'server', 'bin', 'admin'))]
    ctx.anchor("functions that make a client configuration", len(makers))
    if not makers:
        ctx.und("config", HCrec, "how the client's configuration is made is not recognised")
    for f in makers:
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        res, I = runfn(ctx, f, Rec(lambda g: g.name == 'find_certificate'))
        for st, fl in res:
            if fl[0] != 'R' or fl[1][0] != 'agg':
                ctx.und("config", w, "the configuration made is not known")
                continue
            d = dict(fl[1][2])
            v = d.get(('external_enabled',))
            ok = v is not None and v[0] in ('init', 'fld') and v[2] and v[2][-1] == 'external_enabled'
            ctx.check(True if ok else False if v is not None and (isc(v) or v[0] in ('init', 'fld')) else None, "config", w, "external publishing is enabled as %s" % (v and show(v)), key="config:enabled")
            found = [e for e in st.events() if e[0] == 'op' and e[1].name == 'find_certificate']
            ci = d.get(('cert_info',))
            part = {k: x for k, x in d.items() if k[0] == 'cert_info'}
            ok = len(found) == 1 and (ci == found[0][4] or part and all(x[0] == 'fld' and x[1] == found[0][4] and x[2] == k[1:] for k, x in part.items() if len(k) > 1))
            fixed = part and all(x[0] in ('s', 'c') for k, x in part.items() if len(k) > 1)
            ctx.check(True if ok else False if not found and not hidden(st) or fixed else None, "config", w, "the certificates are not those found for the configuration", key="config:cert")
            for e in found:
                a = e[3][0]
                ok = a[0] in ('init', 'fld') and a[2] and a[2][-1] == 'external_enabled'
                ctx.check(True if ok else False if isc(a) or a[0] in ('init', 'fld') else None, "config", e[5], "certificates are looked up for %s" % show(a)[:50], key="config:find")
    # the client keeps what it is given
    for f in P.bodies(HCrec + '::HttpClient'):
        if not f.ctor or not any(T.noref().rec == 'spectator::HttpClientConfig' for T in f.pt):
            continue
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        res, I = runfn(ctx, f)
        i = [j for j, T in enumerate(f.pt) if T.noref().rec == 'spectator::HttpClientConfig'][0]
        for st, fl in res:
            root = ('this', HCrec)
            me = [(r, q) for (r, q) in st.mem if r == root and q and q[0] == 'config_' or r == root and len(q) == 1 and 'HttpClientConfig' in str(getattr(I.loctype.get((r, q)), 's', ''))]
            fields = P.record(HCrec).ft if P.record(HCrec) else {}
            cf = [k for k, T in fields.items() if T.noref().rec == 'spectator::HttpClientConfig']
            if len(cf) != 1:
                ctx.und("config", w, "the client's configuration is not recognised")
                continue
            v = I.raw(st, root, (cf[0], 'external_enabled'))
            ok = v is not None and (v[0] == 'init' and v[1] == ('p', f.ps[i].get('n')) and v[2] == ('external_enabled',)
                                    or v[0] == 'fld' and v[2] == ('external_enabled',) and v[1][0] == 'init' and v[1][1] == ('p', f.ps[i].get('n')))
            ctx.check(True if ok else False if v is not None and (isc(v) or v[0] == 'init') else None, "config", w, "the client is enabled as %s" % (v and show(v)[:60]), key="config:kept")
            v = I.raw(st, root, (cf[0], 'cert_info', 'ca_info'))
            ok = v is not None and v[0] in ('init', 'fld') and v[2] and v[2][-1] == 'ca_info'
            ctx.check(True if ok else None, "config", w, "the client's CA file is %s" % (v and show(v)[:60]), key="config:kept")
