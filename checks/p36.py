"""P36: what an HTTP request carries."""
from curls import *

EXPLANATION = (
    "The method that makes an attempt is interpreted abstractly with libcurl's calls recorded: on every path, the last value given to each option of the handle before the "
    "request decides what is sent. The callbacks installed are interpreted on their own. The public methods are interpreted with the attempt opaque: method, URL, headers, "
    "payload and size they hand over are compared with what the caller gave; compression is recorded. The configuration made for the publisher's client is followed.")
ASSUMPTIONS = ["libcurl honours its options", "gzip_compress fills the buffer it is given (P31)"]
RULES = {
    "url": "the request goes to the URL given, with the headers given",
    "method": "a POST carries the payload and its size; another method is the one asked for, without a payload",
    "limits": "the connection and the whole request are limited by the configured times, in milliseconds",
    "body": "the response's body goes into the response when it is to be read, and is never printed",
    "callback": "the callbacks take everything they are given and stay inside it",
    "gzip": "a payload is marked gzip exactly if it is compressed; one that cannot be compressed is not sent and gives -1",
    "pass": "what the caller gives (URL, payload, headers) is what is handed over",
    "config": "an unset time limit is replaced by one that is not zero; others are as configured",
}
URL, HDRS, FIELDS, SIZE, SIZEL, CUSTOM, WF, WD, HF, HD, TMO, CTMO = 10002, 10023, 10015, 60, 30120, 10036, 20011, 10001, 20079, 10029, 155, 156
MS = 10**6


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fs, meth, cs = attempts(ctx)
    cbs = {}
    for fn, rec in fs:
        request(ctx, fn, rec, cbs)
    for g in meth:
        if any(g.key == f.key for f, _ in fs):
            continue
        handover(ctx, g, [f for f, _ in fs])
    config(ctx)


def roles(fn):
    """parameter name by what its type says it is; None when that is ambiguous"""
    r = {}
    for d, T in zip(fn.ps, fn.pt):
        U = T.noref()
        s = str(U)
        k = None
        if U.k == 'ptr' and 'char' in s:
            k = 'method'
        elif U.k == 'ptr' and 'void' in s:
            k = 'payload'
        elif U.k == 'int' and U.w == 64:
            k = 'size'
        elif U.k == 'rec' and 'basic_string' in str(U.rec or s):
            k = 'url'
        elif 'shared_ptr' in str(U.rec or s):
            k = 'headers'
        if k:
            if k in r:
                return None
            r[k] = d.get('n')
    return r if len(r) == 5 else None


def P_(n, *path):
    return ('init', ('p', n), tuple(path))


def methods(st, conds, name):
    """the methods a path is for, of POST, GET and another; None if a condition about it is not understood"""
    can = {'POST', 'GET', '*'}
    for t, v in conds:
        if not any(x == P_(name) for x in subterms(t)):
            continue
        if t[0] == 'eq0' and t[1][0] == 'call' and t[1][1] == 'strcmp':
            lits = [a[1][1] for a in t[1][2:] if isinstance(a, tuple) and a[0] == 'addr' and a[1][0] == 'lit']
            if len(lits) == 1 and P_(name) in t[1][2:]:
                m = {lits[0]} if lits[0] in ('POST', 'GET') else {'*'}
                if v:
                    can &= m
                elif lits[0] in ('POST', 'GET'):
                    can -= m
                continue
        return None
    return can


def flag(conds, field):
    for t, v in conds:
        if t[0] == 'not':
            t, v = t[1], not v
        if t[0] == 'eq0':
            t, v = t[1], not v
        if t[0] in ('init', 'fld') and t[2] and t[2][-1] == field:
            return v
    return None


def cfield(v):
    return v[2][-1] if v[0] in ('init', 'fld') and v[2] and v[2][-1].__class__ is str else None


def request(ctx, fn, rec, cbs):
    segs, I, bad, res = segments(ctx, fn, rec, opaque=('spectator::LogEntry',))
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    R = roles(fn)
    if R is None or bad:
        ctx.und("url", w, "the parameters of an attempt are not recognised" if R is None else str(sorted(set(bad))))
        return
    n = 0
    done = set()
    for s in segs:
        ev = s.events
        at = [i for i, e in enumerate(ev) if sends(e)]
        if len(at) != 1:
            continue
        n += 1
        h = ev[at[0]][3][0]
        last, odd = {}, False
        for x in s.st.events():
            if x is ev[at[0]]:
                break
            if x[0] == 'op' and x[3] and x[3][0] == h:
                if x[1].qn == 'curl_easy_setopt' and isc(x[3][1]) and len(x[3]) > 2:
                    last[x[3][1][1]] = (x[3][2], x[5])
                elif x[1].qn == 'curl_easy_reset':
                    last = {}
                elif x[1].qn == 'curl_easy_setopt':
                    odd = True
            elif x[0] == 'pcall':
                odd = True
        sig = (tuple(sorted((k, str(v[0])) for k, v in last.items() if k != 10018 or True)), str(methods(s.st, s.conds, R['method'])), flag(s.conds, 'read_body'), flag(s.conds, 'read_headers'))
        if sig in done:
            continue
        done.add(sig)
        p = " (path %s)" % pathstr(s.st, 4)

        def chk(ok, rule, msg, k=None):
            ctx.check(True if ok is True else None if odd or ok is None else False, rule, last[k][1] if k in last else w, msg + p, key=rule + ":" + msg[:40])

        def given(k, want, rule, name, known=lambda v: isc(v) or v[0] in ('init', 'addr', 'lin', 'idiv')):
            if k not in last:
                return chk(False, rule, "%s is not set when the request is sent" % name)
            v = last[k][0]
            chk(True if v == want else False if known(v) else None, rule, "%s is %s" % (name, show(v)[:70]), k)
        given(URL, ('addr', ('strbuf', P_(R['url'])), (('i', Z),)), "url", "CURLOPT_URL")
        if HDRS not in last:
            chk(False, "url", "CURLOPT_HTTPHEADER is not set when the request is sent")
        else:
            v = last[HDRS][0]
            mine = any(x == P_(R['headers']) for x in subterms(v) if isinstance(x, tuple))
            chk(True if mine else False if isc(v) else None, "url", "CURLOPT_HTTPHEADER is %s" % show(v)[:70], HDRS)
        ms = methods(s.st, s.conds, R['method'])
        if ms is None:
            chk(None, "method", "a condition on the method is not understood")
        else:
            for m in sorted(ms):
                if m == 'POST':
                    if 10165 in last:
                        chk(None, "method", "the payload is copied")
                        continue
                    given(FIELDS, P_(R['payload']), "method", "the POST's CURLOPT_POSTFIELDS")
                    given(SIZEL if SIZEL in last else SIZE, P_(R['size']), "method", "the POST's CURLOPT_POSTFIELDSIZE")
                else:
                    if FIELDS in last or 47 in last and last[47][0] != Z:
                        chk(False, "method", "a request that is not a POST is sent as one", FIELDS)
                    if m == '*':
                        given(CUSTOM, P_(R['method']), "method", "CURLOPT_CUSTOMREQUEST of another method")
                    elif CUSTOM in last:
                        chk(True if last[CUSTOM][0] in (P_(R['method']), ('addr', ('lit', 'GET'), (('i', Z),))) else None, "method", "a GET is sent as %s" % show(last[CUSTOM][0])[:60], CUSTOM)
        # limits
        for k, name, want in ((TMO, 'CURLOPT_TIMEOUT_MS', {'connect_timeout', 'read_timeout'}), (CTMO, 'CURLOPT_CONNECTTIMEOUT_MS', {'connect_timeout'})):
            if k not in last:
                chk(None if (13 if k == TMO else 78) in last else False, "limits", "%s is not set when the request is sent" % name)
                continue
            v = decast(last[k][0])
            if v[0] != 'idiv':
                chk(False if isc(v) or cfield(v) else None, "limits", "%s is %s" % (name, show(v)[:70]), k)
                continue
            a = v[1]
            got = {cfield(x) for x, q in a[2] if q == 1} if a[0] == 'lin' and a[1] == 0 else {cfield(a)}
            q1 = a[0] != 'lin' or all(q == 1 for x, q in a[2])
            ok = got == want and q1 and v[2] == c(MS)
            chk(True if ok else False if None not in got and isc(v[2]) else None, "limits", "%s is %s" % (name, show(v)[:90]), k)
        # the body and the headers of the response
        for k, dk, name, fl, takes in ((WF, WD, 'CURLOPT_WRITEFUNCTION', flag(s.conds, 'read_body'), 'body'), (HF, HD, 'CURLOPT_HEADERFUNCTION', flag(s.conds, 'read_headers'), 'headers')):
            if k not in last:
                if k == WF or fl is True:
                    chk(False, "body", "%s is not set when the request is sent" % name)
                continue
            v = last[k][0]
            if v[0] != 'fn' or v[1] not in ctx.prog.fns:
                chk(False if isc(v) else None, "body", "%s is %s" % (name, show(v)[:60]), k)
                continue
            if v[1] not in cbs:
                cbs[v[1]] = callback(ctx, ctx.prog.fns[v[1]])
            uses = cbs[v[1]]
            if uses:
                chk(True if dk in last and last[dk][0][0] == 'addr' else False if dk not in last or isc(last[dk][0]) else None, "body", "%s writes to what was not given to it" % name, k)
            if fl is True:
                chk(True if uses else False if uses is False else None, "body", "the response's %s are not kept although they are to be read" % takes, k)
    ctx.need("attempts analysed", n, 1)


def callback(ctx, f):
    """does it keep what it is given?  None if not known"""
    w = "%s (%s:%s)" % (f.qn, f.file, f.line)
    if len(f.ps) != 4:
        ctx.und("callback", w, "not a libcurl callback")
        return None
    data, sz, nm, up = [P_(d.get('n')) for d in f.ps]
    n = ('mul',) + tuple(sorted((sz, nm), key=str))
    res, I = runfn(ctx, f, Rec(lambda g: g.name in ('emplace', 'insert', 'insert_or_assign', 'try_emplace')))
    keeps = False
    for st, fl in res:
        if fl[0] != 'R':
            if fl[0] != 'X':
                ctx.und("callback", w, "left by %s" % fl[0])
            continue
        r = decast(fl[1])
        ok = r[0] == 'mul' and set(r[1:]) == {sz, nm}
        known = r[0] in ('mul', 'c') or r in (sz, nm) or r[0] == 'lin' and all(x in (sz, nm) or x[0] == 'mul' for x, q in r[2])
        if r[0] == 'idiv':
            known = all(x in (sz, nm) or isc(x) for x in r[1:])
        ctx.check(True if ok else False if known else None, "callback", w, "returns %s, which libcurl takes for an error" % show(r)[:60])
        whole = r if ok else n
        for e in st.events():
            used = e[0] == 'strset' and e[1] == up or e[0] == 'op' and (e[2] == up or up in tuple(e[3] or ()))
            if used:
                keeps = True
            if not used and e[0] not in ('strset', 'op'):
                continue
            vals = [x for a in e[2:] if isinstance(a, tuple) for x in subterms(a) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'bytes']
            for x in vals:
                if e[0] == 'strset' and x[1] == data:
                    ctx.check(True if decast(x[2]) == whole else False if decast(x[2])[0] in ('mul', 'idiv', 'c') or decast(x[2]) in (sz, nm) else None, "callback", w, "takes %s bytes of what it is given" % show(x[2])[:60])
                    continue
                ln = decast(x[2])
                at = [y for y in (ln[2] if ln[0] == 'lin' else [])]
                mc = [y[0] for y in at if y[0][0] == 'ret' and 'memchr' in str(y[0][1])]
                if len(mc) == 1 and x[1] == data and ln == sub(mc[0], data):
                    ctx.ok("callback", w, "")
                    continue
                lo = I.truth(st, I.le(Z, ln))
                end = sub(add(data, whole), add(x[1], ln))
                hi = I.truth(st, I.le(Z, end))
                mine = len(mc) == 1 and all(y[0] in (data, whole, mc[0]) or y[0] == ('mul', nm, sz) or y[0] == ('mul', sz, nm) for y in at)
                ctx.check(True if lo is True and hi is True else False if mine and (lo is not True or hi is not True) else None, "callback", w, "takes %s bytes from %s, which may be outside of what it is given (path %s)" % (show(ln)[:60], show(x[1])[:40], pathstr(st, 4)))
    return keeps


def handover(ctx, g, atts):
    """what a public method gives to the attempt"""
    P = ctx.prog
    keys = {f.key for f in atts}
    w = "%s (%s:%s)" % (g.qn, g.file, g.line)

    class C(Curl):
        def rec(self, fn):
            return fn.name == 'gzip_compress' or super().rec(fn)

        def call(self, I, fn, obj, args, st, fr, node):
            out = super().call(I, fn, obj, args, st, fr, node)
            if fn.name == 'gzip_compress' and len(args) == 4 and out:
                for o in out:
                    a = o[0].events()[-1][3][1]
                    if a[0] == 'addr':
                        # the size of what was made
                        I.n += 1
                        lv = I.deref(a)
                        I.store(o[0], lv[1], lv[2], ('ret', 'gzip_compress size', I.n))
            return out
    res, I = runfn(ctx, g, C(keys, True))
    mine = {}
    for d, T in zip(g.ps, g.pt):
        U = T.noref()
        s = str(U)
        k = 'url' if U.k == 'rec' and 'basic_string' in str(U.rec or s) and 'vector' not in str(U.rec or s) else 'size' if U.k == 'int' and U.w == 64 else \
            'payload' if U.k == 'ptr' and 'void' in s else 'packed' if U.k == 'rec' and 'CompressedResult' in str(U.rec) else 'list' if U.k == 'rec' and 'vector' in str(U.rec or s) else 'text' if U.k == 'ptr' else None
        if k == 'url' and k in mine:
            k = 'str'
        if k is None or k in mine:
            ctx.und("pass", w, "a parameter is not recognised")
            return
        mine[k] = d.get('n')
    whole = (P_(mine.get('payload')), P_(mine.get('size')))
    if 'str' in mine:
        t = P_(mine['str'])
        whole = (('addr', ('strbuf', t), (('i', Z),)), ('size', t))
    for st, fl in res:
        if fl[0] == 'X':
            continue
        p = " (path %s)" % pathstr(st, 4)
        hid = hidden(st) and any(e[0] == 'pcall' for e in st.events())
        sent = [e for e in st.events() if e[0] == 'op' and e[1].key in keys]
        packs = [e for e in st.events() if e[0] == 'op' and e[1].name == 'gzip_compress']
        failed = None
        if len(packs) == 1:
            r = packs[0][4]
            can = {z for z in (0, 1, -1, -2, -3, -4, -5, -6) if all(holds(t, decast(r), z) in (v, None) for t, v in st.conds() if any(decast(x) == decast(r) for x in subterms(t) if isinstance(x, tuple) and x))}
            vague = any(holds(t, decast(r), 0) is None for t, v in st.conds() if any(decast(x) == decast(r) for x in subterms(t) if isinstance(x, tuple) and x))
            failed = None if vague else False if can == {0} else True if 0 not in can else 'either'
            if failed == 'either':
                failed = bool(any(e[0] == 'op' and e[1].key in keys for e in st.events()))
        elif len(packs) > 1:
            ctx.und("gzip", w, "compressed %d times" % len(packs))
            continue

        def chk(ok, rule, msg, where=None):
            ctx.check(True if ok is True else None if hid or ok is None else False, rule, where or w, msg + p, key=rule + ":" + msg[:40])
        if len(sent) != 1:
            if not sent and packs:
                if failed is True:
                    v = dict(fl[1][2]).get(('status',)) if fl[0] == 'R' and fl[1][0] == 'agg' else None
                    chk(True if v == c(-1) else False if v is not None and isc(v) else None, "gzip", "a request that is not sent gives %s" % (show(v) if v else 'what is not known'))
                else:
                    chk(False if failed is False else None, "gzip", "a payload that was compressed is not sent")
            else:
                chk(False if not sent and not hidden(st) else None, "pass", "%d requests are made" % len(sent))
            continue
        e = sent[0]
        R = roles(e[1])
        if R is None:
            ctx.und("pass", w, "the parameters of an attempt are not recognised")
            continue
        A = {k: e[3][[d.get('n') for d in e[1].ps].index(nm)] for k, nm in R.items()}
        if failed is True:
            chk(False, "gzip", "a payload that could not be compressed is sent", e[5])
            continue
        u = A['url']
        chk(True if u == P_(mine.get('url')) or u == ('addr', ('p', mine.get('url')), ()) else False if u[0] in ('s', 'lit') else None, "pass", "the URL handed over is %s" % show(u)[:60], e[5])
        m = A['method']
        if g.name in ('Get', 'Put', 'Post') and m[0] == 'addr' and m[1][0] == 'lit':
            chk(m[1][1] == g.name.upper(), "pass", "%s makes a %s request" % (g.name, m[1][1]), e[5])
        # the payload
        if packs:
            k = packs[0]
            src = tuple(k[3][2:4]) if len(k[3]) == 4 else None
            if src is None:
                chk(None, "gzip", "what is compressed is not recognised")
            else:
                chk(True if src == whole else False if all(x[0] in ('init', 'size') or isc(x) or x[0] == 'addr' and x[1][0] == 'strbuf' for x in src) else None, "pass", "what is compressed is %s" % [show(x)[:40] for x in src], k[5])
                chk(True if A['payload'] == k[3][0] else False if A['payload'][0] == 'init' else None, "pass", "the payload handed over is %s instead of the compressed one" % show(A['payload'])[:60], e[5])
                same = decast(A['size'])[:2] == ('ret', 'gzip_compress size')
                chk(True if same else False if A['size'] == P_(mine.get('size')) or isc(A['size']) else None, "pass", "the size handed over is %s instead of the compressed size" % show(A['size'])[:60], e[5])
        elif 'packed' in mine:
            for k, f in (('payload', 'data'), ('size', 'size')):
                chk(True if A[k] == P_(mine['packed'], f) else False if isc(A[k]) or A[k][0] in ('init', 'size') else None, "pass", "the %s handed over is %s" % (k, show(A[k])[:60]), e[5])
        elif 'payload' in mine or 'str' in mine:
            for k, want in zip(('payload', 'size'), whole):
                chk(True if A[k] == want else False if isc(A[k]) or A[k][0] in ('init', 'size') else None, "pass", "the %s handed over is %s" % (k, show(A[k])[:60]), e[5])
        # the headers
        i = st.events().index(e)
        heads = [x for x in st.events()[:i] if x[0] == 'op' and x[1].name == 'curl_slist_append']
        text = [origin(ctx, x[3][1]) for x in heads]
        post = 'packed' in mine or 'payload' in mine or 'str' in mine
        zipped = bool(packs) or 'packed' in mine
        if post:
            marks = [t for t in text if t and t[0] == 'gz']
            chk(True if len(marks) == (1 if zipped else 0) else None if None in text else False, "gzip", "a payload that is %s has %d gzip headers" % ("compressed" if zipped else "not compressed", len(marks)), e[5])
            if 'text' in mine:
                chk(True if ('p', mine['text']) in text else None if None in text else False, "pass", "the content type is not among the headers", e[5])
        if 'list' in mine:
            Ls = [I.loops[x[1]] for x in st.events()[:i] if x[0] == 'loop']
            Ls = [L for L in Ls if any(y[0] == 'op' and y[1].name == 'curl_slist_append' for b in L['backs'] for y in b.events())]
            if len(Ls) != 1:
                chk(False if not Ls and not hidden(st) and not any(x[0] == 'loop' for x in st.events()) else None, "pass", "the headers given are not added in a loop that is understood")
            else:
                L = Ls[0]
                lid = next(k for k, v in I.loops.items() if v is L)
                for b in L['backs']:
                    ap = [y for y in after_loop(b, lid) if y[0] == 'op' and y[1].name == 'curl_slist_append']
                    chk(True if len(ap) == 1 else None if hidden(b) else False, "pass", "%d headers are added for one that is given" % len(ap), L['loc'])
                    for y in ap[:1]:
                        src = [x for x in subterms(y[3][1]) if isinstance(x, tuple) and x and x[0] == 'init']
                        chk(True if any(x[1] == ('p', mine['list']) for x in src) else None, "pass", "the header added is %s" % show(y[3][1])[:60], y[5])
                for b, f2 in L['exits']:
                    if f2[0] in ('B', 'R'):
                        chk(None, "pass", "the loop over the headers ends early", L['loc'])


def origin(ctx, a):
    """where the text of a header comes from"""
    if a[0] != 'addr' or a[1][0] != 'strbuf':
        return None
    t = a[1][1]
    if t[0] == 'cstr':
        t = t[1]
    if t[0] == 'init' and t[1][0] == 'p':
        return ('p', t[1][1])
    if t[0] == 's' or t[0] == 'lit':
        return ('gz',) if t[1].replace(' ', '').lower() == 'content-encoding:gzip' else ('s', t[1])
    if t[0] == 'init' and t[1][0] == 'g':
        v = gtext(ctx, t[1][1])
        return None if v is None else ('gz',) if v.replace(' ', '').lower() == 'content-encoding:gzip' else ('s', v)
    if t[0] == 'addr' and t[1][0] == 'lit':
        return ('gz',) if t[1][1].replace(' ', '').lower() == 'content-encoding:gzip' else ('s', t[1][1])
    return None


def gtext(ctx, qn):
    """the text a global character pointer or array is initialised with, and which cannot change"""
    for tu in ctx.prog.tus.values():
        g = tu.globals.get(qn)
        if g is not None and g.get('i') is not None and g.get('ce'):
            for y in ctx.prog.walk(g['i']):
                if y.get('k') == 'Str':
                    return y.get('v')
    return None


def config(ctx):
    P = ctx.prog
    makers = [f for f in P.fns.values() if f.body is not None and not f.lam and f.rt is not None and f.rt.noref().rec == 'spectator::HttpClientConfig' and not f.ctor and f.name not in ('operator=', 'move', 'forward')
              and str(f.file).startswith(('spectator', 'server', 'bin', 'admin'))]
    ctx.anchor("functions that make a client configuration", len(makers))
    if not makers:
        ctx.und("config", HC, "how the client's configuration is made is not recognised")
    for f in makers:
        w = "%s (%s:%s)" % (f.qn, f.file, f.line)
        res, I = runfn(ctx, f, Rec(lambda g: g.name == 'find_certificate'))
        for st, fl in res:
            if fl[0] != 'R' or fl[1][0] != 'agg':
                ctx.und("config", w, "the configuration made is not known")
                continue
            d = dict(fl[1][2])
            p = " (path %s)" % pathstr(st, 4)
            for k in ('connect_timeout', 'read_timeout'):
                v = d.get((k,))
                if v is None:
                    ctx.und("config", w, "%s is not known" % k)
                    continue
                src = [x for x in subterms(v) if isinstance(x, tuple) and cfield(x) is not None]
                z = I.truth(st, I.eq(v, Z))
                if isc(v):
                    unset = any(t[0] == 'eq0' and cfield(t[1]) == k and b for t, b in st.conds())
                    ctx.check(True if v[1] > 0 and unset else None if hidden(st) or v[1] > 0 and not conds_on(st, k) and st.conds() and not unset and False else False, "config", w, "%s is %d ns%s" % (k, v[1], "" if unset else " although one is configured") + p, key="config:" + k)
                elif cfield(v) is not None:
                    ctx.check(False if cfield(v) != k or z is not False and not hidden(st) else True if z is False else None, "config", w, "%s is %s%s" % (k, show(v), "" if z is False else ", which may be zero: no limit") + p, key="config:" + k)
                else:
                    ctx.und("config", w, "%s is %s" % (k, show(v)[:60]))
            v = d.get(('read_body',))
            ctx.check(True if v == ONE else False if v == Z else None, "config", w, "the publisher's client does not read the responses", key="config:body")
            v = d.get(('status_metrics_enabled',))
            ctx.check(True if v is not None and cfield(v) == 'status_metrics_enabled' else False if v is not None and (isc(v) or cfield(v)) else None, "config", w, "status metrics are enabled as %s" % (show(v) if v else v), key="config:status")


def conds_on(st, k):
    return any(any(cfield(x) == k for x in subterms(t) if isinstance(x, tuple) and len(x) == 3) for t, v in st.conds())
