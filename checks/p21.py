"""P21: attempts of one request."""
from curls import *
from p19 import number

EXPLANATION = (
    "The method that makes the attempts is interpreted abstractly with libcurl, the registry and the percentile timer opaque; each path (or loop iteration) is one attempt. "
    "The set of transport results, statuses and attempt numbers that take a path is found by evaluating the path's conditions over their ranges. A further attempt must be "
    "made exactly when one is left and the outcome is retryable, with the next number and the same request; every attempt must record one client-call timer whose tags "
    "say its number, whether it is final, and its outcome; the result is the last attempt's.")
ASSUMPTIONS = ["curl_easy_perform and curl_easy_getinfo do what libcurl documents", "statuses are 0..999"]
RULES = {
    "send": "each attempt sends the request once",
    "bound": "at most three attempts: another one only after the first two, with the next number",
    "why": "another attempt is made exactly when the outcome is retryable and an attempt is left",
    "same": "a further attempt is for the same request",
    "log": "each attempt records one client-call timer when status metrics are enabled, and none otherwise",
    "tags": "the timer's tags say the attempt's number, whether it is final, and its outcome",
    "result": "the status returned is that of the last attempt, -1 for a transport failure",
    "first": "a request starts with attempt number 0",
}


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fs, meth, cs = attempts(ctx)
    for fn, recursive in fs:
        check(ctx, fn, recursive)
        # ---- callers
        if any(T.noref().k == 'int' and T.noref().w == 32 for T in fn.pt):
            first(ctx, fn, meth, fs)


def first(ctx, fn, meth, fs):
    P = ctx.prog
    for g in meth:
        if g.key == fn.key:
            continue
        if not any(isinstance(x.get('fn'), int) and g.tu.fns[x['fn']].key == fn.key for x in P.walk(g.body)):
            continue
        res, I = runfn(ctx, g, Curl([fn.key]))
        w = "%s (%s:%s)" % (g.qn, g.file, g.line)
        for st, fl in res:
            for e in st.events():
                if e[0] == 'op' and e[1].key == fn.key:
                    pos = [i for i, T in enumerate(fn.pt) if T.noref().k == 'int' and T.noref().w == 32]
                    if len(pos) != 1:
                        ctx.und("first", w, "the attempt number is not recognised")
                        continue
                    v = e[3][pos[0]]
                    ctx.check(True if v == Z else False if isc(v) else None, "first", e[5] if len(e) > 5 else w, "a request starts with attempt number %s" % show(v)[:40], key="first:" + g.name)
            if fl[0] == 'R':
                n = len([e for e in st.events() if e[0] == 'op' and e[1].key == fn.key])
                ctx.check(True if n <= 1 else False, "first", w, "one call makes %d requests" % n, key="first:" + g.name)


def tags_of(t):
    """[(key, value)] newest first, or None"""
    out = []
    while t[0] == 'tags+':
        out.append((t[2], t[3]))
        t = t[1]
    return out if t[0] == 'tags' else None


def lit(v):
    if v[0] != 'intern':
        return None
    v = v[1]
    if v[0] == 's':
        return v[1]
    n = [x for x in v[1:] if isinstance(x, tuple) and isc(x)]
    if v[0] in ('fmt', 'tostring') and len(n) == 1 and all(x in ('{}', ('s', '{}')) or x is n[0] or x == n for x in v[1:]):
        return str(n[0][1])
    return None


def check(ctx, fn, recursive):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    segs, I, bad, res = segments(ctx, fn, recursive, opts=False)
    for b in sorted(set(bad)):
        ctx.und("send", w, b)
    ctx.need("attempts", len(segs) or len(bad), 1)
    A = range(0, 8)
    for s in segs:
        p = " (path %s)" % [(show(t)[:60], v) for t, v in s.conds][-6:]
        ev = s.events
        hid = any(e[0] == 'pcall' or e[0] == 'call' and (str(e[1]) == '(lambda)' or str(e[1]).startswith('spectator') and 'Logger' not in str(e[1])) for e in ev)

        def chk(ok, rule, msg, key=None):
            ctx.check(True if ok else (None if hid else False) if ok is False else None, rule, w, msg + p, key=key or rule)
        perf = [(i, e) for i, e in enumerate(ev) if sends(e)]
        chk(len(perf) == 1, "send", "the request is sent %d times" % len(perf))
        if len(perf) != 1:
            continue
        pi, pe = perf[0]
        rc = pe[4]
        rcs = s.feasible(rc, range(0, 100))
        failed = False if rcs == {0} else True if 0 not in rcs else None
        if not rcs:
            continue
        info = [e for i, e in enumerate(ev) if e[0] == 'op' and e[1].qn == 'curl_easy_getinfo' and i > pi and e[3][1] == c(2097154)]
        code = info[-1][4] if info else None
        if failed is None:
            chk(None if s.opaque_about(rc) else False, "why", "whether the request failed is not looked at", key="why:failed")
            continue
        # ---- numbers
        att = [a for a in s.att]
        agan = bool(s.next)
        nxt = None
        if agan and s.next[0][0] == 'op':
            if len(s.next) != 1:
                chk(False, "bound", "%d further attempts are made at once" % len(s.next))
                continue
            args = s.next[0][3]
            if len(att) != 1:
                ctx.und("bound", w, "the attempt number is not recognised" + p)
                continue
            a = att[0]
            nxt = args[s.pos[0]]
            for d, T, v, j in zip(fn.ps, fn.pt, args, range(99)):
                if j != s.pos[0]:
                    me = ('init', ('p', d.get('n')), ())
                    x = v
                    if x[0] == 'ref':
                        continue
                    ok = x == me or x[0] == 'agg'
                    ctx.check(True if ok else None if any(isinstance(z, tuple) and z and z[0] in ('hv', 'sym', 'ret', 'call') for z in subterms(x)) or hid else False, "same", w, "the further attempt has %s for %s" % (show(v)[:50], d.get('n')) + p, key="same")
        elif agan:
            cells = s.next[0][1]
            if len(cells) != 1 or len(att) != 1:
                # the counter is the one whose bound is tested
                att = [a for a in att if any(a in subterms(t) for t, v in s.conds)]
                if len(att) != 1:
                    ctx.und("bound", w, "the attempt number is not recognised" + p)
                    continue
            a = att[0]
            nxt = cells.get(a)
        else:
            if len(att) > 1:
                att = [a for a in att if any(a in subterms(t) for t, v in s.conds)] or att[:1]
            a = att[0] if att else None
        As = s.feasible(a, A) if a is not None else set(A)
        if not As:
            continue
        odda = a is None or bool(s.opaque_about(a))
        if agan:
            over = [z for z in As if z >= 2]
            chk(None if over and odda else not over, "bound", "another attempt may follow attempt number %s" % (min(over) if over else ''))
            bad_ = []
            for z in As:
                m = number(nxt, a, z) if lin_of(nxt) is None else lin_val(nxt, a, z)
                if m is None:
                    bad_ = None
                    break
                if m != z + 1:
                    bad_.append((z, m))
            chk(None if bad_ is None else not bad_, "bound", "after attempt %s comes number %s" % (bad_[0] if bad_ else ('', '')), key="bound:next")
        left = [z for z in As if z < 2]
        # ---- why
        if failed:
            tl = timeleft(s, ev, pi)
            if agan:
                chk(True if tl is True else None if tl is None else False, "why", "a failed request is repeated without time being known to be left", key="why:time")
            elif left and tl is not False:
                # no further attempt though one is left: only without time
                chk(None if tl is None or odda else False, "why", "a failed request is not repeated although attempts and time may be left", key="why:givesup")
        elif code is None:
            chk(False if not hid and agan else None, "why", "the status is not looked at")
        else:
            cs_ = s.feasible(code, range(0, 1000))
            if not cs_:
                continue
            odd = bool(s.opaque_about(code))
            retry = {z for z in cs_ if z == 429 or 500 <= z < 600}
            if agan:
                no = cs_ - retry
                chk(None if no and odd else not no, "why", "a request answered with %s is repeated" % (min(no) if no else ''), key="why:status")
            elif left:
                chk(None if retry and (odd or odda) else not retry, "why", "a request answered with %s is not repeated although an attempt is left" % (min(retry) if retry else ''), key="why:givesup")
        # ---- log
        recs = [(i, e) for i, e in enumerate(ev) if e[0] == 'op' and e[1].rect is not None and e[1].rect.rec == 'spectator::PercentileTimer' and e[1].name == 'Record']
        ctor = [(i, e) for i, e in enumerate(ev) if e[0] == 'op' and e[1].rect is not None and e[1].rect.rec == 'spectator::PercentileTimer' and e[1].ctor]
        en = None
        for t, v in s.conds:
            if t[0] == 'not':
                t, v = t[1], not v
            if t[0] in ('init', 'fld') and t[2] and t[2][-1] == 'status_metrics_enabled':
                en = v
        if en is False:
            chk(not recs, "log", "a metric is recorded although status metrics are disabled", key="log:off")
            continue
        chk(len(recs) == 1 or (None if en is None and not recs and hid else False), "log", "an attempt records %d metrics" % len(recs), key="log:on")
        if en is None and recs:
            chk(False, "log", "a metric is recorded without regard to whether status metrics are enabled", key="log:off")
        if len(recs) != 1 or len(ctor) != 1 or ctor[0][1][2] != recs[0][1][2]:
            if len(recs) == 1:
                ctx.und("tags", w, "which timer is recorded is not known" + p)
            continue
        chk(recs[0][0] > pi, "log", "the metric is recorded before the request is sent", key="log:late")
        nows = [(i, e[1]) for i, e in enumerate(s.st.events()) if e[0] == 'now']
        dv = recs[0][1][3][0] if recs[0][1][3] else None
        if dv is not None and lin_of(dv) is not None:
            si = [i for i, e in enumerate(s.st.events()) if e is pe][-1]
            k, m = lin_of(dv)
            ok = k == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]
            if ok:
                at = {sym: i for i, sym in nows}
                hi = [t for t, q in m.items() if q == 1][0]
                lo = [t for t, q in m.items() if q == -1][0]
                ok = True if at.get(hi, -1) > si and 0 <= at.get(lo, 1 << 30) < si else None if hi not in at or lo not in at else False
            chk(ok, "log", "the time recorded (%s) is not from before to after the request" % show(dv)[:60], key="log:time")
        ids = [v for v in ctor[0][1][3] if v[0] == 'agg' and any(q == ('tags_',) for q, _ in v[2])]
        tg = tags_of(dict(ids[0][2])[('tags_',)]) if ids else None
        if tg is None:
            ctx.und("tags", w, "the metric's tags are not known" + p)
            continue
        d = dict(ids[0][2])
        nm = d.get(('name_', 'data'))
        chk(None if nm is None or lit(nm) is None else lit(nm) == 'ipc.client.call', "tags", "the metric is called %s" % (nm and show(nm)))
        T = {}
        for k, v in tg:
            if lit(k) is None:
                T = None
                break
            T.setdefault(lit(k), v)
        if T is None:
            ctx.und("tags", w, "a tag key is not known" + p)
            continue

        def tag(key, want, why):
            v = T.get(key)
            if v is None:
                chk(False, "tags", "the metric has no tag %s" % key, key="tags:" + key)
            else:
                chk(lit(v) in want if lit(v) is not None else None, "tags", "the tag %s is %s (%s)" % (key, show(v)[:40], why), key="tags:" + key)
        tag('ipc.attempt.final', ('false' if agan else 'true',), "another attempt follows" if agan else "the last attempt")
        wants = {('initial', 'second', 'third_up')[min(z, 2)] for z in As}
        v = T.get('ipc.attempt')
        if v is not None and lit(v) is not None:
            miss = wants - {lit(v)}
            chk(None if miss and odda else not miss, "tags", "the tag ipc.attempt is %s for attempt %s" % (lit(v), sorted(As)[:4]), key="tags:ipc.attempt")
        else:
            tag('ipc.attempt', (), "attempt %s" % sorted(As)[:3])
        if failed:
            tag('ipc.result', ('failure',), "a failed request")
            tag('http.status', ('-1',), "a failed request")
            if rcs == {7}:
                tag('ipc.status', ('connection_error',), "no connection")
            elif rcs == {28}:
                tag('ipc.status', ('timeout',), "a timeout")
            else:
                v = T.get('ipc.status')
                chk(v is not None and lit(v) not in ('success',), "tags", "the tag ipc.status is %s for a failed request" % (v and show(v)[:30]), key="tags:ipc.status")
        elif code is not None:
            ok2 = {200 <= z < 300 for z in cs_}
            if len(ok2) == 2:
                chk(None if s.opaque_about(code) else False if lit(T.get('ipc.result', Z)) else None, "tags", "the tag ipc.result is the same for 2xx and other statuses", key="tags:ipc.result")
            else:
                tag('ipc.result', ('success',) if True in ok2 else ('failure',), "status %s" % min(cs_))
                v = T.get('ipc.status')
                if True in ok2:
                    tag('ipc.status', ('success',), "status %s" % min(cs_))
                else:
                    chk(v is not None and lit(v) != 'success', "tags", "the tag ipc.status is %s for status %s" % (v and show(v)[:30], min(cs_)), key="tags:ipc.status")
            v = T.get('http.status')
            chk(False if v is None else True if any(decast(z) == code for z in subterms(v) if isinstance(z, tuple) and z) else False if lit(v) is not None and len(cs_) > 1 or other(s, v, rc) else None, "tags", "the tag http.status is %s" % (v and show(v)[:40]), key="tags:http.status")
        # ---- the result
        if agan:
            if s.next[0][0] == 'op':
                ret = s.next[0][4]
                chk(True if s.val == ret else None if s.val is None or any(isinstance(z, tuple) and z and z[0] in ('hv', 'sym') for z in subterms(s.val)) and ret not in subterms(s.val) and hid else False if ret not in subterms(s.val) else None, "result", "the result %s is not that of the further attempt" % show(s.val)[:60])
            continue
        stt = status_of(s.val)
        if stt is None:
            ctx.und("result", w, "the status returned is not known" + p)
        elif failed:
            chk(stt == c(-1) if isc(stt) or decast(stt) == code else None, "result", "the status returned for a failed request is %s" % show(stt)[:50])
        else:
            chk(True if decast(stt) == code or isc(stt) and code is not None and s.feasible(code, range(0, 1000)) == {stt[1]} else False if isc(stt) else None, "result", "the status returned is %s" % show(stt)[:50])


def other(s, v, rc):
    """the text of the transport result"""
    if v[0] != 'intern' or v[1][0] != 'fmt':
        return False
    n = [decast(x) for x in v[1][1:] if isinstance(x, tuple) and x and x[0] not in ('s',)]
    return len(n) == 1 and n[0] == rc


def lin_val(t, a, z):
    k, m = lin_of(t)
    for x, q in m.items():
        n = number(x, a, z)
        if n is None:
            return None
        k += q * n
    return k


def status_of(v):
    if v is None:
        return None
    if v[0] == 'agg':
        return dict(v[2]).get(('status',))
    return None


def timeleft(s, ev, pi):
    """True: the time since the start is known to be below the timeout; False: known not to be; None: not understood; 'free': not looked at"""
    times = {e[1]: i for i, e in enumerate(s.st.events()) if e[0] == 'now'}
    got = 'free'
    for t, v in s.conds:
        if t[0] == 'not':
            t, v = t[1], not v
        if t[0] != 'le0' or lin_of(t[1]) is None:
            if any(z in times for z in subterms(t) if isinstance(z, tuple)):
                got = None
            continue
        k, m = lin_of(t[1])
        ts = {x: q for x, q in m.items() if x in times}
        if not ts:
            continue
        rest = {x: q for x, q in m.items() if x not in times}
        if len(ts) != 2 or sorted(ts.values()) != [-1, 1] or not all(x[0] in ('init', 'fld') and 'timeout' in str(x[2]) for x in rest) or not rest:
            got = None
            continue
        hi = [x for x, q in ts.items() if q == 1][0]
        lo = [x for x, q in ts.items() if q == -1][0]
        if times[hi] < times[lo]:
            # written the other way round: negate
            rest = {x: -q for x, q in rest.items()}
            k, v = 1 - k, not v
        full = {x[2][-1] for x, q in rest.items() if q == -1}
        if any(q != -1 for q in rest.values()):
            got = None
            continue
        if v:
            got = True                     # elapsed below a sum of timeouts
        elif full >= {'connect_timeout', 'read_timeout'}:
            got = False if got == 'free' else got
        else:
            got = 'free' if got == 'free' else got
    return got if got != 'free' else 'free'
