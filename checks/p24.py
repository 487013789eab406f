"""P24: one response to every admin request, with its own status."""
from admin import *
import p23

EXPLANATION = (
    "The paths of the admin request handler are labelled with the requests that take them (as for P23). On every path exactly one response is sent, none inside an iteration of a loop that goes on, and the "
    "status in force when it is sent is the one of the request: what a request is, is read off the path (the URI, method and host classes, the body's type, the keys and values checked, the changes made, "
    "the result of the deletion). A body that is not JSON must be caught, and a JSON value is only converted to a type it was tested to be.")
ASSUMPTIONS = ["Poco sends a response when send() is called, closes the connection after the handler, and starts every response as 200",
               "a JSON parser throws only exceptions derived from Poco::Exception; an exception that leaves the handler is answered by Poco as 500"]
RULES = {
    "once": "every path sends exactly one response",
    "status": "the response's status is the request's",
    "parse": "a body that is not JSON is answered, not thrown",
    "typed": "a JSON value is only taken as what it was tested to be",
    "use": "nothing of the response's head is changed after it was sent",
}
ROOTS = ('/', '/config', '/config/common_tags', '/metrics')
HEAD = ('setStatus', 'setStatusAndReason', 'setReason', 'setContentType', 'setContentLength', 'set', 'add', 'setChunkedTransferEncoding', 'setKeepAlive', 'setVersion')
CATCH = ('Poco::Exception', 'std::exception', '...')


def tri(b, sure):
    return True if b else (False if sure else None)


def expected(u, m, h, p):
    """(statuses allowed, why) of a request on a path; None: not decided"""
    st = p.st
    es = [e for e in effects(st.events())]
    if m == 'GET' and u in ROOTS:
        return (200,), "GET %s" % u
    if m == 'POST' and u == '/config/common_tags':
        if h != 'local':
            return (400,), "a POST from another host"
        evs = st.events()
        if any(e[0] == 'badbody' for e in evs):
            return (400,), "a body that is not JSON"
        if any(e[0] == 'parsed' for e in evs):
            if any(t[0] == 'jis' and t[2] in ('string', 'object') and not v for t, v in st.conds()):
                return (400,), "a value of the wrong type"
            if any(t[0] == 'in' and not v for t, v in st.conds()):
                return (400,), "a tag that is not allowed"
            # only ways out that are understood count as a request performed
            if (any(e[0] == 'loop' for e in evs) or es) and p23.understood(st):
                return (200,), "tags changed"
        return None
    if m == 'DELETE' and u[0] in 'Ag':
        if h != 'local':
            return ((400, 404) if u[1:] == '?' else (400,)), "a DELETE from another host"
        if u[1:] == '?':
            return (404,), "a DELETE of an unknown endpoint"
        if u[1:] == '':
            return (200,), "a DELETE of all meters of a kind"
        dels = [e for e in es if e[1].name == 'DeleteMeter']
        if len(dels) == 1:
            for t, v in st.conds():
                if t == dels[0][4]:
                    return ((200,) if v else (404,)), "a DELETE of a meter that %s" % ("exists" if v else "does not exist")
                if t in (('eq0', dels[0][4]), ('not', dels[0][4])):
                    return ((404,) if v else (200,)), "a DELETE of a meter that %s" % ("does not exist" if v else "exists")
            return (), "a DELETE of a meter, whether or not it exists"
        return None
    return (404,), "an unknown endpoint"


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    paths, I, fn = handler(ctx)
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    nsend = 0
    for p in paths:
        st = p.st
        rq = requests(p)
        if not rq:
            continue
        sure = any(s for *_, s in rq)
        name = describe(rq)
        rs = responses(st)
        nsend += len(rs)
        unseen = hides(st)
        if p.fl[0] == 'X':
            ctx.check(None if unseen and not sure else False, "once", w, "%s is answered by an exception (path %s)" % (name, pathstr(st, 4)), key="throw:" + name)
            continue
        ctx.check(True if len(rs) == 1 and not unseen else tri(len(rs) == 1, False) if unseen and not rs else tri(len(rs) == 1, sure), "once", w,
                  "%s gets %d responses (path %s)" % (name, len(rs), pathstr(st, 4)), key="once:%d" % len(rs))
        late(ctx, st, name, sure)
        if len(rs) != 1:
            continue
        got, where, how = rs[0]
        for u, m, h, s in rq:
            x = expected(u, m, h, p)
            if x is None:
                ctx.check(None, "status", where, "what %s %s is on the path %s" % (m, u, pathstr(st, 4)))
                continue
            ok, why = x
            ctx.check(None if got is None else tri(got in ok, s and how in ('send', 'sendBuffer', 'sendFile')), "status", where, "the response to %s has status %s, specified %s" % (why, got, ' or '.join(map(str, ok)) or '200 or 404, as the deletion went'),
                      key="status:%s:%s" % (why, got))
    ctx.anchor("responses sent", nsend)
    for lid, L in I.loops.items():
        for b in L['backs']:
            rs = responses(b, after_loop(b, lid))
            ctx.check(not rs, "once", L['loc'], "a response is sent in an iteration that is not the last", key="loop")
    jsons(ctx, [(p.st, p.st.events()) for p in paths] + [(b, after_loop(b, lid)) for lid, L in I.loops.items() for b in L['backs']])


def describe(rq):
    u, m, h, _ = rq[0]
    return "%s %s" % (m, u if u != 'other' else 'of another URI') + (" and others" if len(rq) > 1 else '')


def hides(st):
    """was the response handed to something that was not entered?"""
    for e in st.events():
        if e[0] in ('call', 'op'):
            if e[0] == 'op' and e[1].rect is not None and 'Response' in e[1].rect.rec:
                continue
            for v in e[3] or ():
                if isinstance(v, tuple) and any(isinstance(x, tuple) and x[:1] == ('addr',) and x[1] == ('p', 'res') for x in subterms(v)):
                    return True
        if e[0] == 'pcall':
            return True
    return False


def late(ctx, st, name, sure):
    sent = False
    for e in st.events():
        if e[0] != 'op' or e[1].rect is None or not e[1].rect.rec.startswith('Poco::Net::') or e[2] is None:
            continue
        if 'Response' not in e[1].rect.rec and not (e[1].name in HEAD and e[2][0] == 'addr' and any(e[2] == x for x in resp(st))):
            continue
        if e[1].name in SENDS:
            sent = True
        elif e[1].name in HEAD and sent:
            ctx.check(False if sure else None, "use", e[5], "%s is called after the response to %s was sent" % (e[1].name, name), key="late:" + e[1].name)
    ctx.check(True, "use", "paths", "")


def resp(st):
    return {e[2] for e in st.events() if e[0] == 'op' and e[1].rect is not None and 'Response' in e[1].rect.rec}


def jsons(ctx, rows):
    n, seen_ = 0, {}
    for st, evs in rows:
        caught = [e for e in st.events() if e[0] == 'caught']
        for e in evs:
            if e[0] == 'parsed':
                n += 1
                seen_[('parse', e[3])] = e[2]
            if e[0] == 'extract':
                n += 1
                V, kind, ok, where = e[1:]
                if ok is None:
                    # established by an earlier loop over every element?
                    ok = earlier(ctx, st, V, kind)
                k = ('typed', where)
                v = True if ok is True else (False if ok is False else None)
                if ok == 'no':
                    v = False
                if seen_.get(k, True) is True or v is False:
                    seen_[k] = v
            if e[0] == 'badbody':
                for h in caught:
                    t = h[1].replace('const ', '').replace('&', '').strip() if len(h) > 1 else '?'
                    ctx.check(True if t in CATCH else False if t.startswith('std::') else None, "parse", e[1], "what the parser throws is not caught by catch (%s)" % t, key="catch:" + t)
    for (r, where), v in sorted(seen_.items()):
        if r == 'parse':
            ctx.check(v is True, "parse", where, "the body is parsed where what the parser throws is not caught", key="parse")
        else:
            ctx.check(v, "typed", where, "a JSON value is taken as a type it was not tested to be", key="typed")
    ctx.anchor("JSON values taken", n)


def earlier(ctx, st, V, kind):
    """a loop over all elements before this point left only elements of that kind"""
    el = p23.element(V, 'second')
    if el is None:
        return 'no' if V[0] == 'jbody' else None
    paths, I, fn = handler(ctx)
    done = {e[1] for e in st.events() if e[0] == 'loop'}
    some = False
    for lid, L in I.loops.items():
        if lid not in done or p23.is_index(el[1], lid):
            continue
        good = bool(L['backs'])
        for b in L['backs']:
            r = False
            for t, v in b.conds():
                if t[0] == 'jis' and t[2] == kind and v:
                    x = p23.element(t[1], 'second')
                    if x is not None and x[0] == el[0] and p23.is_index(x[1], lid):
                        r = True
            good = good and r
        if good and all(p23.at_end(x, lid) for x, fl in L['exits'] if fl[0] == 'N'):
            return True
        some = True
    return None if hidden(st) else 'no'
