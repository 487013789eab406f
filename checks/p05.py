"""P05: fixed buffers that receive external data; receiving goes on."""
from bufs import *
from absint import Frame

EXPLANATION = (
    "Every function that starts an asynchronous receive is abstractly interpreted up to the receive; its completion handler is then interpreted for an "
    "unknown error and every length the receive can complete with (0 to the length of the buffer that was posted). All accesses to fixed arrays "
    "and all reads into them are bounded against their declared sizes; on every path of the handler the number and place of the next receives, "
    "and the pointer, terminator and error status at the hand-over to the parser are checked. Functions that read or write fixed arrays "
    "from files are interpreted the same way.")
ASSUMPTIONS = ["a receive completes with at most the bytes that were offered to it", "the message handler returns (its own totality is decided under P02 to P04)",
               "read and fgets keep their documented bounds"]
RULES = {
    "bounds": "every access to a fixed array, and every length handed to a call that fills one, stays inside it",
    "posted": "the buffer posted for a receive lies inside its array",
    "terminated": "a text handed on is terminated right after what was received, inside its buffer",
    "handed": "only what was received without error is handed to the parser, from its first byte",
    "rearm": "every completion posts the next receive exactly once, on the same socket, after the buffer has been used",
}


def bodies_calling(P, pred):
    out = []
    for fn in P.fns.values():
        if fn.body is None or fn.lam:
            continue
        for x in P.walk(fn.body):
            if x.get('k') in ('Call', 'MCall') and x.get('fn') is not None and pred(fn.tu.fns[x['fn']]):
                out.append(fn)
                break
    return sorted(out, key=lambda f: (f.file, f.line))


def noerr(st, err):
    """does the path know that there was no error?"""
    for t, v in st.conds():
        if any(x == err for x in subterms(t)):
            if t[0] == 'call' and t[1].endswith('operator_conv'):
                return not v
            if t[0] == 'eq0' and isinstance(t[1], tuple) and t[1][0] == 'call' and t[1][1].endswith('::value'):
                return v
            return 'odd'
    return None


def receives(ctx, fn):
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    cl = Bufs()
    res, I = runfn(ctx, fn, cl)
    n = 0
    for st, fl in res:
        arms = [e for e in st.events() if e[0] == 'arm']
        if not arms:
            if not hidden(st):
                ctx.bad("rearm", w, "no receive is posted on a path (%s)" % pathstr(st))
            continue
        for e in arms:
            n += 1
            sock, vals, where = e[1:4]
            buf = next((v for v in vals if v[0] == 'abuf'), None)
            lam = next((v for v in vals if v[0] == 'lam'), None)
            if buf is None or lam is None:
                ctx.und("posted", where, "receive into %s completed by %s" % (show(vals[0]), [v[0] for v in vals[1:]]))
                continue
            root, path, off, N = cl.region(I, buf[1])
            if N is None:
                ctx.und("posted", where, "buffer of unknown size: %s" % show(buf[1]))
                continue
            end = add(off, buf[2])
            t = I.truth(st, I.le(end, c(N)))
            ctx.check(True if t is True else False if isc(end) else None, "posted", where, "%s bytes are offered at %s of an array of %d" % (show(buf[2]), show(off), N))
            # the completion
            err, ln = ('p', '#err'), ('init', ('p', '#n'), ())
            I.dom.ranges[ln] = (0, buf[2][1] if isc(buf[2]) else None)
            s0 = st.clone()
            if not isc(buf[2]):
                I.assume(s0, I.le(ln, buf[2]), True)
            cl.lens = (ln,)
            n0 = len(st.events())
            fr = Frame(fn, 1, ('lv', ('this', fn.rect.rec), ()) if fn.rect is not None else None)
            I.abrupt = []
            outs = I.call_lam(lam, [('lv', err, ()), ln], s0, fr, None)
            ctx.paths += len(outs)
            for s, fl2 in I.abrupt:
                ctx.check(False if fl2[0] in ('E',) else None, "rearm", where, "the handler ends the process or throws (%s)" % pathstr(s))
            for s, _ in outs:
                ev = s.events()[n0:]
                pst = pathstr(s)
                ar = [k for k, x in enumerate(ev) if x[0] == 'arm']
                ok = len(ar) == 1
                ctx.check(True if ok else None if any(x[0] in ('call',) and str(x[1]).startswith('spectator') and 'Logger' not in str(x[1]) for x in ev) else False,
                          "rearm", where, "%d receives are posted after a completion (path %s)" % (len(ar), pst))
                for k in ar:
                    ctx.check(ev[k][1] == sock, "rearm", where, "the next receive is posted on %s instead of %s" % (show(ev[k][1]), show(sock)))
                for k, x in enumerate(ev):
                    if x[0] != 'pcall' and not (x[0] == 'call' and any(v == buf[1] or (v[0] in ('sv', 'addr', 'lin') and pin(I, cl, v, root, path)) for v in x[3] or ())):
                        continue
                    if x[0] == 'call' and x[1] in ('asio::buffer',):
                        continue
                    vals2 = x[2] if x[0] == 'pcall' else x[3]
                    v = next((v for v in vals2 if pin(I, cl, v, root, path)), None)
                    if v is None:
                        continue
                    h = x[4] if x[0] == 'pcall' else x[5]
                    ctx.check(not any(a < k for a in ar), "rearm", h, "the buffer is posted again before it is used")
                    ne = noerr(s, ('addr', err, ()))
                    ctx.check(True if ne is True else None if ne == 'odd' else False, "handed", h, "what the buffer holds is parsed %s (path %s)" % (
                        "although the receive failed" if ne is False else "whether or not the receive failed", pst))
                    p = v[1] if v[0] == 'sv' else v
                    r2, p2, o2, _ = cl.region(I, p)
                    at0 = I.truth(s, I.eq(decast(o2), decast(off)))
                    ctx.check(True if at0 is True else False if isc(sub(o2, off)) else None, "handed", h, "the text starts at %s instead of %s" % (show(o2), show(off)))
                    if v[0] == 'sv':
                        same = sub(decast(v[2]), ln) == Z
                        ctx.check(True if same else None, "handed", h, "%s bytes of %s are handed on" % (show(v[2]), show(ln)))
                        continue
                    z = I.raw(s, root, path + (('i', add(off, ln)),))
                    ctx.check(True if z == Z else False, "terminated", h, "the byte after what was received is %s at the hand-over (path %s)" % (show(z) if z is not None else 'whatever it was', pst))
            # something is handed on at all
            some = any(x[0] == 'pcall' or x[0] == 'call' and any(pin(I, cl, v, root, path) for v in x[3] or ()) for s, _ in outs for x in s.events()[n0:])
            ctx.check(True if some else None if any(hidden(s) for s, _ in outs) else False, "handed", where, "no completion hands on what was received")
            # every good completion with data is handed on
            for s, _ in outs:
                hd = [x for x in s.events()[n0:] if x[0] == 'pcall' and any(pin(I, cl, v, root, path) for v in x[2])]
                if noerr(s, ('addr', err, ())) is True and I.truth(s, I.le(ONE, ln)) is not False:
                    ctx.check(True if len(hd) == 1 else None if any(x[0] == 'call' and str(x[1]).startswith('spectator') for x in s.events()[n0:]) else False, "handed", where,
                              "a datagram is handed on %d times (path %s)" % (len(hd), pathstr(s)))
    report(ctx, cl)
    return n


def pin(I, cl, v, root, path):
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'sv':
        return pin(I, cl, v[1], root, path)
    if v[0] not in ('addr', 'lin'):
        return False
    r, p, o, N = cl.region(I, v)
    return r == root and p == path


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    P = ctx.prog
    rx = bodies_calling(P, lambda f: '::async_receive' in f.qn)
    n = 0
    for fn in rx:
        try:
            n += receives(ctx, fn)
        except AnalysisBroken as e:
            ctx.und("rearm", fn.qn, "not analysable: %s" % e)
    ctx.need("receives", n, 1)
    ctx.anchor("receiving functions", len(rx))
    names = ('read', 'recv', 'recvfrom', 'fgets', 'fread', 'pread')
    fx = [f for f in bodies_calling(P, lambda f: f.qn.replace('std::', '').lstrip(':') in names) if f not in rx]
    for fn in fx:
        cl = Bufs()
        try:
            runfn(ctx, fn, cl)
        except AnalysisBroken as e:
            ctx.und("bounds", fn.qn, "not analysable: %s" % e)
            continue
        report(ctx, cl, ("bounds", "terminated"))
    ctx.anchor("functions that read files into arrays", len(fx))
