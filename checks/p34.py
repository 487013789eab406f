"""P34: the path of a URL."""
from common import *

EXPLANATION = (
    "PathFromUrl is abstractly interpreted; each search in the text becomes a position with the facts of a search (the character is there and "
    "nowhere between the start of the search and it, or nowhere in the range). On every path the returned piece of the text must follow from "
    "these facts to be the path: it starts at the first slash after the scheme's :// and before any question mark, and ends at the first "
    "question mark or the end. Every range searched or copied must lie inside the text, by the ordering facts of the path.")
ASSUMPTIONS = ["a text with a colon that is followed by fewer than two characters has no scheme (documented by the function's test)"]
RULES = {
    "inside": "only bytes of the text are read",
    "path": "the result is the text from the first slash after :// up to the first question mark or the end, / if there is none, all of it if there is no scheme",
}


class Scan(Client):
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.url = None

    def scan(self, I, st, a, b, fr, node):
        inside(self.ctx, self.w, I, st, self.url, a, b, "searched")


def inside(ctx, w, I, st, url, a, b, what):
    P, N = ('svp', url), ('svn', url)
    for t, why in ((I.le(P, a), "starts before the text"), (I.le(b, add(P, N)), "ends after the text"), (I.le(a, b), "ends before it starts")):
        v = I.truth(st, t)
        known = all(x in (P, N) or x[0] in ('fndoff', 'find') for x, _ in terms_of(sub(b, a)) + terms_of(sub(a, P)))
        ctx.check(True if v is True else False if v is False or known else None, "inside", w, "the range %s %s %s (path %s)" % (show(a), what, why, pathstr(st)))


def terms_of(t):
    return list(t[2]) if t[0] == 'lin' else [] if isc(t) else [(t, 1)]


def facts(st, url):
    """at: [(char, offset)], none: [(char, from, to)] as offsets from the start of the text"""
    P, N = ('svp', url), ('svn', url)
    at, none, odd = [], [], False
    for t, v in st.conds():
        if t[0] != 'found':
            continue
        a = t[1]
        if a[0] == 'fnd':
            lo, hi, ch = sub(a[1], P), sub(a[2], P), a[3]
            pos = add(lo, ('fndoff',) + a[1:])
        elif a[0] == 'find' and a[1] in ('find', 'find_first_of') and a[2] in (url, ('sv', P, N), ('bytes', P, N)):
            lo, hi, ch = a[4], N, a[3]
            pos = a
            if ch[0] == 's' and len(ch[1]) == 1:
                ch = c(ord(ch[1]))
            elif ch[0] == 's' and a[1] == 'find_first_of':
                for x in ch[1]:
                    none.append((ord(x), lo, pos if v else hi))
                continue
        else:
            odd = True
            continue
        if not isc(ch):
            odd = True
            continue
        if v:
            at.append((ch[1], pos))
            none.append((ch[1], lo, pos))
        else:
            none.append((ch[1], lo, hi))
    return at, none, odd


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    fn = ctx.prog.one('spectator::PathFromUrl')
    w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
    url = ('init', ('p', fn.ps[0]["n"]), ())
    cl = Scan(ctx, w)
    cl.url = url
    res, I = runfn(ctx, fn, cl)
    P, N = ('svp', url), ('svn', url)
    n = 0
    for st, fl in res:
        if fl[0] == 'X':
            ctx.bad("inside", w, "an exception escapes (path %s)" % pathstr(st))
            continue
        if fl[0] != 'R':
            continue
        n += 1
        r = fl[1]
        at, none, odd = facts(st, url)
        path = pathstr(st)
        le = lambda a, b: I.truth(st, I.le(a, b)) is True

        def free(ch, a, b):
            """no ch in [a, b)"""
            if le(b, a):
                return True
            iv = [(x, y) for k, x, y in none if k == ch]
            cur = a
            while True:
                if le(b, cur):
                    return True
                nx = [(x, y) for x, y in iv if le(x, cur) and le(cur, y)]
                if not nx:
                    return False
                iv.remove(nx[0])
                cur = nx[0][1]
        empty = I.truth(st, I.le(N, Z)) is True
        Cs = [p for k, p in at if k == 58 and free(58, Z, p)]
        ends = [N] + [p for k, p in at if k == 63]
        if r == ('s', '/'):
            ok = empty or any(free(47, add(C, c(3)), q) and free(63, add(C, c(3)), q) and (q == N or True) for C in Cs for q in ends)
            why = "/ is returned"
        elif r in (url, ('bytes', P, N), ('sv', P, N)):
            ok = empty or free(58, Z, N) or any(le(sub(N, c(2)), C) for C in Cs)
            why = "the whole text is returned"
        elif r[0] in ('bytes', 'sv'):
            p0 = sub(r[1], P)
            q0 = add(p0, r[2])
            inside(ctx, w, I, st, url, r[1], add(r[1], r[2]), "copied")
            eq = lambda a, b: a == b or I.dom.prove_eq0(st, sub(a, b)) or (le(a, b) and le(b, a))
            ok = False
            why = "the text from %s to %s is returned" % (show(p0), show(q0))
            for C in Cs:
                S = add(C, c(3))
                if any(k == 47 and eq(x, p0) for k, x in at) and le(S, p0) and free(47, S, p0) and free(63, S, q0) and (
                        eq(q0, N) or any(k == 63 and eq(x, q0) for k, x in at)):
                    ok = True
        else:
            ctx.und("path", w, "result %s" % show(r))
            continue
        ctx.check(True if ok else None if odd or hidden(st) or unknown_atoms(r, url) else False, "path", w, "%s where that does not follow to be the path (path %s)" % (why, path))
    ctx.need("paths that return", n, 2)


def unknown_atoms(r, url):
    for x in subterms(r):
        if isinstance(x, tuple) and x and x[0] in ('ret', 'call', 'sym', 'lp', 'fld'):
            return True
    return False
