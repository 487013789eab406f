"""P14: no update is lost between updates and reports running at the same time."""
from meters import *

EXPLANATION = (
    "Every access of every method of the meter classes to an atomic cell is derived by path-partitioned abstract interpretation, in "
    "program order per path and with every load yielding a fresh value (another thread may have written in between). On every path: a "
    "value written must not have been computed from an earlier separate read of the same cell, a compare-exchange must be computed from "
    "or ordered against the value it compares, a failed compare-exchange must be retried, a report must take and reset an accumulated "
    "cell in one operation, and a difference reported and the baseline kept must come from one reading.")
ASSUMPTIONS = [
    "cells are std::atomic objects or lie under the class's mutex (P13)",
    "one thread reports at a time (the publisher's), any number of threads update",
]
RULES = {
    "rmw": "a store's value does not depend on an earlier separate read of the same cell",
    "cas": "a compare-exchange writes a value computed from, or ordered against, the value it compares",
    "retry": "no path ends with a failed compare-exchange as its last word on a cell",
    "take": "an accumulated cell is emptied by the same atomic operation that reads what is reported",
    "baseline": "the reported difference and the baseline kept come from the same reading of the value",
    "section": "state under a mutex is read and written in one critical section of a method",
    "shared": "a cell written by updates and touched by reports is atomic or under the class's mutex",
}


def atoms(t):
    return {x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'sym'}


def same_value(t, v, own, new):
    """a store skipped when the cell already holds the value loses nothing"""
    return t[0] in ('fc', 'eq0') and new in set(subterms(t)) and any(a in set(subterms(t)) for a in own) and (
        t[0] == 'eq0' or t[3] in ('=', '<>', '<>?'))


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    n = 0
    for name, cls in CLASSES.items():
        M = Meter(ctx, cls)
        n += check(ctx, M, name)
    ctx.need("atomic operations", n, 20)


def check(ctx, M, name):
    I = M.I
    n = 0
    # cells that updates accumulate into (anything but a plain overwrite), seen over all update methods
    accum, written_by_update = set(), set()
    for fn in M.methods:
        if fn.ctor or fn.c:
            continue
        for p in M.paths(fn):
            for op in p.ops:
                if op[1] in ('fadd', 'cas'):
                    accum.add(op[0])
                if op[1] != 'load':
                    written_by_update.add(op[0])
    for fn in M.methods:
        if fn.ctor:
            continue
        w = M.where(fn)
        for p in M.paths(fn):
            ctx.functions.add(fn.qn)
            evs = p.st.events()
            rd = {}          # atom -> (loc, index)
            last_cas = {}
            seen = []
            for op in p.ops:
                loc, k = op[0], op[1]
                n += 1
                lname = '.'.join(map(str, loc))
                if k == 'load':
                    rd[op[2]] = loc
                elif k == 'store':
                    dep = [a for a in atoms(op[2]) if rd.get(a) == loc]
                    ctx.check(not dep, "rmw", w, "%s is stored a value computed from an earlier separate read of it (%s), losing what is written in between" % (lname, op[3]))
                    if fn.c and loc in written_by_update:
                        ctx.bad("take", w, "%s, which updates write, is overwritten by the report at %s: an update since it was read is lost" % (lname, op[3]))
                    if not fn.c:
                        # check then act: the store happens or not depending on an earlier read of the cell
                        own = [a for a, l in rd.items() if l == loc]
                        gate = [t for t, v in p.st.conds() if any(a in set(subterms(t)) for a in own) and not same_value(t, v, own, op[2])]
                        ctx.check(not gate, "rmw", w, "%s is overwritten at %s because of an earlier separate read of it (%s): what is written in between is lost" % (
                            lname, op[3], [show(t) for t in gate]))
                elif k == 'xchg':
                    dep = [a for a in atoms(op[2]) if rd.get(a) == loc]
                    ctx.check(not dep, "rmw", w, "%s is exchanged for a value computed from an earlier read of it (%s)" % (lname, op[4]))
                    ctx.ok("take", w)
                    rd[op[3]] = loc
                elif k == 'cas':
                    exp, new = op[2], op[3]
                    others = [a for a in atoms(new) if rd.get(a) == loc and a != exp]
                    if others:
                        ctx.bad("cas", w, "the value written to %s at %s is computed from a reading other than the one compared" % (lname, op[4]))
                    elif exp in set(subterms(new)) or isc(new) or new[0] == 'f':
                        ctx.ok("cas", w)
                    else:
                        fl = not (new in I.dom.ranges or new[0] in ('lin', 'c'))
                        r = I.truth(p.st, I.fcmp(new, exp, '=>') if fl else I.le(exp, new))
                        r2 = I.truth(p.st, I.fcmp(new, exp, '<=') if fl else I.le(new, exp))
                        ctx.check(True if r is True or r2 is True else False, "cas", w,
                                  "%s replaces the value compared at %s without being computed from it or ordered against it" % (show(new), op[4]))
                    rd[exp] = loc
                elif k == 'fadd':
                    dep = [a for a in atoms(op[2]) if rd.get(a) == loc]
                    rd[op[3]] = loc
                    if dep and not fn.c:
                        ctx.bad("rmw", w, "%s is changed by an amount computed from an earlier read of it (%s)" % (lname, op[4]))
                    else:
                        ctx.ok("rmw", w)
            # a failed compare-exchange that nothing follows
            for i, e in enumerate(evs):
                if e[0] == 'acasfail':
                    later = [x for x in evs[i + 1:] if x[0] in ('acas', 'aload', 'axchg', 'afadd', 'astore', 'loop') and (x[0] == 'loop' or x[1] == e[1])]
                    ctx.check(bool(later), "retry", w, "a failed compare-exchange at %s is not retried: its update is lost" % e[3])
            # one reading for difference and baseline
            if fn.name == 'Measure':
                raw = [e for e in evs if e[0] == 'push']
                for op in p.ops:
                    if op[1] in ('store', 'xchg') and op[0] not in accum:
                        v = op[2]
                        src = rd.get(v)
                        if src is None or src == op[0]:
                            continue
                        for e in raw:
                            val = M.push_parts((e[1], e[2], e[3]))
                            if val is None:
                                continue
                            other = [a for a in atoms(val[2]) if rd.get(a) == src and a != v]
                            ctx.check(not other, "baseline", w, "the baseline kept at %s is another reading of %s than the one the reported difference uses" % (
                                op[3], '.'.join(map(str, src))))
            locks = [e for e in evs if e[0] == 'lock' and e[1][0] == 'addr' and e[1][1] == ('this', M.cls)]
            plain = [l for l in p.fin if not any(o[0] == l for o in p.ops) and p.fin[l] != ('init', ('this', M.cls), l)]
            if locks:
                ms = {}
                for e in locks:
                    ms[e[1]] = ms.get(e[1], 0) + 1
                ctx.check(all(x == 1 for x in ms.values()), "section", w, "the state under %s is used in %s separate critical sections" % (
                    [show(m) for m in ms], list(ms.values())))
    return n
