"""P27: percentile buckets."""
from common import *
import ivl

EXPLANATION = (
    "PercentileBucketIndexOf is interpreted over intervals of its 64-bit argument with adaptive splitting (engine/ivl.py) until every "
    "piece has one index: the pieces cover all 2^64 values, so the whole function is known as a staircase, which is compared with the "
    "bucket bounds of the generated table. The tables themselves (constant initialisers) are checked entry by entry. The percentile "
    "meters' Record methods are abstractly interpreted with the registry and the plain meters opaque: on every path the counter that is "
    "looked up must carry exactly the tags of the bucket of the clamped amount.")
ASSUMPTIONS = [
    "min <= max for the range of a percentile meter",
    "the generated tables are those the generators in tools/ produce when built by the host compiler",
]
RULES = {
    "table": "bucket bounds strictly increase from 1 to the largest value, one per bucket; tag tables hold T/D and four hex digits of the index",
    "stairs": "the index is defined for every amount, in range, never decreases and skips no bucket",
    "bucket": "an amount's bucket is the one whose bounds enclose it (the remainder of a power-of-four range that is shorter than its step counts into the next)",
    "bound": "the bound reported for an index is that entry of the table",
    "clamp": "the amount that selects the bucket is the recorded one, limited to the meter's range",
    "counter": "every accepted amount increments exactly one counter, tagged statistic=percentile and with the bucket's tag, once",
    "plain": "every accepted amount is recorded exactly once, unclamped, in the plain meter",
}
MAXI = 2**63 - 1


def strings_of(ctx, tu, init):
    """the string literals of an array initialiser, in order"""
    return [n["v"] for n in ctx.prog.walk(init) if n.get("k") == "Str"]


def run(ctx):
    for r, t in RULES.items():
        ctx.rule(r, t)
    p = ctx.prog
    fn = p.one('spectator::PercentileBucketIndexOf')
    tu = fn.tu
    w = "spectator::PercentileBucketIndexOf (%s:%s)" % (fn.file, fn.line)
    ctx.fn(fn)
    # ---- bounds table: the array GetPercBucketValue reads
    B = None
    for n, g in tu.globals.items():
        t = ivl.table_of(g)
        if t and len(t) > 200 and (B is None or n.endswith('kBucketValues')):
            B = t
    if B is None:
        raise AnalysisBroken("no constant table of bucket bounds in " + tu.src)
    ctx.check(B[0] == 1 and B[-1] == MAXI, "table", "kBucketValues ends", "bounds run from %d to %d" % (B[0], B[-1]))
    for i in range(1, len(B)):
        ctx.check(B[i - 1] < B[i], "table", "kBucketValues", "bounds %d and %d are not increasing: %d, %d" % (i - 1, i, B[i - 1], B[i]))
    ln = p.one('spectator::PercentileBucketsLength')
    try:
        n = ivl.Ivl(p).call(ln, [])
        ctx.check(n == (len(B), len(B)), "table", "PercentileBucketsLength", "%s buckets, %d bounds" % (n, len(B)))
    except ivl.Unsupported as e:
        ctx.und("table", "PercentileBucketsLength", str(e))
    for src, t in sorted(p.tus.items()):
        for name, pre in (('spectator::kTimerTags', 'T'), ('spectator::kDistTags', 'D')):
            g = t.globals.get(name)
            if g is None or not g.get("i"):
                continue
            ss = strings_of(ctx, t, g["i"])
            want = ["%s%04X" % (pre, i) for i in range(len(B))]
            ctx.anchor("tag tables", 1)
            ctx.check(ss == want, "table", "%s in %s" % (name, src), "differs from the specified tags at %s" % [
                (a, b) for a, b in zip(ss, want) if a != b][:3] or "length %d" % len(ss), key="table:" + name)
    # ---- index function
    try:
        for i in range(1, len(B)):          # pieces of one amount at the bounds first
            for a, want in ((B[i - 1], i), (B[i] - 1, i)):
                try:
                    v = ivl.Ivl(p).call(fn, [(a, a)])
                except ivl.Wrong as e:
                    ctx.bad("stairs", w, "undefined for %d: %s" % (a, e))
                    continue
                except ivl.Split:
                    continue
                if a == B[i - 1] or not isinstance(v, tuple) or v[0] != want + 1:
                    ctx.check(v == (want, want), "bucket", w, "amount %d gets bucket %s, specified %d" % (a, v, want))
        cuts = sorted(set(B) | {2**k for k in range(63)} | {1, 5})
        pieces, n, steps = ivl.staircase(p, fn, -2**63, MAXI, cuts)
        ctx.paths += n
        ctx.anchor("intervals interpreted", n)
        prev = None
        for a, b, i in pieces:
            if isinstance(i, tuple):
                ctx.bad("stairs", w, "undefined for %d..%d: %s" % (a, b, i[1]))
                prev = None
                continue
            ctx.check(0 <= i < len(B), "stairs", w, "index %d for %d..%d" % (i, a, b))
            if not 0 <= i < len(B):
                continue
            if prev is not None:
                ctx.check(i == prev + 1, "stairs", w, "the index goes from %d to %d at %d" % (prev, i, a))
            prev = i
            ctx.check(b < B[i] or (i == len(B) - 1), "bucket", w, "amount %d gets bucket %d, whose bound is %d" % (b, i, B[i]))
            if i == 0:
                ctx.check(b < 1, "bucket", w, "amount %d gets bucket 0" % b)
            else:
                lo = B[i - 1]
                pow4 = lo & (lo - 1) == 0 and lo.bit_length() % 2 == 1
                # the last bound has no successor: everything from the bound before the last step on
                ok = a >= lo or (pow4 and lo - a <= max(1, lo // 4 // 3)) or (i == len(B) - 1 and a >= B[i - 1])
                ctx.check(ok, "bucket", w, "amount %d gets bucket %d, which starts at %d" % (a, i, lo))
        ctx.check(prev == len(B) - 1, "stairs", w, "the largest amount gets bucket %s of %d" % (prev, len(B)))
    except ivl.Unsupported as e:
        ctx.und("stairs", w, "cannot be interpreted over intervals: %s" % e)
    # ---- bound of an index
    for q in ('spectator::GetPercBucketValue',):
        for gf in p.bodies(q):
            try:
                for i in range(len(B)):
                    v = ivl.Ivl(p).call(gf, [(i, i)])
                    ctx.check(v == (B[i], B[i]), "bound", q, "index %d gives %s, the table %d" % (i, v, B[i]))
            except (ivl.Unsupported, ivl.Split) as e:
                ctx.und("bound", q, str(e))
    # ---- percentile meters
    for cls, plain, pre, acc in (('spectator::PercentileTimer', 'spectator::Timer', 'spectator::kTimerTags', None),
                                 ('spectator::PercentileDistributionSummary', 'spectator::DistributionSummary', 'spectator::kDistTags', 0)):
        fns = p.bodies(cls + '::Record')
        ctx.need("percentile Record methods", len(fns), 1)
        for fn in fns:
            check_record(ctx, fn, cls, plain, pre, acc)


def check_record(ctx, fn, cls, plain, tags, acc):
    w = "%s::Record (%s:%s)" % (cls, fn.file, fn.line)
    opq = lambda f: (f.rect is not None and f.rect.rec in ('spectator::Registry', plain, 'spectator::Counter')) or f.qn == 'spectator::PercentileBucketIndexOf'
    res, I = runfn(ctx, fn, Rec(opq))
    amt = ('init', ('p', fn.ps[0]["n"] or '0'), ())
    lim = {}
    for c0 in ctx.prog.bodies(cls + '::' + cls.rsplit('::', 1)[-1]):
        if any(t.noref().rec == cls for t in c0.pt):
            continue
        Ic = Interp(ctx.prog, Rec(opq))
        for st, fl in Ic.run(c0):
            for k, nm in enumerate(x["n"] for x in c0.ps):
                for (root, path), v in st.mem.items():
                    if root == ('this', cls) and v == ('init', ('p', nm), ()) and k in (2, 3):
                        lim[k] = path
    if len(lim) != 2:
        ctx.und("clamp", w, "cannot tell where the range is kept")
        return
    lo, hi = (('init', ('this', cls), lim[k]) for k in (2, 3))
    stat, perc = ('intern', ('s', 'statistic')), ('intern', ('s', 'percentile'))
    for st, fl in res:
        path = pathstr(st)
        if fl[0] != 'R':
            continue
        pr = [e for e in ops(st) if e[1].rect is not None and e[1].rect.rec == plain and e[1].name == 'Record']
        cs = [e for e in ops(st) if e[1].name == 'GetCounter']
        inc = [e for e in ops(st) if e[1].rect is not None and e[1].rect.rec == 'spectator::Counter' and not e[1].c]
        ix = [e for e in ops(st) if e[1].qn == 'spectator::PercentileBucketIndexOf']
        for s2, valid in (I.fork(st.clone(), I.le(c(acc), amt)) if acc is not None else [(st, True)]):
            if not valid:
                ctx.check(not pr and not inc, "plain", w, "a negative amount is recorded (path %s)" % path)
                continue
            ctx.check(seen(len(pr) == 1, st), "plain", w, "the plain meter records %d times (path %s)" % (len(pr), path))
            if len(pr) == 1:
                ctx.check(pr[0][3][0] == amt, "plain", w, "the plain meter records %s" % show(pr[0][3][0]))
            ctx.check(seen(len(inc) == 1 and len(cs) == 1, st), "counter", w, "%d counters are looked up and %d increments made (path %s)" % (len(cs), len(inc), path))
            if len(inc) != 1 or len(cs) != 1:
                continue
            ctx.check(inc[0][1].name == 'Increment' or (inc[0][3] and inc[0][3][0] in (c(1), f(1.0))), "counter", w, "the counter grows by %s" % (inc[0][3],))
            ctx.check(inc[0][2] == cs[0][4] or inc[0][2][:1] == ('addr',) and cs[0][4] in set(subterms(inc[0][2])), "counter", w, "another counter is incremented than was looked up")
            a = cs[0][3][0]
            d = dict((k[-1], v) for k, v in a[2]) if a[0] == 'agg' else {}
            tg = d.get('tags_')
            base = ('init', ('this', cls), None)
            pairs = []
            t = tg
            while isinstance(t, tuple) and t and t[0] == 'tags+':
                pairs.append((t[2], t[3]))
                t = t[1]
            pairs = dict(reversed(pairs))
            if tg is None or not (t and t[0] == 'init' and t[1] == ('this', cls)):
                ctx.und("counter", w, "tags not understood: %s" % show(tg or a))
                continue
            ctx.check(pairs.get(stat) == perc, "counter", w, "the counter's statistic is %s" % show(pairs.get(stat, ('s', 'absent'))))
            pv = pairs.get(perc)
            ctx.check(set(pairs) == {stat, perc}, "counter", w, "the counter's added tags are %s" % [show(k) for k in pairs])
            if pv is None:
                continue
            tagof = pv[1] if pv[0] == 'intern' else None
            if tagof is None or tagof[0] != 'init' or tagof[1][0] != 'g' or not tagof[2]:
                ctx.und("counter", w, "bucket tag not understood: %s" % show(pv))
                continue
            ctx.check(tagof[1] == ('g', tags), "counter", w, "the bucket tag is taken from %s" % show(tagof))
            i = [x for x in tagof[2] if isinstance(x, tuple) and x[0] == 'i'][-1][1]
            hit = [e for e in ix if e[4] == i or e[4] == decast(i)]
            ctx.check(True if hit else False if isc(i) or lin_of(i) else None, "counter", w, "the bucket tag is number %s, not the bucket's index" % show(i))
            if not hit:
                continue
            v = hit[0][3][0]
            for s3, big in I.fork(s2.clone(), I.le(add(hi, ONE), amt)):
                if big:
                    want = [hi]
                    s4s = [(s3, None)]
                else:
                    s4s = I.fork(s3, I.le(add(amt, ONE), lo))
                for s4, small in s4s:
                    if not I.assume(s4, I.le(lo, hi), True):
                        continue
                    wv = hi if big else lo if small else amt
                    ctx.check(True if v == wv or I.dom.prove_eq0(s4, sub(v, wv)) else False if v in (amt, lo, hi) or isc(v) or lin_of(v) else None, "clamp", w,
                              "the bucket is that of %s, specified %s (path %s)" % (show(v), show(wv), path))
