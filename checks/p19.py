"""P19: batches, their tasks, and the wait for them."""
from payload import *
import payload
from absint import Frame

EXPLANATION = (
    "The function that sends the measurements is interpreted abstractly, payload writer and HTTP client opaque. The splitting loop is summarised: each iteration must "
    "make one batch from the cursor to the new cursor, which is further along, not past the end and at most a batch size away; the loop ends at the end. The posting "
    "loop must post one task per batch. The task's body is then interpreted from the posted closure: on each of its paths the sequence of buffer, payload, POST, response "
    "and completion operations is compared with the specified one. The sender's own path must construct the completion counter with the number of batches and wait on "
    "it before it looks at the responses. The constructor must give every worker a buffer, and have at least one worker.")
ASSUMPTIONS = ["the thread pool runs every posted task once", "POST and payload writer return (P21, P18)", "fewer than 2^31 batches"]
RULES = {
    "split": "each batch is the measurements from where the last one ended, at least one and at most the batch size",
    "all": "the batches begin with the first measurement and end with the last",
    "post": "every batch is posted to the pool exactly once",
    "capture": "a task holds its own batch",
    "task": "a task writes exactly its batch into its buffer, posts that payload, and records one response with the batch's size",
    "buffer": "a task takes one free buffer under the lock and gives the same one back under the lock",
    "done": "a task signals completion exactly once, after everything else",
    "count": "the completion counter starts with the number of batches",
    "wait": "the sender waits for all tasks before it looks at the responses",
    "workers": "there is at least one worker, and a buffer for each",
    "skip": "nothing is sent only when publishing is disabled or there is nothing to send",
    "success": "the time of the last success is set exactly when a response's status is 2xx",
}
POSTS = ('post', 'dispatch', 'defer')


def ispost(e):
    return e[0] == 'call' and str(e[1]).startswith('asio::') and last(e[1]) in POSTS and any(isinstance(v, tuple) and v and v[0] == 'lam' for v in e[3])


def senders(ctx):
    """the smallest functions of the publisher that both get the measurements and post tasks"""
    P = ctx.prog
    meth = {f.key: f for f in P.fns.values() if f.body is not None and f.rect is not None and f.rect.rec == PUB and not f.lam}
    calls, posts, gets = {}, set(), set()
    for k, f in meth.items():
        cs = set()
        for x in P.walk(f.body):
            if isinstance(x.get('fn'), int):
                g = f.tu.fns[x['fn']]
                cs.add(g.key)
                if g.qn.startswith('asio::') and g.name in POSTS:
                    posts.add(k)
                if g.rect is not None and g.rect.rec == 'spectator::Registry' and g.name == 'Measurements':
                    gets.add(k)
        calls[k] = cs

    def reach(k):
        seen_, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x not in seen_:
                seen_.add(x)
                todo += [y for y in calls.get(x, ()) if y in meth]
        return seen_
    cand = {k for k in meth if reach(k) & posts and reach(k) & gets}
    return [meth[k] for k in sorted(cand) if not (calls[k] & cand)], bool(posts)


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    fns, posts = senders(ctx)
    ctx.need("functions that send the measurements", len(fns) or (0 if not posts else 1), 1)
    if not fns:
        ctx.und("post", PUB, "no function both gets the measurements and posts tasks")
    for fn in fns:
        Send(ctx, fn)
    workers(ctx)


class Send(Run):
    def __init__(self, ctx, fn):
        W = {f.key for f in writers(ctx.prog)}
        self.W = W

        def pred(f):
            if f.key in W or payfn(f):
                return True
            if f.rect is not None and f.rect.rec in ('spectator::HttpClient', 'spectator::Registry'):
                return True
            return f.rect is not None and f.rect.rec == PUB and any('HttpResponse' in T.s for T in f.pt)
        self.ctx, self.fn = ctx, fn
        self.w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        self.res, self.I = runfn(ctx, fn, Rec(pred))
        n = 0
        for st, fl in self.res:
            if fl[0] in ('R', 'N'):
                n += self.path(st)
        ctx.need("paths that post tasks", n, 1) if not any(hidden(s) for s, _ in self.res) else None

    def posts_in(self, lid):
        return [[e for e in after_loop(b, lid)[1:] if ispost(e)] for b in self.I.loops[lid]['backs']]

    def path(self, st):
        ctx, I = self.ctx, self.I
        ev = st.events()
        p = " (path %s)" % pathstr(st, 5)
        top = [e for e in ev if ispost(e)]
        loops = [e[1] for e in ev if e[0] == 'loop']
        pl = [l for l in loops if any(self.posts_in(l))]
        meas = [e for e in ev if e[0] == 'op' and e[1].name == 'Measurements']
        self.meas = [m[4] for m in meas]
        if not pl and not top:
            # nothing is sent on this path
            alts = st.alternatives()
            for cs in alts if alts is not None else [None]:
                if cs is None:
                    ctx.und("skip", self.w, "too many ways to send nothing" + p)
                    continue
                empty = any(t[0] == 'eq0' and v and any(lin_of(t[1]) == (0, {('size', m[4]): q}) for m in meas for q in (1, -1)) or
                            t[0] == 'le0' and v and any(lin_of(t[1]) == (0, {('size', m[4]): 1}) for m in meas) or
                            t[0] == 'le0' and not v and any(lin_of(t[1]) == (1, {('size', m[4]): -1}) for m in meas) for t, v in cs)
                off = any(t[0] == 'call' and last(t[1]) == 'is_enabled' and v is False or t[0] == 'not' and 'is_enabled' in str(t) and v is True for t, v in cs)
                odd = [t for t, v in cs if any(isinstance(z, tuple) and z and z[0] in ('sym', 'hv') for z in subterms(t))]
                ctx.check(True if empty or off else None if hidden(st) or not meas or odd else False, "skip", self.w, "measurements are not sent (path %s)" % [(show(t)[:60], v) for t, v in cs][-5:])
            return 0
        if len(top) == 1 and not pl:
            self.single(st, top[0], meas, p)
            return 1
        if top or len(pl) != 1:
            ctx.und("post", self.w, "tasks are posted at %d places" % (len(top) + len(pl)) + p)
            return 1
        lid = pl[0]
        L = I.loops[lid]
        loc = L['loc']
        # ---- the batches
        T, split = None, None
        cv = self.cover(lid)
        if cv not in (None, '?') and cv[0] == 'all':
            T = cv[1]
            split = T[1] if T[0] == 'lp' and T[1] in I.loops else None
            if split is None:
                ctx.und("split", loc, "how the list of batches is made is not known" + p)
        else:
            cur = self.cursor(lid)
            if cur is not None:
                split = lid
            elif cv is None:
                ctx.bad("post", loc, "not every batch is posted" + p)
            else:
                ctx.und("post", loc, "what the posting loop visits is not known" + p)
        if split is not None:
            self.splitting(split, st, meas, T, p)
        # ---- one task each
        for b, ps in zip(L['backs'], self.posts_in(lid)):
            extra = [x for x in after_loop(b, lid)[1:] if x[0] == 'loop']
            ctx.check(True if len(ps) == 1 else None if extra or hidden_but(b, lid) else False, "post", loc, "an iteration posts %d tasks%s" % (len(ps), p), key="post")
            for e in ps:
                self.task(b, lid, e, T, split)
        for s, fl in L['exits']:
            if fl[0] == 'N' and any(ispost(e) for e in after_loop(s, lid)[1:]):
                ctx.und("post", loc, "tasks are posted on the way out of the loop")
        # ---- counter and wait
        bc = [(i, e) for i, e in enumerate(ev) if e[0] in ('call', 'make') and 'BlockingCounter' in str(e[1]) and last(e[1]) == 'BlockingCounter']
        lp = [i for i, e in enumerate(ev) if e[0] == 'loop' and e[1] == lid][0]
        waits = [i for i, e in enumerate(ev) if e[0] in ('call', 'pcallee') and last(e[1]) in ('Wait', 'wait') and i > lp]
        used = [i for i, e in enumerate(ev) if i > lp and (e[0] == 'op' and any('HttpResponse' in Q.s for Q in e[1].pt) or e[0] == 'rfor' and e[1] in self.respvec)]
        for i, e in enumerate(ev):
            if e[0] == 'loop' and i > lp and any(x[0] == 'op' and any('HttpResponse' in Q.s for Q in x[1].pt) for b in I.loops[e[1]]['backs'] for x in after_loop(b, e[1])[1:]):
                used.append(i)
        if not waits:
            ctx.check(False if not hidden_after(ev[lp + 1:]) and not any(last(x[1]) in ('join', 'wait', 'stop') for x in ev[lp:] if x[0] in ('call', 'pcallee')) else None, "wait", loc, "the sender does not wait for the tasks" + p)
        else:
            ctx.check(not used or min(used) > waits[0], "wait", loc, "responses are looked at before the tasks are waited for" + p)
        if len(bc) != 1:
            ctx.und("count", loc, "%d completion counters" % len(bc) + p)
        else:
            i, e = bc[0]
            n = decast((e[3] if e[0] == 'call' else e[2])[0])
            want = ('size', T) if T is not None else None
            ctx.check(True if want is not None and n == want else None if want is None else False if isc(n) or all(a[0] == 'size' for a in lin_of(n)[1]) else None, "count", e[5] if len(e) > 5 else loc,
                      "the counter starts with %s, there are %s batches" % (show(n)[:80], show(want)[:60] if want else '?') + p)
            ctx.check(i < lp, "count", loc, "the counter is made after the tasks are posted" + p)
        return 1

    def single(self, st, e, meas, p):
        """everything goes out as one batch"""
        ctx, I = self.ctx, self.I
        lam = [v for v in e[3] if isinstance(v, tuple) and v and v[0] == 'lam'][0]
        n0 = len(st.events())
        st = st.clone()
        for s, v in I.call_lam(lam, [], st, Frame(self.fn, 900, None), None):
            for x in s.events()[n0:]:
                if x[0] == 'op' and x[1].key in self.W and len(x[3]) == 3:
                    d = sub(elem(x[3][2]), elem(x[3][1]))
                    ok = prove(I, s, sub(d, ONE)) or any(prove(I, s, sub(d, z)) for z in batchsize(s, d))
                    ctx.check(True if ok else False if any(d == ('size', m[4]) for m in meas) else None, "split", e[5], "a batch of %s measurements is not shown to be within the batch size" % show(d)[:60] + p)
        ctx.und("post", e[5], "one task is posted, not one for each batch" + p)

    # ---- splitting
    def cursor(self, lid):
        """(cell, term at the head) of the iterator a loop moves over the measurements"""
        I, L = self.I, self.I.loops[lid]
        for k in L['W']:
            if k[0] == 'ref':
                continue
            x, x0 = L['head'].mem.get(k), I.raw(L['entry'], *k)
            if x is None or x[0] != 'lp' or x0 is None:
                continue
            if self.overmeas(L, x0) or x0[0] == 'init' and moves(I.loctype.get(k), None):
                return k, x, x0
        return None

    def overmeas(self, L, x0):
        a, _ = base(x0)
        if a is None:
            return False
        C = self.I.raw(L['entry'], a[1], a[2][:-1])
        return C is not None and C in self.meas

    def splitting(self, lid, st, meas, T, p):
        ctx, I = self.ctx, self.I
        L = I.loops[lid]
        loc = L['loc']
        cur = self.cursor(lid)
        if cur is None:
            ctx.und("split", loc, "the splitting loop has no cursor that is understood" + p)
            return
        k, x, x0 = cur
        n = [('size', m[4]) for m in meas]
        a0, off = base(x0)
        vec = I.raw(L['entry'], a0[1], a0[2][:-1]) if a0 is not None else None
        mine = vec is not None and any(vec == m[4] for m in meas)
        first = mine and off == Z
        ctx.check(True if first else False if mine and isc(off) else None, "all", loc, "the first batch starts at %s" % show(x0)[:60] + p)
        end = add(a0, n[0]) if n and mine else None
        for s, fl in L['exits']:
            if fl[0] != 'N':
                ctx.check(None, "all", loc, "the splitting loop is left by %s" % fl[0] + p)
                continue
            if end is None:
                ctx.und("all", loc, "the end of the measurements is not known" + p)
                continue
            s = s.clone()
            if I.assume(s, ('le0', sub(x, end)), True) is False:
                continue
            at = I.dom.prove_eq0(s, sub(x, end)) or I.truth(s, ('eq0', sub(x, end))) is True
            ctx.check(True if at else False, "all", loc, "the loop ends without being shown to be at the end of the measurements (%s)" % [(show(t)[:60], v) for t, v in s.conds()[len(L['head'].conds()):]][-3:] + p)
        for b in L['backs']:
            y = I.raw(b, *k)
            if y is None:
                ctx.und("split", loc, "the cursor is not known" + p)
                continue
            q = " (iteration %s)" % [(show(t)[:60], v) for t, v in b.conds()[len(L['head'].conds()):]][-3:]
            known = lin_of(y) is not None and not any(isinstance(z, tuple) and z and z[0] in ('sym', 'hv', 'ret') and z not in [m[4] for m in meas] and 'GetConfig' not in str(z) for z in subterms(y))
            prog = I.le(add(x, ONE), y)
            if end is not None:
                # induction: not past the end so far (the step is the obligation below), and the loop goes on
                b = b.clone()
                ne = I.truth(b, ('eq0', sub(x, end))) is False
                if I.assume(b, ('le0', sub(add(x, ONE), end) if ne else sub(x, end)), True) is False:
                    continue
            pr = prove(I, b, sub(add(x, ONE), y))
            ctx.check(True if pr else False if known else None, "split", loc, "the next batch (%s) is not shown to begin after this one's start" % show(y)[:60] + q)
            if end is not None:
                ctx.check(True if prove(I, b, sub(y, end)) else False if known else None, "split", loc, "a batch may go past the end of the measurements (%s)" % show(y)[:60] + q)
            bs = batchsize(b, y)
            d = sub(y, x)
            ok = prove(I, b, sub(d, ONE)) or any(prove(I, b, sub(d, z)) for z in bs)
            ctx.check(True if ok else False if known else None, "split", loc, "a batch of %s measurements is not shown to be within the batch size" % show(d)[:60] + q)
            if T is None:
                continue
            # what is put into the list
            v = I.raw(b, T[2], T[3]) if T[0] == 'lp' else None
            n_, val = 0, None
            while v is not None and v[0] == 'vpush':
                n_, val, v = n_ + 1, v[2], v[1]
            if v != T:
                ctx.und("split", loc, "the list of batches is not known" + q)
                continue
            ab = pair(val)
            if n_ != 1 or ab is None:
                ctx.check(False if n_ != 1 else None, "split", loc, "an iteration makes %d batches" % n_ + q)
                continue
            ctx.check(ab == (x, y), "split", loc, "the batch is [%s, %s) but the cursor moves from %s to %s" % (show(ab[0])[:50], show(ab[1])[:50], show(x)[:40], show(y)[:50]) + q)

    # ---- a task
    respvec = ()

    def task(self, b, lid, e, T, split):
        ctx, I = self.ctx, self.I
        L = I.loops[lid]
        lam = [v for v in e[3] if isinstance(v, tuple) and v and v[0] == 'lam'][0]
        where = e[5]
        # captures
        W = {k for k in L['W'] if k[0] != 'ref'}
        mine = {r for (r, _) in b.mem} - {r for (r, _) in L['head'].mem} - {r for (r, _) in L['entry'].mem}
        cur = self.cursor(split) if split == lid else None
        if cur is not None:
            W |= {cur[0]}
        for cp in lam[2]:
            if cp[0] != 'this' and cp[1] == 'ref':
                lv = cp[2]
                plain = [k for k in W if k[0] == lv[1]]
                changed = plain and L['head'].mem.get(plain[0]) is not None and any(I.raw(x, *plain[0]) != L['head'].mem.get(plain[0]) for x in L['backs']) and not self.bytask(plain[0], lam, b)
                if changed or (lv[1] in mine and lv[1][0] in ('v', 't')):
                    ctx.bad("capture", where, "the task refers to a variable of the loop (%s), which is another batch's or gone when the task runs" % show(('addr', lv[1], lv[2])), key="capture")
        st0 = b.clone()
        n0 = len(st0.events())
        if cur is not None:
            ea, eb = cur[1], I.raw(b, *cur[0])
        else:
            i = [v for k in L['W'] if k[0] != 'ref' for v in [L['head'].mem.get(k)] if v is not None and v[0] == 'lp' and isinstance(k[0][-1], str)]
            ea = eb = None
            if T is not None:
                for k in L['W']:
                    if k[0] == 'ref':
                        continue
                    v = L['head'].mem.get(k)
                    bv = I.raw(b, *k)
                    if v is not None and v[0] == 'lp' and bv is not None and sub(bv, v) == ONE:
                        if moves(I.loctype.get(k), I.raw(L['entry'], *k)):
                            lv = I.deref(v)
                            ea, eb = I.raw(b, lv[1], lv[2] + ('first',)), I.raw(b, lv[1], lv[2] + ('second',))
                            continue
                        ea, eb = ('fld', T, (('i', v), 'first')), ('fld', T, (('i', v), 'second'))
        res = I.call_lam(lam, [], st0, Frame(self.fn, 900, None), None)
        ctx.paths += len(res)
        for s, v in res:
            self.taskpath(s, n0, ea, eb, where)

    def bytask(self, key, lam, b):
        """changed by the tasks themselves, not by the loop"""
        return key in self.I.lam_writes(lam, b)

    def taskpath(self, s, n0, ea, eb, where):
        ctx, I = self.ctx, self.I
        ev = s.events()[n0:]
        q = " (path %s)" % pathstr(s, 3)
        hid = any(x[0] == 'pcall' or x[0] == 'loop' or x[0] == 'call' and str(x[1]).startswith(('spectator', '(lambda)')) for x in ev)

        def chk(ok, rule, msg, key=None):
            ctx.check(True if ok else (None if hid else False) if ok is False else None, rule, where, msg + q, key=key or rule)
        held, at = [], []
        for x in ev:
            if x[0] == 'lock':
                held = held + [x[1]]
            elif x[0] == 'unlock':
                held = [h for h in held if h != x[1]]
            at.append(tuple(held))
        wr = [(i, x) for i, x in enumerate(ev) if x[0] == 'op' and x[1].key in self.W]
        po = [(i, x) for i, x in enumerate(ev) if x[0] == 'op' and x[1].rect is not None and x[1].rect.rec == 'spectator::HttpClient' and 'Post' in x[1].name]
        rs = [(i, x) for i, x in enumerate(ev) if x[0] == 'op' and payfn(x[1]) and x[1].name == 'Result']
        pops = [(i, x) for i, x in enumerate(ev) if x[0] == 'pop']
        push = [(i, x) for i, x in enumerate(ev) if x[0] == 'push']
        dec = [(i, x) for i, x in enumerate(ev) if x[0] in ('call', 'pcallee') and last(x[1]) in ('DecrementCount', 'count_down')]
        chk(len(wr) == 1, "task", "the payload is written %d times" % len(wr))
        chk(len(po) == 1, "task", "%d requests are made" % len(po))
        chk(len(dec) == 1 or (None if len(dec) == 0 and not any('Counter' in str(x) for x in ev) and hid else False), "done", "completion is signalled %d times" % len(dec))
        if len(dec) == 1:
            late = [x for i, x in enumerate(ev) if i > dec[0][0] and (x[0] in ('push', 'pop', 'lock', 'op', 'astore'))]
            chk(not late, "done", "%s after completion was signalled" % (late[0][0] if late else ''))
        pay = None
        if len(wr) == 1:
            args = wr[0][1][3]
            pay = args[0]
            its = args[1:]
            if ea is None or len(its) != 2:
                ctx.und("task", where, "which batch a task has is not known" + q)
            else:
                a, b2 = its
                ok = (a, b2) == (ea, eb)
                clear = all(lin_of(t) is not None and t[0] in ('fld', 'lin', 'addr', 'lp', 'init') for t in (a, b2))
                ctx.check(True if ok else False if clear else None, "task", where, "the task writes [%s, %s) but its batch is [%s, %s)" % (show(a)[:60], show(b2)[:60], show(ea)[:60], show(eb)[:60]) + q, key="task:range")
        if len(po) == 1 and len(wr) == 1:
            body = po[0][1][3][-1] if po[0][1][3] else None
            src = [x for i, x in rs if x[4] == body]
            if src:
                chk(src[0][2] == pay, "task", "the request carries another payload than the one written")
                chk([i for i, x in rs if x[4] == body][0] > wr[0][0] and po[0][0] > wr[0][0], "task", "the request is made before the payload is written")
            else:
                ctx.und("task", where, "what the request carries is not known" + q)
        # responses
        ret = po[0][1][4] if po else None
        rp = [(i, x) for i, x in push if ret is not None and any(y == ret or (isinstance(y, tuple) and y and y[0] in ('fld',) and y[1] == ret) for y in subterms(x[2]))]
        chk(len(rp) == 1 if po else False, "task", "%d responses are recorded" % len(rp))
        if len(rp) == 1:
            i, x = rp[0]
            self.respvec = self.respvec + (x[1],)
            ab = pair(x[2])
            if ab is not None and ea is not None:
                n = decast(ab[0])
                ctx.check(True if n == sub(eb, ea) or I.dom.prove_eq0(s, sub(n, sub(eb, ea))) else False if lin_of(n) is not None and (isc(n) or all(t[0] in ('fld', 'lp', 'size', 'init') for t in lin_of(n)[1])) else None, "task", where,
                          "the response is recorded for %s measurements, the batch has %s" % (show(n)[:60], show(sub(eb, ea))[:80]) + q, key="task:size")
            chk(bool(at[i]), "task", "the response is recorded without a lock", key="task:lock")
        # buffer
        bp = [(i, x) for i, x in push if pay is not None and x[2] == pay or (isinstance(x[2], tuple) and x[2][0] == 'vals' and x[2][1:] == (pay,))]
        chk(len(pops) == 1, "buffer", "%d buffers are taken" % len(pops))
        if pay is not None and len(pops) == 1:
            V = pops[0][1][1]
            chk(len(bp) == 1 and bp[0][1][1] == V, "buffer", "the buffer is given back %d times" % len([1 for i, x in bp if x[1] == V]))
            last_ = pay[0] == 'fld' and len(pay[2]) == 1 and isinstance(pay[2][0], tuple) and pay[2][0][0] == 'i'
            ctx.check((True if pay[2][0][1] == sub(('size', pay[1]), ONE) else False) if last_ else None, "buffer", where, "the buffer used (%s) is not the one taken" % show(pay)[:60] + q, key="buffer:which")
            if len(bp) == 1:
                chk(bool(set(at[pops[0][0]]) & set(at[bp[0][0]])), "buffer", "the list of buffers is changed without one common lock", key="buffer:lock")
                if len(po) == 1:
                    chk(bp[0][0] > po[0][0], "buffer", "the buffer is given back before its payload was sent", key="buffer:early")
                chk(pops[0][0] < wr[0][0] if wr else False, "buffer", "the buffer is written before it is taken", key="buffer:late")
        # success
        if ret is not None:
            sx = ('fld', ret, ('status',))
            touched = any(x[0] == 'astore' for x in ev)
            can = statuses(s, sx)
            if can is None:
                ctx.und("success", where, "which statuses take this path is not known" + q)
            else:
                odd = [z for z in can if (200 <= z < 300) != touched]
                ctx.check(True if not odd else None if hid else False, "success", where, "the last success is %sset for a response with status %d" % ("" if touched else "not ", odd[0] if odd else 0) + q, key="success")


def statuses(s, sx):
    """the statuses (of -1..999) for which a path is taken, or None"""
    got = set()
    for cs in s.alternatives() or [None]:
        if cs is None:
            return None
        rel = [(t, v) for t, v in cs if sx in subterms(t)]
        ok = set(range(-1, 1000))
        for t, v in rel:
            g = {z: holds(t, sx, z) for z in ok}
            if None in g.values():
                return None
            ok = {z for z in ok if g[z] == v}
        got |= ok
    return got


def holds(t, sx, z):
    if t[0] == 'not':
        x = holds(t[1], sx, z)
        return None if x is None else not x
    if t[0] not in ('le0', 'eq0') or lin_of(t[1]) is None:
        return None
    k, m = lin_of(t[1])
    for a, q in m.items():
        x = number(a, sx, z)
        if x is None:
            return None
        k += q * x
    return k <= 0 if t[0] == 'le0' else k == 0


def number(a, sx, z):
    a = decast(a)
    if a == sx:
        return z
    if a[0] == 'idiv' and isc(a[2]):
        b = lin_of(a[1])
        n = lin_of(a[2])[0]
        if b is None or not n:
            return None
        x = b[0]
        for y, q in b[1].items():
            y = number(y, sx, z)
            if y is None:
                return None
            x += q * y
        return abs(x) // abs(n) * (1 if (x < 0) == (n < 0) else -1)
    return None


def elem(t):
    if t[0] == 'fld' and t[1][0] == 'vals' and t[2] in (('first',), ('second',)) and len(t[1]) == 3:
        return t[1][1 + (t[2] == ('second',))]
    return t


def batchsize(b, y):
    return {z for z in subterms(('x', y) + tuple(t for t, _ in b.conds())) if isinstance(z, tuple) and z and z[0] in ('init', 'fld') and z[2] and z[2][-1] == 'batch_size'}


def moves(T, x0):
    return T is not None and (T.k == 'ptr' or 'iterator' in T.s) or x0 is not None and base(x0)[0] is not None


def base(x):
    """(address of an array's first element, offset) of a position in it"""
    if x is None or lin_of(x) is None:
        return None, None
    k, m = lin_of(x)
    a = [t for t, q in m.items() if t[0] == 'addr' and t[2] and t[2][-1] == ('i', Z) and q == 1]
    if len(a) == 1:
        return a[0], sub(x, a[0])
    if x[0] == 'addr' and x[2] and isinstance(x[2][-1], tuple) and x[2][-1][0] == 'i':
        return ('addr', x[1], x[2][:-1] + (('i', Z),)), x[2][-1][1]
    return None, None


def hidden_after(ev):
    for x in ev:
        if x[0] == 'pcall' or x[0] == 'call' and (str(x[1]) == '(lambda)' or str(x[1]).startswith(('spectator', 'absl::', 'asio::'))) and any(isinstance(v, tuple) and v and v[0] in ('addr', 'lam') for v in x[3] or ()):
            return True
    return False


def hidden_but(b, lid):
    return any(x[0] == 'pcall' or x[0] == 'call' and str(x[1]) == '(lambda)' for x in after_loop(b, lid)[1:])


def prove(I, st, lin):
    return bool(I.dom.prove_le0(st, lin)) or I.truth(st, ('le0', lin)) is True


def pair(val):
    if val is None:
        return None
    if val[0] == 'vals' and len(val) == 3:
        return val[1], val[2]
    if val[0] == 'vals' and len(val) == 2:
        return pair(val[1])
    if val[0] == 'agg':
        d = dict(val[2])
        if ('first',) in d and ('second',) in d:
            return d[('first',)], d[('second',)]
        return None
    return None


def workers(ctx):
    P = ctx.prog
    cons = [f for f in P.bodies(PUB + '::Publisher') if f.ctor and not (f.pt and f.pt[0].noref().rec == PUB)]
    ctx.need("publisher constructors", len(cons), 1)
    for fn in cons:
        w = "%s (%s:%s)" % (fn.qn, fn.file, fn.line)
        res, I = runfn(ctx, fn, Rec(lambda f: False))
        for st, fl in res:
            if fl[0] == 'X':
                continue
            pools = [e for e in st.events() if e[0] in ('call', 'make') and 'thread_pool' in str(e[1]) and last(e[1]) in ('thread_pool', 'static_thread_pool')]
            if len(pools) != 1:
                ctx.und("workers", w, "%d thread pools" % len(pools))
                continue
            args = pools[0][3] if pools[0][0] == 'call' else pools[0][2]
            n = decast(args[0]) if args else None
            if n is None:
                ctx.und("workers", w, "the number of workers is not given")
                continue
            hc = n == ('call', 'std::thread::hardware_concurrency')
            lo = prove(I, st, sub(ONE, n))
            ctx.check(True if lo else False if hc or isc(n) or 'hardware_concurrency' in str(n) else None, "workers", w, "there may be no worker: the pool has %s threads (path %s)" % (show(n), pathstr(st, 3)))
            vecs = {p: v for (r, p), v in st.mem.items() if r == ('this', PUB) and v[0] in ('vecn', 'vec0')}
            m = None
            for p, v in vecs.items():
                T = ctx.prog.record(PUB).ft.get(p[0]) if len(p) == 1 else None
                if T is not None and 'SmilePayload' in T.s:
                    m = v[1] if v[0] == 'vecn' else Z
            if m is None:
                ctx.und("workers", w, "the buffers are not recognised")
                continue
            ctx.check(True if decast(m) == n or prove(I, st, sub(n, decast(m))) else False if isc(sub(n, decast(m))) or isc(m) or isc(n) else None, "workers", w, "%s buffers for %s workers" % (show(m), show(n)))
