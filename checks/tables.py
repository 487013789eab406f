"""Accesses to hash tables of meters on one path: what is looked up, inserted, returned, and in which critical section."""
from common import *

FIND = ('find', 'at', 'operator[]', 'contains', 'count')
INS = ('emplace', 'insert', 'try_emplace')
SET = ('insert_or_assign', 'erase', 'clear', 'swap', 'extract', 'merge', 'rehash')


def last(qn):
    return str(qn).split('::')[-1]


def istable(qn):
    return 'map' in str(qn) and '::' in str(qn)


class Acc:
    __slots__ = ('op', 'table', 'key', 'val', 'ret', 'locks', 'where', 'args')

    def __repr__(self):
        return "%s(%s)" % (self.op, show(self.key) if self.key is not None else '')


def accesses(st):
    """[Acc] in order; .locks is the set of (mutex, acquisition) held"""
    out, held, n = [], {}, 0
    for e in st.events():
        if e[0] == 'lock':
            n += 1
            held[e[1]] = n
        elif e[0] == 'unlock':
            held.pop(e[1], None)
        a = None
        if e[0] == 'call' and istable(e[1]) and e[2] is not None:
            a = (last(e[1]), e[2], e[3] or (), e[4], e[5])
        elif e[0] == 'pcallee' and istable(e[1]) and isinstance(e[2], tuple) and e[2][0] == 'call' and len(e[2]) > 2:
            a = (last(e[1]), e[2][2], e[2][3:], e[2], e[3])
        elif e[0] in ('clear', 'resize', 'pop') and len(e) > 1 and isinstance(e[1], tuple):
            a = (e[0], e[1], (), None, '?')
        if a is None or a[0] not in FIND + INS + SET + ('end', 'cend', 'size', 'empty', 'begin', 'reserve'):
            continue
        x = Acc()
        x.op, x.table, x.args, x.ret, x.where = a
        x.table = x.table[1] if x.table[0] == 'at' else x.table
        x.locks = frozenset(held.items())
        x.key, x.val = None, None
        if x.op in FIND + INS + SET and x.args:
            x.key = x.args[0]
            if x.op in INS + ('insert_or_assign',):
                if len(x.args) >= 2:
                    x.val = x.args[1]
                elif x.key[0] == 'agg':
                    d = dict(x.key[2])
                    x.val = sub_agg(d, 'second', x.key[1])
                    x.key = sub_agg(d, 'first', x.key[1])
                else:
                    x.key = None
        out.append(x)
    return out


def sub_agg(d, field, T):
    """a field of an aggregate as a term"""
    if (field,) in d:
        return d[(field,)]
    r = tuple((p[1:], v) for p, v in d.items() if p and p[0] == field)
    return ('agg', '%s.%s' % (T, field), r) if r else None


def source(t):
    """what an iterator or reference came from: the 'ret'/'call' term of the access"""
    while t is not None:
        if t[0] == 'fld' and t[2] in (('first',),) and t[1][0] in ('ret', 'call'):
            return t[1]
        if t[0] == 'call' and last(t[1]) in ('operator->', 'operator*', 'value', 'key', 'get') and len(t) > 2:
            t = t[2]
            continue
        if t[0] in ('ret', 'call'):
            return t
        return None
    return None


def element(t, acc):
    """(access, path below the mapped value) when t is (part of) a table element reached through an access"""
    path = ()
    if t is not None and t[0] == 'agg' and len(t[2]) == 1 and t[2][0][0] == ():
        t = t[2][0][1]
    if t is not None and t[0] == 'init' and t[1][0] == 'mem':
        path = t[2]
        s = source(t[1][1])
    else:
        s = source(t) if t is not None else None
    if s is None:
        return None
    for a in acc:
        if a.ret == s:
            p = [q for q in path if not (isinstance(q, tuple) and q[0] == 'i')]
            if a.op in ('operator[]', 'at'):
                return a, tuple(p)
            if p and p[0] == 'second':
                return a, tuple(p[1:])
            if t[0] == 'call' and last(t[1]) == 'value':
                return a, ()
            return None
    return None


def present(st, acc, a):
    """does the path know that the key of a lookup was there? True/False/None"""
    conds = dict(st.conds())

    def val(t):
        return conds.get(t, None) if t in conds else (None if ('not', t) not in conds else not conds[('not', t)])
    ends = {x.ret for x in acc if x.op in ('end', 'cend') and x.table == a.table}
    if a.op == 'find':
        ev = [(e[1], e[3], e[4]) for e in st.events() if e[0] == 'call' and last(e[1]) in ('operator!=', 'operator==')]
        ev += [(e[1], e[2][2:], e[2]) for e in st.events() if e[0] == 'pcallee' and last(e[1]) in ('operator!=', 'operator==') and isinstance(e[2], tuple)]
        for qn, vals, ret in ev:
            if len(vals) == 2 and a.ret in vals and (set(vals) & ends):
                v = val(ret)
                if v is not None:
                    return v if last(qn) == 'operator!=' else not v
        for t, v in st.conds():
            if t[0] == 'eq0' and set(lin_of(t[1])[1]) & ends and a.ret in lin_of(t[1])[1]:
                return not v
    if a.op in ('contains', 'count'):
        for t, v in st.conds():
            if t == a.ret:
                return v
            if t[0] == 'eq0' and lin_of(t[1]) == (0, {a.ret: 1}):
                return not v
            if t[0] == 'le0' and set(lin_of(t[1])[1]) == {a.ret}:
                k, d = lin_of(t[1])
                if d[a.ret] == 1 and k == 0:
                    return not v
                if d[a.ret] == -1 and k == 1:
                    return v
    if a.op in INS:
        t = ('fld', a.ret, ('second',))
        v = val(t)
        if v is None:
            for t2, v2 in st.conds():
                if t2[0] == 'eq0' and lin_of(t2[1]) == (0, {t: 1}):
                    v = not v2
        return None if v is None else not v          # second: it was inserted
    return None


def nullelement(st, acc):
    """a path on which a table holds a null pointer: the tables only ever get pointers to meters (rule P10 nonnull)"""
    for t, v in st.conds():
        if v and t[0] == 'eq0' and lin_of(t[1]) is not None:
            k, d = lin_of(t[1])
            if k == 0 and len(d) == 1:
                x = next(iter(d))
                el = element(x, acc)
                if el is not None and el[1] in ((), ('v',)) and el[0].op in ('find', 'at') + INS and present(st, acc, el[0]) is not False:
                    return True
    return False
