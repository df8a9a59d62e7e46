"""Functional contracts of the sorted-list methods."""
import os
from .core import *
from .listdom import *
from .lists import pelem_x
from .builtins_ import ABC_OF

N0, LEN0 = mkN(0), mkLEN(0)
ALL = (V(0, ZERO, LEN0),)
VAL = Sym(('arg', 'value'))
IT = Sym(('arg', 'iterable'))


def value_is(x):
    def f(d, st, v):
        r = val_cmp(st, v, x)
        if r is True:
            return OK, ''
        if isinstance(v, C) != isinstance(x, C) and (isinstance(v, Lin) or isinstance(x, Lin)):
            for a, b in ((v, x), (x, v)):
                if isinstance(a, C) and isinstance(a.v, bool) and isinstance(b, Lin):
                    if st.eq(b, int(a.v)):
                        return OK, ''
        return (UNK if r is None else BAD), 'returns %s where %s is due' % (show(v), show(x))
    return f


def int_is(x):
    return value_is(L(x))


def truth_is(b):
    def f(d, st, v):
        if isinstance(v, C):
            return (OK if bool(v.v) == b else BAD), 'returns %s' % show(v)
        if isinstance(v, Lin):
            if st.ne(v, ) if False else st.facts.ne(v):
                return (OK if b else BAD), 'returns %s' % show(v)
            if st.eq(v):
                return (BAD if b else OK), 'returns %s' % show(v)
        return UNK, 'returns %s' % show(v)
    return f


def is_none(d, st, v):
    return (OK if v == NONE else (UNK if isinstance(v, Sym) else BAD)), 'returns %s' % show(v)


def any_result(d, st, v):
    return OK, ''


def seq_result(want, kinds):
    def f(d, st, v):
        if isinstance(v, Tup):
            seq, k = tuple(('c', x) for x in v.items), 'tuple'
        elif isinstance(v, Ref) and isinstance(st.o(v), ListO):
            seq, k = st.o(v).seq, st.o(v).kind
        elif isinstance(v, Ref) and isinstance(st.o(v), ItO):
            seq, k = st.o(v).seq, 'it'
        else:
            return (UNK if isinstance(v, (Sym, Ref)) else BAD), 'returns %s' % show(v)
        r, s2 = seq_cmp(st, seq, want)
        if r == 'eq':
            if k not in kinds:
                return BAD, 'returns a %s' % k
            return OK, ''
        return (BAD if r == 'ne' else UNK), 'yields %s where %s is due' % (show(norm(s2, seq)), show(norm(s2, want)))
    return f


def one(exp):
    return lambda d, ip, s: [(s, exp)]


# ---------------------------------------------------------------- helpers

def firsts(d, ip, st):
    """Register the first-match position of VAL in a keyed list."""
    if d.keyed:
        ip.firsts = [(0, VAL.t, None)]
        ip.first_axioms(st, 0, VAL.t, None)
        c = A('cnt', 0, VAL.t, d.pr(VAL.t)) - A('cnt', 0, VAL.t, d.pl(VAL.t))
        st.a_ge(c)
    return None


FF = A('first', 0, VAL.t, Lin(0))


def present(d, s):
    """Fork on presence of VAL."""
    if not d.keyed:
        return fork_ge(s, d.pr(VAL.t) - d.pl(VAL.t) - 1)
    return fork_ge(s, d.pr(VAL.t) - FF - 1)


def removed_one(d, st, cont):
    """Content is the entry content minus one value equal to VAL."""
    if len(cont) == 0:
        pos = ZERO
    elif len(cont) == 1 and cont[0][0] == 'v' and cont[0][1] == 0:
        p = cont[0]
        if p[2] == ZERO or st.eq(p[2], 0):
            pos = p[3]
        else:
            pos = p[2] - 1
    elif len(cont) == 2 and cont[0][0] == cont[1][0] == 'v' and cont[0][1] == cont[1][1] == 0:
        pos = cont[0][3]
    else:
        return (UNK if has_unknown(cont) else BAD), 'content %s' % show(cont)
    want = (V(0, ZERO, pos), V(0, pos + 1, LEN0))
    v, s2 = seq_cmp(st, cont, want)
    if v != 'eq':
        return (BAD if v == 'ne' else UNK), 'content %s' % show(cont)
    if not d.keyed:
        ok = st.ge(pos - d.pl(VAL.t)) and st.ge(d.pr(VAL.t) - 1 - pos)
        return (OK if ok else BAD), 'removes the value at %s' % show(pos)
    for t, b in st.facts.bools:
        if t[0] == 'veq' and t[3] == VAL.t and st.eq(t[2], pos):
            return (OK if b else BAD), 'removes the value at %s' % show(pos)
    if st.eq(pos, FF) and st.ge(d.pr(VAL.t) - 1 - pos):
        return OK, ''
    return BAD, 'removes the value at %s, which need not equal the argument' % show(pos)


def sp_add(d, ip, s):
    r = d.pr(VAL.t)
    return [(s, Exp(content=(V(0, ZERO, r), ('c', VAL), V(0, r, LEN0)), result=is_none))]


def sp_contains(d, ip, s):
    return [(t, Exp(result=truth_is(b))) for t, b in present(d, s)]


def sp_discard(d, ip, s):
    return [(t, Exp(content=removed_one, result=is_none) if b else Exp(result=is_none)) for t, b in present(d, s)]


def sp_remove(d, ip, s):
    return [(t, Exp(content=removed_one, result=is_none) if b else Exp(exc='ValueError')) for t, b in present(d, s)]


def sp_count(d, ip, s):
    if not d.keyed:
        return [(s, Exp(result=int_is(d.pr(VAL.t) - d.pl(VAL.t))))]
    c = A('cnt', 0, VAL.t, d.pr(VAL.t)) - A('cnt', 0, VAL.t, d.pl(VAL.t))

    def res(d_, st, v):
        if isinstance(v, Lin) and ip.eq_cong(st.copy(), v - c):
            return OK, ''
        return int_is(c)(d_, st, v)
    return [(s, Exp(result=res))]


def clamp(s, x, n, dflt):
    """start/stop normalisation of index()."""
    if x is None:
        return [(s, dflt)]
    out = []
    for s2, nn in fork_ge(s, x):
        y = x if nn else x + n
        for s3, p in fork_ge(s2, y):
            if not p:
                out.append((s3, ZERO))
                continue
            for s4, big in fork_ge(s3, y - n):
                out.append((s4, n if big else y))
    return out


def known_matches(sts, ff, s0):
    """Relate a first-match position to the comparisons made on the path."""
    for t, val in sts[0].facts.bools:
        if t[0] != 'veq' or t[1] != 0 or t[3] != VAL.t:
            continue
        nxt = []
        for s in sts:
            for s2, ge in fork_ge(s, t[2] - s0):
                if not ge or (s2.a_ge(t[2] - ff) if val else s2.a_ne(t[2] - ff)):
                    nxt.append(s2)
        sts = nxt
        if not sts:
            break
    return sts


def sp_index(start, stop):
    def f(d, ip, s):
        out = []
        for s1, a in clamp(s, start, LEN0, ZERO):
            for s2, b in clamp(s1, stop, LEN0, LEN0):
                for s3, some in fork_ge(s2, b - a - 1):
                    if not some:
                        out.append((s3, Exp(exc='ValueError')))
                        continue
                    if not d.keyed:
                        pl, pr = d.pl(VAL.t), d.pr(VAL.t)
                        for s4, ge in fork_ge(s3, pl - a):
                            x = pl if ge else a
                            for s5, in1 in fork_ge(s4, pr - x - 1):
                                for s6, in2 in fork_ge(s5, b - x - 1):
                                    out.append((s6, Exp(result=int_is(x)) if in1 and in2 else Exp(exc='ValueError')))
                    else:
                        x = FF if a == ZERO or start is None else A('first', 0, VAL.t, a)
                        sts = [s3]
                        if a != ZERO and start is not None:
                            ip.first_axioms(s3, 0, VAL.t, a)
                            sts = known_matches(sts, x, a)
                        for s4 in sts:
                            for s5, in1 in fork_ge(s4, d.pr(VAL.t) - x - 1):
                                for s6, in2 in fork_ge(s5, b - x - 1):
                                    out.append((s6, Exp(result=int_is(x)) if in1 and in2 else Exp(exc='ValueError')))
        return out
    return f


def sp_rank(side, term):
    return lambda d, ip, s: [(s, Exp(result=int_is(A('pos', 0, 0, side, term(d)))))]


def sp_irange(lo, hi, inc, rev, term):
    """lo/hi: terms or None."""
    def f(d, ip, s):
        a = ZERO if lo is None else A('pos', 0, 0, 'l' if inc[0] else 'r', term(d, lo))
        b = LEN0 if hi is None else A('pos', 0, 0, 'r' if inc[1] else 'l', term(d, hi))
        s.a_ge(a)
        s.a_ge(LEN0 - b)
        out = []
        for s2, some in fork_ge(s, b - a - 1):
            out.append((s2, Exp(result=seq_result((V(0, a, b, 'v', -1 if rev else 1),) if some else (), ('it',)))))
        return out
    return f


def sp_islice(a, b, rev):
    def f(d, ip, s):
        out = []
        for s2, lo, hi in ip.norm_slice(s, a, b, LEN0):
            out.append((s2, Exp(result=seq_result((V(0, lo, hi, 'v', -1 if rev else 1),), ('it',)))))
        return out
    return f


def with_pos(i, k):
    def f(d, ip, s):
        out = []
        for s2, nn in fork_ge(s, i):
            j = i if nn else i + LEN0
            for s3, ok in (fork_ge(s2, LEN0 - 1 - j) if nn else fork_ge(s2, j)):
                out.append((s3, k(d, j) if ok else Exp(exc='IndexError')))
        return out
    return f


def sp_getitem(i):
    return with_pos(i, lambda d, j: Exp(result=value_is(at(0, j))))


def sp_pop(i):
    return with_pos(i, lambda d, j: Exp(content=(V(0, ZERO, j), V(0, j + 1, LEN0)), result=value_is(at(0, j))))


def sp_delitem(i):
    return with_pos(i, lambda d, j: Exp(content=(V(0, ZERO, j), V(0, j + 1, LEN0)), result=is_none))


def slice_parts(ip, s, sl):
    """[(state, a, b, step)] clamped python slice."""
    out = []
    for s2, t in ip.slice_indices(s, sl, LEN0):
        out.append((s2,) + t.items)
    return out


def sp_getslice(sl):
    def f(d, ip, s):
        out = []
        for s2, a, b, c in slice_parts(ip, s, sl):
            a, b, c = L(a), L(b), L(c)
            if c == Lin(1):
                for s3, some in fork_ge(s2, b - a - 1):
                    out.append((s3, Exp(result=seq_result((V(0, a, b),) if some else (), ('list',)))))
            elif c == Lin(-1):
                for s3, some in fork_ge(s2, a - b - 1):
                    out.append((s3, Exp(result=seq_result((V(0, b + 1, a + 1, 'v', -1),) if some else (), ('list',)))))
            else:
                for s3, pos in fork_ge(s2, c - 1):
                    for s4, e in fork_ge(s3, (b - a - 1) if pos else (a - b - 1)):
                        if not e:
                            out.append((s4, Exp(result=seq_result((), ('list',)))))
                        else:
                            out.append((s4, Exp(result=seq_result((('stp', 0, a, b, c, 'v'),), ('list',)))))
        return out
    return f


def minus_is(a, b, c):
    def f(d, st, cont):
        a_, b_, c_ = a, b, c
        if len(cont) == 1 and cont[0][0] == 'minus' and cont[0][1] == 0:
            _, _, x, y, z = cont[0]
            if st.eq(x, a_) and st.eq(y, b_) and st.eq(z, c_):
                return OK, ''
            # the same positions from the other end
            if not has_unknown(cont) and st.eq(z, c_):
                return BAD, 'deletes positions %s:%s:%s where %s:%s:%s is due' % tuple(map(show, (x, y, z, a_, b_, c_)))
            return UNK, 'deletes %s' % show(cont)
        if len(cont) == 1 and cont[0][0] == 'minusasc' and cont[0][1] == 0:
            return BAD, 'deletes in ascending order: later positions have shifted'
        if len(cont) == 1 and cont[0][0] == 'v' and cont[0][1] == 0 and cont[0][2] == ZERO and st.eq(cont[0][3], LEN0):
            # nothing deleted
            return BAD, 'deletes nothing'
        return UNK, 'content %s' % show(cont)
    return f


def sp_delslice(sl):
    def f(d, ip, s):
        out = []
        for s2, a, b, c in slice_parts(ip, s, sl):
            a, b, c = L(a), L(b), L(c)
            if c == Lin(1):
                for s3, some in fork_ge(s2, b - a - 1):
                    out.append((s3, Exp(content=(V(0, ZERO, a), V(0, b, LEN0)) if some else ALL, result=is_none)))
            else:
                for s3, pos in fork_ge(s2, c - 1):
                    for s4, e in fork_ge(s3, (b - a - 1) if pos else (a - b - 1)):
                        if not e:
                            out.append((s4, Exp(content=ALL, result=is_none)))
                            continue
                        for s5, one_ in (fork_eq(s4, c - 1) if pos else fork_eq(s4, c + 1)):
                            if one_ and pos:
                                out.append((s5, Exp(content=(V(0, ZERO, a), V(0, b, LEN0)), result=is_none)))
                            elif one_:
                                out.append((s5, Exp(content=(V(0, ZERO, b + 1), V(0, a + 1, LEN0)), result=is_none)))
                            else:
                                out.append((s5, Exp(content=minus_is(a, b, c), result=is_none)))
        return out
    return f


def merged(extra):
    return lambda d: (('sorted', ALL + extra, EPKEY[0], False),)


def grown(d, st, cont):
    """After a failed bulk operation: nothing stored before is lost."""
    if any(p[0] == 'super' and p[1] == 0 for p in cont):
        return OK, ''
    fl = []
    for p in cont:
        if p[0] == 'sorted':
            fl.extend(p[1])
        else:
            fl.append(p)
    pos = ZERO
    for p in fl:
        if p[0] == 'v' and p[1] == 0 and p[5] == 1 and st.eq(p[2], pos):
            pos = p[3]
    if st.eq(pos, LEN0):
        return OK, ''
    v, _ = seq_cmp(st, cont, ALL)
    if v == 'eq':
        return OK, ''
    if has_unknown(cont) or v is None:
        return UNK, 'content %s' % show(cont)
    return BAD, 'stored values are lost: %s' % show(cont)


def sp_update(d, ip, s):
    return [(s, Exp(content=merged((('o', IT.t, 0),))(d), result=is_none))]


def sp_new(extra=None, rep=None):
    def f(d, ip, s):
        if rep is not None:
            out = []
            for s2, pos in fork_ge(s, rep - 1):
                w = (('sorted', (('rep', ALL, rep),), EPKEY[0], False),) if pos else ()
                out.append((s2, Exp(result=lambda d_, st, v, w=w: d_.new_instance(ip, st, v, w))))
            return out
        w = ALL if extra is None else merged(extra)(d)
        return [(s, Exp(result=lambda d_, st, v: d_.new_instance(ip, st, v, w)))]
    return f


def is_self(d, st, v):
    return (OK if v == d.selfref else (UNK if isinstance(v, Sym) else BAD)), 'returns %s, not the container itself' % show(v)


def sp_iadd(d, ip, s):
    return [(s, Exp(content=merged((('o', IT.t, 0),))(d), result=is_self))]


def sp_imul(n):
    def f(d, ip, s):
        out = []
        for s2, pos in fork_ge(s, n - 1):
            out.append((s2, Exp(content=(('sorted', (('rep', ALL, n),), EPKEY[0], False),) if pos else (), result=is_self)))
        return out
    return f


OTHER = Sym(('arg', 'other'))


def sp_cmp(op):
    def f(d, ip, s):
        isseq = None
        above = {'object', 'abc.Iterable', 'abc.Sized', 'abc.Collection', 'abc.Reversible', 'abc.Container', 'abc.Sequence'}
        for t, b in s.facts.bools:
            if t == ('none', OTHER.t) and b:
                isseq = False
            if t[0] == 'is' and ('typeof', OTHER.t) in t and b:
                ks = [ip.implied(y.name) for y in t if isinstance(y, (Bi, Cls, Dyn))]
                isseq = 'abc.Sequence' in ks[0] if ks else isseq
            if t[0] == 'isinst' and t[1] == OTHER.t:
                if '?' in t[2]:
                    return [(s, Exp(result=lambda d_, st, v: (UNK, 'other type test')))]
                if b and all('abc.Sequence' in ip.implied(n) for n in t[2]):
                    isseq = True
                elif b and all(n in ABC_OF and 'abc.Sequence' not in ip.implied(n) for n in t[2]):
                    isseq = False
                elif not b and above & set(t[2]):
                    isseq = False
        if isseq is None:
            out = []
            t = s.copy()
            t.a_bool(('isinst', OTHER.t, ('abc.Sequence',)), False)
            s.a_bool(('isinst', OTHER.t, ('abc.Sequence',)), True)
            return f(d, ip, t) + f(d, ip, s)
        if not isseq:
            return [(s, Exp(result=value_is(NOTIMPL)))]
        lo = A('len', ('o', OTHER.t, 0))
        mi = A('mis', 0, OTHER.t)
        s.a_ge(mi)
        out = []
        import operator
        for s1, eq in fork_eq(s, LEN0 - lo):
            if not eq and op in ('eq', 'ne'):
                out.append((s1, Exp(result=value_is(B(op == 'ne')))))
                continue
            for s2, ge in fork_ge(s1, LEN0 - lo):
                m = lo if ge else LEN0
                for s3, same in fork_ge(s2, mi - m):
                    if same:
                        d_ = 0 if eq else (1 if ge else -1)
                        out.append((s3, Exp(result=value_is(B(getattr(operator, op)(d_, 0))))))
                    elif op in ('eq', 'ne'):
                        out.append((s3, Exp(result=truth_or_cmp(op, mi))))
                    else:
                        out.append((s3, Exp(result=value_is(Sym(('cmp', op, ('at', 0, mi), ('item', OTHER.t, mi)))))))
        return out
    return f


def truth_or_cmp(op, mi):
    def f(d, st, v):
        if v == B(op == 'ne'):
            return OK, ''
        r = val_cmp(st, v, Sym(('cmp', op, ('at', 0, mi), ('item', OTHER.t, mi))))
        if r is True:
            return OK, ''
        return (UNK if r is None else BAD), 'returns %s' % show(v)
    return f


def sp_repr(d, ip, s):
    def chk(d_, st, v):
        if not (isinstance(v, Sym) and v.t[0] == 'str'):
            return (BAD if isinstance(v, C) else UNK), 'repr is %s' % show(v)
        parts = [p for p in v.t[1]]
        exp = [('clsname',), '(', ('list',)] + ([', key=', ('key',)] if d_.keyed else []) + [')']
        got = []
        for p in parts:
            if isinstance(p, str):
                got.append(p)
            elif p[0] == 'clsname':
                if isinstance(p[1], Cls):
                    return BAD, 'repr names a fixed class'
                got.append(('clsname',))
            elif p[0] == 'repr' and isinstance(p[1], tuple) and p[1] and p[1][0] == 'list':
                r, _ = seq_cmp(st, p[1][1], ALL)
                got.append(('list',) if r == 'eq' else ('list', r))
            elif p[0] == 'repr' and p[1] == KEY:
                got.append(('key',))
            else:
                got.append(p)
        if got == exp:
            return OK, ''
        if has_unknown(v):
            return UNK, 'repr'
        return BAD, 'repr is built from %s' % show(v)
    return [(s, Exp(result=chk))]


def sp_reduce(d, ip, s):
    def chk(d_, st, v):
        if not isinstance(v, Tup) or len(v.items) != 2 or not isinstance(v.items[1], Tup):
            return UNK, 'reduces to %s' % show(v)
        f, a = v.items[0], v.items[1].items
        if not (isinstance(f, Dyn) and f.name == d_.cls):
            return (BAD if isinstance(f, (Cls, Dyn)) else UNK), 'reduces to a call of %s' % show(f)
        if len(a) != (2 if d_.keyed else 1):
            return BAD, 'reduces to %d arguments' % len(a)
        if d_.keyed and a[1] != KEY:
            return BAD, 'the key is not pickled'
        q = ip.seq_of(st, a[0]) if isinstance(a[0], (Ref, Tup)) else None
        if q is None:
            return UNK, 'values of the pickle'
        r, _ = seq_cmp(st, q, ALL)
        return (OK if r == 'eq' else BAD if r == 'ne' else UNK), 'pickled values %s' % show(q)
    return [(s, Exp(result=chk))]


def nothing(d, ip, s):
    return [(s, Exp(exc='NotImplementedError'))]


def sp_loc(p, i):
    return lambda d, ip, s: [(s, Exp(result=int_is(mkG(0, p) + i)))]


def sp_pos(i):
    def k(d, j):
        def chk(d_, st, v):
            if not isinstance(v, Tup) or len(v.items) != 2:
                return UNK, 'returns %s' % show(v)
            p, o = v.items
            if not isinstance(p, Lin) or not isinstance(o, Lin):
                return UNK, 'returns %s' % show(v)
            if has_unknown(p) or has_unknown(o):
                return UNK, 'returns %s' % show(v)
            ok = st.eq(mkG(0, p) + o, j) and st.ge(o) and st.ge(mkG(0, p + 1) - mkG(0, p) - 1 - o) and st.ge(p) and st.ge(N0 - 1 - p)
            return (OK if ok else BAD), 'position %s is reported as sublist %s offset %s' % (show(j), show(p), show(o))
        return Exp(result=chk)
    return with_pos(i, k)


# ---------------------------------------------------------------- table

class Task:
    def __init__(self, method, spec, args=(), kw=None, variant='', pre=None, setup=None, fail=None, nocontract=(), only=None, go=None):
        self.__dict__.update(locals())
        self.kw = kw or {}


def int_arg(n):
    return A('arg', n)


def tasks(cls):
    keyed = cls == 'SortedKeyList'
    T = []
    add = lambda *a, **k: T.append(Task(*a, **k))
    i = int_arg('index')
    add('add', sp_add, [VAL])
    add('__contains__', sp_contains, [VAL], setup=firsts)
    add('discard', sp_discard, [VAL], setup=firsts)
    add('remove', sp_remove, [VAL], setup=firsts)
    add('count', sp_count, [VAL], setup=firsts)
    a, b = int_arg('start'), int_arg('stop')
    add('index', sp_index(None, None), [VAL], setup=firsts)
    add('index', sp_index(a, None), [VAL, a], setup=firsts_from(a), variant='start')
    add('index', sp_index(None, b), [VAL, NONE, b], setup=firsts, variant='stop')
    add('index', sp_index(a, b), [VAL, a, b], setup=firsts_from(a), variant='start,stop')
    ox = lambda d: d.ox(VAL.t)
    kx = lambda d: VAL.t
    for m, sd in (('bisect_left', 'l'), ('bisect_right', 'r'), ('bisect', 'r')):
        add(m, sp_rank(sd, ox), [VAL])
    if keyed:
        for m, sd in (('bisect_key_left', 'l'), ('bisect_key_right', 'r'), ('bisect_key', 'r')):
            add(m, sp_rank(sd, kx), [VAL])
    LO, HI = Sym(('arg', 'minimum')), Sym(('arg', 'maximum'))
    for m in ('irange', 'irange_key') if keyed else ('irange',):
        term = (lambda d, x: d.ox(x.t)) if m == 'irange' else (lambda d, x: x.t)
        for lo in (None, LO):
            for hi in (None, HI):
                for i0 in (True, False) if lo else (True,):
                    for i1 in (True, False) if hi else (True,):
                        for rev in (False, True):
                            add(m, sp_irange(lo, hi, (i0, i1), rev, term),
                                [lo or NONE, hi or NONE, Tup((B(i0), B(i1))), B(rev)], pre=notnone(LO, HI),
                                variant='%s%s,%s%s%s' % ('[' if i0 else '(', 'min' if lo else '', 'max' if hi else '', ']' if i1 else ')', ' reversed' if rev else ''))
        add(m, sp_irange(None, None, (True, True), False, term), [], variant='defaults')
    for st_ in (NONE, a):
        for sp in (NONE, b):
            for rev in (False, True):
                add('islice', sp_islice(st_, sp, rev), [st_, sp, B(rev)], variant='%s:%s%s' % ('start' if st_ != NONE else '', 'stop' if sp != NONE else '', ' reversed' if rev else ''))
    add('islice', sp_islice(NONE, NONE, False), [], variant='defaults')
    add('__iter__', one(Exp(result=seq_result(ALL, ('it',)))))
    add('__reversed__', one(Exp(result=seq_result(rev_seq(ALL), ('it',)))))
    add('__len__', one(Exp(result=int_is(LEN0))))
    add('__getitem__', sp_getitem(i), [i])
    add('pop', sp_pop(i), [i])
    add('pop', sp_pop(Lin(-1)), [], variant='last')
    add('pop', sp_pop(Lin(0)), [Lin(0)], variant='first')
    add('__delitem__', sp_delitem(i), [i])
    slices = [('[:]', Slice(NONE, NONE, NONE)), ('[a:b]', Slice(a, b, NONE)), ('[a:]', Slice(a, NONE, NONE)), ('[:b]', Slice(NONE, b, NONE)),
              ('[::-1]', Slice(NONE, NONE, Lin(-1))), ('[a:b:c]', Sym(('slice', 'arg')))]
    for nm, sl in slices:
        add('__getitem__', sp_getslice(sl), [sl], variant=nm, pre=isslice(sl))
        add('__delitem__', sp_delslice(sl), [sl], variant=nm, pre=isslice(sl), fail=grown if False else None)
    add('clear', one(Exp(content=(), result=is_none)))
    add('update', sp_update, [IT], fail=grown)
    add('__iadd__', sp_iadd, [IT], fail=grown)
    n = int_arg('num')
    add('__imul__', sp_imul(n), [n], fail=grown)
    add('__add__', sp_new(extra=(('o', IT.t, 0),)), [IT])
    add('__radd__', sp_radd, [IT])
    add('__mul__', sp_new(rep=n), [n])
    add('__rmul__', sp_new(rep=n), [n])
    add('copy', sp_new())
    add('__copy__', sp_new())
    add('__repr__', sp_repr)
    add('__reduce__', sp_reduce)
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        add('__%s__' % op, sp_cmp(op), [OTHER])
    for m, ar in (('append', [VAL]), ('extend', [IT]), ('insert', [i, VAL]), ('reverse', []), ('__setitem__', [i, VAL])):
        add(m, nothing, ar)
    p = int_arg('pos')
    add('_loc', sp_loc(p, i), [p, i], pre=loc_pre(p), nocontract=('_loc',))
    add('_pos', sp_pos(i), [i], nocontract=('_pos',))
    for k in built_sizes():
        add('_build_index', sp_build, [], setup=sublists(k, False), nocontract=('_build_index',), variant='%d sublists' % k)
        if k < 10 or k == 17 or k in (18, 31, 32, 33) and os.environ.get('VERIF_TIER') == 'thorough':
            add('__getitem__', sp_getitem(i), [i], setup=sublists(k), nocontract=('_build_index', '_pos', '_loc'), variant='%d sublists' % k)
    add('_delete', sp_delete(p, i), [p, i], pre=delete_pre(p, i), nocontract=('_delete',))
    add('__init__', sp_init, [], setup=init_setup, variant='iterable', fail=init_fail)
    add('__init__', sp_init0, [], setup=init_setup0, variant='empty')
    for nm, cl, ar, kw in constructions(cls):
        add('__new__', sp_made(cls, ar), variant=nm, go=construct(cl, ar, kw), setup=given)
    add('key', one(Exp(result=same_as(KEY if keyed else NONE))), go=lambda d, ip, st: ip.getattr(st, d.selfref, 'key'))
    add('_reset', sp_reset, [int_arg('load')], pre=reset_pre, fail=grown)
    return T


def built_sizes():
    big = [x + j for x in (128, 256, 512, 1024, 2048, 4096) for j in (-1, 0, 1, 2)]
    return list(range(1, 601 if os.environ.get('VERIF_TIER') == 'thorough' else 71)) + big


def sublists(k, facts=True):
    """Exactly k sublists, of any lengths, and no index."""
    def f(d, ip, st):
        st.a_eq(N0 - k)
        for nm, t in (('_lists', 'v'), ('_keys', 'k')):
            if nm in d.refs:
                st.put(d.refs[nm], ListO(tuple(('L', 0, Lin(j), Lin(j + 1), t, 1, 1) for j in range(k)), 'list'))
        st.put(d.refs['_maxes'], ListO(tuple(('m', 0, Lin(j), Lin(j + 1), 1) for j in range(k)), 'list'))
        st.put(d.refs['_index'], ListO((), 'list'))
        st.setfield(d.selfref, '_offset', A('arg', 'stale offset'))
        for j in range(k if facts else 0):
            st.a_ge(mkG(0, Lin(j + 1)) - mkG(0, Lin(j)) - 1)
        return None
    return f


def sp_build(d, ip, s):
    def chk(d_, st, v):
        r = d_.index_flat(ip, st)
        if r is True:
            return OK, ''
        if r is False and d_.heap_layout():
            return BAD, 'the position index is not the heap of the lengths'
        return UNK, 'the position index is not the heap of the lengths'
    return [(s, Exp(result=chk))]


def sp_delete(p, i):
    j = mkG(0, p) + i
    return lambda d, ip, s: [(s, Exp(content=(V(0, ZERO, j), V(0, j + 1, LEN0)), result=is_none))]


def delete_pre(p, i):
    def f(d, st):
        st.a_ge(p)
        st.a_ge(N0 - 1 - p)
        st.a_ge(i)
        st.a_ge(mkG(0, p + 1) - mkG(0, p) - 1 - i)
    return f


def sp_radd(d, ip, s):
    """self + other and other + self hold the same values; ties may differ."""
    w1 = (('sorted', ALL + (('o', IT.t, 0),), EPKEY[0], False),)
    w2 = (('sorted', (('o', IT.t, 0),) + ALL, EPKEY[0], False),)

    def chk(d_, st, v):
        r = d_.new_instance(ip, st, v, w1)
        if r[0] == OK:
            return r
        r2 = d_.new_instance(ip, st, v, w2)
        return r2 if r2[0] == OK else r
    return [(s, Exp(result=chk))]


def sp_reset(d, ip, s):
    return [(s, Exp(content=ALL, result=is_none, state='reset'))]


def reset_pre(d, st):
    st.a_ge(int_arg('load') - 4)
    d.newload = int_arg('load')


def loc_pre(p):
    def f(d, st):
        st.a_ge(p)
        st.a_ge(N0 - 1 - p)
    return f


def notnone(*xs):
    def f(d, st):
        for x in xs:
            st.a_bool(('none', x.t), False)
    return f


def isslice(sl):
    def f(d, st):
        if isinstance(sl, Sym):
            st.a_bool(('isinst', sl.t, ('slice',)), True)
    return f


def firsts_from(a):
    def f(d, ip, st):
        firsts(d, ip, st)
        if d.keyed:
            ip.want_firstfrom = (0, VAL.t, a.atoms())
        return None
    return f


def init_setup(d, ip, st):
    blank(d, st)
    st.a_bool(('none', IT.t), False)
    return [IT] + ([KEY] if d.keyed else [])


def init_setup0(d, ip, st):
    blank(d, st)
    return [NONE] + ([KEY] if d.keyed else [])


def blank(d, st):
    st.put(d.selfref, ObjO(Cls(d.cls, 'sortedlist'), {}))
    d.refs = {}
    d.newload = Lin(1000)


def constructions(cls):
    """Ways to make a container of the class: (name, class called, arguments, keywords)."""
    if cls == 'SortedList':
        return (('values', cls, [IT], {}), ('no values', cls, [], {}), ('none', cls, [NONE, NONE], {}), ('no key', cls, [IT], {'key': NONE}))
    return (('values', cls, [IT], {'key': KEY}), ('no values', cls, [], {'key': KEY}), ('positional', cls, [IT, KEY], {}),
            ('as sorted list', 'SortedList', [IT], {'key': KEY}), ('as sorted list, positional', 'SortedList', [IT, KEY], {}),
            ('as sorted list, no values', 'SortedList', [], {'key': KEY}))


def construct(cl, ar, kw):
    return lambda d, ip, st: ip.instantiate(st, Cls(cl, 'sortedlist'), list(ar), dict(kw), None)


def given(d, ip, st):
    st.a_bool(('none', KEY.t), False)
    st.a_bool(('none', IT.t), False)


def sp_made(cls, ar):
    def spec(d, ip, s):
        want = (('sorted', (('o', IT.t, 0),), EPKEY[0], False),) if IT in ar else ()
        return [(s, Exp(result=lambda d_, st, v: d_.new_instance(ip, st, v, want, dyn=False, cls=cls)))]
    return spec


def same_as(x):
    return lambda d, st, v: (OK, '') if v == x else (UNK if isinstance(v, Sym) and v.t[0] == 'unk' else BAD, 'returns %s where %s is due' % (show(v), show(x)))


def sp_init(d, ip, s):
    return [(s, Exp(content=(('sorted', (('o', IT.t, 0),), EPKEY[0], False),), result=is_none))]


def sp_init0(d, ip, s):
    return [(s, Exp(content=(), result=is_none))]


def init_fail(d, st, cont):
    return OK, ''


def run_task(d, t):
    d.newload = None
    obs, stats = d.run(t.method, t.args, t.spec, variant=t.variant, kw=t.kw, pre=t.pre, setup=t.setup, nocontract=t.nocontract, fail=t.fail, go=t.go)
    d.newload = None
    return obs, stats
