"""Functional contracts of sorted sets, sorted dicts and the dict views."""
import os
from .core import *
from .sets import *
from .listdom import Exp, OK, BAD, UNK, show, val_cmp
from .setdom import SetDom, KEY

OTHER = Sym(('otherkey',))
VAL = Sym(('arg', 'value'))


class Task:
    """One method in one situation.

    args: builders (d, ip, st) -> (value, kind, term); via: how it is called;
    spec(x) -> [(state, Exp)] with x = the run (namespace)."""
    def __init__(self, method, spec, args=(), kw=None, variant='', keyed=False, via='method', partial=None, setup=None, go=None):
        self.__dict__.update(locals())
        self.kw = kw or {}


class X:
    """What a specification may look at."""
    pass


# ---------------------------------------------------------------- arguments

def a_val(name='value'):
    return lambda d, ip, st: (Sym(('arg', name)), 'val', one(('arg', name)))


def a_const(v):
    return lambda d, ip, st: (v, 'const', None)


def a_iter(name='it'):
    """Any iterable, possibly exhausted by one pass."""
    def f(d, ip, st):
        st.a_bool(('none', ('arg', name)), False)
        st.a_bool(('callable', ('arg', name)), False)
        return Sym(('arg', name)), 'iter', ('fs', ('o', ('arg', name)))
    return f


def a_foreign(name='it'):
    """Any object but a sorted set."""
    def f(d, ip, st):
        st.a_bool(('isinst', ('arg', name), ('SortedSet',)), False)
        return Sym(('arg', name)), 'iter', ('fs', ('o', ('arg', name)))
    return f


def a_set(name='A0', kind='set'):
    def f(d, ip, st):
        T = ('S', name)
        r = st.new(SetO(T, kind))
        ip.regcard(st, T)
        st.a_ge(A_card(T))
        d.argobjs[r.i] = st.o(r)
        return r, 'set', T
    return f


def a_listed(*names):
    """A list of given values."""
    def f(d, ip, st):
        r = st.new(ListO(tuple(('c', Sym(('arg', n))) for n in names), 'list'))
        d.argobjs[r.i] = st.o(r)
        return r, 'iter', all_or([one(('arg', n)) for n in names])
    return f


def a_self(d, ip, st):
    return d.ref, 'self', d.T0


def a_sorted(name='B0', key=OTHER):
    """Another sorted set, with a sort order of its own."""
    def f(d, ip, st):
        T = ('S', name)
        st.a_bool(('none', OTHER.t), False)
        st.a_bool(('callable', OTHER.t), True)
        st2, r = d.instance(ip, st, T, cls='SortedSet', key=key)
        # the instance is built by a straight-line constructor: adopt its state
        d.adopt = st2
        a, b = d.parts(st2, r)
        d.argobjs[a.i] = st2.o(a)
        d.argobjs[b.i] = st2.o(b)
        return r, 'sorted', T
    return f


# ---------------------------------------------------------------- results

def is_value(w):
    def f(d, ip, st, v):
        if isinstance(v, tuple) and not hasattr(v, '_fields') and isinstance(w, Sym):
            v = Sym(v)
        if v == w:
            return OK, ''
        r = val_cmp(st, v, w)
        if r is True:
            return OK, ''
        if isinstance(w, Lin) and isinstance(v, C) and isinstance(v.v, bool):
            return (OK if st.eq(w, int(v.v)) else BAD), 'returns %s where %s is due' % (show(v), show(w))
        if isinstance(w, Sym) and isinstance(v, Sym):
            k = sym_rel(ip, st, v, w)
            if k is True:
                return OK, ''
            if k is False:
                return BAD, 'returns %s where %s is due' % (show(v), show(w))
        return (UNK if r is None or has_unknown(v) else BAD), 'returns %s where %s is due' % (show(v), show(w))
    return f


KNOWN = ('sel', 'arg', 'val', 'elt')


def sym_rel(ip, st, v, w):
    """Two symbolic values: same, certainly different somewhere, unknown."""
    if v.t == w.t:
        return True
    b = st.facts.boolval(same_t(v.t, w.t))
    if b is not None:
        return b
    if v.t[0] == 'sel' and w.t[0] == 'sel' and v.t[:4] == w.t[:4]:
        if isinstance(v.t[4], Lin) and isinstance(w.t[4], Lin):
            n = ip.baglen(st, v.t[3])
            for k in (0, 1, -1):
                if st.eq(v.t[4] + n * k, w.t[4]):
                    return True
            return False
    if v.t[0] == 'query' and w.t[0] == 'query':
        return False
    if v.t[0] in KNOWN and w.t[0] in KNOWN:
        return False
    return None


def is_self(d, ip, st, v):
    if v == d.ref:
        return OK, ''
    return (UNK if isinstance(v, Sym) else BAD), '[self] returns %s where the container itself is due' % show(v)


def is_none(d, ip, st, v):
    return (OK if v == NONE else UNK if isinstance(v, Sym) else BAD), 'returns %s' % show(v)


def is_truth(b):
    def f(d, ip, st, v):
        if isinstance(v, C):
            return (OK if bool(v.v) == b else BAD), 'returns %s where %s is due' % (show(v), b)
        if isinstance(v, Lin):
            if st.facts.ne(v):
                return (OK if b else BAD), 'returns %s where %s is due' % (show(v), b)
            if st.eq(v, 0):
                return (BAD if b else OK), 'returns %s where %s is due' % (show(v), b)
        return UNK, 'returns %s' % show(v)
    return f


def is_anything(d, ip, st, v):
    return OK, ''


def new_of(want, layers=None, **kw):
    def f(d, ip, st, v):
        return d.new_instance(ip, st, v, want, layers=layers, **kw)
    return f


def seq_in(st, v):
    if isinstance(v, Tup):
        return tuple(('c', x) for x in v.items), 'tuple'
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o, ListO):
            return o.seq, o.kind
        if isinstance(o, ItO):
            return o.seq, 'it'
    return None, None


def ordered(d, ip, st, p, content):
    """Does piece p list the content in key order?  True/False/None."""
    if p[0] == 'sl':
        if p[1] == d.lst.i:
            return bags_eq(st, p[3], content) is True
        return None
    if p[0] == 'sorted':
        if p[2] != d.key or p[3]:
            return False
        if p[2] == d.key:
            return bags_eq(st, ip.seq_bag(st, p[1]), content) is True
        return None
    if p[0] == 'perm':
        return False
    return None


def is_listing(content, rev=False, kinds=('it',), wrap=None):
    """An iterator (list) of the content in key order, one form per element."""
    def f(d, ip, st, v):
        seq, k = seq_in(st, v)
        if seq is None:
            return (UNK if isinstance(v, (Sym, Ref)) else BAD), 'returns %s' % show(v)
        if k not in kinds:
            return BAD, 'returns a %s' % k
        if not seq:
            return (OK if subset(st, bagset(content), EMPTY) is True else BAD), 'yields nothing'
        if len(seq) != 1:
            return UNK, 'yields %s' % show(seq)
        p = unindexed(d, ip, st, ip.sliced(st, seq[0]))
        if p[0] == 'map' and p[1][0] != 'elt':
            return UNK, 'yields %s' % show(seq)
        if wrap is not None:
            if p[0] == 'rev' and p[1][0] == 'map':
                p = p[1][:3] + (('rev', p[1][3]),)
            if p[0] != 'map':
                return BAD if p[0] in ('sl', 'sls', 'rev', 'sorted') else UNK, 'yields %s' % show(seq)
            w = wrap(d, ip, st, p[1])
            if p[2] != w:
                return (UNK if has_img([p[2]]) else BAD), 'yields %s for each key where %s is due' % (show(p[2]), show(w))
            p = p[3]
        elif p[0] == 'map':
            return UNK, 'yields %s' % show(seq)
        r = p[0] == 'rev'
        if r:
            p = p[1]
        o = ordered(d, ip, st, p, content)
        if o is None:
            return UNK, 'yields %s' % show(seq)
        if not o or r != rev:
            return BAD, 'yields %s where the content in %s order is due' % (show(seq), 'reverse' if rev else 'key')
        return OK, ''
    return f


def unindexed(d, ip, st, p):
    """A walk by positions seen as a walk over the list."""
    if p[0] != 'map' or p[1][0] != 'bv' or p[3][0] != 'rng':
        return p
    sels = []

    def find(t):
        if isinstance(t, tuple):
            if t[:1] == ('sel',) and len(t) == 5:
                if t not in sels:
                    sels.append(t)
                return
            for u in t:
                find(u)
    find(p[2])
    if len(sels) != 1 or not isinstance(sels[0][4], Lin) or sels[0][1:4] != d.p0[1:4]:
        return p
    i, n = sels[0][4], ip.baglen(st, d.p0[3])
    b = Lin.atom(p[1])
    if not st.eq(plen(st, p[3]), n):
        return p
    e = ('elt', 0, d.p0[3])
    if st.eq(i - b):
        base = d.p0
    elif st.eq(i + b - n + 1):
        base = ('rev', d.p0)
    else:
        return p
    v = sub_term(p[2], sels[0], e)
    return base if v == Sym(e) else ('map', e, v, base)


def is_part(key, wrap=None, kinds=('list',)):
    """The slice of the entry content."""
    def f(d, ip, st, v):
        seq, k = seq_in(st, v)
        if seq is None:
            return (UNK if isinstance(v, (Sym, Ref)) else BAD), 'returns %s' % show(v)
        if k not in kinds:
            return BAD, 'returns a %s' % k
        want = ('sls', d.lst.i, (d.p0[2], key), d.p0[3])
        if not seq:
            # the slice was found empty
            t = bagset(ip.piece_bag(st, want))
            return (OK if subset(st, t, EMPTY) is True or st.eq(plen(st, want)) else BAD), 'returns nothing'
        if len(seq) != 1:
            return UNK, 'returns %s' % show(seq)
        p = ip.sliced(st, seq[0])
        if wrap is not None:
            if p[0] != 'map':
                return (BAD if p[0] == 'sls' else UNK), 'returns %s' % show(seq)
            w = wrap(d, ip, st, p[1])
            if p[2] != w:
                return (UNK if has_img([p[2]]) else BAD), 'has %s for each key where %s is due' % (show(p[2]), show(w))
            p = p[3]
        if p == want:
            return OK, ''
        if p[0] in ('sls', 'sl', 'rev', 'perm', 'srt', 'sorted'):
            return BAD, 'returns %s where %s is due' % (show(p), show(want))
        return UNK, 'returns %s where %s is due' % (show(p), show(want))
    return f


def at(x, s, i):
    """Positions of the entry content: [(state, element | None)]."""
    n = x.ip.baglen(s, x.d.p0[3])
    out = []
    for s1, ok in fork_ge(s, n - 1 - i):
        if not ok:
            out.append((s1, None))
            continue
        for s2, ok2 in fork_ge(s1, n + i):
            out.append((s2, x.ip.sl_sel(s2, x.d.p0, i) if ok2 else None))
    return out


# ---------------------------------------------------------------- relations

def is_relation(op, a, b):
    def f(d, ip, st, v):
        if v in (TRUE, FALSE):
            r = rel_value(st, op, a, b)
            if r is None:
                return BAD, 'answers %s where the relation %s %s %s is open' % (v.v, tshow(a), op, tshow(b))
            return (OK if r == v.v else BAD), 'answers %s where %s %s %s is %s' % (v.v, tshow(a), op, tshow(b), r)
        return (UNK if isinstance(v, (Sym, Lin)) else BAD), 'returns %s' % show(v)
    return f


def foreign_relation(op, T, arg):
    """The built-in set decides with a foreign set."""
    def f(d, ip, st, v):
        if v == NOTIMPL:
            return BAD, 'declines a set'
        if isinstance(v, Sym):
            t, neg = v.t, False
            if t[0] == 'not':
                t, neg = t[1], True
            if t[0] == 'cmp' and isinstance(t[1], str) and t[1].startswith('set') and {t[2], t[3]} == {T, arg}:
                got = t[1][3:]
                if t[2] == arg:
                    got = {'le': 'ge', 'lt': 'gt', 'eq': 'eq'}[got]
                if neg:
                    got = {'eq': 'ne'}.get(got, 'not ' + got)
                return (OK if got == op else BAD), 'answers %s where %s is due' % (got, op)
            return UNK, 'returns %s' % show(v)
        return (UNK if not isinstance(v, C) else BAD), 'returns %s' % show(v)
    return f


def is_declined(d, ip, st, v):
    if v == NOTIMPL:
        return OK, ''
    return (UNK if isinstance(v, Sym) else BAD), 'answers %s for an operand that is not a set' % show(v)


# ---------------------------------------------------------------- running

def one_(e):
    return lambda x, s: [(s, e)]


def build(d, ip, st, t):
    x = X()
    x.d, x.ip, x.t = d, ip, t
    x.T0, x.L0 = d.T0, d.L0
    d.argobjs = {}
    d.arglayers, d.kwlayers = [], []
    vals = []
    x.kinds, x.terms = [], []
    for a in t.args:
        d.adopt = None
        v, k, T = a(d, ip, st)
        if d.adopt is not None:
            st = d.adopt
        vals.append(v)
        x.kinds.append(k)
        x.terms.append(T)
    x.args = vals
    x.kw = {}
    for n, a in t.kw.items():
        v, k, T = a(d, ip, st)
        x.kw[n] = v
    if t.setup:
        st = t.setup(x, st) or st
    return st, x


OPS = {'or': 'BitOr', 'and': 'BitAnd', 'sub': 'Sub', 'xor': 'BitXor'}


def invoke(x, st):
    d, ip, t = x.d, x.ip, x.t
    if t.go:
        return t.go(x, st)
    name = t.method
    ref = x.ref if hasattr(x, 'ref') else d.ref
    if t.via == 'op':
        return ip.binop(st, OPS[name.strip('_')], ref, x.args[0])
    if t.via == 'rop':
        return ip.binop(st, OPS[name.strip('_')[1:]], x.args[0], ref)
    if t.via == 'iop':
        if ip.class_attr(st.o(ref).cls, name) is None:
            return ip.binop(st, OPS[name.strip('_')[1:]], ref, x.args[0])
    if t.via == 'rel':
        return ip.rel(st, name.strip('_'), ref, x.args[0])
    return ip.bind(ip.getattr(st, ref, name), lambda s, f: ip.call(s, f, list(x.args), dict(x.kw), None))


def all_or(ts):
    T = EMPTY
    for t in ts:
        T = or_(T, t)
    return T


# ---------------------------------------------------------------- sorted sets

def s_contains(x, s):
    v = x.terms[0][1]
    return [(s1, Exp(result=is_truth(b))) for s1, b in x.ip.member(s, x.T0, v)]


def s_count(x, s):
    v = x.terms[0][1]
    return [(s1, Exp(result=is_value(Lin(int(b))))) for s1, b in x.ip.member(s, x.T0, v)]


def s_add(x, s):
    return [(s, Exp(content=(or_(x.T0, x.terms[0]), ()), result=is_none))]


def s_discard(x, s):
    return [(s, Exp(content=(diff_(x.T0, x.terms[0]), ()), result=is_none))]


def s_remove(x, s):
    out = []
    for s1, b in x.ip.member(s, x.T0, x.terms[0][1]):
        out.append((s1, Exp(content=(diff_(x.T0, x.terms[0]), ()), result=is_none) if b else Exp(exc='KeyError')))
    return out


def s_pop(x, s):
    out = []
    for s1, v in at(x, s, x.i):
        if v is None:
            out.append((s1, Exp(exc='IndexError')))
        else:
            out.append((s1, Exp(content=(diff_(x.T0, one(v.t)), ()), result=is_value(v))))
    return out


def s_delitem(x, s):
    out = []
    for s1, v in at(x, s, x.i):
        if v is None:
            out.append((s1, Exp(exc='IndexError')))
        else:
            out.append((s1, Exp(content=(diff_(x.T0, one(v.t)), ()), result=is_none)))
    return out


def s_getitem(x, s):
    return [(s1, Exp(exc='IndexError') if v is None else Exp(result=is_value(v))) for s1, v in at(x, s, x.i)]


def set_index(i):
    def f(x, st):
        x.i = x.ip.toint(st, i) if not isinstance(i, Lin) else i
    return f


def slice_arg(d, ip, st):
    v = Sym(('arg', 'slice'))
    ip.slices = (v.t,)
    st.a_bool(('isinst', v.t, ('slice',)), True)
    return v, 'slice', None


def s_getslice(x, s):
    k = ('arg', 'slice')
    return [(s1, Exp(exc='ValueError') if bad else Exp(result=is_part(k))) for s1, bad in fork_bool(s, ('zerostep', k))]


def s_delslice(x, s):
    k = ('arg', 'slice')
    P = ('part', (x.d.lst.i, (x.d.p0[2], k)), x.T0)
    return [(s1, Exp(exc='ValueError') if bad else Exp(content=(diff_(x.T0, P), ()), result=is_none)) for s1, bad in fork_bool(s, ('zerostep', k))]


def s_clear(x, s):
    return [(s, Exp(content=(EMPTY, ()), result=is_none))]


def s_copy(x, s):
    return [(s, Exp(result=new_of(x.T0)))]


def s_len(x, s):
    return [(s, Exp(result=is_value(x.ip.setlen(s, x.T0))))]


def s_iter(x, s):
    return [(s, Exp(result=is_listing(x.d.p0[3])))]


def s_reversed(x, s):
    return [(s, Exp(result=is_listing(x.d.p0[3], rev=True)))]


def fold(f, x):
    T = x.T0
    for u in x.terms:
        T = f(T, u)
    return T


def s_pure(f):
    def spec(x, s):
        if x.t.method.startswith('__') and x.kinds and x.kinds[0] == 'iter':
            r = new_of(fold(f, x))

            def res(d, ip, st, v):
                # a binary operator may decline what is not a set
                if v == NOTIMPL and st.facts.boolval(('isinst', x.args[0].t, ('abc.Set',))) is not True:
                    return OK, ''
                return r(d, ip, st, v)
            return [(s, Exp(result=res))]
        return [(s, Exp(result=new_of(fold(f, x))))]
    return spec


def rfold(f):
    """Reflected operators: the argument comes first."""
    return lambda a, b: f(b, a)


def s_inplace(f):
    def spec(x, s):
        if x.t.via == 'iop' and x.kinds and x.kinds[0] == 'iter':
            def res(d, ip, st, v):
                return (OK, '') if v == NOTIMPL else is_self(d, ip, st, v)
        else:
            res = is_self
        e = Exp(content=(fold(f, x), ()), result=res)
        a = all_or(x.terms)
        T = x.T0
        # the least and the most that a failing bulk operation may leave
        e.partial = {or_: (T, or_(T, a)), diff_: (diff_(T, a), T), and_: (and_low(T, x.terms), T), xor_: (diff_(T, a), or_(T, a))}[f]
        return [(s, e)]
    return spec


def and_low(T, ts):
    for t in ts:
        T = and_(T, t)
    return T


def s_rel(op):
    def spec(x, s):
        k = x.kinds[0]
        if k == 'iter':
            out = []
            for s1, b in fork_bool(s, ('isinst', x.args[0].t, ('abc.Set',))):
                out.append((s1, Exp(result=foreign_relation(op, x.T0, x.args[0].t) if b else is_declined)))
            return out
        return [(s, Exp(result=is_relation(op, x.T0, x.terms[0])))]
    return spec


def s_query(x, s):
    nm = {'bisect': 'bisect_right', 'bisect_key': 'bisect_key_right'}.get(x.t.method, x.t.method)
    want = ('query', nm, x.d.p0, tuple(x.args), ())

    def res(d, ip, st, v):
        if isinstance(v, Sym) and v.t == want:
            return OK, ''
        if isinstance(v, Ref) and isinstance(st.o(v), ItO) and st.o(v).seq == (('x', want),):
            return OK, ''
        q = v.t if isinstance(v, Sym) else st.o(v).seq[0][1] if isinstance(v, Ref) and isinstance(st.o(v), ItO) and len(st.o(v).seq) == 1 and st.o(v).seq[0][0] == 'x' else None
        if isinstance(q, tuple) and q[:1] == ('query',):
            return BAD, 'answers %s where %s is due' % (show(Sym(q)), show(Sym(want)))
        return UNK, 'returns %s' % show(v)
    return [(s, Exp(result=res))]


def s_subset(op, swap=False):
    def spec(x, s):
        a, b = x.T0, x.terms[0]
        return [(s, Exp(result=is_relation(op, b if swap else a, a if swap else b)))]
    return spec


def set_tasks_(keyed):
    T = []

    def add(m, spec, args=(), **k):
        v = k.pop('variant', '')
        T.append(Task(m, spec, args, keyed=keyed, variant=(v + ' ' if v else '') + ('keyed' if keyed else 'plain'), **k))
    idx = A('arg', 'index')
    ival = a_const(idx)
    add('__contains__', s_contains, [a_val()])
    add('count', s_count, [a_val()])
    add('add', s_add, [a_val()])
    add('discard', s_discard, [a_val()])
    add('remove', s_remove, [a_val()])
    add('pop', s_pop, [], setup=set_index(Lin(-1)), variant='()')
    add('pop', s_pop, [ival], setup=set_index(idx), variant='index')
    add('__getitem__', s_getitem, [ival], setup=set_index(idx), variant='index')
    add('__delitem__', s_delitem, [ival], setup=set_index(idx), variant='index')
    add('__getitem__', s_getslice, [slice_arg], variant='slice')
    add('__delitem__', s_delslice, [slice_arg], variant='slice')
    add('clear', s_clear)
    add('copy', s_copy)
    add('__copy__', s_copy)
    add('__len__', s_len)
    add('__iter__', s_iter)
    add('__reversed__', s_reversed)
    forms = [('set', a_set()), ('iterable', a_iter()), ('sorted set', a_sorted()), ('itself', a_self)]
    for m, f, r in (('union', or_, 'or'), ('intersection', and_, 'and'), ('difference', diff_, 'sub'), ('symmetric_difference', xor_, 'xor')):
        for nm, a in forms:
            add(m, s_pure(f), [a], variant=nm)
            add('__%s__' % r, s_pure(f), [a], via='op', variant=nm)
            add(m + '_update' if m != 'union' else 'update', s_inplace(f), [a], variant=nm)
            add('__i%s__' % r, s_inplace(f), [a], via='iop', variant=nm)
            if nm in ('set', 'iterable'):
                add('__r%s__' % r, s_pure(rfold(f)), [a], via='rop' if nm == 'set' else 'method', variant=nm)
        for nm, a in (('twice', a_listed('v', 'v')), ('pair', a_listed('v', 'w')), ('no values', a_listed())):
            add(m, s_pure(f), [a], variant=nm)
            add(m + '_update' if m != 'union' else 'update', s_inplace(f), [a], variant=nm)
        if f is not xor_:
            for more in several():
                nm = '%d iterables%s' % (len(more), ' set' if len(more) == 2 and more[0] is not a_iter and more[1] is a_self else '')
                add(m, s_pure(f), more, variant=nm + str(forms_id(more)))
                add(m + '_update' if m != 'union' else 'update', s_inplace(f), more, variant=nm + str(forms_id(more)))
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        for nm, a in [forms[0], ('foreign', a_foreign()), forms[2], forms[3]]:
            add('__%s__' % op, s_rel(op), [a], variant=nm)
    for nm, a in forms:
        add('isdisjoint', s_subset('disj'), [a], variant=nm)
        add('issubset', s_subset('le'), [a], variant=nm)
        add('issuperset', s_subset('le', True), [a], variant=nm)
    qs = ['bisect', 'bisect_left', 'bisect_right', 'index', 'irange', 'islice']
    if keyed:
        qs += ['bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key']
    for q in qs:
        add(q, s_query, [a_const(Sym(('arg', 'q')))])
    new_tasks_set(add, keyed)
    return T


def several():
    out = [[], [a_iter('it'), a_iter('it2')], [a_set(), a_iter('it')], [a_set('A0'), a_self],
           [a_iter('it'), a_iter('it2'), a_iter('it3')], [a_set('A0'), a_iter('it'), a_set('A1')]]
    if os.environ.get('VERIF_TIER') == 'thorough':
        out += [[a_self, a_iter('it')], [a_iter('it'), a_self, a_set('A0')], [a_set('A0'), a_set('A1'), a_set('A2')],
                [a_iter('it'), a_iter('it2'), a_iter('it3'), a_iter('it4')], [a_set('A0'), a_iter('it'), a_set('A1'), a_self]]
    return out


def forms_id(more):
    return ['+'.join(a.__qualname__.split('.')[0][2:] for a in more)] if more else ''


# ---------------------------------------------------------------- construction, pickling, representation

def go_new(cls):
    def go(x, st):
        return x.ip.instantiate(st, Cls(cls, {'SortedSet': 'sortedset', 'SortedDict': 'sorteddict'}[cls]), list(x.args), dict(x.kw), None)
    return go


def s_new(key=True):
    def spec(x, s):
        T = all_or([t for t in x.terms if t is not None])
        k = x.d.key if key else NONE
        return [(s, Exp(result=lambda d, ip, st, v: d.new_instance(ip, st, v, T, dyn=False, key=k)))]
    return spec


def go_reduce(x, st):
    """Rebuild an instance from what __reduce__ answers."""
    ip = x.ip

    def again(s, v):
        if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[0], (Cls, Dyn, Bi, BM, Fn)) and isinstance(v.items[1], Tup):
            x.reduced = v
            x.raised = False
            # what is pickled is a copy of the arguments
            args = [copied(ip, s, a) for a in v.items[1].items]
            return ip.call(s, v.items[0], args, {}, None)
        raise Undecided('reduces to %s' % show(v))
    return ip.bind(ip.bind(ip.getattr(st, x.d.ref, '__reduce__'), lambda s, f: ip.call(s, f, [], {}, None)), again)


def copied(ip, st, v):
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o, (SetO, DictO, ListO, ItO)):
            return st.new(o)
        if isinstance(o, ObjO):
            raise Undecided('pickles a container of the library')
        if isinstance(o, SLO):
            return ip.sl_new(st, o.cls, ip.sl_content(o), o.key)
    if isinstance(v, Tup):
        return Tup(tuple(copied(ip, st, a) for a in v.items))
    return v


def s_rebuilt(x, s):
    return [(s, Exp(result=new_of(x.T0, x.L0)))]


def s_repr(x, s):
    def chk(d, ip, st, v):
        if not (isinstance(v, Sym) and v.t[0] == 'str'):
            return (BAD if isinstance(v, C) else UNK), 'repr is %s' % show(v)
        exp = [('clsname',), '(', ('list',)] + ([', key=', ('key',)] if d.keyed else []) + [')']
        got = []
        for p in v.t[1]:
            if isinstance(p, str):
                got.append(p)
            elif p[0] == 'clsname':
                if isinstance(p[1], Cls):
                    return BAD, 'repr names a fixed class'
                got.append(('clsname',))
            elif p[0] == 'repr' and isinstance(p[1], tuple) and p[1] and p[1][0] == 'list':
                o = ordered(d, ip, st, p[1][1][0], d.p0[3]) if len(p[1][1]) == 1 else not p[1][1] and subset(st, d.T0, EMPTY) is True
                got.append(('list',) if o else ('list', o))
                if o is None:
                    return UNK, 'repr is built from %s' % show(v)
            elif p[0] == 'repr' and p[1] == KEY:
                got.append(('key',))
            else:
                got.append(p)
        if got == exp:
            return OK, ''
        if any(isinstance(p, tuple) and p[0] not in ('clsname', 'list', 'key', 'repr') for p in got):
            return UNK, 'repr is built from %s' % show(v)
        return BAD, 'repr is built from %s' % show(v)
    return [(s, Exp(result=chk))]


def s_key(x, s):
    return [(s, Exp(result=is_value(x.d.key)))]


def go_attr(name):
    return lambda x, st: x.ip.getattr(st, x.d.ref, name)


def new_tasks_set(add, keyed):
    def init(v, args, kw=None, key=None):
        add('__init__', s_new(keyed), args, kw=kw, variant=v, go=go_new('SortedSet'))
    K = [a_const(KEY)] if keyed else []
    kk = {'key': a_const(KEY)} if keyed else {}
    init('empty', [], kk)
    init('set', [a_set()] + K)
    init('iterable', [a_iter()] + K)
    init('iterable keyword', [a_iter()], kk)
    init('twice', [a_listed('v', 'v')] + K)
    init('pair', [a_listed('v', 'w')] + K)
    init('sorted set', [a_sorted()] + K)
    init('another', [a_self] + K)
    init('None', [a_const(NONE)] + K)
    add('__reduce__', s_rebuilt, go=go_reduce)
    add('__repr__', s_repr)
    add('key', s_key, go=go_attr('key'))


# ---------------------------------------------------------------- sorted dicts

DV = Sym(('arg', 'val'))
KW = 'kwa'


def a_dict(name='A0'):
    def f(d, ip, st):
        T = ('S', name)
        r = st.new(DictO(T, ((T, ('val', name)),)))
        ip.regcard(st, T)
        st.a_ge(A_card(T))
        d.argobjs[r.i] = st.o(r)
        d.arglayers.append((T, ('val', name)))
        return r, 'dict', T
    return f


def a_sdict(name='B0', key=OTHER):
    def f(d, ip, st):
        T = ('S', name)
        st.a_bool(('none', OTHER.t), False)
        st.a_bool(('callable', OTHER.t), True)
        st2, r = d.instance(ip, st, T, cls='SortedDict', key=key)
        d.adopt = st2
        a, b = d.parts(st2, r)
        d.argobjs[a.i] = st2.o(a)
        d.argobjs[b.i] = st2.o(b)
        d.arglayers.append((T, ('val', name)))
        return r, 'sorted', T
    return f


def a_selfdict(d, ip, st):
    d.arglayers.append((d.T0, ('val', 'D0')))
    return d.ref, 'self', d.T0


def a_pairs(name='it'):
    """Any iterable of pairs that is not a mapping."""
    def f(d, ip, st):
        t = ('arg', name)
        st.a_bool(('none', t), False)
        st.a_bool(('callable', t), False)
        st.a_bool(('isinst', t, ('abc.Mapping', 'dict')), False)
        st.a_bool(('hasattr', t, 'keys'), False)
        st.a_bool(('hasattr', t, 'items'), False)
        ip.pair_args = ip.pair_args + (t,)
        T = ('fs', ('keysof', t))
        d.arglayers.append((T, ('val', t)))
        return Sym(t), 'iter', T
    return f


def a_listed_pairs(*names):
    """A list of pairs with given keys."""
    def f(d, ip, st):
        vs = [Sym(('arg', 'val%d' % k)) for k in range(len(names))]
        r = st.new(ListO(tuple(('c', Tup((Sym(('arg', n)), v))) for n, v in zip(names, vs)), 'list'))
        d.argobjs[r.i] = st.o(r)
        for n, v in zip(names, vs):
            d.arglayers.append((one(('arg', n)), ('const', v)))
        return r, 'iter', all_or([one(('arg', n)) for n in names])
    return f


def a_mapping(name='it'):
    """Any mapping that is not a dict."""
    def f(d, ip, st):
        t = ('arg', name)
        st.a_bool(('none', t), False)
        st.a_bool(('callable', t), False)
        st.a_bool(('isinst', t, ('dict',)), False)
        st.a_bool(('isinst', t, ('abc.Mapping',)), True)
        ip.map_args = ip.map_args + (t,)
        T = ('fs', ('keysof', t))
        d.arglayers.append((T, ('val', t)))
        return Sym(t), 'mapping', T
    return f


def a_other(name='it'):
    """Any object that is no mapping."""
    def f(d, ip, st):
        t = ('arg', name)
        st.a_bool(('isinst', t, ('abc.Mapping', 'dict')), False)
        return Sym(t), 'other', None
    return f


def a_kw(d, ip, st):
    d.kwlayers.append((one(('val', C(KW))), ('const', Sym(('arg', 'kwv')))))
    return Sym(('arg', 'kwv')), 'kw', one(('val', C(KW)))


def dval(x, v):
    return Sym(('val', 'D0', v))


def merged(x):
    """Keys and layers after an update with the arguments."""
    K, Ls = x.T0, x.L0
    for T, lam in x.d.arglayers + x.d.kwlayers:
        K, Ls = or_(K, T), ((T, lam),) + Ls
    return K, Ls


def fresh_items(x):
    K, Ls = EMPTY, ()
    for T, lam in x.d.arglayers + x.d.kwlayers:
        K, Ls = or_(K, T), ((T, lam),) + Ls
    return K, Ls


def d_setitem(x, s):
    k = x.terms[0]
    return [(s, Exp(content=(or_(x.T0, k), ((k, ('const', x.args[1])),) + x.L0), result=is_none))]


def d_minus(x, k):
    return (diff_(x.T0, k), x.L0)


def d_delitem(x, s):
    k = x.terms[0]
    return [(s1, Exp(content=d_minus(x, k), result=is_none) if b else Exp(exc='KeyError')) for s1, b in x.ip.member(s, x.T0, k[1])]


def d_getitem(x, s):
    k = x.terms[0]
    return [(s1, Exp(result=is_value(dval(x, k[1]))) if b else Exp(exc='KeyError')) for s1, b in x.ip.member(s, x.T0, k[1])]


def d_get(dflt):
    def spec(x, s):
        k = x.terms[0]
        return [(s1, Exp(result=is_value(dval(x, k[1]) if b else dflt))) for s1, b in x.ip.member(s, x.T0, k[1])]
    return spec


def d_pop(dflt):
    def spec(x, s):
        k = x.terms[0]
        out = []
        for s1, b in x.ip.member(s, x.T0, k[1]):
            if b:
                out.append((s1, Exp(content=d_minus(x, k), result=is_value(dval(x, k[1])))))
            else:
                out.append((s1, Exp(exc='KeyError') if dflt is None else Exp(result=is_value(dflt))))
        return out
    return spec


def is_pair(x, v):
    w = (v, dval(x, v.t))

    def f(d, ip, st, r):
        if not isinstance(r, Tup) or len(r.items) != 2:
            return (UNK if isinstance(r, (Sym, Ref)) else BAD), 'returns %s where a pair is due' % show(r)
        for a, b in zip(r.items, w):
            q, why = is_value(b)(d, ip, st, a)
            if q != OK:
                return q, why
        return OK, ''
    return f


def d_popitem(x, s):
    out = []
    for s0, some in x.ip.set_truth(s, x.T0):
        if not some:
            out.append((s0, Exp(exc='KeyError')))
            continue
        for s1, v in at(x, s0, x.i):
            out.append((s1, Exp(exc='IndexError') if v is None else Exp(content=d_minus(x, one(v.t)), result=is_pair(x, v))))
    return out


def d_peekitem(x, s):
    return [(s1, Exp(exc='IndexError') if v is None else Exp(result=is_pair(x, v))) for s1, v in at(x, s, x.i)]


def d_setdefault(dflt):
    def spec(x, s):
        k = x.terms[0]
        out = []
        for s1, b in x.ip.member(s, x.T0, k[1]):
            if b:
                out.append((s1, Exp(result=is_value(dval(x, k[1])))))
            else:
                out.append((s1, Exp(content=(or_(x.T0, k), ((k, ('const', dflt)),) + x.L0), result=is_value(dflt))))
        return out
    return spec


def d_clear(x, s):
    return [(s, Exp(content=(EMPTY, ()), result=is_none))]


def d_copy(x, s):
    return [(s, Exp(result=new_of(x.T0, x.L0)))]


def d_update(x, s):
    e = Exp(content=merged(x), result=is_self if x.t.via == 'iop' else is_none)
    e.partial = (x.T0, e.content[0])
    return [(s, e)]


def d_or(x, s):
    if x.kinds[0] == 'other':
        return [(s, Exp(result=is_declined))]
    return [(s, Exp(result=new_of(*merged(x))))]


def d_ror(x, s):
    if x.kinds[0] == 'other':
        return [(s, Exp(result=is_declined))]
    K, Ls = fresh_items(x)
    return [(s, Exp(result=new_of(or_(K, x.T0), x.L0 + Ls)))]


def d_new(x, s):
    K, Ls = fresh_items(x)
    k = x.wantkey
    return [(s, Exp(result=lambda d, ip, st, v: d.new_instance(ip, st, v, K, layers=Ls, dyn=False, key=k)))]


def d_fromkeys(dflt):
    def spec(x, s):
        T = x.terms[0]
        return [(s, Exp(result=lambda d, ip, st, v: d.new_instance(ip, st, v, T, layers=((T, ('const', dflt)),), key=NONE)))]
    return spec


def d_view(cls):
    def spec(x, s):
        def f(d, ip, st, v):
            if isinstance(v, Ref) and isinstance(st.o(v), ObjO):
                o = st.o(v)
                if o.cls.name != cls:
                    return BAD, 'returns a %s' % o.cls.name
                m = o.fields.get('_mapping')
                return (OK if m == d.ref else BAD if isinstance(m, Ref) else UNK), 'a view of %s' % show(m)
            return (UNK if isinstance(v, Sym) else BAD), 'returns %s' % show(v)
        return [(s, Exp(result=f))]
    return spec


def d_repr(x, s):
    def chk(d, ip, st, v):
        if not (isinstance(v, Sym) and v.t[0] == 'str'):
            return (BAD if isinstance(v, C) else UNK), 'repr is %s' % show(v)
        got = list(v.t[1])
        for p in got:
            if isinstance(p, tuple) and p[0] == 'clsname' and isinstance(p[1], Cls):
                return BAD, 'repr names a fixed class'
        if has_img(got):
            return UNK, 'repr is built from %s' % show(v)
        keys = [p for p in got if isinstance(p, tuple) and p[0] == 'repr' and p[1] == KEY]
        if d.keyed != (len(keys) == 1):
            return BAD, 'the key is %s' % ('missing' if d.keyed else 'shown')
        flat = []
        for p in got:
            if isinstance(p, str):
                flat.append(p)
            elif p[0] == 'clsname':
                flat.append(('clsname',))
            elif p[0] == 'repr' and p[1] == KEY:
                flat.append(('key',))
            elif p[0] == 'join' and len(p) == 3 and len(p[2]) == 1 and p[2][0][0] == 'map' and p[1] == ('val', C(', ')):
                m = p[2][0]
                e = m[1]
                w = Sym(('str', (('repr', Sym(e)), ': ', ('repr', Sym(('val', 'D0', e))))))
                o = ordered(d, ip, st, m[3], d.p0[3])
                if o is None or not (isinstance(m[2], Sym) and m[2].t[0] == 'str'):
                    return UNK, 'repr is built from %s' % show(v)
                if m[2] != w or not o:
                    return BAD, 'repr shows %s for each key where %s is due' % (show(m[2]), show(w))
                flat.append(('items',))
            else:
                return UNK, 'repr is built from %s' % show(v)
        head = [('clsname',), '('] + ([('key',), ', '] if d.keyed else [])
        want = strs(head + ['{', ('items',), '})'])
        if strs(flat) == want or strs(flat) == strs(head + ['{})']) and subset(st, d.T0, EMPTY) is True:
            return OK, ''
        return BAD, 'repr is built from %s' % show(v)
    return [(s, Exp(result=chk))]


def strs(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


# views

def on_view(name, method):
    def go(x, st):
        ip = x.ip
        return ip.bind(ip.bind(ip.getattr(st, x.d.ref, name), lambda s, f: ip.call(s, f, [], {}, None)),
                       lambda s, v: ip.bind(ip.getattr(s, v, method), lambda s2, f: ip.call(s2, f, list(x.args), {}, None)))
    return go


def w_key(d, ip, st, e):
    return Sym(e)


def w_item(d, ip, st, e):
    return Tup((Sym(e), Sym(('val', 'D0', e))))


def w_value(d, ip, st, e):
    return Sym(('val', 'D0', e))


def elem(x, name, v):
    if name == 'keys':
        return is_value(v)
    if name == 'values':
        return is_value(dval(x, v.t))
    return is_pair(x, v)


WRAP = {'keys': None, 'items': w_item, 'values': w_value}


def v_getitem(name):
    def spec(x, s):
        return [(s1, Exp(exc='IndexError') if v is None else Exp(result=elem(x, name, v))) for s1, v in at(x, s, x.i)]
    return spec


def v_getslice(name):
    def spec(x, s):
        k = ('arg', 'slice')
        return [(s1, Exp(exc='ValueError') if bad else Exp(result=is_part(k, WRAP[name]))) for s1, bad in fork_bool(s, ('zerostep', k))]
    return spec


def v_delitem(x, s):
    return [(s1, Exp(exc='IndexError') if v is None else Exp(content=d_minus(x, one(v.t)), result=is_none)) for s1, v in at(x, s, x.i)]


def v_delslice(x, s):
    k = ('arg', 'slice')
    P = ('part', (x.d.lst.i, (x.d.p0[2], k)), x.T0)
    return [(s1, Exp(exc='ValueError') if bad else Exp(content=d_minus(x, P), result=is_none)) for s1, bad in fork_bool(s, ('zerostep', k))]


def v_iter(name, rev=False):
    return lambda x, s: [(s, Exp(result=is_listing(x.d.p0[3], rev=rev, wrap=WRAP[name])))]


def dict_tasks_(keyed):
    T = []

    def add(m, spec, args=(), **k):
        v = k.pop('variant', '')
        T.append(Task(m, spec, args, keyed=keyed, variant=(v + ' ' if v else '') + ('keyed' if keyed else 'plain'), **k))
    key, val = a_val('key'), a_const(DV)
    idx = A('arg', 'index')
    ival = a_const(idx)
    add('__contains__', s_contains, [key])
    add('__len__', s_len)
    add('__getitem__', d_getitem, [key])
    add('get', d_get(NONE), [key])
    add('get', d_get(DV), [key, val], variant='default')
    add('__setitem__', d_setitem, [key, val])
    add('__delitem__', d_delitem, [key])
    add('pop', d_pop(None), [key])
    add('pop', d_pop(DV), [key, val], variant='default')
    add('pop', d_pop(NONE), [key, a_const(NONE)], variant='default None')
    add('pop', d_pop(DV), [key], kw={'default': val}, variant='default keyword')
    add('popitem', d_popitem, [], setup=set_index(Lin(-1)), variant='()')
    add('popitem', d_popitem, [ival], setup=set_index(idx), variant='index')
    add('peekitem', d_peekitem, [], setup=set_index(Lin(-1)), variant='()')
    add('peekitem', d_peekitem, [ival], setup=set_index(idx), variant='index')
    add('setdefault', d_setdefault(NONE), [key])
    add('setdefault', d_setdefault(DV), [key, val], variant='default')
    add('clear', d_clear)
    add('copy', d_copy)
    add('__copy__', d_copy)
    add('__iter__', s_iter)
    add('__reversed__', s_reversed)
    add('keys', d_view('SortedKeysView'))
    add('items', d_view('SortedItemsView'))
    add('values', d_view('SortedValuesView'))
    add('key', s_key, go=go_attr('key'))
    add('__reduce__', s_rebuilt, go=go_reduce)
    add('__repr__', d_repr)
    forms = [('nothing', [], {}), ('dict', [a_dict()], {}), ('pairs', [a_pairs()], {}), ('mapping', [a_mapping()], {}), ('sorted dict', [a_sdict()], {}),
             ('itself', [a_selfdict], {}), ('keywords', [], {KW: a_kw}), ('dict and keywords', [a_dict()], {KW: a_kw}), ('pairs and keywords', [a_pairs()], {KW: a_kw}),
             ('key twice', [a_listed_pairs('k', 'k')], {}), ('two pairs', [a_listed_pairs('k', 'l')], {})]
    for nm, args, kw in forms:
        add('update', d_update, args, kw=kw, variant=nm)
        if nm == 'itself':
            nm = 'another'
        if keyed:
            add('__init__', d_new, [a_const(KEY)] + args, kw=kw, variant='key, ' + nm, go=go_new('SortedDict'), setup=want_key(KEY))
        else:
            add('__init__', d_new, args, kw=kw, variant=nm, go=go_new('SortedDict'), setup=want_key(NONE))
            add('__init__', d_new, [a_const(NONE)] + args, kw=kw, variant='None, ' + nm, go=go_new('SortedDict'), setup=want_key(NONE))
    for nm, a in (('dict', a_dict()), ('mapping', a_mapping()), ('sorted dict', a_sdict()), ('itself', a_selfdict), ('other', a_other())):
        add('__or__', d_or, [a], via='op', variant=nm)
        if nm in ('dict', 'mapping', 'other'):
            add('__ror__', d_ror, [a], via='rop' if nm == 'dict' else 'method', variant=nm)
        if nm != 'other':
            add('__ior__', d_update, [a], via='iop', variant=nm)
    add('__ior__', d_update, [a_pairs()], via='iop', variant='pairs')
    add('fromkeys', d_fromkeys(NONE), [a_iter()])
    add('fromkeys', d_fromkeys(DV), [a_iter(), val], variant='value')
    add('fromkeys', d_fromkeys(DV), [a_listed('k', 'k'), val], variant='twice')
    qs = ['bisect', 'bisect_left', 'bisect_right', 'index', 'irange', 'islice']
    if keyed:
        qs += ['bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key']
    for q in qs:
        add(q, s_query, [a_const(Sym(('arg', 'q')))])
    for nm in ('keys', 'items', 'values'):
        def view(m, spec, args=(), nm=nm, **k):
            add(nm + '.' + m, spec, args, go=on_view(nm, m), **k)
        view('__len__', s_len)
        view('__iter__', v_iter(nm))
        view('__reversed__', v_iter(nm, True))
        view('__getitem__', v_getitem(nm), [ival], setup=set_index(idx), variant='index')
        view('__getitem__', v_getslice(nm), [slice_arg], variant='slice')
        view('__delitem__', v_delitem, [ival], setup=set_index(idx), variant='index')
        view('__delitem__', v_delslice, [slice_arg], variant='slice')
    add('keys.__contains__', s_contains, [key], go=on_view('keys', '__contains__'))
    view_tasks(add)
    return T


def view_tasks(add):
    forms = [('set', a_set()), ('iterable', a_iter()), ('sorted set', a_sorted()), ('frozen set', a_set('A0', 'frozenset'))]
    for f, r in ((or_, 'or'), (and_, 'and'), (diff_, 'sub'), (xor_, 'xor')):
        for nm, a in forms:
            if f is xor_ and nm == 'iterable':
                # the other operand's own operators take part
                continue
            add('keys.__%s__' % r, v_setop(f), [a], variant=nm, go=on_view('keys', '__%s__' % r))
            add('keys.__r%s__' % r, v_setop(rfold(f)), [a], variant=nm, go=on_view('keys', '__r%s__' % r))
    for op in ('eq', 'lt', 'le', 'gt', 'ge'):
        for nm, a in (forms[0], forms[2]):
            add('keys.__%s__' % op, s_rel(op), [a], variant=nm, go=on_view('keys', '__%s__' % op))
    for nm, a in forms:
        add('keys.isdisjoint', s_subset('disj'), [a], variant=nm, go=on_view('keys', 'isdisjoint'))


def v_setop(f):
    """A set operation on the keys view answers a sorted set."""
    def spec(x, s):
        T = fold(f, x)

        def res(d, ip, st, v):
            if v == NOTIMPL and x.kinds[0] == 'iter' and st.facts.boolval(('isinst', x.args[0].t, ('abc.Set',))) is not True:
                return OK, ''
            return d.new_instance(ip, st, v, T, cls='SortedSet', dyn=False, order=False)
        return [(s, Exp(result=res))]
    return spec


def want_key(k):
    def f(x, st):
        x.wantkey = k
    return f


def tasks(dom, cls):
    out = []
    for keyed in (False, True):
        out += set_tasks_(keyed) if cls == 'SortedSet' else dict_tasks_(keyed)
    return out
