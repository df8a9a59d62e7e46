"""Models of the python builtins and of the standard library in use."""
from .core import *
from .lists import pelem_x

ABC_OF = {
    'list': ('list', 'abc.Sequence', 'abc.MutableSequence', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Reversible', 'object'),
    'tuple': ('tuple', 'abc.Sequence', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Reversible', 'abc.Hashable', 'object'),
    'range': ('range', 'abc.Sequence', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Reversible', 'abc.Hashable', 'object'),
    'set': ('set', 'abc.Set', 'abc.MutableSet', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'object'),
    'frozenset': ('frozenset', 'abc.Set', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Hashable', 'object'),
    'dict': ('dict', 'abc.Mapping', 'abc.MutableMapping', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Reversible', 'object'),
    'it': ('abc.Iterator', 'abc.Iterable', 'object', 'abc.Generator'),
    'int': ('int', 'abc.Hashable', 'object', 'numbers.Integral', 'numbers.Number'),
    'bool': ('bool', 'int', 'abc.Hashable', 'object'),
    'str': ('str', 'abc.Sequence', 'abc.Iterable', 'abc.Sized', 'abc.Container', 'abc.Collection', 'abc.Hashable', 'object', 'abc.Reversible'),
    'none': ('NoneType', 'abc.Hashable', 'object'),
    'slice': ('slice', 'object'),
}

OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'or_': 'BitOr', 'and_': 'BitAnd', 'xor': 'BitXor', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'rshift': 'RShift', 'lshift': 'LShift'}
IOPS = {'iadd': 'Add', 'isub': 'Sub', 'imul': 'Mult', 'ior': 'BitOr', 'iand': 'BitAnd', 'ixor': 'BitXor'}
RELS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')

EXCS = {n for n in dir(__builtins__) if n.endswith(('Error', 'Exception', 'Iteration', 'Warning'))} if not isinstance(__builtins__, dict) else \
    {n for n in __builtins__ if n.endswith(('Error', 'Exception', 'Iteration', 'Warning'))}


class Builtins:
    # ------------------------------------------------------------ helpers
    def newlist(self, st, seq, kind='list'):
        return st.new(ListO(tuple(seq), kind))

    def seqs(self, st, vs):
        """Consume several iterables in order: [(st, [seq..]|Exc)]"""
        res = [(st, [])]
        for v in vs:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                for s2, q in self.iter_seq(s, v):
                    nxt.append((s2, q if isinstance(q, Exc) else acc + [q]))
            res = nxt
        return res

    def kinds(self, st, v):
        """Names of the classes a value is an instance of, or None."""
        if isinstance(v, Lin):
            return ABC_OF['int']
        if isinstance(v, C):
            if v.v is None:
                return ABC_OF['none']
            if isinstance(v.v, bool):
                return ABC_OF['bool']
            if isinstance(v.v, str):
                return ABC_OF['str']
            return ('object',)
        if isinstance(v, Tup):
            return ABC_OF['tuple']
        if isinstance(v, Sub):
            return ABC_OF['list']
        if isinstance(v, Slice):
            return ABC_OF['slice']
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                return ABC_OF[o.kind]
            if isinstance(o, ItO):
                return ABC_OF['it']
            if isinstance(o, SetO):
                return ABC_OF.get(o.kind, ABC_OF['set'])
            if isinstance(o, DictO):
                return ABC_OF['dict']
            if isinstance(o, (ObjO, SLO)):
                return self.cls_names(o.cls)
        if isinstance(v, (Fn, BM, Bi, BB, Part)):
            return ('object', 'abc.Callable', 'abc.Hashable')
        if isinstance(v, (Cls, Dyn)):
            return ('type', 'object', 'abc.Callable', 'abc.Hashable')
        if isinstance(v, ExcV):
            return (v.kind, 'Exception', 'object')
        if isinstance(v, Sym):
            if v.t[0] == 'str':
                return ABC_OF['str']
        return None

    def cls_names(self, c):
        out = ['object', 'abc.Hashable']
        for m, n in self.prog.mro(c.mod, c.name):
            if m == 'ext':
                out.extend(ABC_OF.get(n, (n,)))
            elif m == '_abc':
                out.append('abc.' + n)
            else:
                out.append(n)
        return tuple(out)

    def cname(self, c):
        if isinstance(c, Bi):
            return c.name
        if isinstance(c, (Cls, Dyn)):
            return c.name
        return None

    def isinstance_(self, st, v, cs):
        names = []
        def flat(x):
            if isinstance(x, Tup):
                for y in x.items:
                    flat(y)
            else:
                names.append(self.cname(x))
        flat(cs)
        if None in names:
            if isinstance(v, Sym) or True:
                return [(s, B(b)) for s, b in fork_bool(st, ('isinst', tm(self.freeze(st, v)), ('?', repr(cs))))]
        k = self.kinds(st, v)
        if k is not None:
            return [(st, B(any(n in k for n in names)))]
        if isinstance(v, Sym):
            if v.t in self.intargs:
                return [(st, B('int' in names))]
            if st.facts.boolval(('none', v.t)) is True:
                return [(st, FALSE)]
            for (t, b) in st.facts.bools:
                if t[0] == 'isinst' and t[1] == v.t and b:
                    imp = set()
                    for n in t[2]:
                        imp |= set(ABC_OF.get(n, (n,)))
                        for m in ('sortedlist', 'sorteddict', 'sortedset'):
                            if self.prog.has_class(m, n):
                                imp |= set(self.cls_names(Cls(n, m)))
                    if len(t[2]) == 1 and any(n in imp for n in names):
                        return [(st, TRUE)]
                    if len(t[2]) == 1 and t[2][0] in ABC_OF and all(n in ABC_OF or self.isprog(n) for n in names):
                        return [(st, FALSE)]
            neg = set()
            for (t, b) in st.facts.bools:
                if t[0] == 'isinst' and t[1] == v.t and not b:
                    neg |= set(t[2])
            names = [n for n in names if not neg & self.implied(n)]
            if not names:
                return [(st, FALSE)]
            return [(s, B(b)) for s, b in fork_bool(st, ('isinst', v.t, tuple(sorted(set(names)))))]
        raise Undecided('isinstance')

    def listarg(self, st, v):
        """A list standing for an argument that was found to be a list or tuple
        (for reading only)."""
        if isinstance(v, Sym) and v.t not in self.intargs:
            for t, b in st.facts.bools:
                if b and (t[0] == 'isinst' and t[1] == v.t and len(t[2]) == 1 and t[2][0] in ('list', 'tuple')
                          or t[0] == 'is' and t[1] == ('typeof', v.t) and t[2] in (Bi('list'), Bi('tuple'))):
                    kind = t[2][0] if t[0] == 'isinst' else t[2].name
                    n = A('len', ('o', v.t, 0))
                    st.a_ge(n)
                    return st.new(ListO((('o', v.t, 0),), kind))
        return v

    def implied(self, n):
        """Classes that an instance of n also belongs to."""
        imp = {n} | set(ABC_OF.get(n, ()))
        for m in ('sortedlist', 'sorteddict', 'sortedset'):
            if self.prog.has_class(m, n):
                imp |= set(self.cls_names(Cls(n, m)))
        return imp

    def isprog(self, n):
        return any(self.prog.has_class(m, n) for m in ('sortedlist', 'sorteddict', 'sortedset'))

    def len_(self, st, v):
        if isinstance(v, (Tup, Sub)):
            return [(st, seqlen(st, self.seq_of(st, v)))]
        if isinstance(v, C) and isinstance(v.v, (str, tuple)):
            return [(st, Lin(len(v.v)))]
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                if o.seq and o.seq[0][0] == 'iv' and len(o.seq) == 1:
                    out = []
                    for s, b in self.split_iv(st, v):
                        out.append((s, seqlen(s, s.o(v).seq)))
                    return out
                n = seqlen(st, o.seq)
                for a in n.atoms():
                    if a[0] in ('len', 'nat'):
                        st.a_ge(Lin.atom(a))
                return [(st, n)]
            if isinstance(o, SetO):
                return [(st, self.setlen(st, o.term))]
            if isinstance(o, DictO):
                return [(st, self.setlen(st, o.keys))]
            if isinstance(o, SLO):
                return self.sl_len(st, v)
            if isinstance(o, ObjO):
                r = self.class_attr(o.cls, '__len__')
                if r is None and self.is_dict(o):
                    return [(st, self.setlen(st, st.o(o.fields['$dict']).keys))]
                if r is not None:
                    return self.bind(self.getattr(st, v, '__len__'), lambda s, f: self.call(s, f, [], {}, None))
            return self.exc(st, 'TypeError', 'no len')
        if isinstance(v, Sym):
            n = A('len', ('o', v.t, 0))
            out = []
            sized = v.t in self.sized_args or any(t[0] == 'isinst' and t[1] == v.t and b for t, b in st.facts.bools)
            if not sized:
                out = self.may_raise(st, 'len')
            st.a_ge(n)
            return out + [(st, n)]
        return self.exc(st, 'TypeError', 'no len')

    # ------------------------------------------------------------ builtins
    def call_bi(self, st, name, args, kw, node):
        if any(type(a) is tuple and a and a[0] == '*' for a in args):
            return self.call_bi_star(st, name, args, kw, node)
        base = name.split('.')[-1]
        m = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kw, node)
        if name in EXCS:
            return [(st, ExcV(name, tuple(args)))]
        if name.startswith('operator.') or name.startswith('_operator.'):
            return self.bi_operator(st, base, args, kw, node)
        if name.startswith('dict.') and args:
            return self.call_bb(st, args[0], ('dict.' if isinstance(args[0], Ref) and isinstance(st.o(args[0]), ObjO) else '') + base, list(args[1:]), kw, node)
        if name.startswith(('list.', 'set.', 'frozenset.', 'str.', 'tuple.')) and args:
            return self.call_bb(st, args[0], base, list(args[1:]), kw, node)
        if name.startswith('object.') or name.startswith('abc.'):
            if base == '__init__' or base == '__init_subclass__':
                return [(st, NONE)]
            if base == '__new__':
                return self.bi_object___new__(st, args, kw, node)
            if base == '__reduce__' or base == '__reduce_ex__':
                raise Undecided('object.__reduce__')
            if base == '__eq__':
                return [(s, TRUE if b else NOTIMPL) for s, b in self.is_same(st, args[0], args[1])]
            if base == '__setattr__':
                return self.setattr(st, args[0], args[1].v, args[2])
        if name in ('warnings.warn', 'print', 'noop', 'traceback.print_exc', 'sys.setrecursionlimit'):
            return [(st, NONE)]
        if name in ('textwrap.dedent', 'inspect.cleandoc'):
            return [(st, args[0])]
        if name == 'recursive_repr' or name == 'functools.wraps':
            raise Undecided('decorator call')
        raise Undecided('call of %s' % name)

    def call_bi_star(self, st, name, args, kw, node):
        if name in ('itertools.chain',) and all(type(a) is not tuple or a[0] != '*' or all(p[0] == 'c' for p in a[1]) for a in args):
            flat = []
            for a in args:
                flat.extend([p[1] for p in a[1]] if type(a) is tuple and a[0] == '*' else [a])
            return self.call_bi(st, name, flat, kw, node)
        if name == 'itertools.chain' and len(args) == 1:
            return self.chain_from(st, args[0][1])
        raise Undecided('starred call of %s' % name)

    def bi_len(self, st, args, kw, node):
        return self.len_(st, args[0])

    def bi_bool(self, st, args, kw, node):
        if not args:
            return [(st, FALSE)]
        return [(s, b if isinstance(b, Exc) else B(b)) for s, b in self.truth(st, args[0])]

    def bi_int(self, st, args, kw, node):
        if not args:
            return [(st, ZERO)]
        v = args[0]
        if isinstance(v, C) and isinstance(v.v, bool):
            return [(st, Lin(int(v.v)))]
        if isinstance(v, Sym) and v.t[0] in ('cmp', 'in', 'isinst', 'none', 'not'):
            return [(s, b if isinstance(b, Exc) else Lin(int(b))) for s, b in self.truth(st, v)]
        if isinstance(v, Sym) and v.t[0] == 'log2':
            return self.flog2(st, v.t[1])
        if isinstance(v, Lin):
            return [(st, v)]
        return [(st, A('unk', 'int', uid()))]

    def flog2(self, st, x):
        if x.is_const():
            return self.exc(st, 'ValueError', 'math domain error') if x.c <= 0 else [(st, Lin(x.c.bit_length() - 1))]
        return [(st, A('flog2', x))]

    def bi_math_floor(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Sym) and v.t[0] == 'log2':
            return self.flog2(st, v.t[1])
        return [(st, v if isinstance(v, Lin) else A('unk', 'int', uid()))]

    def bi_math_ceil(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Sym) and v.t[0] == 'log2' and v.t[1].is_const() and v.t[1].c > 0:
            return [(st, Lin((v.t[1].c - 1).bit_length()))]
        return [(st, v if isinstance(v, Lin) else A('unk', 'int', uid()))]

    def bi_abs(self, st, args, kw, node):
        x = self.toint(st, args[0])
        return [(s, x if b else -x) for s, b in fork_ge(st, x)]

    def bi_id(self, st, args, kw, node):
        return [(st, A('id', uid()))]

    def bi_hash(self, st, args, kw, node):
        return self.may_raise(st, 'hash') + [(st, A('unk', 'hash', uid()))]

    def bi_callable(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Sym):
            return [(s, B(b)) for s, b in fork_bool(st, ('callable', v.t))]
        k = self.kinds(st, v)
        return [(st, B('abc.Callable' in (k or ())))]

    def bi_range(self, st, args, kw, node):
        a = [self.toint(st, x) for x in args]
        if len(a) == 1:
            lo, hi, step = ZERO, a[0], Lin(1)
        elif len(a) == 2:
            lo, hi, step = a[0], a[1], Lin(1)
        else:
            lo, hi, step = a
        if step.is_const() and step.c == 0:
            return self.exc(st, 'ValueError', 'range step')
        if step.is_const() and step.c in (1, -1):
            out = []
            for s, some in fork_ge(st, (hi - lo) * step.c - 1):
                out.append((s, s.new(ListO((('rng', lo, hi, step),) if some else (), 'range'))))
            return out
        if lo.is_const() and hi.is_const() and step.is_const() and len(range(lo.c, hi.c, step.c)) <= 5000:
            return [(st, st.new(ListO(tuple(('c', Lin(x)) for x in range(lo.c, hi.c, step.c)), 'range')))]
        n = A('len', ('rng', lo, hi, step))
        st.a_ge(n)
        return [(st, st.new(ListO((('rng', lo, hi, step),), 'range')))]

    def bi_slice(self, st, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        elif len(a) == 2:
            a = a + [NONE]
        return [(st, Slice(*a))]

    def bi_iter(self, st, args, kw, node):
        if len(args) != 1:
            raise Undecided('iter with sentinel')
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.o(v), ItO):
            return [(st, v)]
        if isinstance(v, Sym):
            return [(s, q if isinstance(q, Exc) else s.new(ItO(q, 'arg'))) for s, q in self.iter_seq(st, v)]
        if isinstance(v, Ref) and isinstance(st.o(v), ObjO) and self.class_attr(st.o(v).cls, '__iter__') is not None:
            return self.bind(self.getattr(st, v, '__iter__'), lambda s, f: self.call(s, f, [], {}, node))
        return [(s, q if isinstance(q, Exc) else s.new(ItO(q, v if isinstance(v, Ref) else 'sub'))) for s, q in self.iter_seq(st, v)]

    def bi_reversed(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.o(v), ObjO):
            if self.class_attr(st.o(v).cls, '__reversed__') is not None:
                return self.bind(self.getattr(st, v, '__reversed__'), lambda s, f: self.call(s, f, [], {}, node))
            raise Undecided('reversed')
        if isinstance(v, Ref) and isinstance(st.o(v), SLO):
            return self.sl_call(st, v, '__reversed__', [], {}, node)
        if isinstance(v, Ref) and isinstance(st.o(v), (SetO, ItO)):
            return self.exc(st, 'TypeError', 'not reversible')
        return [(s, q if isinstance(q, Exc) else s.new(ItO(rev_seq(q), v if isinstance(v, Ref) else 'sub'))) for s, q in self.iter_seq(st, v)]

    def bi_next(self, st, args, kw, node):
        v = args[0]
        if not (isinstance(v, Ref) and isinstance(st.o(v), ItO)):
            if isinstance(v, Ref) and isinstance(st.o(v), ObjO):
                return self.bind(self.getattr(st, v, '__next__'), lambda s, f: self.call(s, f, [], {}, node))
            if isinstance(v, Ref):
                return self.exc(st, 'TypeError', 'not an iterator')
            raise Undecided('next')
        seq = st.o(v).seq
        out = []
        for s, some in fork_ge(st, seqlen(st, seq) - 1):
            if not some:
                s.put(v, ItO((), s.o(v).src))
                out.append((s, args[1] if len(args) > 1 else Exc('StopIteration', ())))
                continue
            for s2, k, off in locate(s, seq, ZERO):
                for s3, l, r in split_at(s2, seq, Lin(1)):
                    s3.put(v, ItO(tuple(r), s3.o(v).src))
                    src = s3.o(v).src
                    p = seq[k]
                    val = pelem_x(s3, p, off)
                    if p[0] == 'L' and isinstance(src, Ref) and isinstance(s3.o(src), ListO):
                        # the live sublist, not a snapshot
                        rr = self.seq_get(s3, src, s3.o(src).seq, p[2] if p[5] > 0 else p[3] - 1)
                        out.extend(rr)
                    else:
                        out.append((s3, val))
        return out

    def bi_list(self, st, args, kw, node):
        if not args:
            return [(st, self.newlist(st, ()))]
        v = args[0]
        return [(s, q if isinstance(q, Exc) else self.newlist(s, q)) for s, q in self.iter_seq(st, v)]

    def bi_tuple(self, st, args, kw, node):
        if not args:
            return [(st, Tup(()))]
        if isinstance(args[0], Tup):
            return [(st, args[0])]
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
            elif all(p[0] == 'c' for p in q):
                out.append((s, Tup(tuple(p[1] for p in q))))
            else:
                out.append((s, self.newlist(s, q, 'tuple')))
        return out

    def bi_sorted(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
            else:
                out.extend(self.sort_seq(s, q, kw, lambda s2, q2: self.newlist(s2, q2)))
        return out

    def bi_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            n = self.toint(s, start)
            res = []
            for p in q:
                ln = plen(s, p)
                if p[0] == 'c':
                    res.append(('c', Tup((n, p[1]))))
                else:
                    res.append(('zip', (('rng', n, n + ln, Lin(1)), p)))
                n = n + ln
            out.append((s, s.new(ItO(tuple(res), 'enumerate'))))
        return out

    def explode(self, st, seq, most=20000):
        """The elements one by one, when their number is a constant."""
        out = []
        for p in seq:
            n = plen(st, p)
            if not n.is_const():
                n = next((Lin(k) for k in range(3) if st.eq(n, k)), None)
                if n is None:
                    return None
            if n.c + len(out) > most:
                return None
            for k in range(n.c):
                out.append(p if p[0] == 'c' else ('c', pelem_x(st, p, Lin(k))))
        return tuple(out)

    def zip_one(self, st, ref, n):
        """zip of n times the same iterator: consecutive groups."""
        o = st.o(ref)
        q = self.explode(st, norm(st, o.seq))
        if q is None:
            raise Undecided('zip of an iterator with itself')
        if any(type(x[1]) is tuple for x in q):
            raise Undecided('zip of an iterator with itself')
        st.put(ref, o._replace(seq=()))
        return [(st, st.new(ItO(tuple(('c', Tup(tuple(x[1] for x in q[k:k + n]))) for k in range(0, len(q) - n + 1, n)), 'zip')))]

    def bi_zip(self, st, args, kw, node):
        out = []
        if len(args) > 1 and isinstance(args[0], Ref) and isinstance(st.o(args[0]), ItO) and args[0] in args[1:]:
            if any(a != args[0] for a in args):
                raise Undecided('zip of an iterator with itself')
            return self.zip_one(st, args[0], len(args))
        for s, qs in self.seqs(st, args):
            if isinstance(qs, Exc):
                out.append((s, qs))
                continue
            if not qs:
                out.append((s, s.new(ItO((), 'zip'))))
                continue
            out.extend((s2, s2.new(ItO(q, 'zip'))) for s2, q in self.zip_seqs(s, [tuple(norm(s, q)) for q in qs]))
        return out

    def zip_same(self, qs):
        """A sequence beside values computed from each of its elements."""
        if any(len(q) != 1 for q in qs):
            return None
        base = {q[0][3] if q[0][0] == 'map' else q[0] for q in qs}
        e = {q[0][1] for q in qs if q[0][0] == 'map'}
        if len(base) != 1 or len(e) != 1:
            return None
        p, e = base.pop(), e.pop()
        if p[0] not in ('sl', 'sls', 'rev', 'perm', 'srt') or e[0] != 'elt':
            return None
        return ('map', e, Tup(tuple(q[0][2] if q[0][0] == 'map' else Sym(e) for q in qs)), p)

    def zip_seqs(self, st, qs, depth=0):
        """Zip sequences: [(st, seq of zip pieces)]"""
        if all(len(q) > 3 and all(p[0] == 'c' for p in q) for q in qs):
            return [(st, tuple(('c', Tup(tuple(p[1] for p in t))) for t in zip(*qs)))]
        if depth > 8:
            raise Undecided('zip')
        if any(not q for q in qs):
            return [(st, ())]
        z = self.zip_same(qs)
        if z is not None:
            return [(st, (z,))]
        # drop possibly empty heads
        for k, q in enumerate(qs):
            ln = plen(st, q[0])
            if not st.ge(ln - 1):
                out = []
                for s, some in fork_ge(st, ln - 1):
                    q2 = list(qs)
                    if not some:
                        q2[k] = q[1:]
                    out.extend(self.zip_seqs(s, q2, depth + 1))
                return out
        heads = [q[0] for q in qs]
        lens = [plen(st, p) for p in heads]
        # find minimum
        out = []
        def rec(s, best, k):
            if k == len(lens):
                out.append((s, best))
                return
            for s2, ge in fork_ge(s, lens[k] - lens[best]):
                rec(s2, best if ge else k, k + 1)
        rec(st, 0, 1)
        res = []
        for s, b in out:
            n = lens[b]
            parts, rests = [], []
            for q, p, ln in zip(qs, heads, lens):
                if s.eq(ln, n):
                    parts.append(p)
                    rests.append(tuple(q[1:]))
                else:
                    x, y = psplit(s, p, n)
                    parts.append(x)
                    rests.append((y,) + tuple(q[1:]))
            if all(p[0] == 'c' for p in parts):
                piece = ('c', Tup(tuple(p[1] for p in parts)))
            elif n == Lin(1):
                piece = ('c', Tup(tuple(pelem_x(s, p, ZERO) for p in parts)))
            else:
                piece = ('zip', tuple(parts))
            for s2, rest in self.zip_seqs(s, rests, depth + 1):
                res.append((s2, (piece,) + tuple(rest)))
        return res

    def bi_map(self, st, args, kw, node):
        f = args[0]
        out = []
        if len(args) == 2:
            srcs = self.seqs(st, args[1:])
        else:
            srcs = []
            for s, z in self.bi_zip(st, args[1:], {}, node):
                if isinstance(z, Exc):
                    srcs.append((s, z))
                else:
                    srcs.append((s, [s.o(z).seq]))
        star = len(args) > 2
        for s, qs in srcs:
            if isinstance(qs, Exc):
                out.append((s, qs))
                continue
            out.extend((s2, q if isinstance(q, Exc) else s2.new(ItO(q, 'map'))) for s2, q in self.map_seq(s, f, qs[0], star, node))
        return out

    def map_seq(self, st, f, seq, star, node):
        def one(s, elem):
            a = list(elem.items) if star else [elem]
            return [(s2, v if isinstance(v, Exc) else (('c', v),)) for s2, v in self.call(s, f, a, {}, node)]
        res = [(st, ())]
        for p in seq:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                r = one(s, p[1]) if p[0] == 'c' else self.map_piece(s, p, one)
                for s2, q in r:
                    nxt.append((s2, q if isinstance(q, Exc) else acc + tuple(q)))
            res = nxt
        return res

    def bi_itertools_starmap(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[1]):
            if isinstance(q, Exc):
                out.append((s, q))
            else:
                out.extend((s2, x if isinstance(x, Exc) else s2.new(ItO(x, 'map'))) for s2, x in self.map_seq(s, args[0], q, True, node))
        return out

    def bi_filter(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[1]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            f = args[0]

            def one(s2, elem):
                r = []
                vs = [(s2, elem)] if f == NONE else self.call(s2, f, [elem], {}, node)
                for s3, v in vs:
                    if isinstance(v, Exc):
                        r.append((s3, v))
                        continue
                    for s4, b in self.truth(s3, v):
                        r.append((s4, b if isinstance(b, Exc) else ((('c', elem),) if b else ())))
                return r
            res = [(s, ())]
            for p in q:
                nxt = []
                for s2, acc in res:
                    if isinstance(acc, Exc):
                        nxt.append((s2, acc))
                        continue
                    r = one(s2, p[1]) if p[0] == 'c' else self.map_piece(s2, p, one)
                    nxt.extend((s3, x if isinstance(x, Exc) else acc + tuple(x)) for s3, x in r)
                res = nxt
            out.extend((s2, x if isinstance(x, Exc) else s2.new(ItO(x, 'filter'))) for s2, x in res)
        return out

    def bi_sum(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            tot = self.toint(s, args[1]) if len(args) > 1 else ZERO
            for p in q:
                if p[0] == 'c':
                    tot = tot + self.toint(s, p[1])
                elif p[0] == 'n':
                    tot = tot + mkG(p[1], p[3]) - mkG(p[1], p[2])
                elif p[0] == 'clen':
                    tot = tot + seqlen(s, p[1])
                elif p[0] == 'map' and isinstance(p[2], Lin):
                    t = self.sum_over(s, p[2], p[1], p[3], plen(s, p[3]))
                    tot = tot + (t if t is not None else A('unk', 'sum', uid()))
                elif p[0] == 'repv' and p[1].is_const():
                    tot = tot + p[2] * p[1].c
                else:
                    tot = tot + A('unk', 'sum', uid())
            out.append((s, tot))
        return out

    def minmax(self, st, args, kw, mx):
        if len(args) >= 2 and not kw:
            res = [(st, args[0])]
            for b in args[1:]:
                nxt = []
                for s, a in res:
                    if not (isinstance(a, (Lin, Sym)) and isinstance(b, (Lin, Sym))):
                        raise Undecided('min/max')
                    if isinstance(a, Sym) and isinstance(b, Sym):
                        raise Undecided('min/max of values')
                    x, y = self.toint(s, a), self.toint(s, b)
                    for s2, ge in fork_ge(s, x - y):
                        nxt.append((s2, (x if ge else y) if mx else (y if ge else x)))
                res = nxt
            return res
        raise Undecided('min/max')

    def bi_min(self, st, args, kw, node):
        return self.minmax(st, args, kw, False)

    def bi_max(self, st, args, kw, node):
        return self.minmax(st, args, kw, True)

    def anyall(self, st, args, stop):
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            res = [(s, not stop)]
            for p in q:
                nxt = []
                for s2, b in res:
                    if isinstance(b, Exc) or b == stop:
                        nxt.append((s2, b))
                    elif p[0] == 'c':
                        nxt.extend(self.truth(s2, p[1]))
                    elif p[0] == 'map' and isinstance(p[2], C):
                        for s3, some in fork_ge(s2, plen(s2, p) - 1):
                            nxt.append((s3, bool(p[2].v) if some else b))
                    else:
                        s2.imprecise('any/all over a generic element')
                        t = s2.copy()
                        nxt.append((t, True))
                        nxt.append((s2, False))
                res = nxt
            out.extend((s2, b if isinstance(b, Exc) else B(b)) for s2, b in res)
        return out

    def bi_any(self, st, args, kw, node):
        return self.anyall(st, args, True)

    def bi_all(self, st, args, kw, node):
        return self.anyall(st, args, False)

    def bi_isinstance(self, st, args, kw, node):
        return self.isinstance_(st, args[0], args[1])

    def bi_issubclass(self, st, args, kw, node):
        a = args[0]
        if isinstance(a, (Cls, Dyn)):
            ks = self.cls_names(a)
            cs = args[1].items if isinstance(args[1], Tup) else (args[1],)
            return [(st, B(any(self.cname(c) in ks for c in cs)))]
        raise Undecided('issubclass')

    def bi_hasattr(self, st, args, kw, node):
        if not (isinstance(args[1], C) and isinstance(args[1].v, str)):
            raise Undecided('hasattr')
        if isinstance(args[0], Sym):
            return [(s, B(b)) for s, b in fork_bool(st, ('hasattr', args[0].t, args[1].v))]
        r = self.getattr(st, args[0], args[1].v)
        return [(s, B(not isinstance(v, Exc))) for s, v in r]

    def bi_getattr(self, st, args, kw, node):
        if not (isinstance(args[1], C) and isinstance(args[1].v, str)):
            raise Undecided('getattr')
        out = []
        for s, v in self.getattr(st, args[0], args[1].v):
            if isinstance(v, Exc) and v.kind == 'AttributeError' and len(args) > 2:
                v = args[2]
            out.append((s, v))
        return out

    def bi_setattr(self, st, args, kw, node):
        return self.setattr(st, args[0], args[1].v, args[2])

    def bi_type(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, (ObjO, SLO)):
                return [(st, Dyn(o.cls.name, o.cls.mod))]
            if isinstance(o, ListO):
                return [(st, Bi(o.kind))]
            if isinstance(o, SetO):
                return [(st, Bi(o.kind))]
            if isinstance(o, DictO):
                return [(st, Bi('dict'))]
        if isinstance(v, Sym):
            return [(st, Sym(('typeof', v.t)))]
        k = self.kinds(st, v)
        return [(st, Bi(k[0] if k else 'object'))]

    def bi_repr(self, st, args, kw, node):
        return self.may_raise(st, 'repr') + [(st, self.repr_val(st, args[0]))]

    def bi_str(self, st, args, kw, node):
        if not args:
            return [(st, C(''))]
        return [(st, self.str_val(st, args[0]))]

    def bi_divmod(self, st, args, kw, node):
        return self.bind(self.binop(st, 'FloorDiv', args[0], args[1]), lambda s, q: self.bind(self.binop(s, 'Mod', args[0], args[1]), lambda s2, r: [(s2, Tup((q, r)))]))

    def bi_vars(self, st, args, kw, node):
        raise Undecided('vars')

    def bi_object___new__(self, st, args, kw, node):
        c = args[0]
        if isinstance(c, (Cls, Dyn)):
            f = {}
            if ('ext', 'dict') in self.prog.mro(c.mod, c.name):
                f['$dict'] = st.new(DictO(('empty',), ()))
            r = st.new(ObjO(Cls(c.name, c.mod), f))
            if isinstance(c, Dyn):
                st.setfield(r, '$dyn', TRUE)
            st.event('new', c.name)
            return [(st, r)]
        raise Undecided('object.__new__')

    bi_dict___new__ = bi_object___new__

    def bi_object(self, st, args, kw, node):
        return [(st, Sym(('sentinel', uid())))]

    # ------------------------------------------------------------ bisect
    def bisect_(self, st, args, kw, side):
        lo = args[2] if len(args) > 2 else kw.get('lo')
        hi = args[3] if len(args) > 3 else kw.get('hi')
        if 'key' in kw:
            raise Undecided('bisect key')
        lst = args[0]
        if isinstance(lst, Ref) and isinstance(st.o(lst), SLO):
            raise Undecided('bisect of a sorted list')
        if lo == ZERO:
            lo = None
        if hi is not None and isinstance(hi, Lin) and st.eq(hi, seqlen(st, self.seq_of(st, lst) or ())):
            hi = None
        if lo is not None or hi is not None:
            seq = self.seq_of(st, lst)
            n = seqlen(st, seq)
            l = self.toint(st, lo) if lo is not None else ZERO
            h = self.toint(st, hi) if hi is not None else n
            out = []
            if not (st.ge(l) and st.ge(n - h) and st.ge(h - l)):
                raise Undecided('bisect bounds')
            for s, q in subseq(st, seq, l, h):
                r = self.newlist(s, q)
                out.extend((s2, v if isinstance(v, Exc) else v + l) for s2, v in self.bisect(s, r, args[1], side))
            return out
        return self.bisect(st, lst, args[1], side)

    def bi_bisect_bisect_left(self, st, args, kw, node):
        return self.bisect_(st, args, kw, 'l')

    def bi_bisect_bisect_right(self, st, args, kw, node):
        return self.bisect_(st, args, kw, 'r')

    def insort_(self, st, args, kw, side, node):
        out = []
        for s, v in self.bisect_(st, args, kw, side):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.list_method(s, args[0], 'insert', [v, args[1]], {}, node))
        return out

    def bi_bisect_insort_left(self, st, args, kw, node):
        return self.insort_(st, args, kw, 'l', node)

    def bi_bisect_insort_right(self, st, args, kw, node):
        return self.insort_(st, args, kw, 'r', node)

    # ------------------------------------------------------------ functools / itertools / operator
    def bi_functools_partial(self, st, args, kw, node):
        return [(st, Part(args[0], tuple(args[1:]), tuple(kw.items())))]

    def bi_functools_reduce(self, st, args, kw, node):
        f = args[0]
        out = []
        for s, q in self.iter_seq(st, args[1]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            if len(args) > 2:
                out.extend(self.fold(s, f, args[2], q, node))
                continue
            src = args[1] if isinstance(args[1], Ref) and isinstance(s.o(args[1]), ListO) else None
            for s2, some in fork_ge(s, seqlen(s, q) - 1):
                if not some:
                    out.append((s2, Exc('TypeError', ('reduce of empty',))))
                    continue
                for s3, v in self.seq_get(s2, src, q, ZERO):
                    if isinstance(v, Exc):
                        continue
                    for s4, l, r in split_at(s3, q, Lin(1)):
                        out.extend(self.fold(s4, f, v, r, node))
        return out

    def fold(self, st, f, acc, seq, node):
        res = [(st, acc)]
        for p in seq:
            nxt = []
            for s, a in res:
                if isinstance(a, Exc):
                    nxt.append((s, a))
                elif p[0] == 'c':
                    nxt.extend(self.call(s, f, [a, p[1]], {}, node))
                else:
                    fl = self.flatten_piece(s, p)
                    nm = f.name if isinstance(f, Bi) else None
                    if fl is not None and nm in ('operator.iadd', '_operator.iadd', 'operator.add', '_operator.add') and self.is_listlike(s, a):
                        if nm.endswith('iadd') and isinstance(a, Ref):
                            s.put(a, ListO(s.o(a).seq + tuple(fl), 'list'))
                            nxt.append((s, a))
                        elif isinstance(a, Tup) and not a.items and False:
                            pass
                        else:
                            nxt.append((s, self.newlist(s, self.seq_of(s, a) + tuple(fl))))
                    else:
                        raise Undecided('reduce over a generic piece')
            res = nxt
        return res

    def bi_itertools_chain(self, st, args, kw, node):
        out = []
        for s, qs in self.seqs(st, args):
            if isinstance(qs, Exc):
                out.append((s, qs))
            else:
                out.append((s, s.new(ItO(tuple(p for q in qs for p in q), 'chain'))))
        return out

    def bi_itertools_chain_from_iterable(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
            else:
                out.extend(self.chain_from(s, q))
        return out

    def chain_from(self, st, q):
        res = [(st, ())]
        for p in q:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if p[0] == 'c':
                    for s2, x in self.iter_seq(s, p[1]):
                        nxt.append((s2, x if isinstance(x, Exc) else acc + tuple(x)))
                    continue
                fl = self.flatten_piece(s, p)
                if fl is None:
                    if p[0] == 'o':
                        nxt.extend((e[0], e[1]) for e in self.may_raise(s, 'iteration'))
                        fl = (('o', ('flat', p[1]), p[2]),)
                    else:
                        raise Undecided('chain.from_iterable')
                nxt.append((s, acc + tuple(fl)))
            res = nxt
        return [(s, x if isinstance(x, Exc) else s.new(ItO(x, 'chain'))) for s, x in res]

    def bi_itertools_repeat(self, st, args, kw, node):
        n = args[1] if len(args) > 1 else kw.get('times')
        if n is None:
            return [(st, st.new(ItO((('c*', args[0]),), 'repeat')))]
        n = self.toint(st, n)
        if isinstance(args[0], Lin):
            return [(st, st.new(ItO((('repv', args[0], n),), 'repeat')))]
        out = []
        for s, pos in fork_ge(st, n):
            if not pos:
                out.append((s, s.new(ItO((), 'repeat'))))
            else:
                out.append((s, s.new(ItO((('rep', (('c', args[0]),), n),), 'repeat'))))
        return out

    def bi_itertools_islice(self, st, args, kw, node):
        out = []
        for s, q in self.iter_seq(st, args[0]):
            if isinstance(q, Exc):
                out.append((s, q))
                continue
            a, b = (NONE, args[1]) if len(args) == 2 else (args[1], args[2])
            if len(args) > 3 and args[3] not in (NONE, Lin(1)):
                raise Undecided('islice step')
            for s2, lo, hi in self.norm_slice(s, a, b, seqlen(s, q)):
                for s3, r in subseq(s2, q, lo, hi):
                    out.append((s3, s3.new(ItO(r, 'islice'))))
        return out

    def bi_math_log(self, st, args, kw, node):
        x = args[0]
        if isinstance(x, Lin) and len(args) > 1 and args[1] == Lin(2):
            return [(st, Sym(('log2', x)))]
        return [(st, Sym(('unk', 'log', uid())))]

    def bi_math_log2(self, st, args, kw, node):
        return [(st, Sym(('log2', args[0])))] if isinstance(args[0], Lin) else [(st, Sym(('unk', 'log', uid())))]

    def bi_operator(self, st, base, args, kw, node):
        b = base.strip('_') if base not in ('or_', 'and_') else base
        if base in OPS or b in OPS:
            return self.binop(st, OPS.get(base) or OPS[b], args[0], args[1], node)
        if b in IOPS:
            return self.inplace(st, IOPS[b], args[0], args[1], node)
        if b in RELS:
            return self.rel(st, b, args[0], args[1])
        if b == 'contains':
            return self.contains(st, args[0], args[1], node)
        if b == 'getitem':
            return self.getitem(st, args[0], args[1], node)
        if b == 'setitem':
            return self.setitem(st, args[0], args[1], args[2], node)
        if b == 'delitem':
            return self.delitem(st, args[0], args[1], node)
        if b == 'itemgetter':
            return [(st, Part(('itemgetter', tuple(args)), (), ()))]
        if b == 'attrgetter':
            return [(st, Part(('attrgetter', args[0].v), (), ()))]
        if b in ('is',):
            return [(s, B(r)) for s, r in self.is_same(st, args[0], args[1])]
        if b == 'is_not':
            return [(s, B(not r)) for s, r in self.is_same(st, args[0], args[1])]
        if b in ('not', 'not_'):
            return [(s, r if isinstance(r, Exc) else B(not r)) for s, r in self.truth(st, args[0])]
        if b in ('neg',):
            return [(st, -self.toint(st, args[0]))]
        if b == 'index':
            return [(st, self.toint(st, args[0]))]
        raise Undecided('operator.%s' % base)

    # ------------------------------------------------------------ bound external methods
    MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
                'popitem', 'setdefault', 'difference_update', 'intersection_update', 'symmetric_difference_update',
                '__setitem__', '__delitem__', '__iadd__', '__ior__', '__iand__', '__isub__', '__ixor__', '__imul__'}

    def call_bb(self, st, v, name, args, kw, node):
        if any(type(a) is tuple and a and a[0] == '*' for a in args):
            return self.call_bb_star(st, v, name, args, kw, node)
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                if o.kind == 'list':
                    return self.list_method(st, v, name, args, kw, node)
                return self.seq_method(st, v, name, args, kw, node)
            if isinstance(o, ItO):
                if name == '__next__':
                    return self.bi_next(st, [v], {}, node)
                if name == '__iter__':
                    return [(st, v)]
                raise Undecided('iterator.%s' % name)
            if isinstance(o, SetO):
                return self.set_method(st, v, name, args, kw, node)
            if isinstance(o, DictO):
                return self.dict_method(st, v, v, name, args, kw, node)
            if isinstance(o, SLO):
                return self.sl_call(st, v, name, args, kw, node)
            if isinstance(o, ObjO):
                if name.startswith('dict.') and self.is_dict(o):
                    return self.dict_method(st, o.fields['$dict'], v, name[5:], args, kw, node)
                return self.bind(self.getattr(st, v, name), lambda s, f: self.call(s, f, args, kw, node))
        if isinstance(v, (Tup, Sub)):
            return self.seq_method(st, v, name, args, kw, node)
        if isinstance(v, Lin) and name == 'bit_length' and v.is_const():
            return [(st, Lin(v.c.bit_length()))]
        if isinstance(v, Slice):
            if name == 'indices':
                return self.slice_indices(st, v, self.toint(st, args[0]))
        if isinstance(v, C) and isinstance(v.v, str) or isinstance(v, Sym) and v.t[0] == 'str':
            return self.str_method(st, v, name, args, kw)
        if isinstance(v, Sym):
            return self.sym_method(st, v, name, args, kw, node)
        if isinstance(v, Lin) or isinstance(v, C):
            return self.exc(st, 'AttributeError', name)
        raise Undecided('method %s of %r' % (name, v))

    def call_bb_star(self, st, v, name, args, kw, node):
        if isinstance(v, Ref) and isinstance(st.o(v), (SetO,)):
            return self.set_method(st, v, name, args, kw, node)
        raise Undecided('starred call of %s' % name)

    def sym_method(self, st, v, name, args, kw, node):
        if name == 'indices':
            return self.slice_indices(st, v, self.toint(st, args[0]))
        if name in self.MUTATORS:
            mutated(st, v.t, name)
            return self.may_raise(st, name) + [(st, Sym(('unk', 'mcall', uid())))]
        if name == '__iter__':
            return self.bi_iter(st, [v], {}, node)
        if name == '__len__':
            return self.len_(st, v)
        if name == '__contains__':
            return self.contains(st, v, args[0], node)
        if name in ('keys', 'items', 'values') and not args:
            return self.may_raise(st, name) + [(st, Sym((name, v.t)))]
        k = self.listarg(st, v)
        if k != v:
            return self.call_bb(st, k, name, args, kw, node)
        st.imprecise('method %s of an argument' % name)
        return self.may_raise(st, name) + [(st, Sym(('unk', 'mcall', name, uid())))]

    def str_method(self, st, v, name, args, kw):
        if name == 'format' and isinstance(v, C):
            import string
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(v.v):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == '':
                    a = args[auto]
                    auto += 1
                elif field.isdigit():
                    a = args[int(field)]
                elif field in kw:
                    a = kw[field]
                else:
                    return [(st, Sym(('unk', 'str', uid())))]
                parts.append(self.repr_val(st, a) if conv == 'r' else self.str_val(st, a))
            return [(st, self.strcat(parts))]
        if name == 'join':
            out = []
            for s, q in self.iter_seq(st, args[0]):
                if isinstance(q, Exc):
                    out.append((s, q))
                elif all(p[0] == 'c' for p in q):
                    parts = []
                    for k, p in enumerate(q):
                        if k:
                            parts.append(v)
                        parts.append(p[1])
                    out.append((s, self.strcat(parts)))
                else:
                    out.append((s, Sym(('str', (('join', tm(v), self.deep(s, norm(s, q))),)))))
            return out
        if name in ('startswith', 'endswith', 'isidentifier'):
            if isinstance(v, C) and isinstance(args[0], C):
                return [(st, B(getattr(v.v, name)(args[0].v)))]
            return [(s, B(b)) for s, b in fork_bool(st, ('cmp', name, tm(v), tm(args[0])))]
        return [(st, Sym(('str', (('unk', uid()),))))]

    # ------------------------------------------------------------ membership
    def contains(self, st, c, x, node=None):
        if isinstance(c, Ref):
            o = st.o(c)
            if isinstance(o, ObjO):
                if self.class_attr(o.cls, '__contains__') is None and self.is_dict(o):
                    return self.set_contains(st, st.o(o.fields['$dict']).keys, x)
                if self.class_attr(o.cls, '__contains__') is None:
                    raise Undecided('contains')
                out = []
                for s, v in self.bind(self.getattr(st, c, '__contains__'), lambda s, f: self.call(s, f, [x], {}, node)):
                    if isinstance(v, Exc):
                        out.append((s, v))
                    else:
                        out.extend((s2, b if isinstance(b, Exc) else B(b)) for s2, b in self.truth(s, v))
                return out
            if isinstance(o, SLO):
                return self.sl_call(st, c, '__contains__', [x], {}, node)
            if isinstance(o, SetO):
                return self.set_contains(st, o.term, x)
            if isinstance(o, DictO):
                return self.set_contains(st, o.keys, x)
        if isinstance(c, Sym):
            return self.may_raise(st, 'membership') + self.sym_contains(st, c, x)
        if isinstance(c, C) and isinstance(c.v, str):
            if isinstance(x, C):
                return [(st, B(x.v in c.v))]
            return [(s, B(b)) for s, b in fork_bool(st, ('cmp', 'in', tm(c), tm(x)))]
        seq = self.seq_of(st, c)
        if seq is None:
            return self.exc(st, 'TypeError', 'not a container')
        res = [(st, False)]
        for p in norm(st, seq):
            nxt = []
            for s, b in res:
                if b is not False:
                    nxt.append((s, b))
                elif p[0] == 'c':
                    for s2, v in self.rel(s, 'eq', p[1], x):
                        nxt.extend([(s2, v)] if isinstance(v, Exc) else self.truth(s2, v))
                elif p[0] == 'v' and p[4] == 'v':
                    nxt.extend(self.run_contains(s, p, x))
                else:
                    s.imprecise('membership in a list')
                    t = s.copy()
                    nxt += [(t, True), (s, False)]
            res = nxt
        return [(s, b if isinstance(b, Exc) else B(b)) for s, b in res]

    def run_contains(self, st, p, x):
        """Linear membership test in a contiguous run of stored values."""
        e = p[1]
        xt = tm(x)
        out = self.may_raise(st, 'compare')
        if EPKEY.get(e, NONE) == NONE:
            pl, pr = A('pos', e, 0, 'l', xt), A('pos', e, 0, 'r', xt)
            # present in [lo, hi) iff [pl, pr) meets it
            for s, a in fork_ge(st, pr - pl - 1):
                if not a:
                    out.append((s, False))
                    continue
                for s2, b in fork_ge(s, p[3] - pl - 1):
                    if not b:
                        out.append((s2, False))
                        continue
                    for s3, c in fork_ge(s2, pr - p[2] - 1):
                        out.append((s3, c))
            return out
        c0, c1 = A('cnt', e, xt, p[2]), A('cnt', e, xt, p[3])
        st.a_ge(c1 - c0)
        for s, a in fork_ge(st, c1 - c0 - 1):
            s.imprecise('membership in a keyed run')
            out.append((s, a))
        return out

    def sym_contains(self, st, c, x):
        return [(s, B(b)) for s, b in fork_bool(st, ('in', tm(self.freeze(st, x)), ('o', c.t)))]
