"""Models of python lists, iterators and sequences (flat symbolic content)."""
from .core import *


class Lists:
    def is_listlike(self, st, v):
        if isinstance(v, (Tup, Sub)):
            return True
        return isinstance(v, Ref) and isinstance(st.o(v), ListO)

    def seq_of(self, st, v):
        if isinstance(v, Tup):
            return tuple(('c', x) for x in v.items)
        if isinstance(v, Sub):
            return v.seq
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, (ListO, ItO)):
                return o.seq
            if isinstance(o, SLO):
                return o.seq
        return None

    # ------------------------------------------------------------ truth / iteration
    def list_truth(self, st, ref, o):
        seq = o.seq
        if len(seq) == 1 and seq[0][0] == 'iv':
            return self.split_iv(st, ref)
        if len(seq) == 1 and seq[0][0] == 'tree':
            return [(st, True)]
        return fork_ge(st, seqlen(st, seq) - 1)

    def split_iv(self, st, ref):
        """A valid-or-empty index: fork into empty and built (>= 2 sublists)."""
        o = st.o(ref)
        shape = o.seq[0][1]
        t = st.copy()
        out = []
        if t.a_ge(shapelen(shape) - 2):
            t.put(ref, ListO((('tree', shape, ()),), 'list'))
            out.append((t, True))
        st.put(ref, ListO((), 'list'))
        out.append((st, False))
        return out

    def iter_seq(self, st, v):
        """Consume an iterable: list of (state, seq | Exc)."""
        if isinstance(v, (Tup, Sub)):
            return [(st, self.seq_of(st, v))]
        if isinstance(v, C) and isinstance(v.v, (str, tuple)):
            return [(st, tuple(('c', C(x)) for x in v.v))]
        if isinstance(v, C) or isinstance(v, Lin) or isinstance(v, (Fn, BM, Bi, BB)):
            return self.exc(st, 'TypeError', 'not iterable')
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                return [(st, o.seq)]
            if isinstance(o, ItO):
                seq = o.seq
                st.put(v, ItO((), o.src))
                return [(st, seq)]
            if isinstance(o, SetO):
                return [(st, (('perm', o.term),))]
            if isinstance(o, DictO):
                return [(st, (('perm', o.keys),))]
            if isinstance(o, SLO):
                return [(st, o.seq)]
            if isinstance(o, ObjO):
                f = self.class_attr(o.cls, '__iter__')
                if f is None and self.is_dict(o):
                    return [(st, (('perm', st.o(o.fields['$dict']).keys),))]
                if f is None:
                    return self.exc(st, 'TypeError', 'not iterable')
                return self.bind(self.bind(self.getattr(st, v, '__iter__'), lambda s, g: self.call(s, g, [], {}, None)),
                                 lambda s, r: self.iter_seq(s, r))
        if isinstance(v, Sym):
            return self.consume(st, v)
        if type(v) is tuple and v and v[0] == '*':
            return [(st, v[1])]
        raise Undecided('iteration over %r' % (v,))

    REITER = ('dict', 'list', 'tuple', 'set', 'frozenset', 'abc.Sequence', 'abc.Set', 'abc.Mapping', 'abc.Sized',
              'abc.Collection', 'str', 'abc.MutableSequence', 'abc.MutableSet', 'abc.MutableMapping', 'SortedSet', 'SortedList',
              'SortedKeyList', 'SortedDict', 'slice')

    def consume(self, st, v):
        out = self.may_raise(st, 'iteration of an argument')
        n = st.facts.boolval(('none', v.t))
        if n is True:
            return self.exc(st, 'TypeError', 'None is not iterable')
        again = ('used', v.t)
        k = st.defs.get(again, 0)
        if k:
            re = any(t[0] == 'isinst' and t[1] == v.t and b and any(c in self.REITER for c in t[2]) for t, b in st.facts.bools)
            if v.t[0] in ('sized', 'pairs') or v.t in self.sized_args:
                re = True
            if re:
                k = 0
        st.defs[again] = st.defs.get(again, 0) + 1
        out.append((st, (('o', v.t, k),)))
        return out

    sized_args = ()

    # ------------------------------------------------------------ index / slices
    def norm_slice(self, st, a, b, n):
        """Python slice bounds (step 1) clamped to 0 <= lo <= hi <= n."""
        def clampone(s, x, dflt):
            if x == NONE:
                return [(s, dflt)]
            if isinstance(x, Sym):
                t = []
                for s2, z in self.is_same(s, x, NONE):
                    if z:
                        t.append((s2, dflt))
                    else:
                        t.extend(clampone(s2, A('ia', x.t), dflt))
                return t
            x = self.toint(s, x)
            res = []
            for s2, nn in fork_ge(s, x):
                if nn:
                    for s3, big in fork_ge(s2, x - n):
                        res.append((s3, n if big else x))
                else:
                    y = x + n
                    for s3, pos in fork_ge(s2, y):
                        res.append((s3, y if pos else ZERO))
            return res
        out = []
        for s, lo in clampone(st, a, ZERO):
            for s2, hi in clampone(s, b, n):
                for s3, ok in fork_ge(s2, hi - lo):
                    out.append((s3, lo, hi if ok else lo))
        return out

    def materialise(self, st, ref, n, off):
        """Turn element `off` of run piece n of list `ref` into a heap cell."""
        o = st.o(ref)
        p = o.seq[n]
        one_l, rest = psplit(st, p, off)
        one, right = psplit(st, rest, 1)
        sub = pelem(st, p, off)
        cell = st.new(ListO(sub.seq, 'list'))
        seq = list(o.seq[:n])
        if not st.ge(-plen(st, one_l)):
            seq.append(one_l)
        seq.append(('c', cell))
        if not st.ge(-plen(st, right)):
            seq.append(right)
        seq.extend(o.seq[n + 1:])
        st.put(ref, ListO(tuple(seq), o.kind))
        return cell

    def seq_get(self, st, holder, seq, i):
        """Element at index i (python semantics)."""
        n = seqlen(st, seq)
        i = L(i)
        out = []
        for s, nn in fork_ge(st, i):
            j = i if nn else i + n
            for s2, ok in (fork_ge(s, n - 1 - j) if nn else fork_ge(s, j)):
                if not ok:
                    out.append((s2, Exc('IndexError', ('list index out of range',))))
                    continue
                for s3, k, off in locate(s2, seq, j):
                    p = seq[k]
                    if p[0] == 'c':
                        out.append((s3, p[1]))
                    elif p[0] in ('L',) and holder is not None and isinstance(s3.o(holder), ListO) and p[6] == 1:
                        out.append((s3, self.materialise(s3, holder, k, off)))
                    elif p[0] in ('chunks', 'map', 'slices') and p[0] != 'map':
                        out.append((s3, self.chunk_elem(s3, p, off)))
                    else:
                        out.append((s3, pelem_x(s3, p, off)))
        return out

    def chunk_elem(self, st, p, k):
        if p[0] == 'chunks':
            size = p[2]
            n = seqlen(st, p[1])
            if k.is_const() and k.c == 0 and st.ge(size - n):
                return Sub(p[1], ('chunk', p, k))
            return Sub((('cutc', p, k),), ('chunk', p, k))
        return Sub((('x', uid()),), ('chunk', p, k))

    def getitem(self, st, o, i, node=None):
        if isinstance(o, Tup):
            if isinstance(i, Slice):
                return self.slice_list(st, o, i, node)
            if isinstance(i, Lin) and i.is_const():
                try:
                    return [(st, o.items[i.c])]
                except IndexError:
                    return self.exc(st, 'IndexError', 'tuple')
        if isinstance(o, Ref):
            ob = st.o(o)
            if isinstance(ob, ListO):
                if is_tree(ob.seq):
                    return self.tree_get(st, o, i)
                if isinstance(i, Slice):
                    return self.slice_list(st, o, i, node)
                if isinstance(i, Sym) and i.t[0] in ('at', 'key'):
                    raise Undecided('element used as an index')
                return self.seq_get(st, o, ob.seq, self.toint(st, i))
            if isinstance(ob, ObjO):
                return self.bind(self.getattr(st, o, '__getitem__'), lambda s, f: self.call(s, f, [i], {}, node))
            if isinstance(ob, DictO):
                return self.call_bb(st, o, '__getitem__', [i], {}, node)
            if isinstance(ob, SLO):
                return self.sl_call(st, o, '__getitem__', [i], {}, node)
        if isinstance(o, Sub):
            if isinstance(i, Slice):
                return self.slice_list(st, o, i, node)
            return self.seq_get(st, None, o.seq, self.toint(st, i))
        if isinstance(o, Sym):
            k = self.listarg(st, o)
            if k != o:
                return self.getitem(st, k, i, node)
            if isinstance(i, Lin):
                return [(st, Sym(('item', o.t, i)))]
            return self.may_raise(st, 'subscript') + [(st, Sym(('getitem', o.t, tm(i))))]
        raise Undecided('subscript of %r' % (o,))

    def strided_var(self, e):
        """Does e depend on the variable of a loop with a stride?"""
        for a, k in e.t:
            if a[0] == 'rngel':
                return True
            if a[0] in ('bv', 'it') and abs(k) != 1:
                return True
        return False

    def slice_list(self, st, o, sl, node):
        seq = self.seq_of(st, o)
        step = sl.c
        kind = st.o(o).kind if isinstance(o, Ref) else ('tuple' if isinstance(o, Tup) else 'list')

        def mk(s, q):
            if kind == 'tuple' and all(p[0] == 'c' for p in q):
                return Tup(tuple(p[1] for p in q))
            return s.new(ListO(q, kind))
        if step == NONE or step == Lin(1):
            n = seqlen(st, seq)
            if isinstance(sl.a, Lin) and isinstance(sl.b, Lin) and self.strided_var(sl.a) \
                    and not self.strided_var(sl.b - sl.a) and not any(p[0] in ('L', 'm', 'n') for p in seq) \
                    and st.ge(sl.a) and st.ge(sl.b - sl.a):
                q = ('slc', seq, sl.a, sl.b)
                ln = plen(st, q)
                st.a_ge(ln)
                st.a_ge(sl.b - sl.a - ln)
                if st.ge(n - sl.a):
                    st.a_ge(n - sl.a - ln)
                    if st.ge(n - sl.a - 1) and st.ge(sl.b - sl.a - 1):
                        st.a_ge(ln - 1)
                return [(st, st.new(ListO((q,), 'list')))]
            out = []
            for s, lo, hi in self.norm_slice(st, sl.a, sl.b, n):
                cur = self.seq_of(s, o)
                for s2, q in subseq(s, cur, lo, hi):
                    out.append((s2, mk(s2, q)))
            return out
        if step == Lin(-1) and sl.a == NONE and sl.b == NONE:
            return [(st, mk(st, rev_seq(seq)))]
        if len(seq) == 1 and seq[0][0] == 'v' and seq[0][5] == 1:
            res = self.slice_indices(st, sl, seqlen(st, seq))
            out = []
            for s, t in res:
                if isinstance(t, Exc):
                    out.append((s, t))
                    continue
                a, b, c = t.items
                e = seq[0][1]
                lo = seq[0][2]
                out.append((s, s.new(ListO((('stp', e, lo + a, lo + b, L(c), seq[0][4]),), 'list'))))
            return out
        n = seqlen(st, seq)
        if n.is_const() and all(x == NONE or isinstance(x, Lin) and x.is_const() for x in (sl.a, sl.b, step)) and step != ZERO:
            q = self.explode(st, seq)
            if q is not None:
                return [(st, mk(st, q[slice(*[None if x == NONE else x.c for x in (sl.a, sl.b, step)])]))]
        raise Undecided('strided slice')

    def slice_indices(self, st, sl, n):
        """slice.indices(n) for a slice value."""
        if isinstance(sl, Sym):
            a, b, c = (A('sl', sl.t, w, n) for w in ('start', 'stop', 'step'))
            for w in (a + 1, n - a, b + 1, n - b, n):
                if not st.a_ge(w):
                    return []
            out = []
            for s, pos in fork_ge(st, c - 1):
                if pos:
                    ok = s.a_ge(a) and s.a_ge(b)
                else:
                    ok = s.a_ge(-c - 1) and s.a_ge(n - 1 - a) and s.a_ge(n - 1 - b)
                if ok:
                    out.append((s, Tup((a, b, c))))
            return out
        step = Lin(1) if sl.c == NONE else sl.c
        if step == Lin(1):
            # python clamps each bound separately (lo may exceed hi)
            def one(s, x, dflt):
                if x == NONE:
                    return [(s, dflt)]
                if isinstance(x, Sym):
                    t = []
                    for s2, z in self.is_same(s, x, NONE):
                        if z:
                            t.append((s2, dflt))
                        else:
                            t.extend(one(s2, A('ia', x.t), dflt))
                    return t
                x = self.toint(s, x)
                res = []
                for s2, nn in fork_ge(s, x):
                    if nn:
                        for s3, big in fork_ge(s2, x - n - 1):
                            res.append((s3, n if big else x))
                    else:
                        for s3, pos in fork_ge(s2, x + n):
                            res.append((s3, x + n if pos else ZERO))
                return res
            out = []
            for s, a in one(st, sl.a, ZERO):
                for s2, b in one(s, sl.b, n):
                    out.append((s2, Tup((a, b, Lin(1)))))
            return out
        if step == Lin(-1) and sl.a == NONE and sl.b == NONE:
            return [(st, Tup((n - 1, Lin(-1), Lin(-1))))]
        u = ('slice', tm(sl.a), tm(sl.b), tm(sl.c))
        return self.slice_indices(st, Sym(u), n)

    # ------------------------------------------------------------ mutation
    def setitem(self, st, o, i, v, node=None):
        if isinstance(o, Ref):
            ob = st.o(o)
            if isinstance(ob, ListO):
                if isinstance(i, Slice):
                    return self.set_slice(st, o, i, v, node)
                if is_tree(ob.seq):
                    return self.tree_set(st, o, i, v)
                i = self.toint(st, i)
                n = seqlen(st, ob.seq)
                out = []
                for s, nn in fork_ge(st, i):
                    j = i if nn else i + n
                    for s2, ok in (fork_ge(s, n - 1 - j) if nn else fork_ge(s, j)):
                        if not ok:
                            out.append((s2, Exc('IndexError', ('list assignment index out of range',))))
                            continue
                        for s3, l, r in split_at(s2, s2.o(o).seq, j):
                            for s4, one, rest in split_at(s3, r, 1):
                                s4.put(o, ListO(tuple(l) + (('c', v),) + tuple(rest), 'list'))
                                out.append((s4, NONE))
                return out
            if isinstance(ob, DictO):
                return self.call_bb(st, o, '__setitem__', [i, v], {}, node)
            if isinstance(ob, ObjO):
                return self.bind(self.getattr(st, o, '__setitem__'), lambda s, f: self.call(s, f, [i, v], {}, node))
            if isinstance(ob, SLO):
                return self.exc(st, 'NotImplementedError')
        if isinstance(o, Sym):
            mutated(st, o.t, 'item assignment')
            return [(st, NONE)]
        if isinstance(o, Tup):
            return self.exc(st, 'TypeError')
        raise Undecided('item assignment')

    def set_slice(self, st, o, sl, v, node):
        out = []
        for s, seq in self.iter_seq(st, v):
            if isinstance(seq, Exc):
                out.append((s, seq))
                continue
            if sl.c != NONE and sl.c != Lin(1):
                raise Undecided('strided slice assignment')
            cur = s.o(o).seq
            if is_tree(cur):
                if sl.a == NONE and sl.b == NONE:
                    s.put(o, ListO(tuple(seq), 'list'))
                    out.append((s, NONE))
                    continue
                raise Undecided('slice assignment on index')
            n = seqlen(s, cur)
            for s2, lo, hi in self.norm_slice(s, sl.a, sl.b, n):
                for s3, l, r in split_at(s2, cur, lo):
                    for s4, m, r2 in split_at(s3, r, hi - lo):
                        s4.put(o, ListO(tuple(l) + tuple(seq) + tuple(r2), 'list'))
                        out.append((s4, NONE))
        return out

    def delitem(self, st, o, i, node=None):
        if isinstance(o, Ref):
            ob = st.o(o)
            if isinstance(ob, ListO):
                if isinstance(i, Slice):
                    return self.del_slice(st, o, i)
                if is_tree(ob.seq):
                    st.put(o, ListO((('x', uid()),), 'list'))
                    st.imprecise('del on index')
                    return [(st, NONE)]
                return self.list_pop(st, o, self.toint(st, i), 'list assignment index out of range', False)
            if isinstance(ob, ObjO):
                f = self.class_attr(ob.cls, '__delitem__')
                return self.bind(self.getattr(st, o, '__delitem__'), lambda s, g: self.call(s, g, [i], {}, node))
            if isinstance(ob, DictO):
                return self.call_bb(st, o, '__delitem__', [i], {}, node)
            if isinstance(ob, SLO):
                return self.sl_call(st, o, '__delitem__', [i], {}, node)
        if isinstance(o, Sym):
            mutated(st, o.t, 'item deletion')
            return [(st, NONE)]
        raise Undecided('item deletion')

    def del_slice(self, st, o, sl):
        cur = st.o(o).seq
        if sl.a == NONE and sl.b == NONE and sl.c in (NONE, Lin(1), Lin(-1)):
            st.put(o, ListO((), 'list'))
            return [(st, NONE)]
        if is_tree(cur):
            st.put(o, ListO((('x', uid()),), 'list'))
            st.imprecise('partial del on index')
            return [(st, NONE)]
        if sl.c not in (NONE, Lin(1)):
            raise Undecided('strided slice deletion')
        out = []
        for s, lo, hi in self.norm_slice(st, sl.a, sl.b, seqlen(st, cur)):
            for s3, l, r in split_at(s, cur, lo):
                for s4, m, r2 in split_at(s3, r, hi - lo):
                    s4.put(o, ListO(tuple(l) + tuple(r2), 'list'))
                    out.append((s4, NONE))
        return out

    def list_pop(self, st, o, i, msg, want=True):
        cur = st.o(o).seq
        n = seqlen(st, cur)
        out = []
        for s, nn in fork_ge(st, i):
            j = i if nn else i + n
            for s2, ok in (fork_ge(s, n - 1 - j) if nn else fork_ge(s, j)):
                if not ok:
                    out.append((s2, Exc('IndexError', (msg,))))
                    continue
                if want:
                    vals = self.seq_get(s2, o, s2.o(o).seq, j)
                else:
                    vals = [(s2, NONE)]
                for s3, v in vals:
                    if isinstance(v, Exc):
                        continue
                    for s4, l, r in split_at(s3, s3.o(o).seq, j):
                        for s5, one, rest in split_at(s4, r, 1):
                            s5.put(o, ListO(tuple(l) + tuple(rest), 'list'))
                            out.append((s5, v))
        return out

    def list_binop(self, st, op, a, b):
        a, b = self.listarg(st, a), self.listarg(st, b)
        if op == 'Add':
            for x in (a, b):
                if not self.is_listlike(st, x):
                    if isinstance(x, Sym):
                        st.imprecise('list + unknown')
                        return self.exc(st.copy(), 'TypeError') + [(st, st.new(ListO((('x', uid()),), 'list')))]
                    return self.exc(st, 'TypeError', 'list +')
            q = self.seq_of(st, a) + self.seq_of(st, b)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            if is_tree(self.seq_of(st, a)) or is_tree(self.seq_of(st, b)):
                st.imprecise('index +')
            return [(st, st.new(ListO(q, 'list')))]
        if op == 'Mult':
            if self.is_listlike(st, b) and not self.is_listlike(st, a):
                a, b = b, a
            n = b if isinstance(b, Lin) else (A('ia', b.t) if isinstance(b, Sym) else None)
            if n is None:
                return self.exc(st, 'TypeError', 'list *')
            out = []
            if isinstance(b, Sym) and not st.facts.boolval(('int', b.t)):
                out = self.may_raise(st, 'repetition count')
            if n.is_const() and n.c == 1:
                return [(st, st.new(ListO(self.seq_of(st, a), 'list')))]
            seq = self.seq_of(st, a)
            if len(seq) == 1 and seq[0][0] == 'c' and isinstance(seq[0][1], Lin):
                return out + [(st, st.new(ListO((('repv', seq[0][1], n),), 'list')))]
            return out + [(st, st.new(ListO((('rep', seq, n),), 'list')))]
        raise Undecided('list operator %s' % op)

    # ------------------------------------------------------------ list methods
    def list_method(self, st, ref, name, args, kw, node):
        o = st.o(ref)
        seq = o.seq
        if name == 'append':
            if is_tree(seq):
                st.imprecise('append on index')
                st.put(ref, ListO((('x', uid()),), 'list'))
                return [(st, NONE)]
            st.put(ref, ListO(seq + (('c', args[0]),), 'list'))
            return [(st, NONE)]
        if name in ('extend', '__iadd__'):
            out = []
            if args[0] == ref:
                st.put(ref, ListO(seq + seq, 'list'))
                return [(st, NONE)]
            for s, q in self.iter_seq(st, args[0]):
                if isinstance(q, Exc):
                    # a failing iterator leaves an unknown prefix appended
                    if q.kind == 'User':
                        cur = s.o(ref).seq
                        if not (isinstance(args[0], Ref)):
                            s.put(ref, ListO(cur + (('cut', ('o', tm(args[0]), 0), ZERO, A('nat', uid())),), 'list'))
                    out.append((s, q))
                else:
                    s.put(ref, ListO(s.o(ref).seq + tuple(q), 'list'))
                    out.append((s, ref if name == '__iadd__' else NONE))
            return out
        if name == 'insert':
            i = self.toint(st, args[0])
            out = []
            for s, lo, hi in self.norm_slice(st, i, NONE, seqlen(st, seq)):
                for s2, l, r in split_at(s, s.o(ref).seq, lo):
                    s2.put(ref, ListO(tuple(l) + (('c', args[1]),) + tuple(r), 'list'))
                    out.append((s2, NONE))
            return out
        if name == 'pop':
            i = self.toint(st, args[0]) if args else Lin(-1)
            return self.list_pop(st, ref, i, 'pop index out of range')
        if name == 'clear':
            st.put(ref, ListO((), 'list'))
            return [(st, NONE)]
        if name == 'copy':
            return [(st, st.new(ListO(seq, 'list')))]
        if name == 'reverse':
            st.put(ref, ListO(rev_seq(seq), 'list'))
            return [(st, NONE)]
        if name == 'sort':
            return self.sort_seq(st, seq, kw, lambda s, q: (s.put(ref, ListO(q, 'list')), NONE)[1])
        if name == '__len__':
            return [(st, seqlen(st, seq))]
        if name == '__getitem__':
            return self.getitem(st, ref, args[0], node)
        if name == '__setitem__':
            return self.setitem(st, ref, args[0], args[1], node)
        if name == '__delitem__':
            return self.delitem(st, ref, args[0], node)
        if name in ('__iter__', '__reversed__'):
            return [(st, st.new(ItO(seq if name == '__iter__' else rev_seq(seq), ref)))]
        if name == '__contains__':
            return self.contains(st, ref, args[0], node)
        if name in ('index', 'count', 'remove'):
            st.imprecise('list.%s' % name)
            if name == 'remove':
                st.put(ref, ListO((('x', uid()),), 'list'))
                return [(st, NONE)]
            return self.exc(st.copy(), 'ValueError') + [(st, A('unk', 'int', uid()))]
        raise Undecided('list.%s' % name)

    def sort_seq(self, st, seq, kw, k):
        key = kw.get('key', NONE)
        rev = kw.get('reverse', FALSE)
        if rev not in (TRUE, FALSE):
            raise Undecided('sort order')
        rev = rev == TRUE
        if isinstance(key, Fn) and key.name == 'identity' or isinstance(key, Bi) and key.name == 'identity':
            key = NONE
        out = []
        flat = norm(st, seq)
        def stored(seq, eps):
            for p in seq:
                if p[0] == 'rep':
                    if not stored(p[1], eps):
                        return False
                elif p[0] == 'v' and key_ok(st, p[1], key):
                    eps.add(p[1])
                else:
                    return False
            return len(eps) <= 1
        base = flat[0][1] if len(flat) == 1 and flat[0][0] == 'rev' else flat[0] if len(flat) == 1 else ()
        if base and base[0] == 'rng' and key == NONE:
            # integers in arithmetic progression
            for s, up in fork_ge(st, base[3] - 1):
                out.append((s, k(s, (base,) if up != rev else rev_seq((base,)))))
            return out
        # values stored together are mutually comparable (assumption of C13)
        risky = bool(flat) and not stored(flat, set())
        if len(flat) == 1 and flat[0][0] in ('sorted', 'srt') and flat[0][2] == key:
            risky = False
        if risky:
            raised = self.may_raise(st, 'sort')
            if any(p[0] == 'x' for p in flat):
                for s, e in raised:
                    s.imprecise('values that are not tracked are sorted')
            out += raised
        if any(p[0] == 'v' and not key_ok(st, p[1], key) for p in flat) and self.keyfn != NONE and key == NONE:
            st.event('orders-by-value')
        if len(flat) == 1 and flat[0][0] == 'c' or not flat:
            q = flat
        else:
            q = norm_sorted(st, ('sorted', flat, key, rev))
        v = k(st, q)
        out.append((st, v))
        return out

    def seq_method(self, st, v, name, args, kw, node):
        """Methods of tuples and generic sublists."""
        seq = self.seq_of(st, v)
        if name == '__len__':
            return [(st, seqlen(st, seq))]
        if name == '__getitem__':
            return self.getitem(st, v, args[0], node)
        if name == '__iter__':
            return [(st, st.new(ItO(seq, 'sub')))]
        if name == '__reversed__':
            return [(st, st.new(ItO(rev_seq(seq), 'sub')))]
        if name == 'copy':
            return [(st, st.new(ListO(seq, 'list')))]
        if name in ('extend', 'append', 'insert', 'pop', 'clear', 'sort', 'reverse', '__delitem__', '__setitem__'):
            st.imprecise('mutation of a generic sublist')
            st.event('generic-mutation', v.tag if isinstance(v, Sub) else None)
            raise Undecided('mutation of a generic sublist')
        raise Undecided('sequence method %s' % name)

    # ------------------------------------------------------------ positional index
    def tree_get(self, st, ref, i):
        out = []
        o = st.o(ref)
        if o.seq[0][0] == 'iv':
            for s, b in self.split_iv(st, ref):
                if b:
                    out.extend(self.tree_get(s, ref, i))
                else:
                    out.append((s, Exc('IndexError', ('list index out of range',))))
            return out
        if isinstance(i, Slice):
            raise Undecided('slice of the index')
        i = self.toint(st, i)
        shape, adds = o.seq[0][1], o.seq[0][2]
        if adds:
            st.imprecise('read of a partly updated index')
        return [(st, A('node', shape, i))]

    def tree_aug(self, st, ref, i, op, v):
        o = st.o(ref)
        if o.seq[0][0] == 'iv':
            out = []
            for s, b in self.split_iv(st, ref):
                if b:
                    out.extend(self.tree_aug(s, ref, i, op, v))
                else:
                    out.append((s, Exc('IndexError', ('list index out of range',))))
            return out
        i = self.toint(st, i)
        d = self.toint(st, v)
        if op == 'Sub':
            d = -d
        elif op != 'Add':
            raise Undecided('index update')
        _, shape, adds = o.seq[0]
        st.put(ref, ListO((('tree', shape, adds + (('one', i, d),)),), 'list'))
        return [(st, NONE)]

    def tree_set(self, st, ref, i, v):
        o = st.o(ref)
        if o.seq[0][0] == 'iv':
            out = []
            for s, b in self.split_iv(st, ref):
                if b:
                    out.extend(self.tree_set(s, ref, i, v))
                else:
                    out.append((s, Exc('IndexError', ('list assignment index out of range',))))
            return out
        i = self.toint(st, i)
        v = self.toint(st, v)
        _, shape, adds = o.seq[0]
        d = v - A('node', shape, i)
        if any(a[0] == 'node' for a in d.atoms()):
            st.imprecise('index store')
        st.put(ref, ListO((('tree', shape, adds + (('one', i, d),)),), 'list'))
        return [(st, NONE)]

    # ------------------------------------------------------------ bisect
    def bisect(self, st, lst, x, side, lo=None, hi=None):
        """bisect over a list value: list of (state, Lin | Exc)."""
        seq = self.seq_of(st, lst)
        if seq is None:
            raise Undecided('bisect of %r' % (lst,))
        if lo is not None or hi is not None:
            raise Undecided('bisect with bounds')
        xt = tm(x)
        seq = norm(st, seq)
        out = self.may_raise(st, 'bisect')
        if not seq:
            return [(st, ZERO)]
        if len(seq) == 1 and seq[0][0] == 'm' and seq[0][4] == 1:
            _, e, plo, phi, _ = seq[0]
            if plo == ZERO and st.eq(phi, mkN(e)):
                v = A('bm', e, 0, side, xt)
                if st.a_ge(v) and st.a_ge(mkN(e) - v):
                    ps = A('pos', e, 0, side, xt)
                    # the end position is reached exactly when no maximum is beyond x
                    out.append((st, v))
                return out
        if len(seq) == 1 and seq[0][0] == 'v' and seq[0][5] == 1:
            _, e, lo_, hi_, f, _ = seq[0]
            keyed = EPKEY.get(e, NONE) != NONE
            if f == 'm':
                f = 'k' if keyed else 'v'
            if keyed and f == 'v':
                st.event('orders-by-value')
                out.append((st, A('rawbisect', uid())))
                return out
            if keyed == (f == 'k'):
                ps = A('pos', e, 0, side, xt)
                n = hi_ - lo_
                for s, below in fork_ge(st, lo_ - ps):
                    if below:
                        out.append((s, ZERO))
                        continue
                    for s2, above in fork_ge(s, ps - hi_):
                        out.append((s2, n if above else ps - lo_))
                return out
        st.imprecise('bisect of a modified list')
        v = A('unk', 'bis', uid())
        st.a_ge(v)
        st.a_ge(seqlen(st, seq) - v)
        out.append((st, v))
        return out


def pelem_x(st, p, off):
    if p[0] == 'map':
        inner = pelem(st, p[3], off)
        return subst_val(p[2], p[1], off, inner)
    if p[0] == 'zip':
        return Tup(tuple(pelem_x(st, q, off) for q in p[1]))
    if p[0] == 'chunks':
        return Sub((('cutc', p, L(off)),), ('chunk', p, L(off)))
    return pelem(st, p, off)


def fork_some(st, p, n):
    """Fork on whether a piece has an element; [(state, bool)]."""
    if p[0] == 'rev' and p[1][0] == 'rng':
        p = p[1]
    if p[0] == 'rng' and not (p[3].is_const() and abs(p[3].c) == 1):
        d = None
        if st.ge(p[3] - 1):
            d = p[2] - p[1]
        elif st.ge(-p[3] - 1):
            d = p[1] - p[2]
        if d is not None:
            out = []
            for s, b in fork_ge(st, d - 1):
                if s.a_ge(n - 1) if b else s.a_eq(n):
                    out.append((s, b))
            return out
    return fork_ge(st, n - 1)


def gen_facts(g, p, i):
    """Facts about element i of a stepped range."""
    e = None
    if p[0] == 'rev' and p[1][0] == 'rng':
        e = pelem(g, p, i)
        p = p[1]
    if p[0] == 'rng' and not (p[3].is_const() and abs(p[3].c) == 1):
        e = pelem(g, p, i) if e is None else e
        if g.ge(p[3] - 1):
            return g.a_ge(e - p[1]) and g.a_ge(p[2] - 1 - e)
        if g.ge(-p[3] - 1):
            return g.a_ge(p[1] - e) and g.a_ge(e - 1 - p[2])
    return True


def subst_val(v, var, off, inner=None):
    """Substitute the bound index variable of a mapped piece."""
    if isinstance(v, Lin):
        return subst_lin(v, var, off)
    if isinstance(v, Sym):
        return Sym(subst_term(v.t, var, off))
    if isinstance(v, Tup):
        return Tup(tuple(subst_val(x, var, off) for x in v.items))
    if isinstance(v, Sub):
        return Sub(subst_term(v.seq, var, off), subst_term(v.tag, var, off))
    return v


def subst_lin(v, var, off):
    r = Lin(v.c)
    for a, k in v.t:
        if a == var:
            r = r + off * k
        else:
            r = r + Lin.atom(subst_term(a, var, off)) * k
    # G(0) normalisation
    out = Lin(r.c)
    for a, k in r.t:
        out = out + (mkG(a[1], a[2]) if a[0] == 'G' else Lin.atom(a)) * k
    return out


def subst_term(t, var, off):
    if isinstance(t, Lin):
        return subst_lin(t, var, off)
    if isinstance(t, Sym):
        return Sym(subst_term(t.t, var, off))
    if isinstance(t, tuple):
        r = tuple(subst_term(x, var, off) for x in t)
        if hasattr(t, '_fields'):
            return type(t)(*r)
        return r
    return t
