"""Sorted sets, sorted dicts and the dict views, analysed method by method from
a generic valid state: an arbitrary set (dict) of members and a sorted list
holding the same members, seen through the contract that the list analyses
establish."""
import ast
from .core import *
from .interp import Interp
from .loops import assigned
from .sets import *
from .listdom import Exp, Ob, OK, BAD, UNK, show

KEY = Sym(('keyfn',))
MODULE = {'SortedSet': 'sortedset', 'SortedDict': 'sorteddict'}
SETPIECES = ('perm', 'srt', 'sl', 'sls', 'filt', 'o', 'sorted')


def setpiece(p):
    if p[0] in SETPIECES:
        return True
    if p[0] == 'rev':
        return setpiece(p[1])
    if p[0] == 'map':
        return isinstance(p[1], tuple) and p[1][:1] == ('elt',)
    return False


class SetInterp(Interp):
    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.new_hook = new_list

    # -------------------------------------------------------- arguments
    pair_args = map_args = ()

    def consume(self, st, v):
        """Pairs are seen as their keys with the value each key has in the end;
        a mapping yields its keys."""
        t = v.t
        src = t[1] if t[0] == 'items' else t
        if src not in self.pair_args and src not in self.map_args:
            return Interp.consume(self, st, v)
        out = self.may_raise(st, 'iteration of an argument')
        k = st.defs.get(('used', src), 0)
        st.defs[('used', src)] = k + 1
        if k and src in self.pair_args:
            return out + [(st, ())]
        keys = ('perm', ('fs', ('keysof', src)))
        if src in self.map_args and t[0] not in ('items', 'values'):
            return out + [(st, (keys,))]
        if src in self.pair_args:
            out += self.may_raise(st, 'pairs')
        e = ('elt', self.generic, single(keys[1]))
        return out + [(st, (('map', e, Tup((Sym(e), Sym(('val', src, e)))), keys),))]

    def is_same(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.t[0] == 'arg' and isinstance(y, Ref) and isinstance(st.o(y), ObjO) and st.o(y).cls.name not in MODULE:
                # no caller passes a private sentinel of the library
                return [(st, False)]
        return Interp.is_same(self, st, a, b)

    def getitem(self, st, o, i, node=None):
        if isinstance(o, Sym) and o.t in self.map_args:
            out = []
            for s, b in self.member(st, ('fs', ('keysof', o.t)), tm(self.freeze(st, i))):
                out.append((s, Sym(('val', o.t, tm(self.freeze(s, i))))) if b else (s, Exc('KeyError', (i,))))
            return self.may_raise(st, 'subscript') + out
        if isinstance(o, Ref) and isinstance(st.o(o), ListO) and self.is_slice(st, i):
            q = norm(st, st.o(o).seq)
            if not q:
                return [(s, Exc('ValueError', ('slice step cannot be zero',)) if bad else s.new(ListO((), 'list'))) for s, bad in self.zero_step(st, i)]
            if len(q) == 1 and (q[0][0] == 'sl' or q[0][0] == 'map' and q[0][1][0] == 'elt' and q[0][3][0] == 'sl'):
                # the list read into another one, then sliced
                p = q[0][3] if q[0][0] == 'map' else q[0]
                out = []
                for s, bad in self.zero_step(st, i):
                    if bad:
                        out.append((s, Exc('ValueError', ('slice step cannot be zero',))))
                        continue
                    r = self.slice_piece(s, p, i)
                    if q[0][0] == 'map':
                        rev, b = r[0] == 'rev', r[1] if r[0] == 'rev' else r
                        e = ('elt', self.generic, self.piece_bag(s, b))
                        r = ('map', e, sub_term(q[0][2], q[0][1], e), b)
                        r = ('rev', r) if rev else r
                    out.append((s, s.new(ListO((r,), 'list'))))
                return out
        return Interp.getitem(self, st, o, i, node)

    def iter_seq(self, st, v):
        return [(s, q if isinstance(q, Exc) else tuple(self.sliced(s, p) for p in q)) for s, q in Interp.iter_seq(self, st, v)]

    def sliced(self, st, p):
        """islice of a sorted list, as the slice it stands for."""
        if p[0] == 'x' and isinstance(p[1], tuple) and p[1][:2] == ('query', 'islice') and len(p[1][3]) < 4:
            a = dict(zip(('start', 'stop', 'reverse'), p[1][3]))
            a.update(p[1][4])
            b = p[1][2]
            if all(a.get(x, NONE) == NONE for x in ('start', 'stop')) and set(a) <= {'start', 'stop', 'reverse'} and a.get('reverse', FALSE) in (TRUE, FALSE):
                return ('rev', b) if a.get('reverse') == TRUE else b
            if len(a) <= 3 and set(a) <= {'start', 'stop', 'reverse'} and a.get('reverse', FALSE) in (TRUE, FALSE):
                r = ('sls', b[1], (b[2], tuple(self.freeze(st, a.get(x, NONE)) for x in ('start', 'stop')) + (NONE,)), b[3])
                return ('rev', r) if a.get('reverse') == TRUE else r
        return p

    def slice_indices(self, st, sl, n):
        if isinstance(sl, Sym) and self.is_slice(st, sl):
            out = []
            for s, bad in self.zero_step(st, sl):
                if bad:
                    out.append((s, Exc('ValueError', ('slice step cannot be zero',))))
                else:
                    s.imprecise('positions of a slice')
                    out.append((s, Tup(tuple(A('slpos', sl.t, w, n) for w in ('start', 'stop', 'step')))))
            return out
        return Interp.slice_indices(self, st, sl, n)

    def bi_range(self, st, args, kw, node):
        """The positions a slice names, one by one: those of its elements."""
        a = [x.t[0][0] if isinstance(x, Lin) and len(x.t) == 1 and not x.c and x.t[0][1] == 1 else (None,) for x in args]
        if len(a) == 3 and all(x[0] == 'slpos' for x in a) and len({(x[1], x[3]) for x in a}) == 1 and [x[2] for x in a] == ['start', 'stop', 'step']:
            for o in st.heap.values():
                if isinstance(o, SLO) and len(o.seq) == 1 and o.seq[0][0] == 'sl' and st.eq(a[0][3] - self.baglen(st, o.seq[0][3])):
                    p = o.seq[0]
                    q = ('sls', p[1], (p[2], a[0][1]), p[3])
                    e = ('elt', self.generic, self.piece_bag(st, q))
                    st.approx = None if st.approx == 'positions of a slice' else st.approx
                    return [(st, st.new(ListO((('map', e, A('posin', p[1:3], e), q),), 'range')))]
        return Interp.bi_range(self, st, args, kw, node)

    def sl_at(self, st, v, i):
        p = st.o(v).seq[0]
        if isinstance(i, Lin) and len(i.t) == 1 and not i.c and i.t[0][1] == 1:
            x = i.t[0][0]
            if x[0] == 'posin' and x[1] == p[1:3]:
                return [(st, Sym(x[2]))]
        return Interp.sl_at(self, st, v, i)

    def contains(self, st, c, x, node=None):
        if isinstance(c, Sym) and st.facts.boolval(('isinst', c.t, ('abc.Set',))) is True:
            return self.may_raise(st, 'membership') + [(s, B(b)) for s, b in self.member(st, ('fs', ('o', c.t)), tm(self.freeze(st, x)))]
        if isinstance(c, Ref) and isinstance(st.o(c), ListO):
            q = norm(st, st.o(c).seq)
            if any(p[0] != 'c' for p in q) and all(setpiece(p) or p[0] == 'c' for p in q):
                T = bagset(self.seq_bag(st, q))
                return self.may_raise(st, 'compare') + [(s, B(b)) for s, b in self.member(st, T, tm(self.freeze(st, x)))]
        return Interp.contains(self, st, c, x, node)

    def ev_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id in ('all', 'any') and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.GeneratorExp):
            fs = self.ev(f, st.copy())
            if len(fs) == 1 and isinstance(fs[0][1], Bi):
                fr = st.frames[st.cur]
                return self.call(st, Fn(self.searcher(e), st.cur, fr.get('$cls'), fr['$mod'], f.id), [], {}, e)
        return Interp.ev_Call(self, e, st)

    def searcher(self, e):
        """all(...) and any(...) over a generator, as the loop they stand for."""
        if not hasattr(e, '_loop'):
            stop = e.func.id == 'any'
            g = e.args[0]
            t = g.elt if stop else ast.UnaryOp(ast.Not(), g.elt)
            b = [ast.If(t, [ast.Return(ast.Constant(stop))], [])]
            for c in reversed(g.generators):
                for i in reversed(c.ifs):
                    b = [ast.If(i, b, [])]
                b = [ast.For(c.target, c.iter, b, [], None)]
            b.append(ast.Return(ast.Constant(not stop)))
            d = ast.FunctionDef(name=e.func.id, args=ast.arguments([], [], None, [], [], None, []), body=b, decorator_list=[], returns=None, type_comment=None)
            for n in ast.walk(d):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, e)
            ast.fix_missing_locations(d)
            e._loop = d
        return e._loop

    # -------------------------------------------------------- loops
    def elem_of(self, st, p):
        """Generic element of a piece: (its base value, the value yielded)."""
        if p[0] == 'map':
            return p[1], p[2], p[3]
        if p[0] == 'rev' and p[1][0] == 'map':
            return p[1][1], p[1][2], p[1][3]
        e = ('elt', self.generic, self.piece_bag(st, p))
        return e, Sym(e), p

    def nonempty(self, st, content):
        if not content:
            return [(st, False)]
        return self.set_truth(st, bagset(content))

    def map_piece(self, st, p, fn):
        if not setpiece(p):
            return Interp.map_piece(self, st, p, fn)
        e, val, base = self.elem_of(st, p)
        bag = self.piece_bag(st, base)
        out = []
        for s, some in self.nonempty(st, bag):
            if not some:
                out.append((s, ()))
                continue
            g = s.copy()
            before = dict(g.heap)
            self.generic += 1
            try:
                res = fn(g, val)
            finally:
                self.generic -= 1
            vals = []
            for s2, q in res:
                if isinstance(q, Exc):
                    if q.kind == 'User':
                        s3 = s.copy()
                        s3.ev = s2.ev
                        out.append((s3, q))
                    else:
                        out.append((s2, q))
                    continue
                for ev in s2.ev:
                    s.event(*ev)
                if s2.approx:
                    s.imprecise(s2.approx)
                for r, ob in before.items():
                    if not isinstance(r, int):
                        continue
                    if s2.heap.get(r) is not ob and s2.heap.get(r) != ob:
                        raise Undecided('side effects in a comprehension')
                vals.append((s2, tuple(('c', self.freeze(s2, x[1])) if x[0] == 'c' else x for x in q)))
            inc = [(s2, q) for s2, q in vals if q]
            exc = [(s2, q) for s2, q in vals if not q]
            uniq = []
            for _, q in inc:
                if q not in uniq:
                    uniq.append(q)
            if not inc:
                out.append((s, ()))
                continue
            if len(uniq) > 1 or len(uniq[0]) != 1 or uniq[0][0][0] != 'c':
                out.append((s, (('x', ('filter', uid())),)))
                continue
            v = uniq[0][0][1]
            q = base
            if exc:
                T = EMPTY
                for s2, _ in inc:
                    t = self.predicate(st, s2, e, bagset(bag))
                    if t is None:
                        T = None
                        break
                    T = or_(T, t)
                if T is None:
                    out.append((s, (('x', ('filter', uid())),)))
                    continue
                q = ('filt', base, T)
            if v != Sym(e):
                q = ('map', e, v, q)
            out.append((s, (q,)))
        return out

    def predicate(self, st, s2, e, T):
        """The set of elements that take the path of s2, from its new facts."""
        old = st.facts.bools
        for t, b in s2.facts.bools:
            if (t, b) in old or t[0] in ('hashed', 'none'):
                continue
            if t[0] == 'mem' and t[1] == e:
                a = t[2]
            elif t[0] == 'same' and e in t[1:]:
                a = one(t[2] if t[1] == e else t[1])
            else:
                return None
            T = and_(T, a) if b else diff_(T, a)
        return T

    def for_piece(self, n, st, p):
        if p[0] == 'x':
            raise Undecided('loop over unknown values')
        if not setpiece(p):
            return Interp.for_piece(self, n, st, p)
        e, val, base = self.elem_of(st, p)
        bag = self.piece_bag(st, base)
        out = []
        for s, some in self.nonempty(st, bag):
            if not some:
                out.append((s, None))
            else:
                out.extend(self.for_set(n, s, p, e, val, bag))
        return out

    def for_set(self, n, st, p, e0, val, bag):
        T = bagset(bag)
        dups = self.foreign(bag) or len(bag) > 1
        fid = st.cur
        tn = assigned([], [n.target])
        mod = assigned(n.body) - tn
        before = dict(st.heap)
        fr0 = dict(st.frames[fid])
        # a fresh name: what is known of it may outlive the loop
        e = ('elt', 'w%d' % uid(), bag)
        val = sub_term(val, e0, e)
        self.generic += 1
        try:
            trial = self.for_once(n, st.copy(), val)
            paths = []
            havoc = set()
            for s, c in trial:
                if c is not None and c != ('cnt',):
                    continue
                paths.append((self.effects(before, s, e), self.predicate(st, s, e, T)))
                for nm in mod:
                    if nm in fr0 and s.frames[fid].get(nm) != fr0[nm]:
                        havoc.add(nm)
            leaves = any(c is not None and c != ('cnt',) and not isinstance(c, Exc) and not (isinstance(c, tuple) and any(isinstance(y, Exc) for y in c)) for s, c in trial)
            eff = self.join_effects(st, n, before, paths, T)
            if leaves and paths:
                # what has been passed did not make the loop end
                U = EMPTY
                for _, R in paths:
                    U = None if U is None or R is None else or_(U, R)
                if U is None or any(not isinstance(r, int) for r in eff):
                    U = None
            else:
                U = T
            # the hypothesis after the iterations over a part P of the elements
            P = ('part', ('done', uid()), T)
            g = st.copy()
            for r, x in eff.items():
                self.apply(g, r, before[r], x, P, single(P), ('perm', P))
            for nm in havoc:
                g.frames[fid][nm] = Sym(('unk', 'loopvar', uid()))
            if not dups:
                g.a_bool(('mem', e, P), False)
            if U is None:
                g.imprecise('the condition on which a loop ends at line %d' % n.lineno)
            elif U != T:
                self.is_empty(g, diff_(P, U))
            head = dict(g.heap)
            done = []
            for s, c in self.for_once(n, g, val):
                if c is not None and c != ('cnt',):
                    done.append((s, None if c == ('brk',) else c, c == ('brk',)))
                    continue
                P1 = or_(P, one(e))
                for r in head:
                    if not isinstance(r, int):
                        continue
                    a, b = head[r], s.heap.get(r)
                    if a is b:
                        if r not in eff or eff[r] == 'none':
                            continue
                    x = eff.get(r, 'none')
                    if isinstance(x, tuple) and x[0] == 'cond' and isinstance(a, ListO):
                        R, x1 = x[1][0]
                        x = x1 if subset(s, one(e), R) is True else 'none' if self.known(s, R, e) is False else None
                        if x == 'none' and a == b:
                            continue
                    if isinstance(x, tuple) and x[0] == 'append':
                        k = len(a.seq)
                        if b.seq[:k] == a.seq and len(b.seq) == k + 1 and b.seq[k] == ('c', x[1]):
                            continue
                        raise Undecided('effect of a loop body at line %d' % n.lineno)
                    if x == 'sum':
                        if bags_eq(s, self.sl_content(b), self.sl_content(before[r]) + single(P) + ((1, one(e)),)) is not True:
                            raise Undecided('loop')
                        continue
                    w = s.copy()
                    if x is None:
                        raise Undecided('effect of a loop body at line %d' % n.lineno)
                    self.apply(w, r, before[r], x, P1, single(P1), ('perm', P1))
                    if not self.same_obj(s, b, w.heap[r]):
                        raise Undecided('effect of a loop body at line %d on a partly processed state' % n.lineno)
        finally:
            self.generic -= 1
        out = []
        for s, c, brk in done:
            if brk:
                out.append((s, ('brk',)))
            else:
                out.append((s, c))
        if any(c is None or c == ('cnt',) for _, c in trial):
            for r, x in eff.items():
                self.apply(st, r, before[r], x, T, bag, p, (e, e0))
            for nm in havoc | tn | {m for m in mod if m not in fr0}:
                st.frames[fid][nm] = Sym(('unk', 'loopvar', uid()))
            if U is None:
                st.imprecise('the condition on which a loop ends at line %d' % n.lineno)
            elif U != T:
                self.is_empty(st, diff_(T, U))
            out.append((st, None))
        return out

    def is_empty(self, st, t):
        if subset(st, t, EMPTY) is not True:
            self.regcard(st, t)
            st.a_eq(A_card(t))

    def join_effects(self, st, n, before, paths, T):
        """One effect per object, the same for every element or told apart by
        a condition on the element."""
        eff = {}
        for r in {r for h, _ in paths for r in h}:
            opts = [h.get(r, ['none']) for h, _ in paths]
            c = [x for x in opts[0] if all(x in o for o in opts)]
            if c:
                eff[r] = c[0]
                continue
            for i, (_, R) in enumerate(paths):
                if R is None or any(subset(st, and_(R, R2), EMPTY) is not True for _, R2 in paths[:i] if opts[i] != opts[paths.index((_, R2))]):
                    raise Undecided('effect of a loop body at line %d' % n.lineno)
            regions = {}
            for o, (_, R) in zip(opts, paths):
                if 'none' not in o:
                    regions[o[0]] = or_(regions.get(o[0], EMPTY), R)
            if isinstance(before[r], ListO) and len(regions) > 1 or 'sum' in regions:
                raise Undecided('effect of a loop body at line %d' % n.lineno)
            eff[r] = ('cond', tuple((R, x) for x, R in regions.items()))
        return eff

    def effects(self, before, s, e):
        out = {}
        for r, a in before.items():
            if not isinstance(r, int):
                continue
            b = s.heap.get(r)
            if a is b or a == b and not isinstance(a, (SetO, SLO, DictO)):
                continue
            out[r] = self.effects_one(a, b, s, e)
            if not out[r]:
                raise Undecided('effect of a loop body')
        for r, a in before.items():
            if isinstance(r, int) and r not in out and isinstance(a, (SetO, SLO, DictO)):
                c = self.effects_one(a, s.heap[r], s, e)
                if c != ['none']:
                    out[r] = c
        return out

    def effects_one(self, a, b, s, e):
        out = []
        if e is None:
            return ['none']
        E1 = one(e)
        if isinstance(a, SetO):
            if set_eq(s, b.term, a.term) is True:
                out.append('none')
            if set_eq(s, b.term, or_(a.term, E1)) is True:
                out.append('add')
            if set_eq(s, b.term, diff_(a.term, E1)) is True:
                out.append('disc')
        elif isinstance(a, SLO):
            ca, cb = self.sl_content(a), self.sl_content(b)
            if bags_eq(s, ca, cb) is True:
                out.append('none')
            if bag_eq(s, cb, or_(bagset(ca), E1)) is True:
                out.append('add')
            if bag_eq(s, cb, diff_(bagset(ca), E1)) is True:
                out.append('disc')
            if bags_eq(s, cb, ca + ((1, E1),)) is True:
                out.append('sum')
        elif isinstance(a, DictO):
            if b.layers == a.layers and set_eq(s, a.keys, b.keys) is True:
                out.append('none')
            if len(b.layers) == len(a.layers) + 1 and b.layers[1:] == a.layers and b.layers[0][0] == E1 and set_eq(s, b.keys, or_(a.keys, E1)) is True:
                lam = b.layers[0][1]
                out.append(('put', lam[1], e))
            if b.layers == a.layers and set_eq(s, b.keys, diff_(a.keys, E1)) is True:
                out.append('disc')
        elif isinstance(a, (ListO, ItO)):
            if a == b:
                out.append('none')
            elif isinstance(b, ListO) and b.seq[:len(a.seq)] == a.seq and len(b.seq) == len(a.seq) + 1 and b.seq[-1][0] == 'c':
                out.append(('append', self.freeze(s, b.seq[-1][1]), e))
        elif a == b:
            out.append('none')
        return out

    def apply(self, st, r, a, x, P, bag, piece, ren=None):
        if x == 'none':
            return
        if isinstance(x, tuple) and x[0] == 'cond':
            for R, y in x[1]:
                Q = and_(R, P)
                self.apply(st, r, a, y, Q, single(Q), ('filt', piece, R), ren)
                a = st.heap[r]
            return
        if isinstance(a, SetO):
            st.heap[r] = SetO(or_(a.term, P) if x == 'add' else diff_(a.term, P), a.kind)
        elif isinstance(a, SLO):
            c = self.sl_content(a)
            if x == 'add':
                c = single(or_(bagset(c), P))
            elif x == 'disc':
                c = single(diff_(bagset(c), P))
            else:
                c = c + bag
            st.heap[r] = a._replace(seq=(('sl', r, uid(), c),))
        elif isinstance(a, DictO):
            if x == 'disc':
                st.heap[r] = DictO(diff_(a.keys, P), a.layers)
            else:
                st.heap[r] = DictO(or_(a.keys, P), ((P, ('lam', x[2], x[1])),) + a.layers)
        elif isinstance(a, ListO):
            e, v = x[2], x[1]
            if ren and e == ren[0]:
                e, v = ren[1], sub_term(v, e, ren[1])
            q = ('map', e, v, base_piece(piece))
            if v == Sym(e):
                q = piece
            st.heap[r] = ListO(a.seq + (q,), a.kind)

    def same_obj(self, st, a, b):
        if isinstance(a, SetO):
            return set_eq(st, a.term, b.term) is True
        if isinstance(a, SLO):
            return bags_eq(st, self.sl_content(a), self.sl_content(b)) is True
        if isinstance(a, DictO):
            return dict_eq(st, a.keys, a.layers, b.keys, b.layers) is True
        return a == b

    # -------------------------------------------------------- sorting
    def sort_seq(self, st, seq, kw, k):
        if not any(setpiece(p) for p in seq):
            return Interp.sort_seq(self, st, seq, kw, k)
        key = kw.get('key', NONE)
        rev = kw.get('reverse', FALSE)
        if isinstance(key, (Fn, Bi)) and key.name == 'identity':
            key = NONE
        if rev != FALSE:
            raise Undecided('sort order')
        c = self.seq_bag(st, seq)
        t = bagset(c)
        out = []
        if 'key' not in kw and self.keyfn == KEY and subset(st, t, EMPTY) is not True:
            st.event('natural')
        if not self.comparable(st, t) or key != self.keyfn:
            out = self.may_raise(st, 'sort')
            if key == self.keyfn:
                self.set_comparable(st, t)
        q = (('sorted', tuple(seq), key, False),)
        v = k(st, q)
        return out + [(st, v)]


def base_piece(p):
    return p[3] if p[0] == 'map' else p


def new_list(ip, st, c, args, kw, node):
    """SortedList(...) by contract."""
    if c.name not in ('SortedList', 'SortedKeyList') or c.mod != 'sortedlist':
        return None
    it = args[0] if args else kw.get('iterable', NONE)
    key = args[1] if len(args) > 1 else kw.get('key', NONE)
    if len(args) > 2 or set(kw) - {'iterable', 'key'}:
        return ip.exc(st, 'TypeError', 'SortedList arguments')
    if any(type(a) is tuple and a and a[0] == '*' for a in args):
        raise Undecided('starred call')
    out = []
    for s, isnone in (ip.is_same(st, key, NONE) if isinstance(key, Sym) and key.t[0] != 'keyfn' else [(st, key == NONE)]):
        k = NONE if isnone else key
        r = ip.sl_new(s, Cls('SortedList' if k == NONE else 'SortedKeyList', 'sortedlist'), (), k)
        if k != ip.keyfn:
            # another order: nothing is known to be comparable under it
            s.heap['$otherkey'] = True
        if it == NONE:
            out.append((s, r))
        else:
            out.extend((s2, v if isinstance(v, Exc) else r) for s2, v in ip.sl_call(s, r, 'update', [it], {}, node))
    return out


# ====================================================================== domain

class SetDom:
    """One class (SortedSet or SortedDict, or a view of the latter)."""
    def __init__(self, prog, cls, keyed):
        self.prog, self.cls, self.keyed = prog, cls, keyed
        self.key = KEY if keyed else NONE

    def fresh_interp(self):
        reset_ids()
        ip = SetInterp(self.prog)
        EPKEY.clear()
        ip.keyfn = self.key
        ip.dom = self
        return ip

    def blank(self):
        st = St()
        st.frames[0] = {'$mod': 'sortedlist', '$parent': None, '$cls': None}
        st.cur = 0
        st.a_ge(LOAD - 4)
        st.a_bool(('none', KEY.t), False)
        st.a_bool(('callable', KEY.t), True)
        return st

    def instance(self, ip, st, T, cls=None, layers=None, key=None):
        """A generic instance built by running the constructor, then given
        arbitrary content.  Returns (state, ref)."""
        cls = cls or self.cls
        key = self.key if key is None else key
        c = Cls(cls, MODULE[cls])
        if cls == 'SortedSet':
            res = ip.instantiate(st, c, [], {'key': key}, None)
        else:
            res = ip.instantiate(st, c, [key], {}, None)
        res = [(s, v) for s, v in res if not isinstance(v, Exc)]
        if len(res) != 1:
            raise Undecided('the constructor of %s has %d outcomes' % (cls, len(res)))
        st, ref = res[0]
        setr, lst = self.parts(st, ref)
        o = st.o(setr)
        if cls == 'SortedSet':
            st.put(setr, SetO(T, o.kind))
        else:
            st.put(setr, DictO(T, layers if layers is not None else ((T, ('val', T[1])),)))
        ip.sl_put(st, lst, single(T))
        if key == self.key:
            ip.set_comparable(st, T)
        ip.regcard(st, T)
        st.a_ge(A_card(T))
        st.ev = ()
        return st, ref

    def parts(self, st, ref):
        """The set (dict) part and the sorted list of an instance."""
        f = st.o(ref).fields
        lists = [k for k, v in f.items() if isinstance(v, Ref) and isinstance(st.o(v), SLO)]
        ln = '_list' if '_list' in lists else (lists[0] if len(lists) == 1 else None)
        if '$dict' in f:
            sn = '$dict'
        else:
            ss = [k for k, v in f.items() if isinstance(v, Ref) and isinstance(st.o(v), SetO)]
            sn = '_set' if '_set' in ss else (ss[0] if len(ss) == 1 else None)
        if ln is None or sn is None:
            raise Undecided('storage of %s not found' % st.o(ref).cls.name)
        self.names = (sn, ln)
        return f[sn], f[ln]

    # ---------------------------------------------------------------- checks
    def valid(self, ip, st, ref, add, setr0=None, lst0=None):
        """An instance is internally consistent."""
        f = st.o(ref).fields
        try:
            setr, lst = self.parts(st, ref)
        except Undecided as u:
            add('sync', UNK, str(u))
            return None
        so, lo = st.o(setr), st.o(lst)
        T = so.term if isinstance(so, SetO) else so.keys
        r = bag_eq(st, ip.sl_content(lo), T)
        if r is not True:
            v = BAD
            if has_img([T, ip.sl_content(lo)]):
                v = UNK
            add('sync', v, 'the list holds %s where the %s holds %s: %s' % (
                bshow(ip.sl_content(lo)), 'set' if isinstance(so, SetO) else 'dict', tshow(T), row_show(r)))
        else:
            add('sync', OK, '')
        # bound methods taken from the underlying collections
        allowed = (setr, lst, ref)
        for k, v in sorted(f.items()):
            if isinstance(v, BB) and isinstance(v.self, Ref) and isinstance(st.o(v.self), (SetO, SLO, DictO)) and v.self not in allowed:
                add('bound', BAD, '%s still refers to a collection that was replaced' % k)
                break
        else:
            add('bound', OK, '')
        return setr, lst, T

    def key_of(self, st, ref):
        f = st.o(ref).fields
        _, lst = self.parts(st, ref)
        return st.o(lst).key, f.get('_key')

    def obligations(self, ip, st, exp, value):
        obs = []
        user = isinstance(value, Exc) and value.kind == 'User'

        def add(kind, verdict, why):
            if verdict == BAD and (st.approx or unknown_path(st, True)):
                verdict, why = UNK, '%s (approximated: %s)' % (why, st.approx)
            if isinstance(value, Exc) and kind != 'exc':
                kind = ('user:' if user else 'fail:') + kind
            obs.append(Ob(kind, verdict, why, st.trace))
        if isinstance(value, Exc):
            if user:
                pass
            elif exp.exc == value.kind:
                add('exc', OK, value.kind)
            elif exp.exc is None:
                add('exc', BAD, 'raises %s %s where a normal result is due' % (value.kind, show(value.val)))
            else:
                add('exc', BAD, 'raises %s where %s is due' % (value.kind, exp.exc))
        elif exp.exc is not None:
            add('exc', BAD, 'returns normally where %s is due' % exp.exc)
        if ('natural',) in st.ev and not isinstance(value, Exc):
            add('exc', BAD, 'raises TypeError when the values compare by the key function only: they are sorted without it')
        x = self.valid(ip, st, self.ref, add)
        if x is None:
            return obs
        setr, lst, T = x
        o = st.o(setr)
        k0, k1 = self.key_of(st, self.ref)
        if k0 != self.key:
            add('key', BAD, 'the list is ordered by %s where the key is %s' % (show(k0), show(self.key)))
        want = exp.content if exp.content is not None and not isinstance(value, Exc) else (self.T0, self.L0)
        if user and getattr(exp, 'partial', None):
            lo, hi = exp.partial
            a, b = subset(st, lo, T), subset(st, T, hi)
            add('content:mset', OK if a is True and b is True else BAD,
                'after the failure it holds %s; %s' % (tshow(T), row_show(a if a is not True else b)))
        else:
            self.check_content(st, o, T, want, add)
        if not isinstance(value, Exc) and exp.result is not None and exp.exc is None:
            v, why = exp.result(self, ip, st, value)
            k = 'result'
            if why.startswith('['):
                k, why = why[1:].split('] ', 1)
                k = 'result:' + k
            add(k, v, why)
        # arguments
        bad = None
        for r, ob in self.argobjs.items():
            now = st.heap.get(r)
            if now is not ob and not (isinstance(ob, SLO) and now.seq[0][3] == ob.seq[0][3]) and not ip.same_obj(st, now, ob):
                bad = 'an argument of type %s is changed' % type(ob).__name__
        for ev in st.ev:
            if ev[0] == 'mutates-arg':
                bad = 'mutates its argument %s by %s' % (show(ev[1]), ev[2])
        add('args', BAD if bad else OK, bad or '')
        if not isinstance(value, Exc):
            for nm, r in (('set', setr), ('list', lst)):
                if value == r:
                    add('escape', BAD, 'returns its own %s' % nm)
                    break
            else:
                add('escape', OK, '')
            for nm, r in (('set', setr), ('list', lst)):
                if r.i in self.argobjs:
                    add('escape', BAD, 'adopts an argument as its own %s' % nm)
        return obs

    def check_content(self, st, o, T, want, add):
        wt, wl = want
        if isinstance(o, SetO):
            r = set_eq(st, T, wt)
            if r is True:
                add('content:mset', OK, '')
            else:
                add('content:mset', UNK if has_img([T]) else BAD, 'holds %s where %s is due: %s' % (tshow(T), tshow(wt), row_show(r)))
            return
        r = dict_eq(st, T, o.layers, wt, wl)
        if r is True:
            add('content:mset', OK, '')
        elif r[1] is None and r[2] is None:
            add('content:mset', UNK if has_img([T]) else BAD, 'has the keys %s where %s is due: %s' % (tshow(T), tshow(wt), row_show(r[0])))
        else:
            u = has_unknown(r[1]) or has_unknown(r[2])
            add('content:values', UNK if u else BAD, 'maps a key to %s where %s is due: %s' % (show(r[1]), show(r[2]), row_show(r[0])))

    # ---------------------------------------------------------------- instances
    def new_instance(self, ip, st, v, want, cls=None, layers=None, dyn=True, key=None, order=True):
        cls = cls or self.cls
        if v == self.ref:
            return BAD, '[share] returns the container itself'
        if not isinstance(v, Ref) or not isinstance(st.o(v), ObjO):
            return (UNK if isinstance(v, Sym) else BAD), '[class] returns %s, not a new container' % show(v)
        o = st.o(v)
        if o.cls.name != cls:
            return BAD, '[class] returns a %s' % o.cls.name
        if dyn and '$dyn' not in o.fields:
            return BAD, '[class] loses the class of a subclass instance'
        bad = []
        x = self.valid(ip, st, v, lambda k, w, y: bad.append((w, k, y)) if w != OK else None)
        if x is None:
            return UNK, bad[0][2]
        setr, lst, T = x
        if setr.i in self.own or lst.i in self.own:
            return BAD, '[share] the new container shares the storage of the old one'
        if setr.i in self.argobjs or lst.i in self.argobjs:
            return BAD, '[share] the new container adopts an argument as its storage'
        for w, k, y in bad:
            if w == BAD:
                return BAD, '[state] new container: ' + y
        if bad:
            return UNK, bad[0][2]
        k0, k1 = self.key_of(st, v)
        wk = self.key if key is None else key
        if order:
            if k0 != wk:
                return BAD, '[key] the new container is ordered by %s where %s is due' % (show(k0), show(wk))
            if k1 != wk:
                return (UNK if k1 is None else BAD), '[key] the key of the new container is %s' % show(k1)
        so = st.o(setr)
        res = []
        self.check_content(st, so, T, (want, layers), lambda k, w, y: res.append((w, k, y)))
        w, k, y = res[0]
        return w, ('[%s] new container ' % k + y) if w != OK else ''

    def user_exp(self, x, s, t):
        for s2, e in t.spec(x, s.copy()):
            if getattr(e, 'partial', None):
                return e
        return Exp()

    # ---------------------------------------------------------------- running
    def run(self, t):
        ip = self.fresh_interp()
        obs = []
        stats = {'method': '%s.%s' % (self.cls, t.method), 'variant': t.variant, 'exits': 0}
        try:
            st = self.blank()
            self.T0 = ('S', 'S0' if self.cls == 'SortedSet' else 'D0')
            self.L0 = ((self.T0, ('val', self.T0[1])),)
            st, self.ref = self.instance(ip, st, self.T0)
            st.self = self.ref
            setr, lst = self.parts(st, self.ref)
            self.own = {setr.i, lst.i}
            self.argobjs = {}
            self.lst = lst
            self.p0 = st.o(lst).seq[0]
            from .setspecs import build, invoke
            st, x = build(self, ip, st, t)
            st.trace, st.ev = (), ()
            for s, v in invoke(x, st):
                stats['exits'] += 1
                if not s.facts.consistent():
                    continue
                for s2, exp in t.spec(x, s) if not isinstance(v, Exc) or v.kind != 'User' else [(s, self.user_exp(x, s, t))]:
                    if s2.facts.consistent():
                        obs.extend(self.obligations(ip, s2, exp, v))
        except Undecided as u:
            obs.append(Ob('analysis', UNK, str(u)))
        for why in ip.incomplete:
            obs.append(Ob('analysis', UNK, 'incomplete: ' + why))
        stats['funcs'] = sorted('%s.%s' % (f[1] or '', f[2]) for f in ip.funcs)
        stats['sites'] = len(ip.sites)
        stats['branches'] = len(ip.branches)
        return obs, stats


def make_dom(prog, dom, cls, verified):
    return SetDom(prog, cls, False)


def set_tasks(dom, cls):
    from . import setspecs
    return setspecs.tasks(dom, cls)


def run_task(d, t):
    return SetDom(d.prog, d.cls, t.keyed).run(t)
