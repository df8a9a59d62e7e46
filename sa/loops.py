"""Loops and comprehensions: exact summaries, unrolling, inductive invariants."""
import ast
from .core import *
from .lists import pelem_x, fork_some, gen_facts, subst_val, subst_lin, subst_term


def assigned(body, extra=()):
    names = set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
    v = Vis()
    for s in body:
        v.visit(s)
    for e in extra:
        v.visit(e)
    return names


class Loops:
    generic = 0

    # ============================================================ comprehension
    def comp_seq(self, e, st):
        cur = st.cur
        fid = uid()
        st.frames[fid] = {'$mod': st.frames[cur]['$mod'], '$parent': cur, '$cls': st.frames[cur].get('$cls')}
        # the first iterable is evaluated in the enclosing frame
        out = []
        for s, v in self.ev(e.generators[0].iter, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s.cur = fid
            for s2, seq in self.comp_gen(e, 0, s, v):
                s2.cur = cur
                out.append((s2, seq))
        return out

    def comp_gen(self, e, k, st, itv):
        g = e.generators[k]
        if g.is_async:
            raise Undecided('async')
        out = []
        for s, seq in self.iter_seq(st, itv):
            if isinstance(seq, Exc):
                out.append((s, seq))
                continue
            res = [(s, ())]
            for p in seq:
                nxt = []
                for s2, acc in res:
                    if isinstance(acc, Exc):
                        nxt.append((s2, acc))
                        continue
                    for s3, q in self.comp_piece(e, k, s2, p):
                        nxt.append((s3, q if isinstance(q, Exc) else acc + tuple(q)))
                res = nxt
            out.extend(res)
        return out

    def comp_elem(self, e, k, st, elem):
        """Sequence produced for one element: list of (st, seq|Exc)."""
        g = e.generators[k]
        out = []
        for s, c in self.assign(st, g.target, elem, e):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            res = [(s, True)]
            for t in g.ifs:
                nxt = []
                for s2, b in res:
                    if b is not True:
                        nxt.append((s2, b))
                    else:
                        nxt.extend(self.cond(t, s2))
                res = nxt
            for s2, b in res:
                if isinstance(b, Exc):
                    out.append((s2, b))
                elif not b:
                    out.append((s2, ()))
                elif k + 1 < len(e.generators):
                    for s3, v in self.ev(e.generators[k + 1].iter, s2):
                        if isinstance(v, Exc):
                            out.append((s3, v))
                        else:
                            out.extend(self.comp_gen(e, k + 1, s3, v))
                else:
                    for s3, v in self.ev(e.elt, s2):
                        out.append((s3, v if isinstance(v, Exc) else (('c', v),)))
        return out

    def comp_piece(self, e, k, st, p):
        if p[0] == 'c':
            return self.comp_elem(e, k, st, p[1])
        return self.map_piece(st, p, lambda s, elem: self.comp_elem(e, k, s, elem))

    def map_piece(self, st, p, fn):
        """Generic image of a piece under fn(state, elem) -> [(state, seq|Exc)]."""
        n = plen(st, p)
        var = ('bv', self.generic)
        i = Lin.atom(var)
        out = []
        for s, some in fork_some(st, p, n):
            if not some:
                out.append((s, ()))
                continue
            g = s.copy()
            g.a_ge(i)
            g.a_ge(n - 1 - i)
            gen_facts(g, p, i)
            gen = g.copy()
            self.generic += 1
            before = dict(g.heap)
            try:
                res = fn(g, pelem_x(g, p, i))
            finally:
                self.generic -= 1
            vals = []
            for s2, q in res:
                if isinstance(q, Exc):
                    if q.kind == 'User':
                        s3 = s.copy()
                        s3.ev = s2.ev
                        out.append((s3, q))
                    else:
                        out.append((s2, q))
                else:
                    vals.append((s2, q))
                for ev in s2.ev:
                    s.event(*ev)
                if s2.approx:
                    s.imprecise(s2.approx)
            eff = False
            for s2, q in vals:
                for r, o in before.items():
                    if s2.heap.get(r) is not o and s2.heap.get(r) != o and not self.benign_change(o, s2.heap.get(r), s2):
                        eff = True
            if eff:
                raise Undecided('side effects in a comprehension')
            uniq = []
            for s2, q in vals:
                fq = self.freeze_seq(s2, q)
                if fq not in [u[1] for u in uniq]:
                    uniq.append((s2, fq))
            if not uniq:
                continue
            if len(uniq) > 1:
                # one value may equal the others under their own facts
                for _, cand in uniq:
                    if all(fq == cand or (cand and seq_cmp(s2, fq, cand)[0] == 'eq') for s2, fq in uniq):
                        uniq = [(gen, cand)]
                        break
            if len(uniq) == 1:
                out.append((s, self.norm_map(s, uniq[0][0], var, uniq[0][1], p)))
            else:
                cond = []
                lens = {len(u[1]) for u in uniq}
                out.append((s, (('x', ('filter', uid())),)))
        return out

    def benign_change(self, a, b, st):
        """Materialisation of a sublist does not change the content."""
        if isinstance(a, ItO):
            return True
        if isinstance(a, ListO) and isinstance(b, ListO):
            return self.flatten_lists(st, a.seq) == self.flatten_lists(st, b.seq) if False else self.same_lists(st, a.seq, b.seq)
        return False

    def same_lists(self, st, a, b):
        def exp(seq):
            out = []
            for p in seq:
                if p[0] == 'c' and isinstance(p[1], Ref) and isinstance(st.o(p[1]), ListO):
                    q = st.o(p[1]).seq
                    if len(q) == 1 and q[0][0] == 'v' and q[0][5] == 1:
                        # is it a pristine sublist?
                        for a_ in q[0][2].atoms():
                            pass
                        out.append(('cell', q[0]))
                        continue
                out.append(p)
            return out
        # merge: compare the flat element content only
        fa, fb = self.flat_content(st, a), self.flat_content(st, b)
        if fa is None or fb is None:
            return False
        return seq_cmp(st, fa, fb)[0] == 'eq'

    def flat_content(self, st, seq):
        out = []
        for p in seq:
            if p[0] == 'L':
                if p[6] != 1 or p[5] != 1:
                    return None
                out.append(V(p[1], mkG(p[1], p[2]), mkG(p[1], p[3]), p[4]))
            elif p[0] == 'c' and isinstance(p[1], Ref) and isinstance(st.o(p[1]), ListO):
                out.extend(st.o(p[1]).seq)
            elif p[0] == 'c' and isinstance(p[1], Sub):
                out.extend(p[1].seq)
            elif p[0] == 'chunks':
                out.extend(p[1])
            else:
                return None
        return tuple(out)

    def freeze_seq(self, st, q):
        """Replace fresh list objects in a produced sequence by snapshots."""
        out = []
        for p in q:
            if p[0] == 'c' and isinstance(p[1], Ref) and isinstance(st.o(p[1]), (ListO, ItO)):
                o = st.o(p[1])
                out.append(('c', Sub(self.freeze_seq(st, o.seq), ('fresh',))))
            elif p[0] == 'c' and isinstance(p[1], Tup):
                out.append(('c', Tup(tuple(x if not (isinstance(x, Ref) and isinstance(st.o(x), ListO)) else Sub(self.freeze_seq(st, st.o(x).seq), ('fresh',)) for x in p[1].items))))
            else:
                out.append(p)
        return tuple(out)

    def norm_map(self, st, gst, var, q, p):
        """Sequence for `q` (a short seq in the bound variable) over piece p."""
        i = Lin.atom(var)
        if not q:
            return ()
        if len(q) == 1 and q[0][0] == 'c':
            v = q[0][1]
            elem = pelem_x(gst, p, i)
            if v == elem:
                return (p,)
            if isinstance(v, Sym) and isinstance(elem, Sym) and v.t == ('key', elem.t):
                return mapkey((p,))
            if isinstance(v, Sym) and isinstance(elem, Sym) and v.t[0] == 'key' and val_cmp(gst, Sym(v.t[1]), elem) is True:
                return mapkey((p,))
            if isinstance(elem, Sub):
                if isinstance(v, Sub):
                    if v.seq == elem.seq:
                        return (p,)
                    if v.seq == mapkey(elem.seq):
                        if p[0] == 'chunks':
                            return (('chunks', mapkey(p[1]), p[2]),)
                        return mapkey((p,))
                    if v.seq == rev_seq(elem.seq) and p[0] == 'L':
                        return (p[:6] + (-p[6],),)
                n = seqlen(gst, elem.seq)
                if isinstance(v, Lin) and v == n:
                    if p[0] == 'L':
                        return (('n', p[1], p[2], p[3], p[5]),)
                    if p[0] == 'chunks':
                        return (('clen', p[1], p[2]),)
                if isinstance(v, Sym):
                    keyed = EPKEY.get(p[1], NONE) != NONE if p[0] == 'L' else self.keyfn != NONE
                    if p[0] == 'L' and p[6] == 1:
                        qq = p[2] + i if p[5] > 0 else p[3] - 1 - i
                        last = ('at', p[1], mkG(p[1], qq + 1) - 1)
                        if v.t == (('key', last) if keyed else last):
                            return (('m', p[1], p[2], p[3], p[5]),)
                    if p[0] == 'chunks':
                        last = pelem(gst, elem.seq[0], n - 1)
                        if v == last:
                            return (('clast', p[1], p[2]),)
                        if v.t == ('key', last.t):
                            return (('clast', mapkey(p[1]), p[2]),)
            if p[0] == 'rng':
                step = p[3]
                # the last value of each of a series of consecutive slices
                t = v.t[1] if isinstance(v, Sym) and v.t[0] == 'key' else v.t if isinstance(v, Sym) else ()
                if t and t[0] == 'el' and t[1][0] == 'slc' and p[1] == ZERO:
                    c = t[1]
                    if c[2] == elem and c[3] == elem + step and t[2] == plen(gst, c) - 1 and st.eq(p[2], seqlen(st, c[1])):
                        return (('clast', c[1] if t is v.t else mapkey(c[1]), step),)
                if isinstance(v, Sym):
                    t, f = (v.t, 'v')
                    if t[0] == 'key':
                        t, f = t[1], 'k'
                    if t[0] == 'at':
                        d = t[2] - elem
                        if not mentions(d, var):
                            e = t[1]
                            if step == Lin(1):
                                return (V(e, p[1] + d, p[2] + d, f),)
                            if step == Lin(-1):
                                return (V(e, p[2] + 1 + d, p[1] + 1 + d, f, -1),)
                            return (('stp', e, p[1] + d, p[2] + d, step, f),)
                if isinstance(v, Sub) and len(v.seq) == 1 and v.seq[0][0] == 'slc':
                    _, base, lo, hi = v.seq[0]
                    if lo == elem and hi == elem + step and p[1] == ZERO and st.eq(p[2], seqlen(st, base)):
                        return (('chunks', base, step),)
                    return (('slices', base, p, subst_lin(lo, var, Lin.atom(('bv', 'c'))), subst_lin(hi, var, Lin.atom(('bv', 'c')))),)
                if isinstance(v, Sub) and isinstance(elem, Lin):
                    # sublist number i by subscript
                    pass
            if isinstance(v, Sub) and p[0] == 'rng' and len(v.seq) == 1 and v.seq[0][0] == 'v' and p[3].is_const() and abs(p[3].c) == 1:
                pp = v.seq[0]
                e = pp[1]
                if pp[2] == mkG(e, elem) and pp[3] == mkG(e, elem + 1):
                    if p[3].c == 1:
                        return (('L', e, p[1], p[2], pp[4], 1, pp[5]),)
                    return (('L', e, p[2] + 1, p[1] + 1, pp[4], -1, pp[5]),)
            return (('map', var, v, p),)
        # flat map
        elem = pelem_x(gst, p, i)
        if p[0] == 'rng' and len(q) == 1 and q[0][0] == 'v' and p[3].is_const() and abs(p[3].c) == 1:
            # sublist after sublist
            e = q[0][1]
            if q[0][2] == mkG(e, elem) and q[0][3] == mkG(e, elem + 1):
                lo, hi = (p[1], p[2]) if p[3].c == 1 else (p[2] + 1, p[1] + 1)
                r = self.flatten_piece(st, ('L', e, lo, hi, q[0][4], p[3].c, q[0][5]))
                if r is not None:
                    return r
        if isinstance(elem, Sub) and tuple(q) == tuple(elem.seq):
            r = self.flatten_piece(st, p)
            if r is not None:
                return r
        if isinstance(elem, Sub) and tuple(q) == rev_seq(elem.seq) and p[0] == 'L':
            r = self.flatten_piece(st, p[:6] + (-p[6],))
            if r is not None:
                return r
        if isinstance(elem, Sub) and tuple(q) == mapkey(elem.seq):
            r = self.flatten_piece(st, p)
            if r is not None:
                return mapkey(r)
        return (('x', ('flatmap', uid())),)

    def flatten_piece(self, st, p):
        """Concatenation of the lists of a piece."""
        if p[0] == 'L':
            e = p[1]
            if p[5] == p[6]:
                return (V(e, mkG(e, p[2]), mkG(e, p[3]), p[4], p[5]),)
            if st.ge(p[2] + 1 - p[3]):
                # at most one sublist
                return (V(e, mkG(e, p[2]), mkG(e, p[3]), p[4], p[6]),)
            return (('Lx',) + p[1:],)
        if p[0] == 'chunks':
            return p[1]
        if p[0] == 'c':
            v = p[1]
            q = self.seq_of(st, v)
            if q is not None:
                return q
        if p[0] == 'slices':
            return (('Sx',) + p[1:],)
        return None

    # ============================================================ for loops
    def ex_For(self, n, st):
        out = []
        for s, v in self.ev(n.iter, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, seq in self.iter_seq(s, v):
                if isinstance(seq, Exc):
                    out.append((s2, seq))
                    continue
                out.extend(self.for_seq(n, s2, seq))
        return out

    def for_seq(self, n, st, seq):
        res = [(st, None)]
        done = []
        for p in seq:
            nxt = []
            for s, _ in res:
                if p[0] == 'c':
                    r = self.for_once(n, s, p[1])
                else:
                    r = self.for_piece(n, s, p)
                for s2, c in r:
                    if c is None or c == ('cnt',):
                        nxt.append((s2, None))
                    elif c == ('brk',):
                        done.append((s2, None))
                    else:
                        done.append((s2, c))
            res = nxt
        out = list(done)
        for s, _ in res:
            if n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append((s, None))
        return out

    def for_once(self, n, st, elem):
        out = []
        for s, c in self.assign(st, n.target, elem, n):
            if c is not None:
                out.append((s, c))
            else:
                out.extend(self.block(n.body, s))
        return out

    def for_piece(self, n, st, p):
        ln = plen(st, p)
        out = []
        for s, some in fork_some(st, p, ln):
            if not some:
                out.append((s, None))
                continue
            r = self.for_summary(n, s.copy(), p, ln)
            if r is not None:
                out.extend(r)
                continue
            out.extend(self.for_unroll(n, s, p, ln))
        return out

    def for_unroll(self, n, st, p, ln):
        out = []
        cur = [st]
        # the length of a stepped range is not linear: decide by its elements
        step = None
        if p[0] == 'rng' and not (p[3].is_const() and abs(p[3].c) == 1):
            step = 1 if st.ge(p[3] - 1) else -1 if st.ge(-p[3] - 1) else None
        for k in range(self.unroll):
            nxt = []
            for s in cur:
                for s2, c in self.for_once(n, s, pelem_x(s, p, Lin(k))):
                    if c is None or c == ('cnt',):
                        at = p[1] + p[3] * (k + 1) if step else None
                        for s3, more in fork_ge(s2, (p[2] - at) * step - 1) if step else fork_ge(s2, ln - (k + 2)):
                            if more:
                                nxt.append(s3)
                            else:
                                out.append((s3, None))
                    else:
                        out.append((s2, c))
            cur = nxt
        if cur:
            self.incomplete.append('loop at line %d beyond %d iterations' % (n.lineno, self.unroll))
        return out

    def havoc(self, st, names):
        """Replace loop-modified locals: returns {name: (old, atom)} for ints."""
        fr = st.frames[st.cur]
        hv = {}
        for nm in names:
            if nm not in fr:
                continue
            v = fr[nm]
            if isinstance(v, Lin):
                h = fresh('h')
                fr[nm] = h
                hv[nm] = (v, h)
            elif isinstance(v, C) and isinstance(v.v, bool):
                fr[nm] = Sym(('fresh', uid()))
                hv[nm] = (v, fr[nm])
            elif isinstance(v, Ref):
                fr[nm] = Sym(('unk', 'loopvar', uid()))
                hv[nm] = (v, None)
            else:
                fr[nm] = Sym(('unk', 'loopvar', uid()))
                hv[nm] = (v, None)
        return hv

    def for_summary(self, n, st, p, ln):
        """Summary of `for target in piece: body` for a generic element.

        Returns a list of (state, control) or None when no summary applies."""
        mod = assigned(n.body)
        tnames = assigned([], [n.target])
        mutating = self.foreach_mut(n, st.copy(), p, ln)
        if mutating is not None:
            return mutating
        var = ('it', uid())
        i = Lin.atom(var)
        ghosts = self.for_ghosts(st, p, n.body)
        # objects that a name keeps denoting all along, unless the body rebinds it
        kept = {nm: v for nm, v in st.frames[st.cur].items() if nm in mod - tnames and isinstance(v, Ref)}
        own = set()
        while True:
            g = st.copy()
            g.a_ge(i)
            g.a_ge(ln - 1 - i)
            gen_facts(g, p, i)
            hv = self.havoc(g, mod - tnames - set(kept))
            for gh in ghosts:
                g.a_ge(gh - i)
            # collectors
            marks = {}
            for r, o in list(g.heap.items()):
                if isinstance(r, int) and isinstance(o, ListO) and o.kind == 'list' and r in own:
                    m = ('mark', r)
                    marks[r] = m
                    g.heap[r] = ListO((m,), 'list')
            base = dict(g.heap)
            inc0 = len(self.incomplete)
            try:
                self.generic += 1
                res = self.for_once(n, g, pelem_x(g, p, i))
            except Undecided:
                return None
            finally:
                self.generic -= 1
            ends = [(s, c) for s, c in res if c is None or c == ('cnt',)]
            exits = [(s, c) for s, c in res if not (c is None or c == ('cnt',))]
            bad = [gh for gh in ghosts if not all(s.ge(gh - i - 1) for s, c in ends)]
            if bad:
                ghosts = [gh for gh in ghosts if gh not in bad]
                continue
            lost = [nm for nm, v in kept.items() if not all(s.frames[s.cur].get(nm) == v for s, c in ends)]
            if lost:
                kept = {nm: v for nm, v in kept.items() if nm not in lost}
                continue
            # lists that the body changes
            grown = {r for r, o in base.items() if isinstance(r, int) and r not in own and isinstance(o, ListO) and o.kind == 'list'
                     and any(s.heap.get(r) is not o and s.heap.get(r) != o and not self.benign_change(o, s.heap.get(r), s) for s, c in ends)}
            if grown:
                own |= grown
                continue
            break
        # effects
        app = {}
        for s, c in ends:
            for r, o in base.items():
                o2 = s.heap.get(r)
                if o2 is o or o2 == o:
                    continue
                if r in marks and isinstance(o2, ListO) and o2.seq and o2.seq[0] == marks[r]:
                    app.setdefault(r, []).append((s, o2.seq[1:]))
                    continue
                if r in marks and isinstance(o2, ListO) and o2.seq and o2.seq[-1] == marks[r]:
                    return None
                if isinstance(o, ListO) and isinstance(o2, ListO) and r not in marks and self.benign_change(o, o2, s):
                    continue
                return None
        out = []
        fr = st.frames[st.cur]
        # normal completion
        fin = st.copy()
        for gh in ghosts:
            fin.a_ge(gh - ln)
        ok = True
        for r, lst in app.items():
            if len(lst) != len(ends):
                fin.put(Ref(r), ListO(fin.o(Ref(r)).seq + (('x', ('filter', uid())),), 'list'))
                continue
            forms = []
            for s, q in lst:
                fq = self.freeze_seq(s, q)
                if has_mark(fq):
                    fq = (('x', ('filter', uid())),)
                if fq not in forms:
                    forms.append(fq)
            if len(forms) == 1:
                q = subst_term(forms[0], var, Lin.atom(('bv', self.generic)))
                gs = lst[0][0]
                q2 = self.norm_map(fin, gs, ('bv', self.generic), q, p)
                fin.put(Ref(r), ListO(fin.o(Ref(r)).seq + tuple(q2), 'list'))
            else:
                fin.put(Ref(r), ListO(fin.o(Ref(r)).seq + (('x', ('filter', uid())),), 'list'))
        for nm in mod - tnames - set(kept):
            if nm in hv and isinstance(hv[nm][0], Lin):
                v0, h = hv[nm]
                deltas = {s.frames[s.cur].get(nm) - h if isinstance(s.frames[s.cur].get(nm), Lin) else None for s, c in ends}
                if len(deltas) == 1 and None not in deltas:
                    d = deltas.pop()
                    tot = self.sum_over(fin, d, var, p, ln)
                    if tot is not None:
                        fin.frames[fin.cur][nm] = v0 + tot
                        continue
                if ends:
                    fin.frames[fin.cur][nm] = A('unk', 'loop', uid())
            else:
                if ends:
                    vals = {repr(s.frames[s.cur].get(nm)) for s, c in ends}
                    fin.frames[fin.cur][nm] = Sym(('unk', 'loopvar', uid()))
        for nm in tnames:
            fin.frames[fin.cur][nm] = Sym(('unk', 'loopvar', uid()))
        for s, c in ends:
            for ev in s.ev:
                fin.event(*ev)
            if s.approx:
                fin.imprecise(s.approx)
        # early exits at a generic iteration
        userexc = [(s, c) for s, c in exits if isinstance(c, Exc) and c.kind == 'User']
        other = [(s, c) for s, c in exits if not (isinstance(c, Exc) and c.kind == 'User')]
        if ends:
            if other and not ghosts:
                fin.imprecise('no iteration left the loop')
            out.append((fin, None))
        for s, c in userexc:
            for r, m in marks.items():
                o = s.heap.get(r)
                if isinstance(o, ListO) and o.seq and o.seq[0] == m:
                    s.heap[r] = ListO(st.heap[r].seq if o.seq == (m,) and r not in app else (('x', uid()),), 'list')
            out.append((s, c))
        if other:
            for s, c in other:
                for r, m in marks.items():
                    o = s.heap.get(r)
                    if isinstance(o, ListO) and m in o.seq:
                        s.heap[r] = ListO(tuple(x for y in o.seq for x in (st.heap[r].seq + ((('x', uid()),) if r in app else ()) if y == m else (y,))), 'list')
                s.imprecise('exit from a generic iteration')
                out.append((s, c))
            # exact first iterations, for refutation
            keep = len(self.incomplete)
            for s, c in self.for_unroll(n, st.copy(), p, ln):
                out.append((s, c))
            del self.incomplete[keep:]
        return out

    def sum_over(self, st, d, var, p, ln):
        """Sum over the piece of a per-element increment."""
        if not mentions(d, var):
            if d.is_const():
                return ln * d.c
            return None
        if p[0] == 'L':
            i = Lin.atom(var)
            q = p[2] + i if p[5] > 0 else p[3] - 1 - i
            if d == mkG(p[1], q + 1) - mkG(p[1], q):
                return mkG(p[1], p[3]) - mkG(p[1], p[2])
        if p[0] == 'n':
            i = Lin.atom(var)
            q = p[2] + i if p[4] > 0 else p[3] - 1 - i
            if d == mkG(p[1], q + 1) - mkG(p[1], q):
                return mkG(p[1], p[3]) - mkG(p[1], p[2])
        return None

    def for_ghosts(self, st, p, body=()):
        out = []
        # other[i] against the i-th stored element
        base = [q[1] for q in (p[1] if p[0] == 'zip' else (p,)) if q[0] == 'v' and q[2] == ZERO]
        if not base and p[0] == 'rng' and p[1] == ZERO and p[3] == Lin(1):
            base = [0]
        if base:
            fr = st.frames[st.cur]
            for nm in sorted({x.value.id for b in body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}):
                v = fr.get(nm)
                if isinstance(v, Sym):
                    for e in base:
                        mi = A('mis', e, v.t)
                        st.a_ge(mi)
                        out.append(mi)
        if p[0] == 'zip':
            vs = [q for q in p[1] if q[0] == 'v']
            os_ = [q for q in p[1] if q[0] in ('o', 'cut')]
            for v in vs:
                for o in os_:
                    oo = o[1] if o[0] == 'cut' else o
                    if oo[0] == 'o' and v[2] == ZERO:
                        mi = A('mis', v[1], oo[1])
                        st.a_ge(mi)
                        out.append(mi)
        return out

    def protected(self, st, ref):
        """Is the list part of the tracked instance?"""
        if st.self is None:
            return False
        o = st.o(st.self)
        if not isinstance(o, ObjO):
            return False
        for v in o.fields.values():
            if v == ref:
                return True
            if isinstance(v, Ref) and isinstance(st.o(v), ListO):
                for p in st.o(v).seq:
                    if p[0] == 'c' and p[1] == ref:
                        return True
        return False

    def foreach_mut(self, n, st, p, ln):
        if self.foreach_hook is not None:
            return self.foreach_hook(self, n, st, p, ln)
        return None

    foreach_hook = None

    # ============================================================ while loops
    def ex_While(self, n, st):
        r = self.tree_loop(n, st)
        if r is not None:
            return r
        out = []
        cur = [st.copy()]
        left = False
        keep = len(self.incomplete)
        most = self.unroll
        for k in range(70):
            if k > most:
                break
            nxt = []
            tests = [(s, self.cond(n.test, s)) for s in cur]
            if k == most and not isinstance(n.test, ast.Constant) and len(cur) <= 32 and k < 69 and all(len(r) == 1 for s, r in tests):
                # the number of rounds is a known constant
                most += 1
            for s, r in tests:
                for s2, b in r:
                    if isinstance(b, Exc):
                        out.append((s2, b))
                    elif not b:
                        out.append((s2, None))
                    elif k == most:
                        left = True
                    else:
                        for s3, c in self.block(n.body, s2):
                            if c is None or c == ('cnt',):
                                nxt.append(s3)
                            elif c == ('brk',):
                                out.append((s3, ('nobrk',)))
                            else:
                                out.append((s3, c))
            cur = nxt
            if not cur:
                break
        if left:
            r = None
            try:
                r = self.inv_while(n, st)
            except Undecided as u:
                self.incomplete.append('loop at line %d: %s' % (n.lineno, u))
            if r is None:
                r = self.counted(n, st)
                if r is not None:
                    del self.incomplete[keep:]
                    out = []
            if r is None:
                self.incomplete.append('loop at line %d: no inductive invariant' % n.lineno)
            else:
                out.extend(r)
        res = []
        for s, c in out:
            if c is None and n.orelse:
                res.extend(self.block(n.orelse, s))
            elif c == ('nobrk',):
                res.append((s, None))
            else:
                res.append((s, c))
        return res

    def counted(self, n, st):
        """`while i < bound: body; i += step` as a loop over a range."""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r, op = r, l, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(l, ast.Name):
            return None
        inc = n.body[-1]
        if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == l.id):
            return None
        body = n.body[:-1]
        names = assigned(body)
        free = {x.id for e in (r, inc.value) for x in ast.walk(e) if isinstance(x, ast.Name)}
        if not body or l.id in names or free & names or any(isinstance(x, ast.Continue) for b in body for x in ast.walk(b)):
            return None
        i0 = st.frames[st.cur].get(l.id)
        if not isinstance(i0, Lin):
            return None
        loop = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(l.id, ast.Store()), n), iter=r, body=body, orelse=[], type_comment=None), n)
        more = 1 if isinstance(op, ast.LtE) else 0
        out = []
        for s, b in self.ev(r, st.copy()):
            if not isinstance(b, Lin):
                return None
            for s2, c in self.ev(inc.value, s):
                if not isinstance(c, Lin) or not s2.ge(c - 1):
                    return None
                p = ('rng', i0, b + more, c)
                for s3, some in fork_some(s2, p, plen(s2, p)):
                    if not some:
                        out.append((s3, None))
                        continue
                    res = self.for_summary(loop, s3.copy(), p, plen(s3, p))
                    if res is None:
                        return None
                    for s4, k in res:
                        if k is None:
                            for e, v in ((r, b), (inc.value, c)):
                                again = self.ev(e, s4.copy())
                                if len(again) != 1 or not isinstance(again[0][1], Lin) or not s4.eq(again[0][1], v):
                                    return None
                            h = fresh('h')
                            s4.a_ge(h - b - more)
                            s4.a_ge(b + more - 1 + c - h)
                            s4.frames[s4.cur][l.id] = h
                        elif k == ('brk',):
                            k = ('nobrk',)
                        out.append((s4, k))
        return out

    def candidates(self, st, hv, names):
        """Candidate affine loop invariants.  Each is (label, kind, f) with f a
        function from an assignment name->Lin to a Lin (>=0 or ==0)."""
        fr = st.frames[st.cur]
        ints = {nm: v for nm, (v, h) in hv.items() if isinstance(v, Lin)}
        others = {nm: v for nm, v in fr.items() if isinstance(v, Lin) and nm not in ints and not nm.startswith('$')}
        eps = [e for e in EPKEY]
        cands = []

        def add(kind, f):
            x = f(ints)
            if kind == 'ge' and st.ge(x) or kind == 'eq' and st.eq(x):
                cands.append((kind, f))
        uppers = list(others.values())
        for e in eps:
            uppers += [mkN(e), mkLEN(e)]
        uniq = []
        for u in uppers:
            if not u.is_const() and u not in uniq:
                uniq.append(u)
        uppers = uniq[:8]
        fe = {}
        for (e, v, s0) in self.firsts:
            fe.setdefault(e, []).append((v, s0))
        fx = self.order_terms(st)
        for w, v0 in ints.items():
            add('ge', lambda m, w=w: m[w])
            add('ge', lambda m, w=w, v0=v0: m[w] - v0)
            add('ge', lambda m, w=w, v0=v0: v0 - m[w])
            for u in uppers:
                add('ge', lambda m, w=w, u=u: u - 1 - m[w])
                add('ge', lambda m, w=w, u=u: u - m[w])
                add('ge', lambda m, w=w, u=u: m[w] - u)
            for w2, v2 in ints.items():
                if w2 < w:
                    add('eq', lambda m, w=w, w2=w2, d=v0 - v2: m[w] - m[w2] - d)
                if w2 != w:
                    add('ge', lambda m, w=w, w2=w2: m[w] - m[w2])
        for e in eps:
            def np(e, p):
                return mkG(e, p + 1) - mkG(e, p)
            names_p = list(ints) + list(others)

            def val(m, nm):
                return m[nm] if nm in m else others[nm]
            for p in names_p:
                p0 = val(ints, p)
                if not (st.ge(p0) and st.ge(mkN(e) - 1 - p0)):
                    continue
                for w in ints:
                    if w != p:
                        add('eq', lambda m, e=e, w=w, p=p: m[w] - np(e, val(m, p)))
                for i in ints:
                    if i == p:
                        continue
                    i0 = ints[i]
                    if not (st.ge(i0) and st.ge(np(e, p0) - 1 - i0)):
                        continue
                    cur = lambda m, e=e, p=p, i=i: mkG(e, val(m, p)) + m[i]
                    add('ge', lambda m, e=e, p=p, i=i: np(e, val(m, p)) - 1 - m[i])
                    c0 = cur(ints)
                    cands.extend(self.cursor_cands(st, e, cur, c0, ints, fe, fx))
            for c in ints:
                cands.extend(self.cursor_cands(st, e, lambda m, c=c: m[c], ints[c], ints, fe, fx, scalar=True))
        return cands

    def cursor_cands(self, st, e, cur, c0, ints, fe, fx, scalar=False):
        out = []

        def add(kind, f):
            x = f(ints)
            if kind == 'ge' and st.ge(x) or kind == 'eq' and st.eq(x):
                out.append((kind, f))
        if not scalar:
            add('ge', lambda m: cur(m) - c0)
        for x in fx.get(e, ()):
            pr = A('pos', e, 0, 'r', x)
            pl = A('pos', e, 0, 'l', x)
            add('ge', lambda m, pr=pr: pr - cur(m))
            add('ge', lambda m, pl=pl: pl - cur(m))
            add('ge', lambda m, pl=pl: cur(m) - pl)
            add('ge', lambda m, pl=pr: cur(m) - pl)
        for v, s0 in fe.get(e, ()):
            ff = A('first', e, v, s0 if s0 is not None else Lin(0))
            add('ge', lambda m, ff=ff: ff - cur(m))
            if s0 is None:
                for t in ints:
                    base = ints[t] - A('cnt', e, v, c0)
                    add('eq', lambda m, t=t, v=v, base=base: m[t] - A('cnt', e, v, cur(m)) - base)
        return out

    def order_terms(self, st):
        """Order terms occurring in the facts, per epoch."""
        out = {}

        def walk(a):
            if a[0] in ('bm', 'pos'):
                l = out.setdefault(a[1], [])
                if a[4] not in l:
                    l.append(a[4])
            for x in a[1:]:
                if isinstance(x, Lin):
                    for b in x.atoms():
                        walk(b)
        for e in st.facts.ges + st.facts.eqs:
            for a in e.atoms():
                walk(a)
        for fr in st.frames.values():
            for v in fr.values():
                if isinstance(v, Lin):
                    for a in v.atoms():
                        walk(a)
        return out

    def inv_while(self, n, st):
        names = assigned(n.body, [n.test])
        self.register_firsts(st)
        probe = st.copy()
        hv = self.havoc(probe, names)
        cands = self.candidates(st, hv, names)
        ints = {nm: h for nm, (v, h) in hv.items() if isinstance(v, Lin)}
        outer = self.probe
        rounds = 0
        full = False
        while True:
            rounds += 1
            if rounds > 8:
                return None
            g = probe.copy()
            ok = True
            for kind, f in cands:
                x = f(ints)
                if not (g.a_ge(x) if kind == 'ge' else g.a_eq(x)):
                    ok = False
            if not ok:
                return None
            heap0 = dict(g.heap)
            exits, ends = [], []
            # while the invariant is being found, blocks that leave the
            # function are skipped; the last round runs everything
            self.probe = outer if full else g.cur
            keep_inc = len(self.incomplete)
            try:
                for s, b in self.cond(n.test, g):
                    if isinstance(b, Exc):
                        exits.append((s, b))
                    elif not b:
                        exits.append((s, None))
                    else:
                        for s2, c in self.block(n.body, s):
                            if c is None or c == ('cnt',):
                                ends.append(s2)
                            elif c == ('brk',):
                                exits.append((s2, ('nobrk',)))
                            else:
                                exits.append((s2, c))
            finally:
                self.probe = outer
            if full:
                break
            keep = []
            for kind, f in cands:
                good = True
                for s in ends:
                    fr = s.frames[s.cur]
                    m = {nm: fr.get(nm) for nm in ints}
                    if any(not isinstance(x, Lin) for x in m.values()):
                        good = False
                        break
                    x = f(m)
                    if not (s.ge(x) if kind == 'ge' else self.eq_cong(s, x)):
                        good = False
                        break
                if good:
                    keep.append((kind, f))
            for s in ends:
                for r, o in heap0.items():
                    o2 = s.heap.get(r)
                    if o2 is not o and o2 != o and not (isinstance(o, ListO) and isinstance(o2, ListO) and self.benign_change(o, o2, s)):
                        return None
            if len(keep) == len(cands):
                full = True
            else:
                del self.incomplete[keep_inc:]
            cands = keep
        for s, c in exits:
            s.imprecise('loop invariant')
        return exits

    def eq_cong(self, st, x):
        """Equality modulo congruence of counting atoms."""
        if st.eq(x):
            return True
        cn = [a for a, _ in x.t if a[0] in ('cnt', 'first')]
        fams = {a[:3] for a in cn}
        for e in st.facts.eqs:
            for b in e.atoms():
                if b[0] == 'cnt' and b[:3] in fams and b not in cn:
                    cn.append(b)
        reps = []
        for a in cn:
            for b in reps:
                if a[:3] == b[:3] and st.eq(a[3], b[3]):
                    st.a_eq(Lin.atom(a) - Lin.atom(b))
                    break
            else:
                reps.append(a)
        return st.eq(x)

    def register_firsts(self, st):
        v = self.want_firstfrom
        if v is None:
            return
        fr = st.frames[st.cur]
        for nm, x in fr.items():
            if isinstance(x, Lin) and not nm.startswith('$') and any(a in v[2] for a in x.atoms()):
                if (v[0], v[1], x) not in self.firsts and len(self.firsts) < 8:
                    self.firsts.append((v[0], v[1], x))
        for (e, vv, s0) in self.firsts:
            if s0 is not None:
                self.first_axioms(st, e, vv, s0)

    want_firstfrom = None

    def first_axioms(self, st, e, v, s0):
        """Axioms of the first-match position."""
        x = ('key', v)
        pl, pr = A('pos', e, 0, 'l', x), A('pos', e, 0, 'r', x)
        if s0 is None:
            ff = A('first', e, v, Lin(0))
            ok = st.a_ge(ff - pl) and st.a_ge(pr - ff)
        else:
            ff = A('first', e, v, s0)
            ok = st.a_ge(ff - pl) and st.a_ge(ff - s0)
        return ok

    # ============================================================ index walks
    def tree_loop(self, n, st):
        """Loops along a leaf-to-root or root-to-leaf path of the index."""
        trees = []
        for r, o in st.heap.items():
            if isinstance(o, ListO) and len(o.seq) == 1 and o.seq[0][0] == 'tree':
                trees.append((Ref(r), o))
        if len(trees) != 1:
            return None
        ref, o = trees[0]
        shape, adds0 = o.seq[0][1], o.seq[0][2]
        off = ('off', shape)
        names = assigned(n.body, [n.test])
        fr = st.frames[st.cur]
        ints = {nm: fr[nm] for nm in names if isinstance(fr.get(nm), Lin)}
        up = [nm for nm, v in ints.items() if v.coef(off) == 1]
        if len(up) == 1:
            return self.walk_up(n, st, ref, shape, adds0, up[0], ints, names)
        if not up and not adds0:
            zeros = [nm for nm, v in ints.items() if v == ZERO]
            ones = [nm for nm, v in ints.items() if v == Lin(1)]
            return self.walk_down(n, st, ref, shape, ints, names)
        return None

    def walk_up(self, n, st, ref, shape, adds0, c, ints, names):
        c0 = ints[c]
        p = c0 - A('off', shape)
        g = st.copy()
        h = fresh('h')
        hv = {}
        gf = g.frames[g.cur]
        for nm in names:
            if nm == c:
                gf[nm] = h
            elif nm in ints:
                gf[nm] = hv[nm] = fresh('h')
            elif nm in gf:
                gf[nm] = Sym(('unk', 'loopvar', uid()))
        g.a_ge(h)
        g.a_ge(A('off', shape) + shapelen(shape) - 1 - h)
        g.put(ref, ListO((('tree', shape, ()),), 'list'))
        heap0 = dict(g.heap)
        steps = []     # (state, c', exits?)
        exits = []
        for s, b in self.cond(n.test, g):
            if isinstance(b, Exc):
                return None
            if not b:
                exits.append((s, 'test'))
                continue
            for s2, ctl in self.block(n.body, s):
                if ctl is None or ctl == ('cnt',):
                    steps.append(s2)
                elif ctl == ('brk',):
                    exits.append((s2, 'break'))
                else:
                    return None
        parent = shr(h - 1, 1)
        ok = True
        dX = dL = dR = ZERO
        totals = {}
        node_d = None
        par_d = None
        fork_steps = []
        for s in steps:
            for s2, even in fork_eq(s, h - shr(h, 1) * 2):
                fork_steps.append((s2, even))
        for s, even in fork_steps:
            f2 = s.frames[s.cur]
            cc = f2.get(c)
            if not isinstance(cc, Lin):
                return None
            if not s.ge(h - 1):
                # the walk continues from the root
                if not s.a_ge(h - 1):
                    ok = False
                    continue
                ok = False
            if not s.eq(cc, parent):
                ok = False
            for r, ob in heap0.items():
                if r != ref.i and s.heap.get(r) is not ob and s.heap.get(r) != ob:
                    return None
            nd = pd = ZERO
            for a in s.o(ref).seq[0][2]:
                if a[0] != 'one':
                    return None
                if s.eq(a[1], h):
                    nd = nd + a[2]
                elif s.eq(a[1], cc):
                    pd = pd + a[2]
                else:
                    ok = False
            if node_d is None:
                node_d, par_d = nd, pd
            elif (nd, pd) != (node_d, par_d):
                ok = False
            for nm in hv:
                v = f2.get(nm)
                if not isinstance(v, Lin):
                    return None
                d = v - hv[nm]
                if any(a in [x.t[0][0] for x in hv.values()] for a in d.atoms()):
                    return None
                totals.setdefault(nm, []).append((s, even, d))
        for s, how in exits:
            f2 = s.frames[s.cur]
            if not s.eq(f2.get(c) if isinstance(f2.get(c), Lin) else Lin(1), 0) and not s.eq(h, 0):
                ok = False
            rd = ZERO
            for a in s.o(ref).seq[0][2]:
                if how == 'break' and s.eq(a[1], ZERO) and s.eq(h, 0):
                    rd = rd + a[2]
                else:
                    ok = False
            dR = rd if how == 'break' else dR
            if how == 'break':
                for nm in hv:
                    if f2.get(nm) != hv[nm]:
                        return None
        if not exits:
            return None
        # the walk starts at leaf c0, which lies below the root
        res = st.copy()
        rf = res.frames[res.cur]
        if not ok:
            res.put(ref, ListO((('tree', shape, adds0 + (('bad', n.lineno),)),), 'list'))
            if node_d is None and par_d is None or (node_d == ZERO and par_d == ZERO):
                res.put(ref, ListO((('tree', shape, adds0),), 'list'))
            rf[c] = fresh('bad')
            for nm in hv:
                rf[nm] = fresh('bad')
            res.event('index-walk', n.lineno)
            return [(res, None)]
        adds = adds0
        if node_d != ZERO or dR != ZERO:
            adds = adds + (('walk', p, node_d, ZERO, dR),)
        if par_d is not None and par_d != ZERO:
            adds = adds + (('walk', p, par_d, -par_d, par_d),)
        res.put(ref, ListO((('tree', shape, adds),), 'list'))
        rf[c] = ZERO
        for nm, lst in totals.items():
            good = True
            zero = True
            for s, even, d in lst:
                want = A('node', shape, h - 1) if even else ZERO
                if d != ZERO:
                    zero = False
                if not s.eq(d, want):
                    good = False
                    if not (d.is_const() or len(d.t) == 1 and d.t[0][0][0] == 'node' and d.c == 0):
                        res.imprecise('index walk')
            if zero:
                continue
            if good:
                rf[nm] = ints[nm] + self.prefix(shape, p)
            else:
                rf[nm] = fresh('bad')
                res.event('index-walk', n.lineno)
        return [(res, None)]

    def prefix(self, shape, p):
        if len(shape) == 1 and shape[0][0] == 'n' and shape[0][2] == ZERO:
            return mkG(shape[0][1], p)
        return A('prefix', shape, p)

    def walk_down(self, n, st, ref, shape, ints, names):
        if not (len(shape) == 1 and shape[0][0] == 'n' and shape[0][2] == ZERO):
            return None
        e = shape[0][1]
        il = A('off', shape) + shapelen(shape)
        # node variable: 0 initially; child variable: 2*node+1
        best = None
        nodes = [nm for nm, v in ints.items() if v == ZERO]
        ones = [nm for nm, v in ints.items() if v == Lin(1)]
        idxs = [nm for nm, v in ints.items() if not v.is_const()]
        if len(idxs) != 1:
            return None
        r = idxs[0]
        for c in nodes + [None]:
            g = st.copy()
            gf = g.frames[g.cur]
            h = fresh('h')
            rr = fresh('h')
            for nm in names:
                if nm == c:
                    gf[nm] = h
                elif nm == r:
                    gf[nm] = rr
                elif nm in ones:
                    gf[nm] = h * 2 + 1
                elif nm in ints:
                    gf[nm] = fresh('h')
                elif nm in gf:
                    gf[nm] = Sym(('unk', 'loopvar', uid()))
            if c is None and not ones:
                continue
            g.a_ge(h)
            g.a_ge(rr)
            out = self.down_try(n, st, g, ref, shape, e, il, c, r, h, rr, ones, names, ints)
            if out is not None:
                return out
        return None

    def down_try(self, n, st, g, ref, shape, e, il, c, r, h, rr, ones, names, ints):
        exits, steps = [], []
        heap0 = dict(g.heap)
        for s, b in self.cond(n.test, g):
            if isinstance(b, Exc):
                return None
            if not b:
                exits.append(s)
                continue
            for s2, ctl in self.block(n.body, s):
                if ctl is None or ctl == ('cnt',):
                    steps.append(s2)
                elif ctl == ('brk',):
                    exits.append(s2)
                else:
                    return None
        if not steps or not exits:
            return None
        lc = h * 2 + 1
        nd = A('node', shape, lc)
        ok = True
        dirs = set()
        for s in exits:
            if not s.ge(lc - il):
                ok = False
        for s in steps:
            f = s.frames[s.cur]
            for q, ob in heap0.items():
                if s.heap.get(q) is not ob and s.heap.get(q) != ob:
                    return None
            if not s.ge(il - 1 - lc):
                ok = False
            if c is not None:
                cc = f.get(c)
            else:
                k = f.get(ones[0])
                if not isinstance(k, Lin):
                    return None
                cc = shr(k - 1, 1)
            ri = f.get(r)
            if not isinstance(cc, Lin) or not isinstance(ri, Lin):
                return None
            if s.eq(cc, lc):
                dirs.add('l')
                if not s.eq(ri, rr) or not s.ge(nd - 1 - rr):
                    ok = False
            elif s.eq(cc, lc + 1):
                dirs.add('r')
                if not s.eq(ri, rr - nd) or not s.ge(rr - nd):
                    ok = False
            else:
                ok = False
            for o1 in ones:
                if c is not None and not s.eq(f.get(o1), cc * 2 + 1):
                    if isinstance(f.get(o1), Lin):
                        # the child variable is recomputed inside the loop
                        ok = ok and False
                    else:
                        return None
        if dirs != {'l', 'r'}:
            ok = False
        i0 = ints[r]
        out = []
        for s, inr in self.fork_range(st.copy(), i0, mkLEN(e)):
            f = s.frames[s.cur]
            if ok and inr:
                pp = A('pp', e, i0)
                s.a_ge(pp)
                s.a_ge(mkN(e) - 1 - pp)
                s.a_ge(i0 - mkG(e, pp))
                s.a_ge(mkG(e, pp + 1) - 1 - i0)
                pos = A('off', shape) + pp
                if c is not None:
                    f[c] = pos
                for o1 in ones:
                    f[o1] = pos * 2 + 1
                f[r] = i0 - mkG(e, pp)
            else:
                if c is not None:
                    f[c] = fresh('bad')
                for o1 in ones:
                    f[o1] = fresh('bad')
                f[r] = fresh('bad')
                s.event('index-walk', n.lineno)
            for nm in names:
                if nm != c and nm != r and nm not in ones and nm in f:
                    f[nm] = Sym(('unk', 'loopvar', uid())) if nm not in ints else A('unk', 'loop', uid())
            out.append((s, None))
        return out

    def fork_range(self, st, i, n):
        out = []
        for s, a in fork_ge(st, i):
            if not a:
                out.append((s, False))
                continue
            for s2, b in fork_ge(s, n - 1 - i):
                out.append((s2, b))
        return out


def mentions(x, var):
    if isinstance(x, Lin):
        return any(mentions(a, var) for a, _ in x.t)
    if isinstance(x, tuple):
        if x == var:
            return True
        return any(mentions(y, var) for y in x)
    return False
