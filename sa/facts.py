"""Facts: path facts of the abstract interpreter (see lin.py)."""
from .lin import Lin, L, A, ONE, infeasible, entails, _tight


def mkG(e, p):
    """Number of content elements before sublist p (epoch e)."""
    p = L(p)
    if p == Lin(0):
        return Lin(0)
    return A('G', e, p)


def mkN(e):
    return A('N', e)


def mkLEN(e):
    return mkG(e, mkN(e))


LOAD = A('load')

# Reference switched by the driver: registered slice atoms -> axioms
#   ('sl', id, 'start'|'stop'|'step', LEN)


def _gatoms(e):
    out = []
    for a, _ in e.t:
        if a[0] == 'G':
            out.append(a)
    return out


_LEVEL1 = ('G', 'pos', 'bs')


def _level1(e):
    return any(a[0] in _LEVEL1 for a, _ in e.t)


_bcache = {}


class Facts:
    __slots__ = ('ges', 'eqs', 'nes', 'bools', '_cache', 'par', '_lev')

    def __init__(self, ges=(), eqs=(), nes=(), bools=()):
        self.ges = ges
        self.eqs = eqs
        self.nes = nes
        self.bools = bools          # tuple of (term, bool)
        self._cache = {}
        self.par = None
        self._lev = None

    # ---- construction
    def _re(self, ges=None, eqs=None, nes=None, bools=None):
        f = Facts(self.ges if ges is None else ges, self.eqs if eqs is None else eqs,
                  self.nes if nes is None else nes, self.bools if bools is None else bools)
        if ges is None and eqs is None:
            f._cache = self._cache
            f._lev = self._lev
        f.par = self if self._lev is not None else self.par
        return f

    def levels(self):
        """Sublist-level consequences of content-level facts: by monotonicity
        of G, G(p) < G(q) implies p < q.  Computed once per fact set."""
        if self._lev is not None:
            return self._lev
        got = self.par._lev if self.par is not None else ()
        self._lev = got
        ps = {}
        for c in self.ges + self.eqs:
            for a in c.atoms():
                if a[0] == 'G':
                    ps.setdefault(a[1], {})[a[2]] = 1
                elif a[0] == 'pos':
                    ps.setdefault(a[1], {})
        if not ps:
            return got
        lev = list(got)
        known = set(got)
        for ep, d in ps.items():
            d.setdefault(Lin(0), 1)
            d.setdefault(mkN(ep), 1)
            pl = list(d)
            if len(pl) > 7:
                pl = pl[-7:]
            todo = [(p, q) for p in pl for q in pl if p != q and not (q - p).is_const()]
            for rnd in (0, 1):
                ch = False
                base = ctx = None
                for p, q in todo:
                    e = _tight(q - p - 1)
                    if e in known:
                        continue
                    if base is None:
                        g = list(self.ges) + lev
                        g0 = [x for x in g if not _level1(x)]
                        e0 = [x for x in self.eqs if not _level1(x)]
                        base = (g0, e0)
                        ax_g, ax_e = self.axioms(g, self.eqs)
                        ctx = (g + ax_g, list(self.eqs) + ax_e)
                    if entails(base[0], base[1], e):
                        known.add(e)
                        continue        # already a sublist-level fact
                    if entails(ctx[0], ctx[1], mkG(ep, q) - mkG(ep, p) - 1):
                        lev.append(e)
                        known.add(e)
                        ch = True
                        base = None
                if not ch:
                    break
        self._lev = tuple(lev)
        if len(lev) > len(got):
            self._cache.clear()
        return self._lev

    def _settle(self):
        """Turn e != 0 into strict inequalities where a sign is known."""
        f = self
        changed = True
        while changed:
            changed = False
            for e in f.nes:
                if f.ge(e):
                    f = f._re(ges=f.ges + (_tight(e - 1),), nes=tuple(x for x in f.nes if x != e))
                    changed = True
                    break
                if f.ge(-e):
                    f = f._re(ges=f.ges + (_tight(-e - 1),), nes=tuple(x for x in f.nes if x != e))
                    changed = True
                    break
        return f

    def add_ge(self, e):
        e = _tight(L(e))
        if not e.t:
            return self if e.c >= 0 else None
        if e in self.ges:
            return self
        if self.ge(-e - 1):
            return None
        f = self._re(ges=self.ges + (e,))
        return f._settle() if f.nes else f

    def add_eq(self, e):
        e = L(e)
        if not e.t:
            return self if e.c == 0 else None
        if e in self.eqs or -e in self.eqs:
            return self
        if self.ne(e):
            return None
        f = self._re(eqs=self.eqs + (e,))
        return f._settle() if f.nes else f

    def add_ne(self, e):
        e = L(e)
        if not e.t:
            return self if e.c != 0 else None
        if self.eq(e):
            return None
        if e in self.nes or -e in self.nes:
            return self
        return self._re(nes=self.nes + (e,))._settle()

    def boolval(self, term):
        for t, v in self.bools:
            if t == term:
                return v
        return None

    def add_bool(self, term, val):
        v = self.boolval(term)
        if v is not None:
            return self if v == val else None
        return self._re(bools=self.bools + ((term, val),))

    # ---- queries
    def ge(self, e):
        """facts |= e >= 0 ?"""
        e = _tight(L(e))
        if not e.t:
            return e.c >= 0
        r = self._cache.get(e)
        if r is not None:
            return r
        for g in self.ges:
            if g.t == e.t and g.c <= e.c:
                self._cache[e] = True
                return True
        r = self._infeasible_with(-e - 1)
        self._cache[e] = r
        return r

    def eq(self, e):
        e = L(e)
        if not e.t:
            return e.c == 0
        if e in self.eqs or -e in self.eqs:
            return True
        return self.ge(e) and self.ge(-e)

    def ne(self, e):
        e = L(e)
        if not e.t:
            return e.c != 0
        if e in self.nes or -e in self.nes:
            return True
        return self.ge(e - 1) or self.ge(-e - 1)

    def consistent(self):
        r = self._cache.get('cons')
        if r is None:
            r = not self._infeasible_with(None)
            self._cache['cons'] = r
        return r

    def _infeasible_with(self, extra):
        ges = list(self.ges) + [e for e in self.levels()]
        eqs = list(self.eqs)
        if extra is not None:
            # relevance closure
            rel = set(extra.atoms())
            fam = lambda a: ('G', a[1]) if a[0] in ('G', 'pos', 'bs', 'N', 'bm') and len(a) > 1 else a
            relf = {fam(a) for a in rel}
            allc = ges + eqs
            pend = [(c, {fam(a) for a in c.atoms()}) for c in allc]
            # axioms connect: shr/parent/len atoms mention inner atoms
            keep = []
            changed = True
            while changed:
                changed = False
                rest = []
                for c, s in pend:
                    if s & relf:
                        relf |= s
                        for a in c.atoms():
                            relf |= {fam(b) for b in inner_atoms(a)}
                        keep.append(c)
                        changed = True
                    else:
                        rest.append((c, s))
                pend = rest
                for a in list(rel):
                    relf |= {fam(b) for b in inner_atoms(a)}
            kset = set(keep)
            ges = [c for c in ges if c in kset]
            eqs = [c for c in eqs if c in kset]
        if extra is not None:
            ges.append(extra)
        ax_g, ax_e = self.axioms(ges, eqs)
        return infeasible(ges + ax_g, eqs + ax_e)

    def axioms(self, ges, eqs):
        atoms = {}
        for e in list(ges) + list(eqs):
            for a in e.atoms():
                atoms[a] = 1
        todo = list(atoms)
        while todo:
            a = todo.pop()
            for b in inner_atoms(a):
                if b not in atoms:
                    atoms[b] = 1
                    todo.append(b)
        og, oe = [], []
        epochs = {}
        for a in atoms:
            if a[0] in ('N', 'G', 'bm', 'pos', 'bs') and len(a) > 1:
                epochs.setdefault(a[1], None)
        base = Facts(tuple(e for e in ges if not _level1(e)), tuple(e for e in eqs if not _level1(e)))
        level1 = any(a[0] in _LEVEL1 for a in atoms)
        for a in list(atoms):
            k = a[0]
            v = Lin.atom(a)
            if k == 'N' or k == 'len' or k == 'nat':
                og.append(v)
            elif k == 'load':
                og.append(v - 4)
            elif k == 'off':
                og.append(v)
            elif k == 'bm':
                og.append(v)
                og.append(mkN(a[1]) - v)
                if a[3] == 'l':
                    o = a[:3] + ('r',) + a[4:]
                    if o in atoms:
                        og.append(Lin.atom(o) - v)
            elif k == 'shr':
                m = 1 << a[2]
                og.append(a[1] - v * m)
                og.append(v * m + (m - 1) - a[1])
            elif k == 'floordiv':
                m = a[2]
                og.append(a[1] - v * m)
                og.append(v * m + (m - 1) - a[1])
            elif k == 'sl':
                og_sl(a, base, og)
        # complete base with level-0 axioms
        base = Facts(base.ges + tuple(e for e in og if not _level1(e)), base.eqs)
        if not level1:
            return og, oe

        for ep in epochs:
            for a in atoms:
                if a[0] == 'pos' and a[1] == ep:
                    bm = ('bm',) + a[1:]
                    if bm not in atoms:
                        p = Lin.atom(bm)
                        base = Facts(base.ges + (p, mkN(ep) - p), base.eqs)
        bk = (frozenset(base.ges), frozenset(base.eqs))
        cache = _bcache.get(bk)
        if cache is None:
            if len(_bcache) > 20000:
                _bcache.clear()
            cache = _bcache[bk] = {}

        def b_ge(e):
            if not e.i:
                return e.c >= 0
            r = cache.get(e)
            if r is None:
                r = cache[e] = entails(base.ges, base.eqs, e)
            return r

        for ep in epochs:
            ps = {}
            N = mkN(ep)
            for a in atoms:
                if a[0] == 'G' and a[1] == ep:
                    ps[a[2]] = 1
                elif a[0] == 'pos' and a[1] == ep:
                    bm = ('bm',) + a[1:]
                    p = Lin.atom(bm)
                    v = Lin.atom(a)
                    og.append(v)
                    og.append(mkLEN(ep) - v)
                    ps[N] = 1
                    og.append(p)
                    og.append(N - p)
                    if b_ge(N - 1 - p):
                        og.append(v - mkG(ep, p))
                        og.append(mkG(ep, p + 1) - 1 - v)
                        ps[p] = 1
                        ps[p + 1] = 1
                    elif b_ge(p - N):
                        oe.append(v - mkLEN(ep))
                    if a[3] == 'l':
                        o = a[:3] + ('r',) + a[4:]
                        if o in atoms:
                            og.append(Lin.atom(o) - v)
                elif a[0] == 'bs' and a[1] == ep:
                    p = a[4]
                    v = Lin.atom(a)
                    og.append(v)
                    ps[p] = 1
                    ps[p + 1] = 1
                    n = mkG(ep, p + 1) - mkG(ep, p)
                    og.append(n - v)
                    # strict when the sublist was chosen by a bisect of the maxes
                    if p.c == 0 and len(p.t) == 1 and p.t[0][1] == 1 and p.t[0][0][0] == 'bm':
                        bm = p.t[0][0]
                        if bm[4] == a[5] and (bm[3] == 'r' or a[3] == 'l') and b_ge(N - 1 - p):
                            og.append(n - 1 - v)
            ps.setdefault(Lin(0), 1)
            if len(ps) > 1:
                ps.setdefault(N, 1)
            pl = list(ps)
            inr = {}
            for p in pl:
                inr[p] = (b_ge(p), b_ge(N - p))
            n = len(pl)
            le = {}
            for i in range(n):
                for j in range(n):
                    if i == j:
                        continue
                    d = pl[j] - pl[i]
                    if d.c >= 0 if d.is_const() else b_ge(d):
                        le[i, j] = d
            for (i, j), d in le.items():
                p, q = pl[i], pl[j]
                gd = mkG(ep, q) - mkG(ep, p)
                if inr[p][0] and inr[q][1]:
                    if d == ONE and ('load',) in atoms:
                        og.append(LOAD * 2 - gd)
                    # steps through an intermediate position imply this one
                    if not any((i, r) in le and (r, j) in le and (r, i) not in le and (j, r) not in le for r in range(n)):
                        og.append(gd - d)
                else:
                    og.append(gd)
                if not d.is_const() and (j, i) in le:
                    oe.append(gd)
        return og, oe


def inner_atoms(a):
    """Atoms mentioned inside the arguments of an atom (index level only)."""
    k = a[0]
    out = []
    if k == 'G':
        out = list(a[2].atoms()) + [('N', a[1])]
    elif k == 'bs':
        out = list(a[4].atoms()) + [('N', a[1])]
    elif k in ('bm', 'pos'):
        out = [('N', a[1])]
        if k == 'pos':
            out.append(('bm',) + a[1:])
    elif k in ('shr', 'floordiv'):
        out = list(a[1].atoms())
    elif k == 'sl':
        out = list(a[3].atoms()) + [('sl', a[1], 'step', a[3]), ('sl', a[1], 'start', a[3]), ('sl', a[1], 'stop', a[3])]
    return out


def og_sl(a, base, og):
    """Axioms of slice.indices(length): ('sl', id, which, length)."""
    ln = a[3]
    step = A('sl', a[1], 'step', ln)
    v = Lin.atom(a)
    if a[2] == 'step':
        return
    og.append(v + 1)
    og.append(ln - v)
    if entails(base.ges, base.eqs, step - 1):
        og.append(v)
    elif entails(base.ges, base.eqs, -step - 1):
        og.append(ln - 1 - v)
