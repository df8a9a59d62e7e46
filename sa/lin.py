"""Affine forms over opaque integer atoms, and a small polyhedral domain.

`Lin` is an affine form  c + sum(coef * atom).  `Facts` is a conjunction of
constraints  e >= 0,  e == 0,  e != 0  plus truth values of opaque boolean
terms.  Entailment is decided by rational Fourier-Motzkin elimination with
integer tightening (the classical convex-polyhedra domain); structural axioms
about the sorted-list layout are instantiated for the atoms that occur.
"""
from math import gcd

_order = {}
_ATOMS = []


def _key(atom):
    k = _order.get(atom)
    if k is None:
        k = _order[atom] = len(_ATOMS)
        _ATOMS.append(atom)
    return k


def _addi(x, y, m=1):
    """Sum of two sparse rows sorted by atom id, y scaled by m."""
    if not x:
        return y if m == 1 else tuple([(a, k * m) for a, k in y])
    if not y:
        return x
    out = []
    i = j = 0
    nx, ny = len(x), len(y)
    ax, kx = x[0]
    ay, ky = y[0]
    while True:
        if ax < ay:
            out.append((ax, kx))
            i += 1
            if i == nx:
                break
            ax, kx = x[i]
        elif ax > ay:
            out.append((ay, ky * m))
            j += 1
            if j == ny:
                break
            ay, ky = y[j]
        else:
            k = kx + ky * m
            if k:
                out.append((ax, k))
            i += 1
            j += 1
            if i == nx or j == ny:
                break
            ax, kx = x[i]
            ay, ky = y[j]
    if i < nx:
        out.extend(x[i:])
    if j < ny:
        out.extend(y[j:] if m == 1 else [(a, k * m) for a, k in y[j:]])
    return tuple(out)


class Lin:
    """c + sum(coef * atom); rows hold interned atom ids, sorted."""
    __slots__ = ('c', 'i', '_h', '_t')

    def __init__(self, c=0, t=()):
        self.c = c
        if t:
            d = {}
            for a, k in t:
                a = _key(a)
                d[a] = d.get(a, 0) + k
            self.i = tuple(sorted([(a, k) for a, k in d.items() if k]))
        else:
            self.i = ()
        self._h = hash((c, self.i))
        self._t = None

    @staticmethod
    def row(c, i):
        e = _new(Lin)
        e.c = c
        e.i = i
        e._h = hash((c, i))
        e._t = None
        return e

    @property
    def t(self):
        t = self._t
        if t is None:
            t = self._t = tuple([(_ATOMS[a], k) for a, k in self.i])
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other or (other.__class__ is Lin and self.c == other.c and self.i == other.i)

    def __ne__(self, other):
        return not self == other

    @staticmethod
    def atom(a):
        return Lin.row(0, ((_key(a), 1),))

    def is_const(self):
        return not self.i

    def __add__(self, o):
        if o.__class__ is int:
            return Lin.row(self.c + o, self.i)
        return Lin.row(self.c + o.c, _addi(self.i, o.i))

    __radd__ = __add__

    def __neg__(self):
        return Lin.row(-self.c, tuple([(a, -k) for a, k in self.i]))

    def __sub__(self, o):
        if o.__class__ is int:
            return Lin.row(self.c - o, self.i)
        return Lin.row(self.c - o.c, _addi(self.i, o.i, -1))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return ZERO
        return Lin.row(self.c * k, tuple([(a, n * k) for a, n in self.i]))

    __rmul__ = __mul__

    def atoms(self):
        return [_ATOMS[a] for a, _ in self.i]

    def coef(self, atom):
        a = _order.get(atom)
        for b, k in self.i:
            if a == b:
                return k
        return 0

    def subst(self, atom, e):
        k = self.coef(atom)
        if not k:
            return self
        a = _order[atom]
        r = tuple([x for x in self.i if x[0] != a])
        return Lin.row(self.c + e.c * k, _addi(r, e.i, k))

    def __repr__(self):
        from .show import show
        return show(self)

    def __getstate__(self):
        return (self.c, self.t)

    def __setstate__(self, s):
        self.__init__(*s)


_new = Lin.__new__


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


def A(*parts):
    return Lin.atom(tuple(parts))


# ---------------------------------------------------------------- elimination

def _tight(e):
    """Integer-tighten e >= 0."""
    i = e.i
    if not i:
        return e
    g = 0
    for _, k in i:
        if k == 1 or k == -1:
            return e
        g = gcd(g, k)
    if g > 1:
        return Lin.row(e.c // g, tuple([(a, k // g) for a, k in i]))
    return e


CAP = 1500


def _sub(row, a, c, r):
    """Substitute atom id a := c + r in a row (rc, ri)."""
    rc, ri = row
    for b, k in ri:
        if b == a:
            return (rc + c * k, _addi(tuple([x for x in ri if x[0] != a]), r, k))
        if b > a:
            break
    return row


def infeasible(ges, eqs=()):
    """True if the conjunction has no (integer) solution that FM can refute."""
    return _infeasible([(e.c, e.i) for e in ges], [(e.c, e.i) for e in eqs])


def _infeasible(ges, work):
    # Gaussian elimination of equalities
    while work:
        c, i = work.pop()
        if not i:
            if c != 0:
                return True
            continue
        g = 0
        for _, k in i:
            g = gcd(g, k)
        if c % g:
            return True
        if g > 1:
            c, i = c // g, tuple([(a, k // g) for a, k in i])
        piv = None
        for a, k in i:
            if k == 1 or k == -1:
                piv = a
                break
        if piv is None:
            ges.append((c, i))
            ges.append((-c, tuple([(a, -k) for a, k in i])))
            continue
        if k == 1:
            c = -c
            r = tuple([(b, -n) for b, n in i if b != piv])
        else:
            r = tuple([x for x in i if x[0] != piv])
        work = [_sub(w, piv, c, r) for w in work]
        ges = [_sub(w, piv, c, r) for w in ges]
    cons = {}
    for c, i in ges:
        if not i:
            if c < 0:
                return True
            continue
        g = 0
        for _, k in i:
            g = gcd(g, k)
            if g == 1:
                break
        if g > 1:
            c //= g
            i = tuple([(a, k // g) for a, k in i])
        o = cons.get(i)
        if o is None or c < o:
            cons[i] = c
    while cons:
        # choose the cheapest atom
        up, dn = {}, {}
        for t in cons:
            for a, k in t:
                if k > 0:
                    up[a] = up.get(a, 0) + 1
                else:
                    dn[a] = dn.get(a, 0) + 1
        # atoms of one sign only never take part in a refutation
        drop = (up.keys() - dn.keys()) | (dn.keys() - up.keys())
        if drop:
            cons = {t: c for t, c in cons.items() if not any([a in drop for a, _ in t])}
            continue
        bc = None
        for a, p in up.items():
            n = dn[a]
            cost = p * n - p - n
            if bc is None or cost < bc:
                bc, best = cost, a
        a = best
        pos, neg, rest = [], [], {}
        for t, c in cons.items():
            for b, m in t:
                if b == a:
                    if m > 0:
                        pos.append((c, t, m))
                    else:
                        neg.append((c, t, -m))
                    break
            else:
                rest[t] = c
        if len(pos) * len(neg) + len(rest) > CAP:
            return False
        cons = rest
        for c1, t1, k1 in pos:
            for c2, t2, k2 in neg:
                if k1 == 1 or k2 == 1:
                    if k2 == 1:
                        c = c1 + c2 * k1
                        t = _addi(t1, t2, k1)
                    else:
                        c = c2 + c1 * k2
                        t = _addi(t2, t1, k2)
                else:
                    c = c1 * k2 + c2 * k1
                    t = _addi(tuple([(b, m * k2) for b, m in t1]), t2, k1)
                if not t:
                    if c < 0:
                        return True
                    continue
                g = 0
                for _, k in t:
                    g = gcd(g, k)
                    if g == 1:
                        break
                if g > 1:
                    c //= g
                    t = tuple([(b, m // g) for b, m in t])
                o = cons.get(t)
                if o is None or c < o:
                    cons[t] = c
    return False


_memo = {}


def entails(ges, eqs, e):
    """ges, eqs |= e >= 0, using only the constraints connected to e."""
    neg = _tight(-e - 1)
    if not neg.i:
        return neg.c < 0
    rel = {a for a, _ in neg.i}
    pend = ges
    pende = eqs
    kg, ke = [], []
    ch = True
    while ch:
        ch = False
        rest = []
        for c in pend:
            for a, _ in c.i:
                if a in rel:
                    for b, _ in c.i:
                        rel.add(b)
                    kg.append(c)
                    ch = True
                    break
            else:
                rest.append(c)
        pend = rest
        rest = []
        for c in pende:
            for a, _ in c.i:
                if a in rel:
                    for b, _ in c.i:
                        rel.add(b)
                    ke.append(c)
                    ch = True
                    break
            else:
                rest.append(c)
        pende = rest
    key = (frozenset(kg), frozenset(ke), neg)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 400000:
            _memo.clear()
        r = _memo[key] = infeasible(kg + [neg], ke)
    return r
