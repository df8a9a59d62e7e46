"""Abstract values, abstract heap objects, abstract states, sequence domain."""
from collections import namedtuple
from .lin import Lin, L, A, ZERO
from .facts import Facts, mkG, mkN, mkLEN, LOAD, _level1

# ------------------------------------------------------------------ values

C = namedtuple('C', 'v')                 # constant None/bool/str/...
Ref = namedtuple('Ref', 'i')             # heap reference
Fn = namedtuple('Fn', 'node fid owner mod name')   # function of the program
BM = namedtuple('BM', 'fn self')         # bound method of the program
Bi = namedtuple('Bi', 'name')            # external callable / class
BB = namedtuple('BB', 'self name')       # bound external method
Cls = namedtuple('Cls', 'name mod')      # class of the program
Tup = namedtuple('Tup', 'items')
Slice = namedtuple('Slice', 'a b c')
Exc = namedtuple('Exc', 'kind val')      # raised exception
ExcV = namedtuple('ExcV', 'kind args')   # exception instance (not raised)
Sub = namedtuple('Sub', 'seq tag')       # read-only view of a generic sublist
Part = namedtuple('Part', 'fn args kw')  # functools.partial / attrgetter ...
Sym = namedtuple('Sym', 't')             # opaque symbolic value, t: tuple term


def is_term(v):
    return isinstance(v, Sym)


Dyn = namedtuple('Dyn', 'name mod')
SuperV = namedtuple('SuperV', 'cls self rt')


def tm(v):
    return v.t if isinstance(v, Sym) else ('val', v)


def shr(a, k):
    """a >> k with the constant part normalised."""
    if k == 0:
        return a
    m = 1 << k
    if a.is_const():
        return Lin(a.c >> k)
    # pull out multiples of 2^k
    hi, lo = [], []
    for at_, co in a.t:
        q, r = divmod(co, m)
        if r == 0:
            hi.append((at_, q))
        else:
            lo.append((at_, co))
    if not lo:
        cq, cr = divmod(a.c, m)
        return Lin(cq, tuple(hi))
    cq, cr = divmod(a.c, m)
    inner = Lin(cr, tuple(lo))
    base = Lin.atom(('shr', inner, k))
    return base + Lin(cq, tuple(hi))


def is_tree(seq):
    return len(seq) == 1 and seq[0][0] in ('tree', 'iv')


TRUE, FALSE, NONE = C(True), C(False), C(None)
NOTIMPL = C(NotImplemented)


def B(x):
    return TRUE if x else FALSE


class Undecided(Exception):
    """The abstract semantics does not cover a construct on this path."""


_n = [9]


def fresh(kind='f'):
    _n[0] += 1
    return A(kind, _n[0])


def uid():
    _n[0] += 1
    return _n[0]


def reset_ids():
    _n[0] = 9


# ------------------------------------------------------------------ heap

ListO = namedtuple('ListO', 'seq kind')      # kind: 'list' | 'tuple'
ItO = namedtuple('ItO', 'seq src')           # iterator with remaining contents
ObjO = namedtuple('ObjO', 'cls fields')      # instance of a program class
SetO = namedtuple('SetO', 'term kind')       # python set
DictO = namedtuple('DictO', 'keys layers')   # python dict (or dict part)
SLO = namedtuple('SLO', 'cls key seq st')    # sorted list by contract


class St:
    __slots__ = ('heap', 'frames', 'cur', 'facts', 'approx', 'trace', 'ev', 'defs', 'depth', 'self', 'assumed')

    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.cur = None
        self.facts = Facts()
        self.approx = None
        self.trace = ()
        self.ev = ()          # events (effects, notes)
        self.defs = {}        # epoch -> content definition (seq)
        self.depth = 0
        self.self = None
        self.assumed = ()

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur = self.cur
        s.facts = self.facts
        s.approx = self.approx
        s.trace = self.trace
        s.ev = self.ev
        s.defs = dict(self.defs)
        s.depth = self.depth
        s.self = self.self
        s.assumed = self.assumed
        return s

    # facts ------------------------------------------------------------
    def ge(self, e):
        return self.facts.ge(e)

    def eq(self, a, b=0):
        a = L(a) - L(b)
        return self.facts.eq(a)

    def a_ge(self, e):
        f = self.facts.add_ge(e)
        if f is None:
            return False
        self.facts = f
        return True

    def a_eq(self, e):
        f = self.facts.add_eq(e)
        if f is None:
            return False
        self.facts = f
        return True

    def a_ne(self, e):
        f = self.facts.add_ne(e)
        if f is None:
            return False
        self.facts = f
        return True

    def a_bool(self, t, v):
        f = self.facts.add_bool(t, v)
        if f is None:
            return False
        self.facts = f
        return True

    def imprecise(self, why):
        if not self.approx:
            self.approx = why
        return self

    def event(self, *e):
        if e not in self.ev:
            self.ev = self.ev + (e,)

    # heap -------------------------------------------------------------
    def new(self, obj):
        i = uid()
        self.heap[i] = obj
        return Ref(i)

    def o(self, ref):
        return self.heap.get(ref.i)

    def put(self, ref, obj):
        self.heap[ref.i] = obj

    def field(self, ref, name):
        return self.heap[ref.i].fields.get(name)

    def setfield(self, ref, name, v):
        o = self.heap[ref.i]
        d = dict(o.fields)
        d[name] = v
        self.heap[ref.i] = ObjO(o.cls, d)

    def var(self, name, v):
        self.frames[self.cur][name] = v


def fork_ge(st, e):
    """Split a state on e >= 0: list of (state, bool)."""
    e = L(e)
    if st.facts.ge(e):
        return [(st, True)]
    if st.facts.ge(-e - 1):
        return [(st, False)]
    t = st.copy()
    out = []
    if t.a_ge(e):
        out.append((close_eq(t, e), True))
    if st.a_ge(-e - 1):
        out.append((close_eq(st, -e - 1), False))
    return out


def close_eq(st, e):
    """Two inequalities that meet say an equality between positions."""
    if any(a[0] == 'N' for a in e.atoms()) and len(e.t) > 2 and not _level1(e) and st.facts.ge(-e):
        st.a_eq(e)
    return st


def fork_eq(st, e):
    e = L(e)
    if st.facts.eq(e):
        return [(st, True)]
    if st.facts.ne(e):
        return [(st, False)]
    t = st.copy()
    out = []
    if t.a_eq(e):
        out.append((t, True))
    if st.a_ne(e):
        out.append((st, False))
    return out


def fork_bool(st, term):
    v = st.facts.boolval(term)
    if v is not None:
        return [(st, v)]
    t = st.copy()
    t.a_bool(term, True)
    st.a_bool(term, False)
    return [(t, True), (st, False)]


# ------------------------------------------------------------------ pieces
#
#  ('c', value)                        one value
#  ('v', e, lo, hi, f, d)              contents lo..hi of epoch e  (f: 'v'|'k'; d: 1|-1)
#  ('m', e, plo, phi, d)               last key of sublists plo..phi
#  ('n', e, plo, phi, d)               lengths of sublists plo..phi
#  ('L', e, plo, phi, f, d, i)         sublists plo..phi (i: inner direction)
#  ('rng', start, stop, step)          range of integers (step constant or symbolic)
#  ('o', term, k)                      contents of a foreign iterable
#  ('sorted', seq, key, rev)           stable sort
#  ('rep', seq, n)                     repetition
#  ('stp', e, start, stop, step, f)    contents at range(start, stop, step)
#  ('chunks', seq, size) ('clast', seq, size) ('clen', seq, size)
#  ('map', var, value, piece)          elementwise image
#  ('K', piece)                        keys of the values of piece
#  ('cut', piece, lo, hi) ('rev', piece)
#  ('minus', e, start, stop, step)     contents except positions in the range
#  ('delseq', e, rng piece)            successive deletions (unordered)
#  ('perm', setterm) ('srt', setterm, key)
#  ('tree', shape, adds) ('iv', shape) positional index

def V(e, lo, hi, f='v', d=1):
    return ('v', e, L(lo), L(hi), f, d)


def at(e, i, f='v'):
    t = ('at', e, L(i))
    return Sym(t) if f == 'v' else Sym(('key', t))


def plen(st, p):
    k = p[0]
    if k == 'c':
        return Lin(1)
    if k in ('v', 'm', 'n', 'L'):
        return p[3] - p[2]
    if k == 'rng':
        if p[3] == Lin(1):
            return p[2] - p[1]
        if p[3] == Lin(-1):
            return p[1] - p[2]
        if p[1].is_const() and p[2].is_const() and p[3].is_const() and p[3].c:
            return Lin(len(range(p[1].c, p[2].c, p[3].c)))
        return A('len', ('rng',) + p[1:])
    if k == 'sorted':
        return seqlen(st, p[1])
    if k in ('K', 'rev'):
        return plen(st, p[1])
    if k == 'map':
        return plen(st, p[3])
    if k == 'cut':
        return p[3] - p[2]
    if k == 'rep':
        n = seqlen(st, p[1])
        if p[2].is_const():
            return n * max(0, p[2].c)
        return A('len', p)
    if k in ('chunks', 'clast', 'clen'):
        return A('len', ('chunks', unK(p[1]), p[2]))
    if k in ('tree', 'iv'):
        return A('off', p[1]) + shapelen(p[1])
    if k == 'minus':
        return mkLEN(p[1]) - A('len', ('rng',) + p[2:])
    if k in ('perm', 'srt'):
        if p[1] == ('empty',):
            return ZERO
        return A('len', ('set', p[1]))
    if k == 'sl':
        n = ZERO
        for sg, t in p[3]:
            n = n + (Lin(1) if t[0] == 'one' else A('len', t) if t[0] in ('bag', 'bagf') else A('len', ('set', t))) * sg
        return n
    if k == 'repv':
        return p[2]
    if k == 'zip':
        return plen(st, p[1][0])
    if k == 'cutc':
        return A('nat', p) + 1
    if k == 'slc':
        return p[3] - p[2] if st.ge(seqlen(st, p[1]) - p[3]) else A('len', p)
    return A('len', p)


def unK(seq):
    out = []
    for p in seq:
        if p[0] == 'K':
            out.append(p[1])
        elif p[0] == 'v':
            out.append(p[:4] + ('v',) + p[5:])
        elif p[0] == 'c' and isinstance(p[1], Sym) and p[1].t[0] == 'key':
            out.append(('c', Sym(p[1].t[1])))
        else:
            out.append(p)
    return tuple(out)


def seqlen(st, seq):
    n = ZERO
    for p in seq:
        n = n + plen(st, p)
    return n


def shapelen(shape):
    n = ZERO
    for p in shape:
        n = n + (Lin(1) if p[0] == 'c' else p[3] - p[2])
    return n


def psplit(st, p, k):
    """First k elements and the rest of a piece."""
    k = L(k)
    t = p[0]
    if t == 'v':
        if p[5] > 0:
            return V(p[1], p[2], p[2] + k, p[4], 1), V(p[1], p[2] + k, p[3], p[4], 1)
        return V(p[1], p[3] - k, p[3], p[4], -1), V(p[1], p[2], p[3] - k, p[4], -1)
    if t in ('m', 'n'):
        if p[4] > 0:
            return (t, p[1], p[2], p[2] + k, 1), (t, p[1], p[2] + k, p[3], 1)
        return (t, p[1], p[3] - k, p[3], -1), (t, p[1], p[2], p[3] - k, -1)
    if t == 'L':
        if p[5] > 0:
            return p[:3] + (p[2] + k,) + p[4:], p[:2] + (p[2] + k,) + p[3:]
        return p[:2] + (p[3] - k,) + p[3:], p[:3] + (p[3] - k,) + p[4:]
    if t == 'rng' and p[3].is_const():
        m = p[1] + k * p[3].c
        return ('rng', p[1], m, p[3]), ('rng', m, p[2], p[3])
    if t == 'cut':
        return ('cut', p[1], p[2], p[2] + k), ('cut', p[1], p[2] + k, p[3])
    if t == 'K':
        a, b = psplit(st, p[1], k)
        return ('K', a), ('K', b)
    if t == 'zip':
        a, b = zip(*[psplit(st, q, k) for q in p[1]])
        return ('zip', tuple(a)), ('zip', tuple(b))
    if t == 'repv':
        return ('repv', p[1], k), ('repv', p[1], p[2] - k)
    n = plen(st, p)
    return ('cut', p, ZERO, k), ('cut', p, k, n)


def pelem(st, p, k):
    """Value of element k of a piece (k in bounds)."""
    k = L(k)
    t = p[0]
    if t == 'c':
        return p[1]
    if t == 'v':
        return at(p[1], p[2] + k if p[5] > 0 else p[3] - 1 - k, p[4])
    if t == 'm':
        q = p[2] + k if p[4] > 0 else p[3] - 1 - k
        return Sym(('mx', p[1], q))
    if t == 'n':
        q = p[2] + k if p[4] > 0 else p[3] - 1 - k
        return mkG(p[1], q + 1) - mkG(p[1], q)
    if t == 'L':
        q = p[2] + k if p[5] > 0 else p[3] - 1 - k
        return Sub((V(p[1], mkG(p[1], q), mkG(p[1], q + 1), p[4], p[6]),), ('sub', p[1], q, p[4], p[6]))
    if t == 'rng':
        if p[3].is_const():
            return p[1] + k * p[3].c
        if k.is_const():
            return p[1] + p[3] * k.c
        return A('rngel', p, k)
    if t == 'cut':
        return pelem(st, p[1], p[2] + k)
    if t == 'rev':
        return pelem(st, p[1], plen(st, p[1]) - 1 - k)
    if t == 'K':
        v = pelem(st, p[1], k)
        return Sym(('key', v.t)) if isinstance(v, Sym) else Sym(('key', ('val', v)))
    if t == 'repv':
        return p[1]
    if t == 'zip':
        return Tup(tuple(pelem(st, q, k) for q in p[1]))
    if t == 'o':
        return Sym(('item', p[1], k))
    return Sym(('el', p, k))


# ---------------------------------------------------------------- seq level

def split_at(st, seq, i):
    """Split at position i (0 <= i <= len).  list of (state, left, right)."""
    i = L(i)
    out = []
    work = [(st, 0, i)]
    while work:
        s, n, r = work.pop()
        if s.eq(r):
            out.append((s, tuple(seq[:n]), tuple(seq[n:])))
            continue
        if n >= len(seq):
            out.append((s, tuple(seq), ()))
            continue
        p = seq[n]
        ln = plen(s, p)
        for s2, ge in fork_ge(s, r - ln):
            if ge:
                work.append((s2, n + 1, r - ln))
            else:
                for s3, z in fork_ge(s2, r - 1):
                    if not z:
                        out.append((s3, tuple(seq[:n]), tuple(seq[n:])))
                    else:
                        a, b = psplit(s3, p, r)
                        out.append((s3, tuple(seq[:n]) + (a,), (b,) + tuple(seq[n + 1:])))
    return out


def locate(st, seq, i):
    """Piece holding position i (0 <= i < len): list of (state, n, offset)."""
    i = L(i)
    out = []
    work = [(st, 0, i)]
    while work:
        s, n, r = work.pop()
        if n >= len(seq):
            continue        # infeasible: i < len
        ln = plen(s, seq[n])
        if n == len(seq) - 1:
            # assumed in bounds
            s2 = s
            if s2.a_ge(ln - r - 1):
                out.append((s2, n, r))
            continue
        for s2, ge in fork_ge(s, r - ln):
            if ge:
                work.append((s2, n + 1, r - ln))
            else:
                out.append((s2, n, r))
    return out


def subseq(st, seq, a, b):
    """Elements a..b (0 <= a <= b <= len): list of (state, seq)."""
    out = []
    for s, l, r in split_at(st, seq, a):
        for s2, l2, r2 in split_at(s, r, L(b) - L(a)):
            out.append((s2, l2))
    return out


def rev_seq(seq):
    out = []
    for p in reversed(seq):
        t = p[0]
        if t == 'c':
            out.append(p)
        elif t == 'v':
            out.append(p[:5] + (-p[5],))
        elif t in ('m', 'n'):
            out.append(p[:4] + (-p[4],))
        elif t == 'L':
            out.append(p[:5] + (-p[5], p[6]))
        elif t == 'rng' and p[3].is_const() and abs(p[3].c) == 1:
            c = p[3].c
            out.append(('rng', p[2] - c, p[1] - c, Lin(-c)))
        elif t == 'rev':
            out.append(p[1])
        elif t == 'map':
            q = rev_seq((p[3],))
            out.append(('map', p[1], p[2], q[0]))
        else:
            out.append(('rev', p))
    return tuple(out)


def norm(st, seq):
    """Canonical form of a flat sequence under the facts of st."""
    out = []
    for p in seq:
        if p[0] == 'v' and p[1] in st.defs and p[5] == 1 and p[2] == ZERO and st.eq(p[3], mkLEN(p[1])):
            q = st.defs[p[1]]
            q = mapkey(q) if p[4] == 'k' else q
            out.extend(norm(st, q))
            continue
        if p[0] == 'v' and p[1] in st.defs and p[5] == -1 and p[2] == ZERO and st.eq(p[3], mkLEN(p[1])):
            q = st.defs[p[1]]
            q = mapkey(q) if p[4] == 'k' else q
            out.extend(norm(st, rev_seq(q)))
            continue
        if p[0] == 'c' and isinstance(p[1], Sym) and p[1].t[0] == 'mx':
            e, q = p[1].t[1], p[1].t[2]
            p = V(e, mkG(e, q + 1) - 1, mkG(e, q + 1), 'm')
        elif p[0] == 'c' and isinstance(p[1], Sym) and p[1].t[0] == 'at':
            p = V(p[1].t[1], p[1].t[2], p[1].t[2] + 1)
        elif p[0] == 'c' and isinstance(p[1], Sym) and p[1].t[0] == 'key' and p[1].t[1][0] == 'at':
            q = p[1].t[1]
            p = V(q[1], q[2], q[2] + 1, 'k')
        elif p[0] == 'sorted':
            q = norm_sorted(st, p)
            if len(q) == 1:
                p = q[0]
            else:
                out.extend(norm(st, q))
                continue
        elif p[0] == 'minus' and st.eq(p[4], 1) and st.ge(p[3] - p[2]):
            out.extend(norm(st, (V(p[1], ZERO, p[2]), V(p[1], p[3], mkLEN(p[1])))))
            continue
        elif p[0] == 'minus' and st.eq(p[4], -1) and st.ge(p[2] - p[3]):
            out.extend(norm(st, (V(p[1], ZERO, p[3] + 1), V(p[1], p[2] + 1, mkLEN(p[1])))))
            continue
        elif p[0] == 'stp' and p[4].is_const() and p[4].c == 1:
            p = V(p[1], p[2], p[3], p[5])
        elif p[0] == 'stp' and st.eq(p[4], 1):
            p = V(p[1], p[2], p[3], p[5])
        elif p[0] == 'stp' and st.eq(p[4], -1):
            p = V(p[1], p[3] + 1, p[2] + 1, p[5], -1)
        if p[0] in ('v', 'm', 'n', 'L', 'rng', 'o', 'K', 'cut', 'rev') and st.ge(-plen(st, p)):
            continue
        if p[0] == 'o' and p[2] == 0 and st.eq(plen(st, p), 1):
            p = ('c', Sym(('item', p[1], ZERO)))
        if p[0] in ('perm', 'srt') and p[1] == ('empty',):
            continue
        if p[0] == 'rep':
            inner = norm(st, p[1])
            if not inner:
                continue
            if st.eq(p[2], 1):
                out.extend(inner)
                continue
            if st.ge(-p[2]):
                continue
            p = ('rep', inner, p[2])
        if p[0] == 'v' and p[3] == p[2] + 1 and p[5] == -1:
            p = p[:5] + (1,)
        if out and out[-1][0] == p[0]:
            q = out[-1]
            m = None
            if p[0] == 'v' and q[1] == p[1] and q[4] == p[4]:
                if q[5] == p[5] == 1 and st.eq(q[3], p[2]):
                    m = V(p[1], q[2], p[3], p[4], 1)
                elif q[5] == p[5] == -1 and st.eq(q[2], p[3]):
                    m = V(p[1], p[2], q[3], p[4], -1)
                elif q[3] == q[2] + 1 and p[5] == -1 and st.eq(p[3], q[2]):
                    m = V(p[1], p[2], q[3], p[4], -1)
                elif p[3] == p[2] + 1 and q[5] == -1 and st.eq(p[3], q[2]):
                    m = V(p[1], p[2], q[3], p[4], -1)
            elif p[0] in ('m', 'n') and q[1] == p[1] and q[4] == p[4] == 1 and st.eq(q[3], p[2]):
                m = (p[0], p[1], q[2], p[3], 1)
            elif p[0] == 'L' and q[1] == p[1] and q[4:] == p[4:] and p[5] == 1 and st.eq(q[3], p[2]):
                m = q[:3] + (p[3],) + q[4:]
            elif p[0] == 'L' and q[1] == p[1] and q[4:] == p[4:] and p[5] == -1 and st.eq(q[2], p[3]):
                m = q[:2] + (p[2],) + q[3:]
            elif p[0] == 'rng' and q[3] == p[3] and st.eq(q[2], p[1]):
                m = ('rng', q[1], p[2], p[3])
            elif p[0] == 'cut' and q[1] == p[1] and st.eq(q[3], p[2]):
                m = ('cut', p[1], q[2], p[3])
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    res = []
    for p in out:
        if p[0] == 'cut' and st.eq(p[2]) and st.eq(p[3], plen(st, p[1])):
            p = p[1]
        res.append(p)
    if st.defs and any(p[0] == 'v' and p[1] in st.defs and p[2] == ZERO and st.eq(p[3], mkLEN(p[1])) for p in res):
        return norm(st, res)
    return tuple(res)


def norm_sorted(st, p):
    """Stable sort normal form."""
    _, seq, key, rev = p
    flat = []
    for q in norm(st, seq):
        if q[0] == 'sorted' and q[2] == key and q[3] == rev:
            flat.extend(q[1])
        else:
            flat.append(q)
    flat = list(norm(st, flat))
    if not flat:
        return ()
    if len(flat) == 1 and flat[0][0] == 'c':
        return tuple(flat)
    if not rev and len(flat) == 2 and flat[0][0] == 'v' and flat[1][0] == 'c' and isinstance(flat[1][1], Sym) and flat[1][1].t[0] == 'item':
        # one value sorted into the whole content: behind its equals
        v, x = flat[0], flat[1][1].t
        if v[5] == 1 and v[4] == 'v' and v[2] == ZERO and st.eq(v[3], mkLEN(v[1])) and key_ok(st, v[1], key):
            pr = A('pos', v[1], 0, 'r', x if key == NONE else ('key', x))
            st.a_ge(pr)
            st.a_ge(mkLEN(v[1]) - pr)
            return (V(v[1], ZERO, pr), flat[1], V(v[1], pr, mkLEN(v[1])))
    if not rev:
        mono = True
        prev = None
        for q in flat:
            if q[0] != 'v' or q[5] != 1 or q[4] != 'v' or not key_ok(st, q[1], key):
                mono = False
                break
            if prev is not None and (prev[1] != q[1] or not st.ge(q[2] - prev[3])):
                mono = False
                break
            prev = q
        if mono:
            return tuple(flat)
        if len(flat) == 1 and flat[0][0] == 'srt' and flat[0][2] == key:
            return tuple(flat)
        if len(flat) == 1 and flat[0][0] == 'perm':
            return (('srt', flat[0][1], key),)
    return (('sorted', tuple(flat), key, rev),)


EPKEY = {}     # epoch -> key value under which it is ordered


def key_ok(st, e, key):
    return EPKEY.get(e, NONE) == key


def mapkey(seq):
    out = []
    for p in seq:
        if p[0] == 'v' and p[4] == 'v':
            out.append(p[:4] + ('k',) + p[5:])
        elif p[0] == 'stp' and p[5] == 'v':
            out.append(p[:5] + ('k',))
        elif p[0] == 'c' and isinstance(p[1], Sym):
            out.append(('c', Sym(('key', p[1].t))))
        elif p[0] == 'L' and p[4] == 'v':
            out.append(p[:4] + ('k',) + p[5:])
        else:
            out.append(('K', p))
    return tuple(out)


def seq_cmp(st, a, b, budget=40):
    """Compare two flat sequences.

    Returns (verdict, state): 'eq' when equal under all refinements of the
    facts, 'ne' with a refined state in which they differ, None if unknown."""
    work = [(st.copy(), a, b)]
    n = 0
    while work:
        n += 1
        if n > budget:
            return None, st
        s, x, y = work.pop()
        x, y = norm(s, x), norm(s, y)
        i = 0
        while i < len(x) and i < len(y) and x[i] == y[i]:
            i += 1
        x, y = x[i:], y[i:]
        if not x and not y:
            continue
        if not x or not y:
            r = x or y
            p = r[0]
            ln = plen(s, p)
            # might be empty
            forks = fork_ge(s, ln - 1)
            bad = [f for f in forks if f[1]]
            if bad:
                if has_unknown(r):
                    return None, bad[0][0]
                return 'ne', bad[0][0]
            for f, _ in forks:
                f.a_eq(ln)
                work.append((f, x[1:] if x else x, y[1:] if y else y))
            continue
        p, q = x[0], y[0]
        if has_unknown(p) or has_unknown(q):
            return None, s
        # empty-able heads
        done = False
        for which, r in ((0, p), (1, q)):
            ln = plen(s, r)
            if not s.ge(ln - 1) and r[0] != 'c':
                for f, nz in fork_ge(s, ln - 1):
                    if nz:
                        work.append((f, x, y))
                    else:
                        work.append((f, x[1:] if which == 0 else x, y[1:] if which == 1 else y))
                done = True
                break
        if done:
            continue
        if p[0] == q[0] == 'v' and p[1] == q[1] and (p[4] == q[4]) and (p[5] == q[5] or p[3] == p[2] + 1 or q[3] == q[2] + 1):
            d = q[5] if p[3] == p[2] + 1 else p[5]
            pa, qa = (p[2], q[2]) if d > 0 else (p[3], q[3])
            forks = fork_eq(s, pa - qa)
            ne = [f for f, z in forks if not z]
            if ne:
                return 'ne', ne[0]
            s = forks[0][0]
            lp, lq = plen(s, p), plen(s, q)
            for f, z in fork_ge(s, lq - lp):
                p2 = p[:5] + (d,)
                q2 = q[:5] + (d,)
                if z:
                    _, rest = psplit(f, q2, lp)
                    work.append((f, x[1:], (rest,) + tuple(y[1:])))
                else:
                    _, rest = psplit(f, p2, lq)
                    work.append((f, (rest,) + tuple(x[1:]), y[1:]))
            continue
        if p[0] == q[0] == 'v' and p[1] == q[1] and {p[4], q[4]} == {'m', 'k'} or p[0] == q[0] == 'v' and p[1] == q[1] and {p[4], q[4]} == {'m', 'v'}:
            # a cached maximum is the key (SortedKeyList) or value of its element
            want = 'k' if EPKEY.get(p[1], NONE) != NONE else 'v'
            if (p[4] in ('m', want)) and (q[4] in ('m', want)):
                p2, q2 = p[:4] + (want,) + p[5:], q[:4] + (want,) + q[5:]
                work.append((s, (p2,) + tuple(x[1:]), (q2,) + tuple(y[1:])))
                continue
            return 'ne', s
        if p[0] == q[0] and p[0] in ('m', 'n', 'L') and p[1] == q[1] and p[4:] == q[4:]:
            dd = p[5] if p[0] == 'L' else p[4]
            pa, qa = (p[2], q[2]) if dd > 0 else (p[3], q[3])
            forks = fork_eq(s, pa - qa)
            ne = [f for f, z in forks if not z]
            if ne:
                return 'ne', ne[0]
            s = forks[0][0]
            lp, lq = plen(s, p), plen(s, q)
            for f, z in fork_ge(s, lq - lp):
                if z:
                    _, rest = psplit(f, q, lp)
                    work.append((f, x[1:], (rest,) + tuple(y[1:])))
                else:
                    _, rest = psplit(f, p, lq)
                    work.append((f, (rest,) + tuple(x[1:]), y[1:]))
            continue
        if p[0] == q[0] == 'rng' and p[3] == q[3]:
            forks = fork_eq(s, p[1] - q[1])
            ne = [f for f, z in forks if not z]
            if ne:
                return 'ne', ne[0]
            s = forks[0][0]
            forks = fork_eq(s, p[2] - q[2])
            ne = [f for f, z in forks if not z]
            if ne:
                return 'ne', ne[0]
            work.append((forks[0][0], x[1:], y[1:]))
            continue
        # a run of maxes against single values
        for u, w, flip in ((p, q, 0), (q, p, 1)):
            if u[0] == 'm' and w[0] in ('c', 'v') and u[4] == 1:
                one, rest = psplit(s, u, 1)
                h = norm(s, (('c', pelem(s, u, 0)),))
                nx, ny = (tuple(h) + (rest,) + tuple(x[1:]), y) if not flip else (x, tuple(h) + (rest,) + tuple(y[1:]))
                work.append((s, nx, ny))
                done = True
                break
        if done:
            continue
        if p[0] == q[0] == 'c':
            v = val_cmp(s, p[1], q[1])
            if v is True:
                work.append((s, x[1:], y[1:]))
                continue
            return ('ne' if v is False else None), s
        if p[0] == q[0] and p[0] in ('stp', 'minus') and p[1] == q[1]:
            bad = None
            ok = True
            for u, w in zip(p[2:5], q[2:5]):
                if isinstance(u, Lin) and isinstance(w, Lin):
                    if not s.eq(u, w):
                        ok = False
            if ok and p[5:] == q[5:]:
                work.append((s, x[1:], y[1:]))
                continue
            return 'ne', s
        if p[0] == q[0] == 'sorted' and p[2:] == q[2:]:
            v, s2 = seq_cmp(s, p[1], q[1])
            if v == 'eq':
                work.append((s, x[1:], y[1:]))
                continue
            return v, s2
        if p[0] == q[0] == 'rep':
            v, s2 = seq_cmp(s, p[1], q[1])
            if v == 'eq' and s.eq(p[2], q[2]):
                work.append((s, x[1:], y[1:]))
                continue
            return 'ne', s
        if has_unknown(p) or has_unknown(q):
            return None, s
        return 'ne', s
    return 'eq', st


def has_unknown(x):
    if isinstance(x, tuple):
        if x and x[0] in ('x', 'unk'):
            return True
        return any(has_unknown(y) for y in x)
    if isinstance(x, Lin):
        return any(has_unknown(a) for a, _ in x.t)
    if isinstance(x, Sym):
        return has_unknown(x.t)
    if isinstance(x, Tup):
        return any(has_unknown(y) for y in x.items)
    if isinstance(x, Sub):
        return has_unknown(x.seq)
    return False


def mutated(st, t, how):
    """An object that is not part of the tracked state is changed."""
    if has_unknown(t) or t[0] in ('getitem', 'call'):
        raise Undecided('change of an unknown object')
    st.event('mutates-arg', t, how)


def has_mark(x):
    if isinstance(x, tuple):
        if x and x[0] == 'mark':
            return True
        return any(has_mark(y) for y in x)
    if isinstance(x, Lin):
        return any(has_mark(a) for a, _ in x.t)
    if isinstance(x, Sym):
        return has_mark(x.t)
    if isinstance(x, Tup):
        return any(has_mark(y) for y in x.items)
    return False


def unknown_path(st, sizes=False):
    """A path taken on a condition that is not tracked."""
    f = st.facts
    return any(has_unknown(t) for t, _ in f.bools) or sizes and any(has_unknown(e) for e in f.eqs + f.ges + f.nes)


def val_cmp(st, a, b):
    """True: certainly the same value; False: not (in general); None unknown."""
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return True if st.eq(a, b) else False
    if isinstance(a, Sym) and isinstance(b, Sym):
        x, y = st_norm_term(st, a.t), st_norm_term(st, b.t)
        if x == y:
            return True
        if x[0] == y[0] and len(x) == len(y):
            r = True
            for u, w in zip(x[1:], y[1:]):
                if u == w:
                    continue
                if isinstance(u, Lin) and isinstance(w, Lin):
                    if not st.eq(u, w):
                        r = False
                elif isinstance(u, tuple) and isinstance(w, tuple) and u and w:
                    v = val_cmp(st, Sym(u), Sym(w))
                    if v is not True:
                        r = False
                else:
                    r = False
            if r:
                return True
        if has_unknown(x) or has_unknown(y):
            return None
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [val_cmp(st, u, w) for u, w in zip(a.items, b.items)]
        if all(r is True for r in rs):
            return True
        return None if None in rs else False
    if has_unknown(a) or has_unknown(b):
        return None
    return False


def st_norm_term(st, t):
    return t
