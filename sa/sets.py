"""Models of sets, dictionaries and sorted lists seen through their contract.

A set is a term over atoms (entry contents, arguments); two terms are compared
by a truth table over one generic element, under the membership facts of the
path.  A sorted list is a signed sum of terms, so that a value held twice, or
removed twice, shows up as a multiplicity other than 0 or 1."""
import itertools
from .core import *

EMPTY = ('empty',)


def one(v):
    return ('one', v)


def or_(a, b):
    if a == EMPTY or a == b:
        return b
    if b == EMPTY:
        return a
    return ('or', a, b)


def and_(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    return a if a == b else ('and', a, b)


def diff_(a, b):
    if a == EMPTY or a == b:
        return EMPTY
    return a if b == EMPTY else ('diff', a, b)


def xor_(a, b):
    if a == b:
        return EMPTY
    if a == EMPTY:
        return b
    return a if b == EMPTY else ('xor', a, b)


def single(T):
    return () if T == EMPTY else ((1, T),)


def bagterm(bt):
    """Set view of one entry of a multiset."""
    if bt[0] == 'bag':
        return ('fs', bt[1])
    if bt[0] == 'bagf':
        return and_(('fs', bt[1][1]), bt[2])
    return bt


def bagset(content):
    """Set view of a multiset (all signs positive)."""
    T = EMPTY
    for sg, bt in content:
        T = or_(T, bagterm(bt)) if sg > 0 else diff_(T, bagterm(bt))
    return T


def intrinsic(v):
    """Multisets a value is known to belong to by construction."""
    if v and v[0] == 'sel':
        return [v[3]]
    if v and v[0] == 'elt':
        return [v[2]]
    return []


def atoms(t, A, O):
    k = t[0]
    if k == 'empty':
        return
    if k == 'one':
        if t[1] not in O:
            O.append(t[1])
            for c in intrinsic(t[1]):
                for _, bt in c:
                    atoms(bt, A, O)
        return
    if k in ('or', 'and', 'diff', 'xor'):
        atoms(t[1], A, O)
        atoms(t[2], A, O)
        return
    if k == 'bag':
        atoms(('fs', t[1]), A, O)
        if ('many', t[1]) not in A:
            A.append(('many', t[1]))
        return
    if k == 'bagf':
        atoms(t[1], A, O)
        atoms(t[2], A, O)
        return
    if t not in A:
        A.append(t)
    if k == 'part':
        atoms(t[2], A, O)


def mem(t, row):
    k = t[0]
    if k == 'empty':
        return False
    if k == 'or':
        return mem(t[1], row) or mem(t[2], row)
    if k == 'and':
        return mem(t[1], row) and mem(t[2], row)
    if k == 'diff':
        return mem(t[1], row) and not mem(t[2], row)
    if k == 'xor':
        return mem(t[1], row) != mem(t[2], row)
    return row[t]


def mult(content, row):
    n = 0
    for sg, bt in content:
        if bt[0] == 'bag':
            m = (2 if row[('many', bt[1])] else 1) if row[('fs', bt[1])] else 0
        elif bt[0] == 'bagf':
            m = mult(((1, bt[1]),), row) if mem(bt[2], row) else 0
        else:
            m = 1 if mem(bt, row) else 0
        n += sg * m
    return n


class TooWide(Undecided):
    pass


def has_img(terms):
    def w(t):
        return isinstance(t, tuple) and (t[:1] in (('img',), ('x',), ('unk',)) or any(w(u) for u in t))
    return any(w(t) for t in terms)


def rows(st, terms, contents=(), given=None):
    """Feasible rows of the truth table of a generic element.

    given: a value the generic element is known to equal."""
    A, O = [], []
    if given is not None:
        atoms(one(given), A, O)
    for t in terms:
        atoms(t, A, O)
    for c in contents:
        for _, bt in c:
            atoms(bt, A, O)
    rels = []
    for t, b in st.facts.bools:
        if t[0] == 'setrel':
            rels.append((t, b))
    zero = [t for t in st.heap.get('$cards', ()) if st.eq(A_card(t))]
    # facts about other terms matter only over the atoms in play
    ext = []
    for t in zero:
        a2, o2 = [], []
        atoms(t, a2, o2)
        if set(a2) & set(A) or set(o2) & set(O):
            ext.append(t)
    for t, b in rels:
        if b:
            for u in t[2:4]:
                ext.append(u)
    for t in ext:
        atoms(t, A, O)
    names = [a for a in A] + [one(v) for v in O]
    if len(names) > 15:
        raise TooWide('a set expression over %d parts' % len(names))
    must = {}
    for v in O:
        d = {}
        for a in A:
            b = st.facts.boolval(('mem', v, a))
            if b is not None:
                d[a] = b
        must[one(v)] = (d, intrinsic(v))
    out = []
    fixed = one(given) if given is not None else None

    def rec(i, row):
        if i == len(names):
            if ok(row):
                out.append(dict(row))
            return
        n = names[i]
        for b in ((True,) if n == fixed else (False, True)):
            row[n] = b
            rec(i + 1, row)
        del row[n]

    def ok(row):
        for a in A:
            if a[0] == 'part' and row[a] and not mem(a[2], row):
                return False
            if a[0] == 'many' and row[a] and not row[('fs', a[1])]:
                return False
        on = []
        for v in O:
            if row[one(v)]:
                d, ins = must[one(v)]
                for a, b in d.items():
                    if row[a] != b:
                        return False
                for c in ins:
                    if mult(c, row) <= 0:
                        return False
                on.append(v)
        for x, y in itertools.combinations(on, 2):
            if distinct(st, x, y):
                return False
        for x in on:
            for y in O:
                if not row[one(y)] and st.facts.boolval(same_t(x, y)):
                    return False
        for t in zero:
            try:
                if mem(t, row):
                    return False
            except KeyError:
                pass
        for t, b in rels:
            if b:
                try:
                    p, q = mem(t[2], row), mem(t[3], row)
                except KeyError:
                    continue
                if t[1] == 'le' and p and not q or t[1] == 'eq' and p != q or t[1] == 'disj' and p and q:
                    return False
        return True
    rec(0, {})
    return out


def same_t(x, y):
    return ('same',) + tuple(sorted((x, y), key=repr))


def distinct(st, x, y):
    if x[0] == 'val' and y[0] == 'val' and isinstance(x[1], (C, Lin)) and isinstance(y[1], (C, Lin)):
        if isinstance(x[1], C) and isinstance(y[1], C) or isinstance(x[1], Lin) and isinstance(y[1], Lin) and (x[1] - y[1]).is_const():
            return x[1] != y[1]
    return st.facts.boolval(same_t(x, y)) is False


def A_card(t):
    return A('len', ('set', t))


def linked(st):
    """Terms whose sizes the path relates to one another."""
    out = []
    f = st.facts
    for e in f.eqs + f.ges + f.nes:
        ts = [x[1][1] for x, _ in e.t if x[0] == 'len' and isinstance(x[1], tuple) and x[1][:1] == ('set',)]
        if len(ts) > 1 or any(t[0] in ('or', 'and', 'diff', 'xor') for t in ts):
            out += [t for t in ts if t not in out]
    return out


def first(st, rs, bad):
    """The first feasible row that violates, or True."""
    for r in rs:
        if bad(r) and realizable(st, r):
            return r
    return True


def realizable(st, row):
    """May an element of this kind exist, as far as the known sizes tell?"""
    ts = linked(st)
    if not ts:
        return True
    try:
        rs = rows(st, ts + [t for t in row if t[0] != 'many'])
    except TooWide:
        return True
    if len(rs) > 40:
        return True
    s = st.copy()
    ns = [A('#', i) for i in range(len(rs))]
    for n in ns:
        s.a_ge(n)

    def total(p):
        x = ZERO
        for n, r in zip(ns, rs):
            if p(r):
                x = x + n
        return x
    for t in ts:
        if not s.a_eq(A_card(t) - total(lambda r: mem(t, r))):
            return False
    for a in {a for r in rs for a in r if a[0] == 'one'}:
        if not s.a_eq(total(lambda r: r[a]) - 1):
            return False
    if not s.a_ge(total(lambda r: all(r.get(k) == v for k, v in row.items() if k[0] != 'many')) - 1):
        return False
    return s.facts.consistent()


def set_eq(st, a, b):
    """True, or a row on which two set terms differ."""
    return first(st, rows(st, (a, b)), lambda r: mem(a, r) != mem(b, r))


def bag_eq(st, content, t):
    """True when the multiset is exactly the set, each member once."""
    return first(st, rows(st, (t,), (content,)), lambda r: mult(content, r) != (1 if mem(t, r) else 0))


def bags_eq(st, c1, c2):
    return first(st, rows(st, (), (c1, c2)), lambda r: mult(c1, r) != mult(c2, r))


def subset(st, a, b):
    return first(st, rows(st, (a, b)), lambda r: mem(a, r) and not mem(b, r))


def row_show(r):
    from .show import show
    return 'an element that is ' + ', '.join(('in ' if b else 'not in ') + tshow(a) for a, b in sorted(r.items(), key=repr) if a[0] != 'many') if r is not True else ''


def tshow(t):
    from .show import show
    k = t[0]
    if k == 'empty':
        return '{}'
    if k == 'one':
        return '{%s}' % show(Sym(t[1]) if isinstance(t[1], tuple) else t[1])
    if k in ('or', 'and', 'diff', 'xor'):
        return '(%s %s %s)' % (tshow(t[1]), {'or': '|', 'and': '&', 'diff': '-', 'xor': '^'}[k], tshow(t[2]))
    if k == 'S':
        return t[1]
    if k == 'fs':
        return 'elements(%s)' % show(Sym(t[1]) if isinstance(t[1], tuple) else t[1])
    if k == 'part':
        return 'part%s of %s' % (t[1][-1:] if t[1][0] == 'done' else '', tshow(t[2]))
    if k == 'bag':
        return 'values(%s)' % show(Sym(t[1]))
    return str(t)[:60]


def bshow(c):
    return ' '.join(('+' if sg > 0 else '-') + tshow(bt) for sg, bt in c) or '{}'


# ---------------------------------------------------------------- dict values

def lam_apply(lam, k):
    """Value that a layer gives to key term k."""
    if lam[0] == 'val':
        return ('val', lam[1], k)
    if lam[0] == 'const':
        return tm(lam[1])
    return sub_term(tm(lam[2]), lam[1], k)


def sub_term(t, x, k):
    if t == x:
        return k
    if isinstance(t, Sym):
        return Sym(sub_term(t.t, x, k))
    if isinstance(t, Lin):
        if any(a[0] == 'posin' for a, _ in t.t):
            r = Lin(t.c)
            for a, n in t.t:
                r = r + A(*(sub_term(u, x, k) if a[0] == 'posin' else u for u in a)) * n
            return r
        return t
    if isinstance(t, tuple):
        r = [sub_term(u, x, k) for u in t]
        return type(t)(*r) if hasattr(t, '_fields') else tuple(r)
    return t


def look(layers, row, x=('X',)):
    for kt, lam in layers:
        if mem(kt, row):
            if kt[0] == 'one':
                return lam_apply(lam, kt[1])
            return lam_apply(lam, x)
    return None


def norm_x(t, row, x=('X',)):
    """Identify values that equal the generic element."""
    if isinstance(t, tuple):
        if t and t[0] == 'dval' and len(t) == 3 and (t[2] == x or isinstance(t[2], tuple) and row.get(one(t[2]))):
            try:
                v = look(t[1], row, x)
            except KeyError:
                v = None
            if v is not None:
                return norm_x(v, row, x)
        if t and t[0] == 'val' and len(t) == 3 and isinstance(t[2], tuple) and row.get(one(t[2])):
            return ('val', t[1], x)
        if hasattr(t, '_fields'):
            return type(t)(*[norm_x(u, row, x) for u in t])
        return tuple(norm_x(u, row, x) for u in t)
    return t


def inner_terms(v, ts):
    """Terms of the layers that values look into."""
    if isinstance(v, tuple):
        if v[:1] == ('dval',) and len(v) == 3:
            ts.extend(t for t, _ in v[1] if t not in ts)
        for u in v:
            inner_terms(u, ts)


def dict_eq(st, k1, l1, k2, l2):
    """True, or (row, value1, value2) on which two dicts differ."""
    ts = [k1, k2] + [t for t, _ in l1 + l2]
    inner_terms(l1 + l2, ts)
    for r in rows(st, ts):
        if mem(k1, r) != mem(k2, r):
            if not realizable(st, r):
                continue
            return r, None, None
        if mem(k1, r):
            a, b = norm_x(look(l1, r), r), norm_x(look(l2, r), r)
            if a != b and realizable(st, r):
                return r, a, b
    return True


# ---------------------------------------------------------------- relations

def by_size(st, op, a, b):
    """Truth of a relation as far as the numbers of elements decide it."""
    if not ({a, b} & set(st.heap.get('$cards', ()))):
        return None
    s = st.copy()
    n = {}
    for k, t in (('i', and_(a, b)), ('a', diff_(a, b)), ('b', diff_(b, a))):
        n[k] = ZERO if subset(st, t, EMPTY) is True else A_card(t)
        if n[k] is not ZERO:
            s.a_ge(n[k])
            if any(witness(st, t, w) for w in {f[1] for f, _ in st.facts.bools if f[0] == 'mem'}):
                s.a_ge(n[k] - 1)
    s.a_eq(card_(st, a) - n['i'] - n['a'])
    s.a_eq(card_(st, b) - n['i'] - n['b'])
    x = {'le': n['a'], 'eq': n['a'] + n['b'], 'disj': n['i']}[op]
    if s.ge(-x):
        return True
    if s.ge(x - 1) or op == 'eq' and s.facts.ne(card_(st, a) - card_(st, b)):
        return False
    return None


def card_(st, t):
    if t[0] == 'one':
        return Lin(1)
    return ZERO if t == EMPTY else A_card(t)


def witness(st, t, v):
    """v is certainly an element of t."""
    return all(mem(t, r) for r in rows(st, (t,), given=v))


def rel_value(st, op, a, b):
    """Truth of a set relation under the facts: True, False or None."""
    if op in ('gt', 'ge'):
        return rel_value(st, {'gt': 'lt', 'ge': 'le'}[op], b, a)
    if op == 'ne':
        r = rel_value(st, 'eq', a, b)
        return None if r is None else not r
    q = {'le': subset(st, a, b) is True, 'eq': set_eq(st, a, b) is True, 'disj': subset(st, and_(a, b), EMPTY) is True}
    if op in q and q[op]:
        return True
    v = st.facts.boolval(('setrel', op, a, b))
    if v is not None:
        return v
    if op in q:
        # a known element tells the two apart
        t = {'le': diff_(a, b), 'eq': xor_(a, b), 'disj': and_(a, b)}[op]
        if any(witness(st, t, w) for w in {f[1] for f, _ in st.facts.bools if f[0] == 'mem'}):
            return False
        r = by_size(st, op, a, b)
        if r is not None:
            return r
    if op == 'lt':
        e = rel_value(st, 'eq', a, b)
        l = rel_value(st, 'le', a, b)
        if e is True or l is False:
            return False
        if e is False and l is True:
            return True
        if {a, b} & set(st.heap.get('$cards', ())) and st.ge(card_(st, a) - card_(st, b)):
            return False
        return None
    # assume it and look for a contradiction with a negative fact
    s = st.copy()
    s.a_bool(('setrel', op, a, b), True)
    if not s.facts.consistent():
        return False
    for t, val in st.facts.bools:
        if t[0] != 'setrel' or val:
            continue
        x, y = t[2], t[3]
        if t[1] == 'le' and subset(s, x, y) is True or t[1] == 'eq' and set_eq(s, x, y) is True or \
                t[1] == 'disj' and subset(s, and_(x, y), EMPTY) is True or \
                t[1] == 'lt' and subset(s, x, y) is True and rel_value(s, 'eq', x, y) is False:
            return False
    return None



def fork_rel(st, op, a, b):
    r = rel_value(st, op, a, b)
    if r is not None:
        return [(st, r)]
    return fork_bool(st, ('setrel', op, a, b))


# ---------------------------------------------------------------- interpreter part

class Sets:
    # -------------------------------------------------------- basic queries
    def regcard(self, st, t):
        c = st.heap.get('$cards', ())
        if t not in c:
            st.heap['$cards'] = c + (t,)

    def setlen(self, st, t):
        if t == EMPTY:
            return ZERO
        if t[0] == 'one':
            return Lin(1)
        if t[0] == 'or' and t[2][0] == 'one' and self.known(st, t[1], t[2][1]) is False:
            return self.setlen(st, t[1]) + 1
        if t[0] == 'diff' and t[2][0] == 'one' and self.known(st, t[1], t[2][1]) is True:
            return self.setlen(st, t[1]) - 1
        self.regcard(st, t)
        return A_card(t)

    def baglen(self, st, content):
        n = ZERO
        for sg, bt in content:
            if bt[0] in ('bag', 'bagf'):
                n = n + A('len', bt) * sg
            else:
                n = n + self.setlen(st, bt) * sg
        return n

    def set_truth(self, st, t):
        if t == EMPTY:
            return [(st, False)]
        if all(not mem(t, r) for r in rows(st, (t,))):
            return [(st, False)]
        n = self.setlen(st, t)
        return fork_ge(st, n - 1)

    def known(self, st, t, v):
        """Is value term v certainly in (True), certainly not in (False) t?"""
        vals = {mem(t, r) for r in rows(st, (t,), given=v)}
        if len(vals) == 1:
            return vals.pop()
        if not vals:
            return True
        return None

    def set_contains(self, st, t, x, hashed=False):
        v = tm(self.freeze(st, x))
        out = []
        if not hashed and not self.hashable(st, v):
            out += self.may_raise(st, 'hash')
            st.a_bool(('hashed', v), True)
        return out + [(s, B(b)) for s, b in self.member(st, t, v)]

    def hashable(self, st, v):
        if intrinsic(v) or v[0] in ('val',) and isinstance(v[1], C):
            return True
        return st.facts.boolval(('hashed', v)) is True

    def member(self, st, t, v):
        """Fork on v in t: list of (state, bool)."""
        out = []
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 60:
                raise Undecided('membership')
            rs = rows(s, (t,), given=v)
            vals = {mem(t, r) for r in rs}
            if len(vals) == 1:
                out.append((s, vals.pop()))
                continue
            if not vals:
                continue
            for a in rs[0]:
                if a[0] == 'many' or a == one(v):
                    continue
                if len({r[a] for r in rs}) < 2:
                    continue
                # a decision on this atom must matter
                if len({(r[a], mem(t, r)) for r in rs}) < 2:
                    continue
                q = same_t(a[1], v) if a[0] == 'one' else ('mem', v, a)
                if s.facts.boolval(q) is not None:
                    continue
                work.extend(f for f, _ in fork_bool(s, q))
                break
            else:
                raise Undecided('membership')
        return out

    # -------------------------------------------------------- multisets from iterables
    def piece_bag(self, st, p):
        k = p[0]
        if k == 'perm':
            return single(p[1])
        if k == 'srt':
            return single(p[1])
        if k == 'sl':
            return p[3]
        if k == 'sls':
            return single(('part', p[1:3], bagset(p[3])))
        if k in ('rev',):
            return self.piece_bag(st, p[1])
        if k == 'c':
            return ((1, one(tm(self.freeze(st, p[1])))),)
        if k == 'o':
            return () if p[2] else ((1, ('bag', ('o', p[1]))),)
        if k == 'sorted':
            return self.seq_bag(st, p[1])
        if k == 'filt':
            inner = self.piece_bag(st, p[1])
            out = []
            for sg, bt in inner:
                if bt[0] in ('bag',):
                    out.append((sg, ('bagf', bt, p[2])))
                elif bt[0] == 'bagf':
                    out.append((sg, ('bagf', bt[1], and_(bt[2], p[2]))))
                else:
                    out.append((sg, and_(bt, p[2])))
            return tuple(out)
        if k == 'map':
            if p[2] == Sym(p[1]):
                return self.piece_bag(st, p[3])
            return ((1, ('bag', ('img', p[1], self.freeze(st, p[2]), p[3]))),)
        raise Undecided('the elements of %s' % (k,))

    def seq_bag(self, st, seq):
        out = ()
        for p in seq:
            out += self.piece_bag(st, p)
        return out

    def bag_of(self, st, x):
        """Consume an iterable into a multiset: [(state, content | Exc)]."""
        return [(s, q if isinstance(q, Exc) else self.seq_bag(s, q)) for s, q in self.iter_seq(st, x)]

    def comparable(self, st, t):
        known = EMPTY
        for u in st.heap.get('$cmp', ()):
            known = or_(known, u)
        return subset(st, t, known) is True

    def set_comparable(self, st, t):
        c = st.heap.get('$cmp', ())
        if t not in c:
            st.heap['$cmp'] = c + (t,)

    def foreign(self, content):
        def f(t):
            return isinstance(t, tuple) and (t[:1] == ('bag',) or t[:1] == ('bagf',))
        return any(f(bt) for _, bt in content)

    # -------------------------------------------------------- builtins
    def bi_set(self, st, args, kw, node, kind='set'):
        if not args:
            return [(st, st.new(SetO(EMPTY, kind)))]
        out = []
        for s, c in self.bag_of(st, args[0]):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if self.foreign(c) or any(bt[0] == 'one' and not self.hashable(s, bt[1]) for _, bt in c):
                out += self.may_raise(s, 'hash')
                for _, bt in c:
                    if bt[0] == 'one':
                        s.a_bool(('hashed', bt[1]), True)
            out.append((s, s.new(SetO(bagset(c), kind))))
        return out

    def bi_frozenset(self, st, args, kw, node):
        return self.bi_set(st, args, kw, node, 'frozenset')

    def bi_dict(self, st, args, kw, node):
        d = st.new(DictO(EMPTY, ()))
        return self.bind(self.dict_method(st, d, d, 'update', args, kw, node), lambda s, _: [(s, d)])

    def bi_dict_fromkeys(self, st, args, kw, node):
        d = st.new(DictO(EMPTY, ()))
        v = args[1] if len(args) > 1 else NONE
        out = []
        for s, c in self.bag_of(st, args[0]):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if self.foreign(c):
                out += self.may_raise(s, 'hash')
            T = bagset(c)
            s.put(d, DictO(T, ((T, ('const', self.freeze(s, v))),)))
            out.append((s, d))
        return out

    # -------------------------------------------------------- operators
    def asset(self, st, v):
        """Term of a value that is a set (or keys view of one), else None."""
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, SetO):
                return o.term
        return None

    def set_binop(self, st, op, a, b):
        ta, tb = self.asset(st, a), self.asset(st, b)
        if ta is not None and tb is not None:
            f = {'BitOr': or_, 'BitAnd': and_, 'Sub': diff_, 'BitXor': xor_}.get(op)
            if f:
                return [(st, st.new(SetO(f(ta, tb), st.o(a).kind)))]
            return self.exc(st, 'TypeError', 'set operator')
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and ta is not None and isinstance(b, Sym):
            nm = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}[op]
            out = []
            for s, k in fork_bool(st, ('isinst', b.t, ('set',))):
                if k:
                    out += self.set_method(s, a, nm, [b], {}, None)
                else:
                    out += self.exc(s, 'TypeError', 'set operator')
            return out
        if op in self.DUNDER and isinstance(b, Ref) and isinstance(st.o(b), ObjO):
            nm = self.DUNDER[op]
            if self.class_attr(st.o(b).cls, '__r%s__' % nm):
                return self.bind(self.getattr(st, b, '__r%s__' % nm), lambda s, f: self.call(s, f, [a], {}, None))
        da = isinstance(a, Ref) and isinstance(st.o(a), DictO)
        if da and op == 'BitOr':
            o = st.o(a)
            if isinstance(b, Sym):
                return self.may_raise(st, 'operator') + [(st, Sym(('unk', 'binop', uid())))]
            r = st.new(DictO(o.keys, o.layers))
            return self.bind(self.dict_method(st, r, r, 'update', [b], {}, None), lambda s, _: [(s, r)])
        return self.exc(st, 'TypeError', 'set operator')

    def set_rel(self, st, op, a, b):
        ta, tb = self.asset(st, a), self.asset(st, b)
        x = ta if ta is not None else tm(self.freeze(st, a))
        y = tb if tb is not None else tm(self.freeze(st, b))
        if op in ('gt', 'ge'):
            op, x, y = {'gt': 'lt', 'ge': 'le'}[op], y, x
        if ta is None or tb is None:
            # a foreign operand answers through the set protocol
            neg = op == 'ne'
            out = self.may_raise(st, 'compare')
            t = ('cmp', 'set' + ('eq' if neg else op), x, y)
            return out + [(st, Sym(('not', t) if neg else t))]
        if op == 'ne':
            return [(s, B(not r)) for s, r in fork_rel(st, 'eq', x, y)]
        return [(s, B(r)) for s, r in fork_rel(st, op, x, y)]

    # -------------------------------------------------------- sets
    SETPURE = {'union': or_, 'difference': diff_, 'intersection': and_, 'symmetric_difference': xor_,
               '__or__': or_, '__sub__': diff_, '__and__': and_, '__xor__': xor_, '__ror__': or_, '__rand__': and_, '__rxor__': xor_}
    SETUPD = {'update': or_, 'difference_update': diff_, 'intersection_update': and_, 'symmetric_difference_update': xor_,
              '__ior__': or_, '__isub__': diff_, '__iand__': and_, '__ixor__': xor_}

    def set_method(self, st, v, name, args, kw, node):
        o = st.o(v)
        T = o.term
        flat = []
        for a in args:
            if type(a) is tuple and a and a[0] == '*':
                if not all(p[0] == 'c' for p in a[1]):
                    raise Undecided('symbolic number of iterables')
                flat.extend(p[1] for p in a[1])
            else:
                flat.append(a)
        args = flat
        if name in self.SETPURE or name in self.SETUPD:
            upd = name in self.SETUPD
            f = self.SETUPD[name] if upd else self.SETPURE[name]
            partial = name in ('update', 'difference_update', '__ior__', '__isub__')
            res = [(st, T)]
            for a in args:
                nxt = []
                for s, cur in res:
                    if isinstance(cur, Exc):
                        nxt.append((s, cur))
                        continue
                    for s2, c in self.bag_of(s, a):
                        if isinstance(c, Exc):
                            if upd and partial and c.kind == 'User':
                                s2.put(v, SetO(f(cur, ('part', ('some', uid()), ('fs', ('o', tm(a))))), o.kind))
                            nxt.append((s2, c))
                            continue
                        if self.foreign(c) or any(bt[0] == 'one' and not self.hashable(s2, bt[1]) for _, bt in c):
                            for s3, e in self.may_raise(s2, 'hash'):
                                if upd and partial:
                                    s3.put(v, SetO(f(cur, ('part', ('some', uid()), bagset(c))), o.kind))
                                nxt.append((s3, e))
                            for _, bt in c:
                                if bt[0] == 'one':
                                    s2.a_bool(('hashed', bt[1]), True)
                        nxt.append((s2, f(cur, bagset(c))))
                res = nxt
            out = []
            for s, t in res:
                if isinstance(t, Exc):
                    out.append((s, t))
                elif upd:
                    s.put(v, SetO(t, o.kind))
                    out.append((s, NONE))
                else:
                    out.append((s, s.new(SetO(t, o.kind))))
            return out
        if name == 'add' and len(args) == 1:
            x = tm(self.freeze(st, args[0]))
            out = []
            if not self.hashable(st, x):
                out = self.may_raise(st, 'hash')
                st.a_bool(('hashed', x), True)
            st.put(v, SetO(or_(T, one(x)), o.kind))
            return out + [(st, NONE)]
        if name in ('remove', 'discard') and len(args) == 1:
            out = []
            for s, b in self.set_contains(st, T, args[0]):
                if isinstance(b, Exc):
                    out.append((s, b))
                elif b == TRUE:
                    s.put(v, SetO(diff_(T, one(tm(self.freeze(s, args[0])))), o.kind))
                    out.append((s, NONE))
                else:
                    out.append((s, NONE if name == 'discard' else Exc('KeyError', (args[0],))))
            return out
        if name == 'clear':
            st.put(v, SetO(EMPTY, o.kind))
            return [(st, NONE)]
        if name in ('copy', '__copy__'):
            return [(st, st.new(SetO(T, o.kind)))]
        if name == '__contains__':
            return self.set_contains(st, T, args[0])
        if name == '__len__':
            return [(st, self.setlen(st, T))]
        if name == '__iter__':
            return [(st, st.new(ItO((('perm', T),), v)))]
        if name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1:
            out = []
            for s, c in self.bag_of(st, args[0]):
                if isinstance(c, Exc):
                    out.append((s, c))
                    continue
                if self.foreign(c):
                    out += self.may_raise(s, 'hash')
                u = bagset(c)
                q = {'issubset': ('le', T, u), 'issuperset': ('le', u, T), 'isdisjoint': ('disj', T, u)}[name]
                out += [(s2, B(b)) for s2, b in fork_rel(s, *q)]
            return out
        if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
            return self.set_rel(st, name.strip('_'), v, args[0])
        if name == 'pop':
            out = []
            for s, b in self.set_truth(st, T):
                if not b:
                    out.append((s, Exc('KeyError', ('pop from an empty set',))))
                    continue
                x = ('sel', v.i, uid(), single(T), 'any')
                s.put(v, SetO(diff_(T, one(x)), o.kind))
                out.append((s, Sym(x)))
            return out
        raise Undecided('set.%s' % name)

    # -------------------------------------------------------- sorted lists by contract
    def sl_new(self, st, cls, content, key):
        r = st.new(None)
        st.put(r, SLO(cls, key, (('sl', r.i, uid(), content),), ()))
        return r

    def sl_content(self, o):
        return o.seq[0][3]

    def sl_put(self, st, v, content):
        o = st.o(v)
        st.put(v, o._replace(seq=(('sl', v.i, uid(), self.tidy(st, content)),)))

    def tidy(self, st, content):
        """A set term when the multiset is one."""
        content = tuple(c for c in content if c[1] != EMPTY)
        if len(content) < 2 and all(sg > 0 for sg, _ in content) and not self.foreign(content):
            return content
        if self.foreign(content):
            return content
        t = bagset(content)
        try:
            if bag_eq(st, content, t) is True:
                return single(t)
        except TooWide:
            pass
        return content

    def sl_len(self, st, v):
        return [(st, self.baglen(st, self.sl_content(st.o(v))))]

    SLMUT = ('add', 'discard', 'remove', 'clear', 'update', 'pop', '__delitem__', '__iadd__', '__imul__', '__setitem__', 'append', 'extend', 'insert', 'reverse')

    def sl_getattr(self, st, v, o, name):
        if name == 'key':
            if o.key == NONE:
                return self.exc(st, 'AttributeError', 'key')
            return [(st, o.key)]
        if name == '__class__':
            return [(st, o.cls)]
        if name in ('_lists', '_keys', '_maxes', '_index', '_offset', '_load', '_key'):
            raise Undecided('internal field %s of a sorted list' % name)
        if name in ('bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key') and o.key == NONE:
            return self.exc(st, 'AttributeError', name)
        if self.prog.lookup('sortedlist', 'SortedKeyList' if o.key != NONE else 'SortedList', name) is None:
            return self.exc(st, 'AttributeError', name)
        return [(st, BB(v, name))]

    def sl_call(self, st, v, name, args, kw, node):
        o = st.o(v)
        p = o.seq[0]
        cont = p[3]
        if any(type(a) is tuple and a and a[0] == '*' for a in args):
            raise Undecided('starred call')
        if name in ('__init__',):
            raise Undecided('re-initialisation of a sorted list')
        if name == 'add' and len(args) == 1:
            x = tm(self.freeze(st, args[0]))
            out = [] if self.comparable(st, one(x)) else self.may_raise(st, 'compare')
            self.set_comparable(st, one(x))
            self.sl_put(st, v, cont + ((1, one(x)),))
            return out + [(st, NONE)]
        if name in ('discard', 'remove') and len(args) == 1:
            x = tm(self.freeze(st, args[0]))
            out = []
            for s, b in self.member(st, bagset(cont), x):
                if b:
                    self.sl_put(s, v, cont + ((-1, one(x)),))
                    out.append((s, NONE))
                else:
                    if not self.comparable(s, one(x)):
                        out += self.may_raise(s, 'compare')
                    out.append((s, NONE if name == 'discard' else Exc('ValueError', (args[0],))))
            return out
        if name == '__contains__':
            x = tm(self.freeze(st, args[0]))
            out = []
            for s, b in self.member(st, bagset(cont), x):
                if not b and not self.comparable(s, one(x)):
                    out += self.may_raise(s, 'compare')
                out.append((s, B(b)))
            return out
        if name == 'count':
            return self.bind(self.sl_call(st, v, '__contains__', args, kw, node), lambda s, b: [(s, Lin(int(b == TRUE)))])
        if name in ('clear', '_clear'):
            self.sl_put(st, v, ())
            return [(st, NONE)]
        if name in ('update', '__iadd__', '_update') and len(args) == 1:
            out = []
            for s, c in self.bag_of(st, args[0]):
                if isinstance(c, Exc):
                    out.append((s, c))
                    continue
                t = bagset(c)
                if not self.comparable(s, t):
                    out += self.may_raise(s, 'compare')
                    self.set_comparable(s, t)
                self.sl_put(s, v, self.sl_content(s.o(v)) + c)
                out.append((s, v if name == '__iadd__' else NONE))
            return out
        if name == 'pop':
            i = args[0] if args else kw.get('index', Lin(-1))
            return self.bind(self.sl_at(st, v, i), lambda s, x: self.sl_popped(s, v, cont, x))
        if name == '__getitem__':
            if self.is_slice(st, args[0]):
                out = []
                for s, bad in self.zero_step(st, args[0]):
                    if bad:
                        out.append((s, Exc('ValueError', ('slice step cannot be zero',))))
                    else:
                        out.append((s, s.new(ListO((self.slice_piece(s, p, args[0]),), 'list'))))
                return out
            return self.sl_at(st, v, args[0])
        if name == '__delitem__':
            if self.is_slice(st, args[0]):
                out = []
                for s, bad in self.zero_step(st, args[0]):
                    if bad:
                        out.append((s, Exc('ValueError', ('slice step cannot be zero',))))
                    else:
                        self.sl_put(s, v, cont + ((-1, ('part', (v.i, (p[2], self.slkey(s, args[0]))), bagset(cont))),))
                        out.append((s, NONE))
                return out
            return self.bind(self.sl_at(st, v, args[0]), lambda s, x: self.bind(self.sl_popped(s, v, cont, x), lambda s2, _: [(s2, NONE)]))
        if name == '__len__':
            return self.sl_len(st, v)
        if name == '__iter__':
            return [(st, st.new(ItO((p,), v)))]
        if name == '__reversed__':
            return [(st, st.new(ItO((('rev', p),), v)))]
        if name in ('copy', '__copy__'):
            r = self.sl_new(st, o.cls, cont, o.key)
            return [(st, r)]
        if name in ('append', 'extend', 'insert', 'reverse', '__setitem__'):
            return self.exc(st, 'NotImplementedError')
        if name in ('_check', '_reset'):
            return [(st, NONE)]
        if name in ('bisect', 'bisect_left', 'bisect_right', 'bisect_key', 'bisect_key_left', 'bisect_key_right', 'index', 'irange', 'irange_key', 'islice'):
            nm = {'bisect': 'bisect_right', 'bisect_key': 'bisect_key_right'}.get(name, name)
            a = tuple(self.freeze(st, x) for x in args)
            k = tuple(sorted((n, self.freeze(st, x)) for n, x in kw.items()))
            out = [] if name == 'islice' else self.may_raise(st, name)
            r = Sym(('query', nm, p, a, k))
            if name in ('irange', 'irange_key', 'islice'):
                r = st.new(ItO((('x', ('query', nm, p, a, k)),), v))
            return out + [(st, r)]
        raise Undecided('sorted list method %s' % name)

    def sl_popped(self, st, v, cont, x):
        self.sl_put(st, v, cont + ((-1, one(tm(x))),))
        return [(st, x)]

    def slice_piece(self, st, p, i):
        if isinstance(i, Slice) and i.a == NONE and i.b == NONE and i.c in (NONE, Lin(1), Lin(-1)):
            return ('rev', p) if i.c == Lin(-1) else p
        return ('sls', p[1], (p[2], self.slkey(st, i)), p[3])

    def is_slice(self, st, i):
        return isinstance(i, Slice) or isinstance(i, Sym) and i.t in self.slices

    slices = ()

    def slkey(self, st, i):
        return tm(i) if isinstance(i, Sym) else (self.freeze(st, i.a), self.freeze(st, i.b), self.freeze(st, i.c))

    def zero_step(self, st, i):
        if isinstance(i, Slice):
            if i.c == NONE:
                return [(st, False)]
            if isinstance(i.c, Lin):
                return fork_eq(st, i.c)
        return fork_bool(st, ('zerostep', self.slkey(st, i)))

    def sl_at(self, st, v, i):
        o = st.o(v)
        p = o.seq[0]
        i = self.toint(st, i)
        n = self.baglen(st, p[3])
        out = []
        for s, ok in fork_ge(st, n - 1 - i):
            if not ok:
                out.append((s, Exc('IndexError', ('list index out of range',))))
                continue
            for s2, ok2 in fork_ge(s, n + i):
                if not ok2:
                    out.append((s2, Exc('IndexError', ('list index out of range',))))
                    continue
                out.append((s2, self.sl_sel(s2, p, i)))
        return out

    def sl_sel(self, st, p, i):
        # a negative position names the same value as its positive form
        n = self.baglen(st, p[3])
        if st.ge(-i - 1):
            i = i + n
        return Sym(('sel', p[1], p[2], p[3], i))

    # -------------------------------------------------------- dicts
    def dict_method(self, st, d, selfv, name, args, kw, node):
        o = st.o(d)
        K, Ls = o.keys, o.layers
        if name in ('__init__',):
            name = 'update'
        if name == '__contains__':
            return self.set_contains(st, K, args[0])
        if name == '__len__':
            return [(st, self.setlen(st, K))]
        if name == '__iter__':
            return [(st, st.new(ItO((('perm', K),), d)))]
        if name == 'keys':
            return [(st, st.new(ItO((('perm', K),), d)))]
        if name in ('items', 'values'):
            e = ('elt', 0, single(K))
            res = self.dict_lookup(st.copy(), o, e) if subset(st, K, EMPTY) is not True else [(st, NONE)]
            v = res[0][1]
            return [(st, st.new(ItO((('map', e, Tup((Sym(e), v)) if name == 'items' else v, ('perm', K)),), d)))]
        if name in ('copy', '__copy__'):
            return [(st, st.new(DictO(K, Ls)))]
        if name == 'clear':
            st.put(d, DictO(EMPTY, ()))
            return [(st, NONE)]
        if name == '__setitem__' and len(args) == 2:
            x = tm(self.freeze(st, args[0]))
            out = []
            if not self.hashable(st, x):
                out = self.may_raise(st, 'hash')
                st.a_bool(('hashed', x), True)
            self.dict_store(st, d, x, args[1])
            return out + [(st, NONE)]
        if name in ('__getitem__', 'get', 'pop', '__delitem__', 'setdefault'):
            out = []
            for s, b in self.set_contains(st, K, args[0]):
                if isinstance(b, Exc):
                    out.append((s, b))
                    continue
                x = tm(self.freeze(s, args[0]))
                if b == TRUE:
                    if name == '__delitem__':
                        s.put(d, DictO(diff_(K, one(x)), Ls))
                        out.append((s, NONE))
                        continue
                    for s2, val in self.dict_lookup(s, o, x):
                        if name == 'pop':
                            s2.put(d, DictO(diff_(K, one(x)), Ls))
                        out.append((s2, val))
                elif name == 'get':
                    out.append((s, args[1] if len(args) > 1 else NONE))
                elif name == 'setdefault':
                    v = args[1] if len(args) > 1 else NONE
                    self.dict_store(s, d, x, v)
                    out.append((s, v))
                elif name == 'pop' and len(args) > 1:
                    out.append((s, args[1]))
                else:
                    if name == '__getitem__' and isinstance(s.o(selfv), ObjO) and self.class_attr(s.o(selfv).cls, '__missing__') is not None:
                        raise Undecided('__missing__')
                    out.append((s, Exc('KeyError', (args[0],))))
            return out
        if name == 'popitem':
            out = []
            for s, b in self.set_truth(st, K):
                if not b:
                    out.append((s, Exc('KeyError', ('popitem(): dictionary is empty',))))
                    continue
                x = ('sel', d.i, uid(), single(K), 'any')
                for s2, val in self.dict_lookup(s, o, x):
                    s2.put(d, DictO(diff_(K, one(x)), Ls))
                    out.append((s2, Tup((Sym(x), val))))
            return out
        if name in ('update', '__ior__'):
            if len(args) > 1:
                return self.exc(st, 'TypeError', 'update expected at most 1 argument')
            res = [(st, NONE)]
            if args:
                res = self.dict_merge(st, d, args[0])
            if kw:
                out = []
                for s, v in res:
                    if isinstance(v, Exc):
                        out.append((s, v))
                        continue
                    for n, val in kw.items():
                        if n == '**':
                            out.extend(self.dict_merge(s, d, val))
                        else:
                            self.dict_store(s, d, ('val', C(n)), val)
                    if '**' not in kw:
                        out.append((s, v))
                res = out
            return [(s, v if isinstance(v, Exc) else (selfv if name == '__ior__' else NONE)) for s, v in res]
        if name in ('__eq__', '__ne__'):
            out = self.may_raise(st, 'compare')
            t = ('cmp', 'dicteq', d.i, tm(self.freeze(st, args[0])))
            return out + [(st, Sym(t if name == '__eq__' else ('not', t)))]
        if name in ('__reversed__',):
            raise Undecided('dict.%s' % name)
        if name == 'fromkeys':
            return self.bi_dict_fromkeys(st, args, kw, node)
        raise Undecided('dict.%s' % name)

    def dict_store(self, st, d, x, v):
        o = st.o(d)
        fv = self.freeze(st, v)
        st.put(d, DictO(or_(o.keys, one(x)), ((one(x), ('const', fv if not isinstance(fv, Sym) else fv)),) + o.layers))

    def dict_lookup(self, st, o, x):
        """Value of key x (present): [(state, value)]."""
        if x[0] == 'elt':
            n = len(self.dict_lookup_(st.copy(), o, x))
            if n != 1:
                return [(st, Sym(('dval', o.layers, x)))]
        return self.dict_lookup_(st, o, x)

    def dict_lookup_(self, st, o, x):
        out = []
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            if n >= len(o.layers):
                raise Undecided('value of a key')
            kt, lam = o.layers[n]
            for s2, b in self.member(s, kt, x):
                if b:
                    if lam[0] == 'const':
                        out.append((s2, lam[1]))
                    else:
                        k = kt[1] if kt[0] == 'one' else x
                        t = lam_apply(lam, k)
                        out.append((s2, Sym(t) if not (isinstance(t, tuple) and t[:1] == ('val',) and len(t) == 2) else t[1]))
                else:
                    work.append((s2, n + 1))
        return out

    def dict_merge(self, st, d, x):
        """d.update(x) for one positional argument."""
        o = st.o(d)
        if isinstance(x, Ref):
            ob = st.o(x)
            src = ob if isinstance(ob, DictO) else None
            if isinstance(ob, ObjO) and self.is_dict(ob):
                src = st.o(ob.fields['$dict'])
            if src is not None:
                lay = tuple((and_(src.keys, kt) if kt[0] != 'one' else kt, lam) for kt, lam in src.layers)
                # a stored key that was deleted again does not count
                lay = tuple((kt if subset(st, kt, src.keys) is True else and_(kt, src.keys), lam) for kt, lam in lay)
                st.put(d, DictO(or_(o.keys, src.keys), lay + o.layers))
                return [(st, NONE)]
            if isinstance(ob, ObjO) and self.class_attr(ob.cls, 'keys') is not None:
                raise Undecided('update from a mapping object')
        if isinstance(x, Sym) or isinstance(x, (Lin, C)):
            if not isinstance(x, Sym):
                return self.exc(st, 'TypeError', 'not iterable')
            out = []
            for s, c in self.iter_seq(st, x):
                if isinstance(c, Exc):
                    if c.kind == 'User':
                        self.dict_part(s, d, x.t)
                    out.append((s, c))
                    continue
                for s2, e in self.may_raise(s, 'pairs'):
                    self.dict_part(s2, d, x.t)
                    out.append((s2, e))
                out.extend(self.merge_pieces(s, d, c))
            return out
        out = []
        for s, c in self.iter_seq(st, x):
            if isinstance(c, Exc):
                out.append((s, c))
                continue
            if any(p[0] == 'o' for p in c):
                for s2, e in self.may_raise(s, 'pairs'):
                    for p in c:
                        if p[0] == 'o':
                            self.dict_part(s2, d, p[1])
                    out.append((s2, e))
            out.extend(self.merge_pieces(s, d, c))
        return out

    map_args = ()

    def pairs_src(self, t):
        return t[1] if t[0] == 'items' else t

    def dict_part(self, st, d, t):
        o = st.o(d)
        t = self.pairs_src(t)
        P = ('part', ('some', uid()), ('fs', ('keysof', t)))
        st.put(d, DictO(or_(o.keys, P), ((P, ('val', t)),) + o.layers))

    def merge_pieces(self, st, d, c):
        for p in c:
            o = st.o(d)
            if p[0] == 'o':
                if p[2]:
                    continue
                t = self.pairs_src(p[1])
                T = ('fs', ('keysof', t))
                st.put(d, DictO(or_(o.keys, T), ((T, ('val', t)),) + o.layers))
            elif p[0] == 'map' and isinstance(p[2], Tup) and len(p[2].items) == 2 and p[2].items[0] == Sym(p[1]):
                T = bagset(self.piece_bag(st, p[3]))
                st.put(d, DictO(or_(o.keys, T), ((T, ('lam', p[1], self.freeze(st, p[2].items[1]))),) + o.layers))
            elif p[0] == 'perm' and p[1][0] == 'fs' and p[1][1][0] == 'keysof' and p[1][1][1] in self.map_args:
                T = p[1]
                st.put(d, DictO(or_(o.keys, T), ((T, ('val', T[1][1])),) + o.layers))
            elif p[0] == 'c' and isinstance(p[1], Tup) and len(p[1].items) == 2:
                self.dict_store(st, d, tm(self.freeze(st, p[1].items[0])), p[1].items[1])
            else:
                raise Undecided('pairs from %s' % p[0])
        return [(st, NONE)]
