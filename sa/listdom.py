"""Level A: the sorted lists, analysed method by method from a generic valid
state (N sublists of arbitrary lengths), every exit checked against the
invariant and against the functional contract of the method."""
import ast
from .core import *
from .interp import Interp, Undecided
from .lists import pelem_x

KEY = Sym(('keyfn',))
SHAPE0 = (('n', 0, ZERO, mkN(0), 1),)


class Exp:
    """Expected outcome of a method on one refinement of the entry state."""
    def __init__(self, content=None, result=None, exc=None, state='same'):
        self.content = content      # flat seq or None = entry content
        self.result = result        # function(dom, st, value) -> (verdict, why) | None
        self.exc = exc              # exception kind
        self.state = state


class Ob:
    __slots__ = ('kind', 'verdict', 'why', 'trace', 'cls', 'method', 'variant', 'line')

    def __init__(self, kind, verdict, why, trace=()):
        self.kind = kind
        self.verdict = verdict
        self.why = why
        self.trace = trace

    def __repr__(self):
        return '%s.%s[%s] %s: %s %s' % (self.cls, self.method, self.variant, self.kind, self.verdict, self.why)


OK, BAD, UNK = 'ok', 'bad', 'unk'


def heap(row, size):
    """The sums over row, padded to size, from the root to the row."""
    rows = [row + [Lin(0)] * (size - len(row))]
    while len(rows[0]) > 1:
        rows.insert(0, [rows[0][k] + rows[0][k + 1] for k in range(0, len(rows[0]), 2)])
    return [x for r in rows[:-1] for x in r] + row


class ListDom:
    def __init__(self, prog, cls, verified=('_loc', '_pos', '_delete', '__getitem__', '_build_index')):
        self.prog = prog
        self.cls = cls
        self.keyed = cls == 'SortedKeyList'
        # helpers whose own analysis succeeded on this tree: calls to them use
        # their contract, calls to all others are followed into the callee
        self.verified = verified

    # ------------------------------------------------------------ setup
    def fresh_interp(self):
        reset_ids()
        ip = Interp(self.prog)
        EPKEY.clear()
        EPKEY[0] = KEY if self.keyed else NONE
        ip.keyfn = KEY if self.keyed else NONE
        ip.dom = self
        ip.contracts = self.contract
        ip.foreach_hook = self.foreach
        return ip

    def entry(self, ip, fields=True):
        st = St()
        st.frames[0] = {'$mod': 'sortedlist', '$parent': None, '$cls': None}
        st.cur = 0
        st.a_ge(mkN(0))
        st.a_ge(LOAD - 4)
        f = {}
        f['_lists'] = st.new(ListO((('L', 0, ZERO, mkN(0), 'v', 1, 1),), 'list'))
        if self.keyed:
            f['_keys'] = st.new(ListO((('L', 0, ZERO, mkN(0), 'k', 1, 1),), 'list'))
            f['_key'] = KEY
        f['_maxes'] = st.new(ListO((('m', 0, ZERO, mkN(0), 1),), 'list'))
        f['_index'] = st.new(ListO((('iv', SHAPE0),), 'list'))
        f['_offset'] = A('off', SHAPE0)
        f['_len'] = mkLEN(0)
        f['_load'] = LOAD
        self.refs = {k: v for k, v in f.items() if isinstance(v, Ref)}
        st.self = st.new(ObjO(Cls(self.cls, 'sortedlist'), f))
        self.selfref = st.self
        return st

    def ox(self, t):
        """Order term of a value term."""
        return ('key', t) if self.keyed else t

    def pl(self, t):
        return A('pos', 0, 0, 'l', self.ox(t))

    def pr(self, t):
        return A('pos', 0, 0, 'r', self.ox(t))

    # ------------------------------------------------------------ field access
    def flat(self, st, seq):
        """Flat content of a list of lists, or None."""
        out = []
        for p in seq:
            if p[0] == 'L':
                if p[5] != 1 or p[6] != 1:
                    return None
                out.append(V(p[1], mkG(p[1], p[2]), mkG(p[1], p[3]), p[4]))
            elif p[0] == 'c':
                v = p[1]
                if isinstance(v, Ref) and isinstance(st.o(v), ListO):
                    q = st.o(v).seq
                elif isinstance(v, Sub):
                    q = v.seq
                else:
                    return None
                out.extend(q)
            elif p[0] == 'chunks':
                out.extend(p[1])
            else:
                return None
        return tuple(out)

    def fseq(self, st, name):
        v = st.field(self.selfref, name)
        if isinstance(v, Ref) and isinstance(st.o(v), ListO):
            return st.o(v).seq
        return None

    def content(self, st):
        s = self.fseq(st, '_lists')
        return None if s is None else self.flat(st, s)

    def shape(self, st, seq):
        out = []
        for p in seq:
            if p[0] == 'L':
                out.append(('n', p[1], p[2], p[3], 1))
            elif p[0] == 'c':
                v = p[1]
                q = st.o(v).seq if isinstance(v, Ref) and isinstance(st.o(v), ListO) else (v.seq if isinstance(v, Sub) else None)
                if q is None:
                    return None
                n = seqlen(st, q)
                out.append(('c', n))
            elif p[0] == 'chunks':
                out.append(('clen', p[1], p[2]))
            else:
                return None
        # a cell of pristine length merges with its neighbours
        res = []
        for p in out:
            if p[0] == 'c':
                k = None
                if res and res[-1][0] == 'n':
                    q = res[-1]
                    if st.eq(p[1], mkG(q[1], q[3] + 1) - mkG(q[1], q[3])):
                        res[-1] = ('n', q[1], q[2], q[3] + 1, 1)
                        continue
                # length of a generic sublist G(k+1)-G(k)
                ats = [a for a in p[1].atoms() if a[0] == 'G' and p[1].coef(a) == 1]
                for a in ats:
                    k = a[2] - 1
                    if st.eq(p[1], mkG(a[1], k + 1) - mkG(a[1], k)):
                        break
                    k = None
                if k is not None:
                    res.append(('n', a[1], k, k + 1, 1))
                    continue
                res.append(p)
            elif p[0] == 'n':
                if st.ge(p[2] - p[3]):
                    continue
                if res and res[-1][0] == 'n' and res[-1][1] == p[1] and st.eq(res[-1][3], p[2]):
                    res[-1] = ('n', p[1], res[-1][2], p[3], 1)
                else:
                    res.append(p)
            else:
                res.append(p)
        return tuple(res)

    def pristine(self, st, name='_lists', f='v'):
        """Epoch e when the field still holds exactly the sublists of epoch e."""
        seq = self.fseq(st, name)
        if seq is None:
            return None
        sh = self.shape(st, seq)
        if sh is None or len(sh) != 1 or sh[0][0] != 'n':
            return None
        e = sh[0][1]
        if sh[0][2] != ZERO or not st.eq(sh[0][3], mkN(e)):
            return None
        fl = norm(st, self.flat(st, seq))
        if len(fl) == 1 and fl[0][0] == 'v' and fl[0][1] == e and fl[0][4] == f:
            return e
        return None

    # ------------------------------------------------------------ contracts
    NOCONTRACT = ()

    def contract(self, ip, st, ref, fn, args, kw):
        if ref != self.selfref or kw:
            return None
        nm = fn.name
        if nm in self.NOCONTRACT or nm not in self.verified:
            return None
        if nm == '_delete' and len(args) == 2:
            return self.c_delete(ip, st, fn, args)
        if nm == '_loc' and len(args) == 2:
            return self.c_loc(ip, st, fn, args)
        if nm == '_pos' and len(args) == 1:
            return self.c_pos(ip, st, fn, args)
        if nm == '_build_index' and not args:
            return self.c_build(ip, st, fn)
        if nm == '__getitem__' and st.depth > 0 and len(args) == 1 and self.inside(st, '__getitem__'):
            return self.c_getitem(ip, st, fn, args)
        return None

    def inside(self, st, name):
        fid = st.cur
        for f, fr in st.frames.items():
            if fr.get('$fn') == name and fr.get('$self') == self.selfref and st.depth >= 1:
                return True
        return False

    def touch_index(self, st, e):
        """The index may have been built for epoch e."""
        ix = st.field(self.selfref, '_index')
        if not isinstance(ix, Ref):
            return False
        seq = st.o(ix).seq
        sh = (('n', e, ZERO, mkN(e), 1),)
        if seq == ():
            st.put(ix, ListO((('iv', sh),), 'list'))
            st.setfield(self.selfref, '_offset', A('off', sh))
            return True
        if seq and seq[0][0] == 'iv' and seq[0][1] == sh:
            return True
        if seq and seq[0][0] == 'tree' and seq[0][1] == sh and not seq[0][2]:
            return True
        return False

    def c_loc(self, ip, st, fn, args):
        e = self.pristine(st)
        p, i = args
        if e is None or not isinstance(p, Lin) or not isinstance(i, Lin):
            return None
        if not (st.ge(p) and st.ge(mkN(e) - 1 - p)):
            return None
        if st.eq(p):
            return [(st, i)]
        if not self.touch_index(st, e):
            return None
        return [(st, mkG(e, p) + i)]

    def c_pos(self, ip, st, fn, args):
        e = self.pristine(st)
        i = args[0]
        if isinstance(i, Sym):
            i = ip.toint(st, i)
        if e is None or not isinstance(i, Lin):
            return None
        ln = st.field(self.selfref, '_len')
        if not isinstance(ln, Lin) or not st.eq(ln, mkLEN(e)):
            return None
        if not self.touch_index(st, e):
            return None
        out = []
        n = mkLEN(e)
        for s, nn in fork_ge(st, i):
            j = i if nn else i + n
            for s2, ok in (fork_ge(s, n - 1 - j) if nn else fork_ge(s, j)):
                if not ok:
                    # on an empty container the last sublist is missing
                    out.append((s2, Exc('IndexError', ('list index out of range',))))
                    continue
                if st.eq(j):
                    pp = ZERO
                else:
                    pp = A('pp', e, j)
                s2.a_ge(pp)
                s2.a_ge(mkN(e) - 1 - pp)
                s2.a_ge(j - mkG(e, pp))
                s2.a_ge(mkG(e, pp + 1) - 1 - j)
                s2.event('pos', j)
                out.append((s2, Tup((pp, j - mkG(e, pp)))))
        return out

    def c_delete(self, ip, st, fn, args):
        e = self.pristine(st)
        p, i = args
        if e is None or not isinstance(p, Lin) or not isinstance(i, Lin):
            return None
        if not (st.ge(p) and st.ge(mkN(e) - 1 - p) and st.ge(i) and st.ge(mkG(e, p + 1) - mkG(e, p) - 1 - i)):
            return None
        for nm in ('_lists', '_maxes', '_index') + (('_keys',) if self.keyed else ()):
            if not isinstance(st.field(self.selfref, nm), Ref):
                return None
        bad = []
        self.structure(ip, st.copy(), lambda k, v, w: bad.append((k, v, w)) if v != OK else None)
        if bad:
            return None
        j = mkG(e, p) + i
        h = self.generic(st)
        st.defs[h] = (V(e, ZERO, j), V(e, j + 1, mkLEN(e)))
        st.a_eq(mkLEN(h) - mkLEN(e) + 1)
        st.a_ge(mkLEN(h))
        return [(st, NONE)]

    def c_build(self, ip, st, fn):
        seq = self.fseq(st, '_lists')
        ix = st.field(self.selfref, '_index')
        if seq is None or not isinstance(ix, Ref):
            return None
        sh = self.shape(st, seq)
        if sh is None or any(p[0] == 'clen' for p in sh) or st.o(ix).seq != ():
            return None
        if not st.ge(shapelen(sh) - 1):
            return None
        st.put(ix, ListO((('tree', sh, ()),), 'list'))
        st.setfield(self.selfref, '_offset', A('off', sh))
        return [(st, NONE)]

    def c_getitem(self, ip, st, fn, args):
        e = self.pristine(st)
        i = args[0]
        if e is None:
            return None
        if isinstance(i, Slice):
            n = mkLEN(e)
            if i.c in (NONE, Lin(1)):
                self.touch_index(st, e)
                r = st.new(ListO((V(e, ZERO, n),), 'list'))
                return ip.slice_list(st, r, i, None)
            return None
        if isinstance(i, Lin):
            self.touch_index(st, e)
            r = st.new(ListO((V(e, ZERO, mkLEN(e)),), 'list'))
            return ip.seq_get(st, r, st.o(r).seq, i)
        return None

    # ------------------------------------------------------------ foreach with mutation
    def generic(self, st):
        """Re-abstract the tracked instance to a fresh generic epoch."""
        e = uid()
        EPKEY[e] = EPKEY[0]
        r = self.selfref
        st.a_ge(mkN(e))
        L_ = lambda nm, f: st.put(st.field(r, nm), ListO((('L', e, ZERO, mkN(e), f, 1, 1),), 'list'))
        L_('_lists', 'v')
        if self.keyed:
            L_('_keys', 'k')
        st.put(st.field(r, '_maxes'), ListO((('m', e, ZERO, mkN(e), 1),), 'list'))
        sh = (('n', e, ZERO, mkN(e), 1),)
        st.put(st.field(r, '_index'), ListO((('iv', sh),), 'list'))
        st.setfield(r, '_offset', A('off', sh))
        st.setfield(r, '_len', mkLEN(e))
        return e

    def foreach(self, ip, n, st, p, ln):
        if self.selfref is None or ip.generic:
            return None
        e0 = self.pristine(st)
        if e0 is None:
            return None
        for nm in ('_lists', '_maxes', '_index') + (('_keys',) if self.keyed else ()):
            if not isinstance(st.field(self.selfref, nm), Ref):
                return None
        bad = []
        self.structure(ip, st, lambda k, v, w: bad.append((k, v, w)) if v != OK else None)
        if bad:
            return None
        var = ('it', uid())
        i = Lin.atom(var)
        g = st.copy()
        h = self.generic(g)
        g.a_ge(i)
        g.a_ge(ln - 1 - i)
        elem = pelem_x(g, p, i)
        lin = isinstance(elem, Lin)
        if lin:
            # positions handled in descending or ascending order
            g.a_ge(elem)
            g.a_ge(mkLEN(h) - 1 - elem)
        heap0 = dict(g.heap)
        ip.generic += 1
        inc0 = len(ip.incomplete)
        try:
            res = ip.for_once(n, g, elem)
        except Undecided:
            del ip.incomplete[inc0:]
            return None
        finally:
            ip.generic -= 1
        kinds = set()
        fails = []
        own = {st.field(self.selfref, nm).i for nm in ('_lists', '_maxes', '_index')} | {self.selfref.i}
        if self.keyed:
            own.add(st.field(self.selfref, '_keys').i)
        for s, c in res:
            if isinstance(c, Exc) and c.kind == 'User':
                fails.append((s, c))
                continue
            if c is not None and c != ('cnt',):
                return None
            bad = []
            self.structure(ip, s, lambda k, v, w: bad.append((k, v, w)) if v != OK else None)
            if bad:
                return None
            for r, o in heap0.items():
                if isinstance(r, int) and r not in own and s.heap.get(r) != o and not isinstance(o, ItO):
                    return None
            cont = self.content(s)
            k = None
            if cont is not None:
                if not lin:
                    x = tm(elem)
                    pr = A('pos', h, 0, 'r', ('key', x) if self.keyed else x)
                    if seq_cmp(s, cont, (V(h, ZERO, pr), ('c', elem), V(h, pr, mkLEN(h))))[0] == 'eq':
                        k = 'insert'
                else:
                    if seq_cmp(s, cont, (V(h, ZERO, elem), V(h, elem + 1, mkLEN(h))))[0] == 'eq':
                        k = 'delete'
                if seq_cmp(s, cont, (V(h, ZERO, mkLEN(h)),))[0] == 'eq':
                    k = 'none'
            if k is None:
                return None
            kinds.add(k)
        if len(kinds) != 1:
            return None
        k = kinds.pop()
        if k == 'none':
            return None
        out = []
        fin = st.copy()
        e = self.generic(fin)
        if k == 'insert':
            old = norm(st, self.content(st))
            fin.defs[e] = (('sorted', tuple(old) + (p,), EPKEY[0], False),)
            fin.a_eq(mkLEN(e) - mkLEN(e0) - ln)
        else:
            back = p[0] == 'rev'
            if back:
                p = p[1]
            if p[0] != 'rng':
                return None
            a, b, c = p[1], p[2], p[3]
            n0 = mkLEN(e0)
            if st.ge(c - 1):
                up, inb = not back, st.ge(a) and st.ge(n0 - b)
            elif st.ge(-c - 1):
                up, inb = back, st.ge(n0 - 1 - a) and st.ge(b + 1)
            else:
                return None
            if not inb:
                return None
            fin.defs[e] = (('minusasc' if up else 'minus', e0, a, b, c),)
            fin.a_eq(mkLEN(e) - mkLEN(e0) + ln)
            fin.a_ge(mkLEN(e))
        for t in ip_assigned(n):
            if t in fin.frames[fin.cur]:
                fin.frames[fin.cur][t] = Sym(('unk', 'loopvar', uid()))
        for s, c in res:
            for ev in s.ev:
                fin.event(*ev)
        ip.foreach_seen = getattr(ip, 'foreach_seen', 0) + 1
        out.append((fin, None))
        for s, c in fails:
            if k == 'insert':
                s.defs[h] = (('super', e0, h),)
            out.append((s, c))
        return out

    # ------------------------------------------------------------ invariants at exit
    def obligations(self, ip, st, exp, value, entry_events=()):
        """Check one exit state.  exp: Exp; value: result or Exc."""
        obs = []

        def add(kind, verdict, why):
            if verdict == BAD and (st.approx or has_unknown(why if isinstance(why, tuple) else ()) or unknown_path(st)):
                verdict = UNK
                why = '%s (approximated: %s)' % (why, st.approx)
            if isinstance(value, Exc) and kind != 'exc':
                kind = ('user:' if value.kind == 'User' else 'fail:') + kind
            if verdict == BAD and trust and (kind.split(':')[-1] in ('order', 'ties') or kind.startswith('user:')):
                if trust != 'weak' or kind.startswith('user:'):
                    verdict = UNK
                    why = '%s (depends on the order of another sorted container)' % why
            obs.append(Ob(kind, verdict, why, st.trace))
        trust = self.trusts(st)
        # exceptions
        if isinstance(value, Exc):
            if value.kind == 'User':
                pass
            elif exp.exc == value.kind:
                add('exc', OK, value.kind)
            elif exp.exc is None:
                add('exc', BAD, 'raises %s %s where a normal result is due' % (value.kind, value.val))
            else:
                add('exc', BAD, 'raises %s where %s is due' % (value.kind, exp.exc))
        elif exp.exc is not None:
            add('exc', BAD, 'returns normally where %s is due' % exp.exc)
        user = isinstance(value, Exc) and value.kind == 'User'
        cont = self.content(st)
        want = exp.content if exp.content is not None and not isinstance(value, Exc) else (V(0, ZERO, mkLEN(0)),)
        if user and self.failmode is not None:
            want = self.failmode
        self.structure(ip, st, add)
        if cont is None:
            add('content', UNK, 'content of _lists not tracked')
        elif callable(want):
            v, why = want(self, st, norm(st, cont))
            add('content:mset', v, why)
        else:
            v, s2 = seq_cmp(st, cont, want)
            k = 'content:mset'
            if v == 'ne':
                k = self.classify(st, cont, want)
            if v == 'eq':
                add(k, OK, '')
            elif v == 'ne':
                add(k, BAD, 'content %s where %s is due' % (show(norm(s2, cont)), show(norm(s2, want))))
            else:
                add(k, UNK, 'content %s vs %s' % (show(norm(st, cont)), show(want)))
        if not isinstance(value, Exc) and exp.result is not None and exp.exc is None:
            v, why = exp.result(self, st, value)
            k = 'result'
            if why.startswith('['):
                k, why = why[1:].split('] ', 1)
                k = 'result:' + k
            add(k, v, why)
        for ev in st.ev:
            if ev[0] == 'mutates-arg':
                add('args', BAD, 'mutates its argument %s by %s' % (ev[1], ev[2]))
            elif ev[0] == 'orders-by-value':
                add('keyonly', BAD, 'orders by value instead of by key')
        add('args', OK, '')
        if self.keyed:
            add('keyonly', OK, '')
        # identity of the storage
        if not isinstance(value, Exc):
            for k, r in self.refs.items():
                if self.reaches(st, value, r, 0):
                    add('escape', BAD, 'the result exposes %s' % k)
            ls = self.fseq(st, '_lists') or ()
            cells = [p[1] for p in ls if p[0] == 'c']
            for c in cells:
                if isinstance(c, Ref) and self.reaches(st, value, c, 0):
                    add('escape', BAD, 'the result is a live internal sublist')
                if isinstance(c, Sym) and c.t[0] == 'arg':
                    add('escape', BAD, 'the argument %s becomes a live internal sublist' % show(c.t))
            add('escape', OK, '')
        return obs

    def trusts(self, st):
        """Does the path rest on an argument being a sorted container?  'weak'
        when a mere isinstance test is all there is: a subclass or another key
        orders its values differently."""
        names = {'SortedList', 'SortedKeyList', 'SortedSet', 'SortedDict'}
        found = {}
        for t, b in st.facts.bools:
            if b and t[0] == 'isinst' and names & set(t[2]):
                found.setdefault(t[1], 'weak')
            elif b and t[0] in ('is', 'eq', 'cmp') and any(getattr(x, 'name', None) in names for x in t[1:]):
                for x in t[1:]:
                    if isinstance(x, tuple) and x and x[0] == 'typeof':
                        found[x[1]] = 'exact'
        if not found:
            return None
        for t, b in st.facts.bools:
            for x in found:
                if t[0] == 'none' or b and t[0] == 'isinst' and names & set(t[2]):
                    continue
                if repr(x) in repr(t) or repr(Sym(x)) in repr(t):
                    found[x] = 'exact'
        return 'weak' if set(found.values()) == {'weak'} else 'exact'

    def classify(self, st, got, want):
        """Which guarantee a wrong content breaks: the values held (mset), the
        order (order), or only the order among equals (ties)."""
        got, want = norm(st, got), norm(st, want)
        if has_unknown(got):
            return 'content:mset'

        def flat(seq, out):
            for p in seq:
                if p[0] in ('sorted',):
                    flat(p[1], out)
                elif p[0] == 'rev' and isinstance(p[1], tuple):
                    flat((p[1],), out)
                else:
                    out.append(p)
            return out
        a, b = flat(got, []), flat(want, [])
        ends = []           # signed interval ends of epoch pieces
        for sg, seq in ((1, a), (-1, b)):
            for p in list(seq):
                if p[0] == 'v' and p[5] in (1, -1):
                    ends.append((sg, p[1], p[4], p[3]))
                    ends.append((-sg, p[1], p[4], p[2]))
                    seq.remove(p)
        bal = []
        for sg, e, f, x in ends:
            for t in bal:
                if t[1] == e and t[2] == f and (t[3] == x or st.eq(t[3] - x)):
                    t[0] += sg
                    break
            else:
                bal.append([sg, e, f, x])
        if any(t[0] for t in bal):
            return 'content:mset'
        for p in list(a):
            for q in list(b):
                if seq_cmp(st, (p,), (q,))[0] == 'eq':
                    a.remove(p)
                    b.remove(q)
                    break
        if a or b:
            return 'content:mset'
        gs = [p for p in got if p[0] == 'sorted']
        ws = [p for p in want if p[0] == 'sorted']
        if ws:
            return 'content:ties' if len(gs) == 1 and len(got) == 1 and gs[0][2:] == ws[0][2:] else 'content:order'
        # one value put at another place: within the run of its equals?
        cells = [p for p in got if p[0] == 'c']
        if len(cells) == 1 and got and got[0][0] == 'v' and got[0][1] == 0 and isinstance(cells[0][1], Sym):
            q = got[0][3] if len(got) > 1 and got[1][0] == 'c' else ZERO
            x = cells[0][1].t
            if st.ge(q - self.pl(x)) and st.ge(self.pr(x) - q):
                return 'content:ties'
        return 'content:order'

    def reaches(self, st, v, r, d):
        if v == r:
            return True
        if d > 3:
            return False
        if isinstance(v, Ref) and v != self.selfref:
            o = st.o(v)
            if isinstance(o, ListO):
                return any(p[0] == 'c' and self.reaches(st, p[1], r, d + 1) for p in o.seq)
            if isinstance(o, ObjO):
                return any(self.reaches(st, x, r, d + 1) for x in o.fields.values())
        if isinstance(v, Tup):
            return any(self.reaches(st, x, r, d + 1) for x in v.items)
        return False

    def structure(self, ip, st, add):
        lists = self.fseq(st, '_lists')
        maxes = self.fseq(st, '_maxes')
        if lists is None or maxes is None:
            add('sync', UNK, 'fields not tracked')
            return
        # lengths
        cont = self.flat(st, lists)
        ln = st.field(self.selfref, '_len')
        if cont is not None and isinstance(ln, Lin):
            want = seqlen(st, cont)
            if st.eq(ln, want):
                add('len', OK, '')
            elif has_unknown(ln) or has_unknown(want):
                add('len', UNK, '_len = %s, content has %s' % (show(ln), show(want)))
            else:
                add('len', BAD, '_len = %s but the content has %s values' % (show(ln), show(want)))
        else:
            add('len', UNK, '_len not tracked')
        ld = st.field(self.selfref, '_load')
        if ld == (LOAD if self.newload is None else self.newload):
            add('load', OK, '')
        else:
            add('load', BAD if isinstance(ld, Lin) else UNK, '_load becomes %s' % show(ld))
        # runs and maxima
        for v, why in self.align(ip, st.copy(), lists, maxes, 'm'):
            add({'shape': 'size', 'empty': 'empty'}.get(v[1], 'sync'), v[0], why)
        if self.keyed:
            keys = self.fseq(st, '_keys')
            if keys is None:
                add('sync', UNK, '_keys not tracked')
            else:
                for v, why in self.align(ip, st.copy(), lists, keys, 'k'):
                    add('sync', v[0], why)
        self.index_ok(ip, st, lists, add)

    def cellseq(self, st, v):
        if isinstance(v, Ref) and isinstance(st.o(v), ListO):
            return st.o(v).seq
        if isinstance(v, Sub):
            return v.seq
        return None

    def align(self, ip, st, lists, other, mode):
        """Pair the sublists with their maxima (mode m) or key lists (mode k)."""
        res = []
        work = [(st, tuple(lists), tuple(other))]
        n = 0
        what = 'maximum' if mode == 'm' else 'key list'
        while work:
            n += 1
            if n > 60 + 2 * (len(lists) + len(other)):
                res.append(((UNK, 'sync'), 'alignment too complex'))
                return res
            s, x, y = work.pop()
            if not x and not y:
                res.append(((OK, 'sync'), ''))
                continue
            # drop empty runs
            done = False
            for w, r in ((0, x), (1, y)):
                if r and r[0][0] in ('L', 'm', 'chunks', 'clast', 'n'):
                    l = plen(s, r[0])
                    if not s.ge(l - 1):
                        for s2, nz in fork_ge(s, l - 1):
                            if nz:
                                work.append((s2, x, y))
                            else:
                                work.append((s2, x[1:] if w == 0 else x, y[1:] if w == 1 else y))
                        done = True
                        break
            if done:
                continue
            if not x or not y:
                r = x or y
                if has_unknown(r) or r[0][0] == 'x':
                    res.append(((UNK, 'sync'), 'unknown part'))
                else:
                    res.append(((BAD, 'sync'), 'there is %s without a %s: %s' % (('a sublist', what) if x else ('a ' + what, 'sublist')) + (show(r),)) if False else
                               ((BAD, 'sync'), ('a sublist has no %s' % what) if x else ('a %s has no sublist' % what)))
                continue
            p, q = x[0], y[0]
            if p[0] == 'L' and (q[0] == 'm' and mode == 'm' or q[0] == 'L' and mode == 'k'):
                if p[1] != q[1] or q[0] == 'm' and q[4] != 1 or q[0] == 'L' and (q[5], q[6]) != (1, 1) or (p[5], p[6]) != (1, 1):
                    res.append(((BAD, 'sync'), '%s out of order' % what))
                    continue
                if q[0] == 'L' and q[4] != 'k':
                    res.append(((BAD, 'sync'), 'key lists hold values'))
                    continue
                if p[4] != 'v':
                    res.append(((BAD, 'sync'), 'value lists hold keys'))
                    continue
                fs = fork_eq(s, p[2] - q[2])
                ne = [f for f, z in fs if not z]
                if ne:
                    res.append(((BAD, 'sync'), 'sublist %s paired with the %s of sublist %s' % (show(p[2]), what, show(q[2]))))
                    continue
                s = fs[0][0]
                lp, lq = plen(s, p), plen(s, q)
                for s2, ge in fork_ge(s, lq - lp):
                    if ge:
                        _, rest = psplit(s2, q, lp)
                        work.append((s2, x[1:], (rest,) + y[1:]))
                    else:
                        _, rest = psplit(s2, p, lq)
                        work.append((s2, (rest,) + x[1:], y[1:]))
                continue
            if p[0] == 'chunks' and q[0] == ('clast' if mode == 'm' else 'chunks'):
                if p[0] == 'chunks' and not s.ge((self.newload if self.newload is not None else LOAD) * 2 - p[2]):
                    res.append(((BAD, 'shape'), 'runs of %s values are built' % show(p[2])))
                if not s.ge(p[2] - 1):
                    res.append(((UNK, 'shape'), 'chunk size'))
                want = mapkey(p[1]) if self.keyed or mode == 'k' else p[1]
                v, _ = seq_cmp(s, q[1], want)
                if v == 'eq' and p[2] == q[2]:
                    work.append((s, x[1:], y[1:]))
                else:
                    res.append(((BAD if v == 'ne' or v == 'eq' else UNK, 'sync'), '%ss do not match the runs' % what))
                continue
            if p[0] == 'L':
                one, rest = psplit(s, p, 1)
                sub = pelem(s, p, ZERO)
                x = (('c', sub), rest) + x[1:]
                p = x[0]
            if q[0] in ('m', 'L'):
                one, rest = psplit(s, q, 1)
                y = (('c', pelem(s, q, ZERO)), rest) + y[1:]
                q = y[0]
            if p[0] != 'c' or q[0] != 'c':
                res.append(((UNK, 'sync'), 'cannot pair %s with %s' % (show(p), show(q))))
                continue
            cs = self.cellseq(s, p[1])
            if cs is None:
                vague = has_unknown(p[1]) or isinstance(p[1], Sym) and p[1].t[0] in ('getitem', 'call')
                res.append(((UNK if vague else BAD, 'sync'), 'not a sublist: %s' % show(p[1])))
                continue
            n_ = seqlen(s, cs)
            if mode == 'm':
                fs = fork_ge(s, n_ - 1)
                if any(not b for _, b in fs):
                    res.append(((UNK if has_unknown(n_) else BAD, 'empty'), 'a sublist of length %s may be empty' % show(n_)))
                ok = [f for f, b in fs if b]
                if not ok:
                    continue
                s = ok[0]
                if not s.ge((self.newload if self.newload is not None else LOAD) * 2 - n_):
                    res.append(((UNK if has_unknown(n_) else BAD, 'shape'), 'a sublist may reach length %s' % show(n_)))
                for s2, k, off in locate(s, cs, n_ - 1):
                    last = pelem_x(s2, cs[k], off)
                    a = (('c', last),)
                    if self.keyed:
                        a = mapkey(a)
                    v, s3 = seq_cmp(s2, a, (('c', q[1]),))
                    if v == 'eq':
                        work.append((s2, x[1:], y[1:]))
                    else:
                        res.append(((BAD if v == 'ne' else UNK, 'sync'), 'cached maximum %s of a sublist ending in %s' % (show(q[1]), show(last))))
            else:
                ks = self.cellseq(s, q[1])
                if ks is None:
                    res.append(((UNK, 'sync'), 'not a key list'))
                    continue
                v, s3 = seq_cmp(s, mapkey(cs), ks)
                if v == 'eq':
                    work.append((s, x[1:], y[1:]))
                else:
                    res.append(((BAD if v == 'ne' else UNK, 'sync'), 'keys %s beside values %s' % (show(norm(s3, ks)), show(norm(s3, cs)))))
        return res

    def index_flat(self, ip, st):
        """For a known number of sublists: is the index, element by element,
        the heap of their lengths that the other methods rely on?  True: it is;
        False: a walk from root to leaf or back goes wrong; None: not known."""
        ix, seq = st.field(self.selfref, '_index'), self.fseq(st, '_lists')
        sh = self.shape(st, seq) if seq is not None else None
        if sh is None or not isinstance(ix, Ref) or not isinstance(st.o(ix), ListO):
            return None
        row = []
        for p in sh:
            if p[0] == 'n' and (p[3] - p[2]).is_const():
                row += [mkG(p[1], p[2] + k + 1) - mkG(p[1], p[2] + k) for k in range((p[3] - p[2]).c)]
            else:
                return None
        got = ip.explode(st, st.o(ix).seq)
        o = st.field(self.selfref, '_offset')
        if got is None or not row or not isinstance(o, Lin) or not all(isinstance(x[1], Lin) for x in got):
            return None
        if len(row) == 1:
            return True if len(got) == 1 and st.eq(got[0][1] - row[0]) and st.eq(o) else None
        size = 1
        while size < len(row):
            size *= 2
        if len(got) == size - 1 + len(row) and st.eq(o - size + 1) and all(st.eq(x[1] - y) for x, y in zip(got, heap(row, size))):
            return True
        if st.approx or any(has_unknown(x[1]) for x in got) or has_unknown(o):
            return None
        # any deeper heap serves the walks as well; they read left children only
        if o.is_const() and o.c >= 0 and (o.c + 1) & o.c == 0 and o.c + 1 >= len(row) and len(got) >= o.c + len(row):
            want = heap(row, o.c + 1)
            if all(st.eq(got[k][1] - want[k]) for k in range(1, len(want), 2)):
                return None
            return False
        return False if o.is_const() else None

    def heap_layout(self):
        """Small containers are indexed by the usual heap."""
        if self._heap is None:
            from .specs import sublists
            self._heap = True
            for k in (2, 4, 8):
                ip = self.fresh_interp()
                st = self.entry(ip)
                self.NOCONTRACT = ('_build_index',)
                sublists(k, False)(self, ip, st)
                try:
                    for s, f in ip.getattr(st, self.selfref, '_build_index'):
                        for s2, v in ip.call(s, f, [], {}, None):
                            if isinstance(v, Exc) or self.index_flat(ip, s2) is not True:
                                self._heap = False
                except Undecided:
                    self._heap = False
        return self._heap

    _heap = None

    def index_ok(self, ip, st, lists, add):
        ix = st.field(self.selfref, '_index')
        if not isinstance(ix, Ref) or not isinstance(st.o(ix), ListO):
            add('index', UNK, '_index not tracked')
            return
        seq = st.o(ix).seq
        if seq == ():
            add('index', OK, 'cleared')
            return
        if not is_tree(seq):
            if self.index_flat(ip, st) is True:
                add('index', OK, 'the tree of the lengths')
                return
            add('index', UNK, '_index holds %s' % show(seq))
            return
        base = seq[0][1]
        adds = seq[0][2] if seq[0][0] == 'tree' else ()
        sh = self.shape(st, lists)
        if sh is None:
            add('index', UNK, 'shape not tracked')
            return
        if seq[0][0] == 'iv':
            # a built index describes at least two sublists
            st = st.copy()
            if not st.a_ge(shapelen(base) - 2):
                add('index', OK, 'empty')
                return
        off = st.field(self.selfref, '_offset')
        if not (isinstance(off, Lin) and st.eq(off, A('off', base))):
            add('index', BAD, '_offset no longer matches the index')
        deltas = []
        work = [(st.copy(), sh, base, ZERO, ())]
        n = 0
        while work:
            n += 1
            if n > 40:
                add('index', UNK, 'index comparison too complex')
                return
            s, x, y, k, d = work.pop()
            done = False
            for w, r in ((0, x), (1, y)):
                if r and r[0][0] in ('n', 'clen'):
                    l = plen(s, r[0])
                    if not s.ge(l - 1):
                        for s2, nz in fork_ge(s, l - 1):
                            work.append((s2, x if nz or w else x[1:], y if nz or not w else y[1:], k, d))
                        done = True
                        break
            if done:
                continue
            if not x and not y:
                self.index_adds(s, d, adds, add)
                continue
            if not x or not y:
                add('index', BAD, 'the index describes %s sublists' % ('fewer' if x else 'more'))
                continue
            p, q = x[0], y[0]
            if p[0] == 'clen' or q[0] == 'clen':
                add('index', BAD, 'the index describes an older content')
                continue
            if p[0] == 'n' and q[0] == 'n' and p[1] == q[1]:
                fs = fork_eq(s, p[2] - q[2])
                if any(not z for _, z in fs):
                    add('index', BAD, 'the index is stale: sublist %s counted as sublist %s' % (show(p[2]), show(q[2])))
                    continue
                s = fs[0][0]
                lp, lq = plen(s, p), plen(s, q)
                for s2, ge in fork_ge(s, lq - lp):
                    if ge:
                        work.append((s2, x[1:], (psplit(s2, q, lp)[1],) + y[1:], k + lp, d))
                    else:
                        work.append((s2, (psplit(s2, p, lq)[1],) + x[1:], y[1:], k + lq, d))
                continue
            if p[0] == 'n' and q[0] == 'n':
                add('index', BAD, 'the index describes an older content')
                continue
            if p[0] == 'n':
                x = (('c', pelem(s, p, ZERO)), psplit(s, p, 1)[1]) + x[1:]
                p = x[0]
            if q[0] == 'n':
                y = (('c', pelem(s, q, ZERO)), psplit(s, q, 1)[1]) + y[1:]
                q = y[0]
            work.append((s, x[1:], y[1:], k + 1, d + ((k, p[1] - q[1]),)))

    def index_adds(self, s, deltas, adds, add):
        if any(a[0] == 'bad' for a in adds):
            add('index', BAD, 'the index is updated along a wrong path (line %s)' % [a[1] for a in adds if a[0] == 'bad'][0])
            return
        deltas = [(p, d) for p, d in deltas if not s.eq(d)]
        groups = []
        for a in adds:
            if a[0] == 'walk':
                _, p, X, lf, R = a
                for g in groups:
                    if s.eq(g[0], p):
                        g[1] += X
                        g[2] += lf
                        g[3] += R
                        break
                else:
                    groups.append([p, X, lf, R])
        singles = [a for a in adds if a[0] == 'one']
        if singles:
            rest = []
            for a in singles:
                hit = False
                for g in groups:
                    if s.eq(a[1]):
                        g[3] += a[2]
                        hit = True
                        break
                    offs = [at_ for at_ in a[1].atoms() if at_[0] == 'off']
                    if offs and s.eq(a[1] - Lin.atom(offs[0]), g[0]):
                        g[2] += a[2]
                        hit = True
                        break
                if not hit:
                    rest.append(a)
            if rest:
                add('index', UNK, 'single index updates')
                return
        for p, d in deltas:
            g = [g for g in groups if s.eq(g[0], p)]
            if not g:
                add('index', BAD, 'the index is stale: sublist %s changed by %s' % (show(p), show(d)))
                return
            g = g[0]
            if not (s.eq(g[1] + g[2], d) and s.eq(g[1], d) and s.eq(g[3], d)):
                add('index', BAD, 'index nodes above sublist %s change by leaf %s, inner %s, root %s, length by %s' % (show(p), show(g[1] + g[2]), show(g[1]), show(g[3]), show(d)))
                return
            groups.remove(g)
        for g in groups:
            if not (s.eq(g[1]) and s.eq(g[2]) and s.eq(g[3])):
                add('index', BAD, 'index nodes above sublist %s change although its length does not' % show(g[0]))
                return
        add('index', OK, 'maintained' if deltas else '')

    # ------------------------------------------------------------ new instances
    def new_instance(self, ip, st, v, want, dyn=True, cls=None, key=None):
        """Check that v is a fresh valid instance with the given content.
        The reason starts with the guarantee concerned: [share], [class],
        [key], [state], [content:*]."""
        if v == self.selfref:
            return BAD, '[share] returns the container itself'
        if not isinstance(v, Ref) or not isinstance(st.o(v), ObjO):
            return (UNK if isinstance(v, Sym) else BAD), '[class] returns %s, not a new container' % show(v)
        o = st.o(v)
        if o.cls.name != (cls or self.cls):
            return BAD, '[class] returns a %s' % o.cls.name
        if dyn and '$dyn' not in o.fields:
            return BAD, '[class] loses the class of a subclass instance'
        if self.keyed and o.fields.get('_key') != (key or KEY):
            return (BAD if '_key' in o.fields else UNK), '[key] key of the new container is %s' % show(o.fields.get('_key'))
        old, oldr, om = self.selfref, self.refs, self.newload
        shared = [k for k, r in oldr.items() if any(x == r for x in o.fields.values())]
        if shared:
            return BAD, '[share] the new container shares %s' % ', '.join(shared)
        self.selfref = v
        self.newload = o.fields.get('_load')
        try:
            bad = []
            self.structure(ip, st, lambda k, w, y: bad.append((k, w, y)) if w != OK else None)
            cont = self.content(st)
        finally:
            self.selfref, self.newload = old, om
        for k, w, y in bad:
            if w == BAD:
                return BAD, '[state] new container: ' + str(y)
        if bad:
            return UNK, 'new container: ' + str(bad[0][2])
        if cont is None:
            return UNK, 'content of the new container'
        r, s2 = seq_cmp(st, cont, want)
        if r == 'eq':
            return OK, ''
        return (BAD if r == 'ne' else UNK), '[%s] new container holds %s where %s is due' % (self.classify(st, cont, want), show(norm(s2, cont)), show(want))

    newload = None

    # ------------------------------------------------------------ running
    def method_fn(self, st, name):
        r = self.prog.lookup('sortedlist', self.cls, name)
        return r

    def run(self, name, args, spec, variant='', kw=None, pre=None, setup=None, nocontract=(), fail=None, go=None):
        """Analyse one method; returns (obligations, stats)."""
        ip = self.fresh_interp()
        self.NOCONTRACT = nocontract
        self.failmode = fail
        st = self.entry(ip)
        if setup is not None:
            args = setup(self, ip, st) or args
        if pre is not None:
            pre(self, st)
        obs = []
        stats = {'method': '%s.%s' % (self.cls, name), 'variant': variant, 'exits': 0}
        try:
            res = []
            for s, f in ip.getattr(st, self.selfref, name) if go is None else ():
                if isinstance(f, Exc):
                    res.append((s, f))
                else:
                    res.extend(ip.call(s, f, list(args), dict(kw or {}), None))
            if go is not None:
                res = go(self, ip, st)
            for s, v in res:
                stats['exits'] += 1
                if not s.facts.consistent():
                    continue
                if isinstance(v, Exc) and v.kind == 'User':
                    obs.extend(self.obligations(ip, s, Exp(), v))
                    continue
                for s2, exp in spec(self, ip, s):
                    obs.extend(self.obligations(ip, s2, exp, v))
        except Undecided as u:
            obs.append(Ob('analysis', UNK, str(u)))
        for why in ip.incomplete:
            obs.append(Ob('analysis', UNK, 'incomplete: ' + why))
        for o in obs:
            o.cls, o.method, o.variant = self.cls, name, variant
        stats['steps'] = ip.steps
        stats['funcs'] = sorted('%s.%s' % (f[1] or '', f[2]) for f in ip.funcs)
        stats['sites'] = len(ip.sites)
        stats['branches'] = len(ip.branches)
        return obs, stats


def ip_assigned(n):
    from .loops import assigned
    return assigned(n.body, [n.target])


def show(x):
    from .show import show as sh
    return sh(x)
