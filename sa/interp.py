"""Abstract interpreter for the program under analysis (trace partitioned).

Every evaluation function owns the state it is given and returns a list of
(state, value) pairs, one per distinguished abstract path; a raised exception
is the value Exc(kind, payload)."""
import ast
from .core import *
from .prog import mangle
from .loops import Loops
from .lists import Lists
from .builtins_ import Builtins
from .sets import Sets

MAXDEPTH = 24
MAXPATHS = 4000


class Interp(Loops, Lists, Builtins, Sets):
    def __init__(self, prog):
        self.prog = prog
        self.contracts = None        # callable(interp, st, selfref, ownercls, name, args, kw) -> results | None
        self.incomplete = []         # reasons why some executions were not covered
        self.steps = 0
        self.unroll = 2
        self.probe = None       # frame whose loop is being probed for an invariant
        self.firsts = []             # registered (epoch, value term, start Lin|None)
        self.funcs = set()           # functions interpreted
        self.branches = set()
        self.sites = set()           # call sites interpreted
        self.modes = set()
        self.top = None
        self.raise_user = True
        self.keyfn = NONE

    # ------------------------------------------------------------ helpers
    def bind(self, results, k):
        out = []
        for st, v in results:
            if isinstance(v, Exc):
                out.append((st, v))
            else:
                out.extend(k(st, v))
        return out

    def may_raise(self, st, what):
        if not self.raise_user:
            return []
        s = st.copy()
        return [(s, Exc('User', what))]

    def exc(self, st, kind, *args):
        return [(st, Exc(kind, args))]

    def note(self, node, what=None):
        pass

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('step budget')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, st)

    def ev_list(self, es, st):
        """Evaluate expressions left to right: list of (st, [values]) or Exc."""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        for s3, seq in self.iter_seq(s2, v):
                            if isinstance(seq, Exc):
                                nxt.append((s3, seq))
                            elif all(p[0] == 'c' for p in seq):
                                nxt.append((s3, vs + [p[1] for p in seq]))
                            else:
                                nxt.append((s3, vs + [('*', seq)]))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            res = nxt
        return res

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None:
            return [(st, C(v))]
        if isinstance(v, int):
            return [(st, Lin(v))]
        return [(st, C(v))]

    def ev_Name(self, e, st):
        return [(st, self.lookup_name(st, e.id, e))]

    def lookup_name(self, st, name, node=None):
        fid = st.cur
        first = True
        while fid is not None:
            fr = st.frames[fid]
            nm = name
            cls = fr.get('$cls')
            if cls:
                nm = mangle(name, cls)
            if nm in fr:
                return fr[nm]
            if name in fr:
                return fr[name]
            if first and name in fr.get('$locals', ()):
                return Exc('UnboundLocalError', (name,))
            first = False
            fid = fr.get('$parent')
        mod = st.frames[st.cur]['$mod']
        cls = st.frames[st.cur].get('$cls')
        r = self.prog.resolve(mod, name)
        if r is None and cls:
            r = self.prog.resolve(mod, mangle(name, cls))
        if r is not None:
            return self.global_value(st, r, name)
        if name == 'NotImplemented':
            return NOTIMPL
        if name == 'Ellipsis':
            return C(Ellipsis)
        if name in PYBUILTINS:
            return Bi(name)
        return Exc('NameError', (name,))

    def global_value(self, st, r, name):
        if r[0] == 'class':
            if r[1] == '_abc' or r[1] == 'ext':
                return Bi('abc.' + r[2])
            return Cls(r[2], r[1])
        if r[0] == 'func':
            return Fn(r[2], None, None, r[1], r[2].name)
        if r[0] == 'ext':
            return Bi(CANON.get(r[1], r[1]))
        if r[0] == 'extmod' or r[0] == 'module':
            return Bi('mod:' + r[1])
        if r[0] == 'expr':
            e = r[2]
            if isinstance(e, ast.Constant):
                return Lin(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else C(e.value)
            # evaluate once in an empty frame
            key = ('$global', r[1], name)
            if key in st.heap:
                return st.heap[key]
            fid = uid()
            st.frames[fid] = {'$mod': r[1], '$parent': None, '$cls': None}
            cur, st.cur = st.cur, fid
            res = self.ev(e, st)
            if len(res) != 1:
                raise Undecided('global %s' % name)
            s, v = res[0]
            if s is not st:
                raise Undecided('global %s' % name)
            st.cur = cur
            st.heap[key] = v
            return v
        raise Undecided('name %s' % name)

    def ev_Attribute(self, e, st):
        cls = st.frames[st.cur].get('$cls')
        attr = mangle(e.attr, cls) if cls else e.attr
        return self.bind(self.ev(e.value, st), lambda s, v: self.getattr(s, v, attr, e))

    def ev_NamedExpr(self, e, st):
        def k(s, v):
            s.var(e.target.id, v)
            return [(s, v)]
        return self.bind(self.ev(e.value, st), k)

    def ev_Tuple(self, e, st):
        def k(s, vs):
            if any(isinstance(v, tuple) and not hasattr(v, '_fields') and v and v[0] == '*' for v in vs):
                return [(s, s.new(ListO(self.vals_to_seq(vs), 'tuple')))]
            return [(s, Tup(tuple(vs)))]
        return self.bind(self.ev_list(e.elts, st), k)

    def vals_to_seq(self, vs):
        out = []
        for v in vs:
            if type(v) is tuple and v and v[0] == '*':
                out.extend(v[1])
            else:
                out.append(('c', v))
        return tuple(out)

    def ev_List(self, e, st):
        return self.bind(self.ev_list(e.elts, st),
                         lambda s, vs: [(s, s.new(ListO(self.vals_to_seq(vs), 'list')))])

    def ev_Set(self, e, st):
        def k(s, vs):
            r = s.new(SetO(('empty',), 'set'))
            res = [(s, r)]
            for v in vs:
                res = self.bind(res, lambda s2, r2: self.call(s2, BB(r, 'add'), [v], {}, e))
                res = [(s2, r if not isinstance(x, Exc) else x) for s2, x in res]
            return res
        return self.bind(self.ev_list(e.elts, st), k)

    def ev_Dict(self, e, st):
        r = st.new(DictO(('empty',), ()))
        res = [(st, r)]
        for kk, vv in zip(e.keys, e.values):
            if kk is None:
                def k(s, _, vv=vv):
                    return self.bind(self.ev(vv, s), lambda s2, v: [(s3, x if isinstance(x, Exc) else r) for s3, x in self.call(s2, BB(r, 'update'), [v], {}, e)])
            else:
                def k(s, _, kk=kk, vv=vv):
                    return self.bind(self.ev_list([kk, vv], s), lambda s2, p: [(s3, x if isinstance(x, Exc) else r) for s3, x in self.setitem(s2, r, p[0], p[1], e)])
            res = self.bind(res, k)
        return res

    def ev_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return self.bind(self.ev_list(parts, st), lambda s, v: [(s, Slice(*v))])

    def ev_Subscript(self, e, st):
        def k(s, vs):
            return self.getitem(s, vs[0], vs[1], e)
        return self.bind(self.ev_list([e.value, e.slice], st), k)

    def ev_Lambda(self, e, st):
        fr = st.frames[st.cur]
        return [(st, Fn(e, st.cur, fr.get('$cls'), fr['$mod'], '<lambda>'))]

    def ev_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s))
        return out

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = self.ev(e.values[0], st)
        for nxt in e.values[1:]:
            out = []
            for s, v in res:
                if isinstance(v, Exc) or type(v) is tuple and v and v[0] == '$done':
                    out.append((s, v))
                    continue
                for s2, b in self.truth(s, v):
                    if isinstance(b, Exc):
                        out.append((s2, b))
                    elif b == isand:
                        out.extend(self.ev(nxt, s2))
                    else:
                        # keep the decided value; a decided opaque value collapses to its truth
                        out.append((s2, ('$done', v if not isinstance(v, Sym) else v)))
            res = out
        return [(s, v[1] if type(v) is tuple and v and v[0] == '$done' else v) for s, v in res]

    def cond(self, e, st):
        """Evaluate a condition: list of (state, bool)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else (not b)) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res = [(st, isand)]
            for x in e.values:
                out = []
                for s, b in res:
                    if isinstance(b, Exc) or b != isand:
                        out.append((s, b))
                    else:
                        out.extend(self.cond(x, s))
                res = out
            return res
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        ln = getattr(e, 'lineno', 0)
        for s, b in out:
            if not isinstance(b, Exc):
                s.trace = s.trace + ((ln, b),)
                self.branches.add((ln, b))
        return out

    def truth(self, st, v):
        if isinstance(v, C):
            return [(st, bool(v.v) if v.v is not NotImplemented else True)]
        if isinstance(v, Lin):
            return [(s, not z) for s, z in fork_eq(st, v)]
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, (Fn, BM, Bi, BB, Cls, Slice, Part, ExcV)):
            return [(st, True)]
        if isinstance(v, Sub):
            return [(s, b) for s, b in fork_ge(st, seqlen(st, v.seq) - 1)]
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                return self.list_truth(st, v, o)
            if isinstance(o, ItO):
                return [(st, True)]
            if isinstance(o, SLO):
                return self.bind(self.sl_len(st, v), self.truth)
            if isinstance(o, SetO):
                return self.set_truth(st, o.term)
            if isinstance(o, DictO):
                return self.set_truth(st, o.keys)
            if isinstance(o, ObjO):
                r = self.class_attr(o.cls, '__bool__')
                if r is None:
                    r = self.class_attr(o.cls, '__len__')
                if r is None and self.is_dict(o):
                    return self.set_truth(st, st.o(o.fields['$dict']).keys)
                if r is None:
                    return [(st, True)]
                nm = '__bool__' if self.class_attr(o.cls, '__bool__') else '__len__'
                return self.bind(self.bind(self.getattr(st, v, nm), lambda s, f: self.call(s, f, [], {}, None)), self.truth)
        if isinstance(v, Sym):
            return self.sym_truth(st, v)
        raise Undecided('truth of %r' % (v,))

    def sym_truth(self, st, v):
        t = v.t
        if t[0] == 'not':
            return [(s, not b) for s, b in self.sym_truth(st, Sym(t[1]))]
        if t[0] in ('cmp', 'in', 'call', 'isinst', 'none', 'unk', 'res'):
            return fork_bool(st, t)
        n = st.facts.boolval(('none', t))
        if n is True:
            return [(st, False)]
        out = []
        for s, b in fork_bool(st, ('true', t)):
            if b and n is None:
                if not s.a_bool(('none', t), False):
                    continue
            if ('ia', t) in self.intargs or s.facts.boolval(('int', t)):
                if not (s.a_ne(A('ia', t)) if b else s.a_eq(A('ia', t))):
                    continue
            out.append((s, b))
        return out

    intargs = ()

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else B(not b)) for s, b in self.cond(e.operand, st)]

        def k(s, v):
            if isinstance(v, C) and isinstance(v.v, bool):
                v = Lin(int(v.v))
            x = self.toint(s, v)
            if isinstance(e.op, ast.USub):
                return [(s, -x)]
            if isinstance(e.op, ast.UAdd):
                return [(s, x)]
            if isinstance(e.op, ast.Invert):
                return [(s, -x - 1)]
            raise Undecided('unary')
        return self.bind(self.ev(e.operand, st), k)

    def toint(self, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, C) and isinstance(v.v, bool):
            return Lin(int(v.v))
        if isinstance(v, Sym):
            if v.t[0] == 'mx' or v.t[0] in ('at', 'key', 'fstr', 'str'):
                raise Undecided('arithmetic on an element')
            if v.t[0] not in ('arg', 'o', 'slice', 'sl'):
                st.imprecise('opaque integer')
            return A('ia', v.t)
        raise Undecided('not an integer: %r' % (v,))

    def ev_BinOp(self, e, st):
        return self.bind(self.ev_list([e.left, e.right], st),
                         lambda s, vs: self.binop(s, type(e.op).__name__, vs[0], vs[1], e))

    def binop(self, st, op, a, b, node=None):
        if isinstance(a, C) and isinstance(a.v, bool):
            a = Lin(int(a.v))
        if isinstance(b, C) and isinstance(b.v, bool):
            b = Lin(int(b.v))
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.intop(st, op, a, b)
        if isinstance(a, C) and isinstance(a.v, str) or isinstance(b, C) and isinstance(b.v, str) or \
                isinstance(a, Sym) and a.t[0] == 'str' or isinstance(b, Sym) and b.t[0] == 'str':
            if op == 'Add':
                return [(st, self.strcat([a, b]))]
            if op == 'Mod' and isinstance(a, C):
                return [(st, self.strfmt_percent(st, a.v, b))]
            return [(st, Sym(('unk', 'str', uid())))]
        if isinstance(a, C) and isinstance(b, C):
            raise Undecided('constant operation')
        if self.is_listlike(st, a) or self.is_listlike(st, b):
            return self.list_binop(st, op, a, b)
        oa = st.o(a) if isinstance(a, Ref) else None
        ob = st.o(b) if isinstance(b, Ref) else None
        if isinstance(oa, (SetO, DictO)) or isinstance(ob, (SetO, DictO)) and not isinstance(oa, ObjO):
            r = self.set_binop(st, op, a, b)
            if r is not None:
                return r
        if isinstance(oa, ObjO):
            return self.obj_binop(st, op, a, b)
        if isinstance(ob, ObjO) and isinstance(a, Sym):
            return [(st, Sym(('unk', 'binop', uid())))]
        if isinstance(a, Sym) and isinstance(b, Lin) or isinstance(a, Lin) and isinstance(b, Sym) or isinstance(a, Sym) and isinstance(b, Sym):
            return self.intop(st, op, self.toint(st, a), self.toint(st, b))
        raise Undecided('binop %s %r %r' % (op, a, b))

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor'}

    def obj_binop(self, st, op, a, b):
        nm = self.DUNDER.get(op)
        if nm is None:
            raise Undecided('operator')
        f = self.getattr(st, a, '__%s__' % nm)
        return self.bind(f, lambda s, fn: self.call(s, fn, [b], {}, None))

    def intop(self, st, op, a, b):
        if op == 'Add':
            return [(st, a + b)]
        if op == 'Sub':
            return [(st, a - b)]
        if op == 'Mult':
            if b.is_const():
                return [(st, a * b.c)]
            if a.is_const():
                return [(st, b * a.c)]
            x, y = sorted([a, b], key=repr)
            return [(st, A('mul', x, y))]
        if op == 'LShift' and b.is_const() and 0 <= b.c < 64:
            return [(st, a * (1 << b.c))]
        if op == 'RShift' and b.is_const() and 0 <= b.c < 64:
            return [(st, shr(a, b.c))]
        if op == 'FloorDiv':
            if b.is_const() and b.c > 0:
                if b.c & (b.c - 1) == 0:
                    return [(st, shr(a, b.c.bit_length() - 1))]
                return [(st, A('floordiv', a, b.c))]
        if op == 'Mod' and b.is_const() and b.c > 0:
            if b.c & (b.c - 1) == 0:
                k = b.c.bit_length() - 1
                return [(st, a - shr(a, k) * b.c)]
            return [(st, a - A('floordiv', a, b.c) * b.c)]
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.c > 0 and (y.c + 1) & y.c == 0:
                    k = (y.c + 1).bit_length() - 1
                    return [(st, x - shr(x, k) * (y.c + 1))]
        if op == 'Pow' and a.is_const() and b.is_const() and 0 <= b.c < 64:
            return [(st, Lin(a.c ** b.c))]
        if op == 'Pow' and a.is_const() and a.c == 2:
            return [(st, A('pow2', b))]
        if op in ('Div',):
            return [(st, Sym(('unk', 'div', uid())))]
        if a.is_const() and b.is_const():
            import operator as o
            f = {'BitAnd': o.and_, 'BitOr': o.or_, 'BitXor': o.xor}.get(op)
            if f:
                return [(st, Lin(f(a.c, b.c)))]
        return [(st, A('unk', 'int', uid()))]

    def ev_Compare(self, e, st):
        def step(s, left, i):
            if i == len(e.ops):
                return [(s, TRUE)]
            out = []
            for s2, right in self.ev(e.comparators[i], s):
                if isinstance(right, Exc):
                    out.append((s2, right))
                    continue
                for s3, v in self.compare(s2, type(e.ops[i]).__name__, left, right, e):
                    if isinstance(v, Exc) or i == len(e.ops) - 1:
                        out.append((s3, v))
                        continue
                    for s4, b in self.truth(s3, v):
                        if isinstance(b, Exc) or not b:
                            out.append((s4, b if isinstance(b, Exc) else FALSE))
                        else:
                            out.extend(step(s4, right, i + 1))
            return out
        return self.bind(self.ev(e.left, st), lambda s, l: step(s, l, 0))

    # ------------------------------------------------------------ comparisons
    CMP = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}

    def compare(self, st, op, a, b, node=None):
        if op in ('Is', 'IsNot'):
            return [(s, B(r == (op == 'Is'))) for s, r in self.is_same(st, a, b)]
        if op in ('In', 'NotIn'):
            res = self.contains(st, b, a, node)
            if op == 'In':
                return res
            out = []
            for s, v in res:
                if isinstance(v, Exc):
                    out.append((s, v))
                else:
                    out.extend((s2, x if isinstance(x, Exc) else B(not x)) for s2, x in self.truth(s, v))
            return out
        return self.rel(st, self.CMP[op], a, b)

    def is_same(self, st, a, b):
        if a == b and not isinstance(a, Lin):
            return [(st, True)]
        if isinstance(a, (Cls, Dyn)) and isinstance(b, (Cls, Dyn)):
            return [(st, (a.name, a.mod) == (b.name, b.mod))]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and y == NONE:
                if x.t[0] in ('at', 'key', 'mx', 'el', 'item', 'cmp', 'str', 'fresh') and x.t[0] != 'item':
                    # keys are comparable values, so never None (assumption)
                    if x.t[0] in ('key', 'cmp', 'str', 'fresh'):
                        return [(st, False)]
                out = []
                for s, r in fork_bool(st, ('none', x.t)):
                    if r and s.facts.boolval(('true', x.t)):
                        continue
                    out.append((s, r))
                return out
        if isinstance(a, Sym) and isinstance(b, Sym):
            if {a.t[0], b.t[0]} & {'sentinel'}:
                pass
            return fork_bool(st, ('is',) + tuple(sorted((a.t, b.t), key=repr)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(y, Ref) and isinstance(st.o(y), (ListO, ItO, SetO)):
                return [(st, False)]
            return fork_bool(st, ('is', x.t, y))
        if isinstance(a, Lin) and isinstance(b, Lin):
            return fork_eq(st, a - b)
        return [(st, False)]

    def rel(self, st, op, a, b):
        """Relational operator op in eq ne lt le gt ge."""
        if isinstance(a, C) and isinstance(a.v, bool):
            a = Lin(int(a.v))
        if isinstance(b, C) and isinstance(b.v, bool):
            b = Lin(int(b.v))
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Sym) and a.t[0] not in ('at', 'key', 'mx'):
                a = self.toint(st, a) if a.t[0] not in ('fstr', 'str') else A('ia', a.t)
            if isinstance(b, Sym) and b.t[0] not in ('at', 'key', 'mx'):
                b = self.toint(st, b) if b.t[0] not in ('fstr', 'str') else A('ia', b.t)
            if isinstance(a, Lin) and isinstance(b, Lin):
                return self.intrel(st, op, a, b)
            if op in ('eq', 'ne'):
                if NONE in (a, b) or isinstance(a, C) or isinstance(b, C):
                    return [(st, B(op == 'ne'))]
                return [(st, Sym(('cmp', op, tm(a), tm(b))))]
            if NONE in (a, b):
                return self.exc(st, 'TypeError', 'compare None')
        if isinstance(a, C) and isinstance(b, C):
            if op == 'eq':
                return [(st, B(a.v == b.v))]
            if op == 'ne':
                return [(st, B(a.v != b.v))]
            try:
                import operator
                return [(st, B(getattr(operator, op)(a.v, b.v)))]
            except TypeError:
                return self.exc(st, 'TypeError', 'compare')
        if isinstance(a, Bi) or isinstance(b, Bi) or isinstance(a, Cls) or isinstance(b, Cls):
            if op in ('eq', 'ne'):
                return [(st, B((a == b) == (op == 'eq')))]
        if isinstance(a, Sym) and isinstance(b, Sym):
            return self.symrel(st, op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ('eq', 'ne'):
            if len(a.items) != len(b.items):
                return [(st, B(op == 'ne'))]
            res = [(st, TRUE)]
            for x, y in zip(a.items, b.items):
                out = []
                for s, v in res:
                    if v != TRUE:
                        out.append((s, v))
                        continue
                    for s2, w in self.rel(s, 'eq', x, y):
                        if isinstance(w, Exc):
                            out.append((s2, w))
                        else:
                            out.extend((s3, B(t)) for s3, t in self.truth(s2, w))
                res = out
            if op == 'ne':
                res = [(s, v if isinstance(v, Exc) else B(v == FALSE)) for s, v in res]
            return res
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.tuprel(st, op, a.items, b.items)
        oa = st.o(a) if isinstance(a, Ref) else None
        ob = st.o(b) if isinstance(b, Ref) else None
        if isinstance(oa, SetO) or isinstance(ob, SetO):
            return self.set_rel(st, op, a, b)
        if isinstance(oa, ObjO) and not (isinstance(ob, (SetO,))):
            f = self.class_attr(oa.cls, '__%s__' % op)
            if f is not None:
                return self.bind(self.getattr(st, a, '__%s__' % op), lambda s, fn: self.call(s, fn, [b], {}, None))
        if self.is_listlike(st, a) and self.is_listlike(st, b) or (oa is not None and ob is not None):
            return self.seqrel(st, op, a, b)
        if op in ('eq', 'ne') and (a == NONE or b == NONE):
            o = b if a == NONE else a
            if isinstance(o, Sym):
                return [(s, B(r == (op == 'eq'))) for s, r in self.is_same(st, a, b)]
            return [(st, B(op == 'ne'))]
        if isinstance(a, Sym) or isinstance(b, Sym):
            return [(st, Sym(('cmp', op, tm(a), tm(b))))] + self.may_raise(st, 'compare')
        if op in ('eq', 'ne'):
            return [(st, B((a == b) == (op == 'eq')))] if not (isinstance(a, Ref) and isinstance(b, Ref)) else [(st, Sym(('unk', 'cmp', uid())))]
        raise Undecided('compare %s %r %r' % (op, a, b))

    def tuprel(self, st, op, xs, ys):
        """Lexicographic comparison of integer tuples."""
        if not xs or not ys:
            return self.intrel(st, op, Lin(len(xs)), Lin(len(ys)))
        out = []
        for s, v in self.rel(st, 'eq', xs[0], ys[0]):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, b in self.truth(s, v):
                if b:
                    out.extend(self.tuprel(s2, op, xs[1:], ys[1:]))
                else:
                    out.extend(self.rel(s2, op, xs[0], ys[0]))
        return out

    def seqrel(self, st, op, a, b):
        sa = self.seq_of(st, a)
        sb = self.seq_of(st, b)
        if sa is not None and sb is not None and op in ('eq', 'ne'):
            v, s2 = seq_cmp(st, sa, sb)
            if v == 'eq':
                return [(st, B(op == 'eq'))]
            r = self.seq_foreign(st, op, sa, sb) or self.seq_foreign(st, op, sb, sa)
            if r is not None:
                return r
            return [(st, Sym(('cmp', op, ('seq', norm(st, sa)), ('seq', norm(st, sb)))))]
        if sa is not None and sb is not None:
            r = self.seq_foreign(st, op, sa, sb)
            if r is not None:
                return r
            r = self.seq_foreign(st, self.FLIP[op], sb, sa)
            if r is not None:
                return r
        return [(st, Sym(('unk', 'cmp', uid())))]

    def seq_foreign(self, st, op, sa, sb):
        """Lexicographic comparison of the whole content with a foreign sequence."""
        if len(sa) != 1 or len(sb) != 1 or sa[0][0] != 'v' or sb[0][0] != 'o':
            return None
        p, q = sa[0], sb[0]
        if p[4] != 'v' or p[5] != 1 or p[1] in st.defs or not st.eq(p[2]) or not st.eq(p[3], mkLEN(p[1])):
            return None
        la, lb = mkLEN(p[1]), plen(st, q)
        mi = A('mis', p[1], q[1])
        st.a_ge(mi)
        out = self.may_raise(st, 'compare')
        import operator
        for s1, eq in fork_eq(st, la - lb):
            if not eq and op in ('eq', 'ne'):
                out.append((s1, B(op == 'ne')))
                continue
            for s2, ge in fork_ge(s1, la - lb):
                for s3, same in fork_ge(s2, mi - (lb if ge else la)):
                    if same:
                        out.append((s3, B(getattr(operator, op)(0 if eq else 1 if ge else -1, 0))))
                    elif op in ('eq', 'ne'):
                        out.append((s3, B(op == 'ne')))
                    else:
                        out.append((s3, Sym(('cmp', op, ('at', p[1], mi), ('item', q[1], mi)))))
        return out

    def intrel(self, st, op, a, b):
        d = a - b
        if op == 'eq':
            return [(s, B(z)) for s, z in fork_eq(st, d)]
        if op == 'ne':
            return [(s, B(not z)) for s, z in fork_eq(st, d)]
        if op == 'ge':
            return [(s, B(z)) for s, z in fork_ge(st, d)]
        if op == 'lt':
            return [(s, B(not z)) for s, z in fork_ge(st, d)]
        if op == 'le':
            return [(s, B(z)) for s, z in fork_ge(st, -d)]
        if op == 'gt':
            return [(s, B(not z)) for s, z in fork_ge(st, -d)]

    FLIP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}

    def symrel(self, st, op, a, b):
        """Comparison of user values."""
        ta, tb = a.t, b.t
        if ta == tb:
            if op in ('eq', 'le', 'ge'):
                return [(st, TRUE)]
            return [(st, FALSE)]
        ea = self.order_elem(st, ta)
        eb = self.order_elem(st, tb)
        if ea is None and eb is not None:
            return self.symrel(st, self.FLIP[op], b, a)
        if ea is not None:
            e, X, iskey = ea
            keyed = EPKEY.get(e, NONE) != NONE
            if eb is not None and eb[0] == e:
                if iskey == eb[2] and (iskey == keyed):
                    # two stored order-elements: ordered by position
                    Y = eb[1]
                    if op in ('le', 'lt') and st.ge(Y - X) or op in ('ge', 'gt') and st.ge(X - Y):
                        if op in ('le', 'ge'):
                            return [(st, TRUE)]
                    if op in ('lt',) and st.ge(X - Y) or op == 'gt' and st.ge(Y - X):
                        return [(st, FALSE)]
                    if st.eq(X, Y):
                        return [(st, B(op in ('eq', 'le', 'ge')))]
                elif keyed and not iskey and op not in ('eq', 'ne'):
                    st.event('orders-by-value')
                return [(st, Sym(('cmp', op, ta, tb)))]
            if tb[0] == 'item' and not iskey:
                return self.item_rel(st, op, e, X, ta, tb)
            if not keyed and not iskey or keyed and iskey:
                return self.order_rel(st, op, e, X, tb, ta)
            if keyed and not iskey:
                if op in ('eq', 'ne'):
                    return self.value_eq(st, op, e, X, tb)
                st.event('orders-by-value')
        return [(st, Sym(('cmp', op, ta, tb)))] + self.may_raise(st, 'compare')

    def order_elem(self, st, t):
        """(epoch, position, iskey) for a stored element or its key."""
        if t[0] == 'at':
            return t[1], t[2], False
        if t[0] == 'mx':
            e, q = t[1], t[2]
            return e, mkG(e, q + 1) - 1, EPKEY.get(e, NONE) != NONE
        if t[0] == 'key' and t[1][0] == 'at':
            return t[1][1], t[1][2], True
        return None

    def order_rel(self, st, op, e, X, x, elem):
        """Compare the stored order-element at X with order term x."""
        pl, pr = A('pos', e, 0, 'l', x), A('pos', e, 0, 'r', x)
        out = self.may_raise(st, 'compare')
        if op in ('eq', 'ne'):
            for s, lt in fork_ge(st, pl - X - 1):
                if lt:
                    out.append((s, B(op == 'ne')))
                    continue
                for s2, gt in fork_ge(s, X - pr):
                    out.append((s2, B(gt == (op == 'ne'))))
            return out
        if op in ('lt', 'ge'):
            for s, r in fork_ge(st, pl - X - 1):
                out.append((s, B(r == (op == 'lt'))))
            return out
        for s, r in fork_ge(st, pr - X - 1):
            out.append((s, B(r == (op == 'le'))))
        return out

    def value_eq(self, st, op, e, X, v):
        """Equality of the stored value at X with a user value (keyed list)."""
        out = self.may_raise(st, 'compare')
        x = ('key', v)
        pl, pr = A('pos', e, 0, 'l', x), A('pos', e, 0, 'r', x)
        c0, c1 = A('cnt', e, v, X), A('cnt', e, v, X + 1)
        base = st
        known = None
        for t, b in st.facts.bools:
            if t[0] == 'veq' and t[1] == e and t[3] == v and st.eq(t[2], X):
                known = b
        t = base.copy() if known is None else base
        if known is not False:
            if t.a_ge(X - pl) and t.a_ge(pr - 1 - X) and t.a_bool(('veq', e, X, v), True):
                t.a_eq(c1 - c0 - 1)
                for s in self.inst_first(t, e, v, X, True):
                    out.append((s, B(op == 'eq')))
        if known is not True:
            if base.a_bool(('veq', e, X, v), False):
                for s, lt in fork_ge(base, pl - X - 1):
                    if lt:
                        out.append((s, B(op == 'ne')))
                        continue
                    for s2, gt in fork_ge(s, X - pr):
                        if gt:
                            out.append((s2, B(op == 'ne')))
                        else:
                            s2.a_eq(c1 - c0)
                            for s3 in self.inst_first(s2, e, v, X, False):
                                out.append((s3, B(op == 'ne')))
        return out

    def inst_first(self, st, e, v, X, isin):
        """Facts about registered first-match positions."""
        sts = [st]
        for (e2, v2, s0) in self.firsts:
            if e2 != e or v2 != v:
                continue
            ff = A('first', e, v, s0 if s0 is not None else Lin(0))
            if s0 is not None:
                fa = ff.t[0][0]
                if not any(fa in c.atoms() for c in st.facts.ges):
                    continue
            nxt = []
            for s in sts:
                forks = [(s, True)] if s0 is None else fork_ge(s, X - s0)
                for s2, ge in forks:
                    if not ge:
                        nxt.append(s2)
                    elif isin:
                        if s2.a_ge(X - ff):
                            nxt.append(s2)
                    else:
                        if s2.a_ne(X - ff):
                            nxt.append(s2)
            sts = nxt
        return sts

    def item_rel(self, st, op, e, X, ta, tb):
        """Stored element against element of a foreign sequence."""
        oth, j = tb[1], tb[2]
        out = self.may_raise(st, 'compare')
        if op in ('eq', 'ne') and st.eq(X, j):
            mi = A('mis', e, oth)
            st.a_ge(mi)
            t = st.copy()
            # equal: the first mismatch is elsewhere
            if t.a_ne(mi - X):
                out.append((t, B(op == 'eq')))
            if st.a_ge(X - mi):
                out.append((st, B(op == 'ne')))
            return out
        if op in ('lt', 'gt', 'le', 'ge') and st.eq(X, j):
            # the answer of the user comparison at this index
            return out + [(st, Sym(('cmp', op, ta, tb)))]
        return out + [(st, Sym(('cmp', op, ta, tb)))]

    # ------------------------------------------------------------ f-strings
    def ev_JoinedStr(self, e, st):
        parts = []
        exprs = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(('fmt', len(exprs), v.conversion, v.format_spec))
                exprs.append(v.value)

        def k(s, vs):
            out = []
            for p in parts:
                if isinstance(p, C):
                    out.append(p)
                else:
                    x = vs[p[1]]
                    if p[3] is not None:
                        out.append(Sym(('unk', 'fmt', uid())))
                    elif p[2] == ord('r'):
                        out.append(self.repr_val(s, x))
                    else:
                        out.append(self.str_val(s, x))
            return [(s, self.strcat(out))]
        return self.bind(self.ev_list(exprs, st), k)

    def repr_val(self, st, v):
        return Sym(('str', (('repr', self.freeze(st, v)),)))

    def str_val(self, st, v):
        if isinstance(v, C) and isinstance(v.v, str):
            return v
        if isinstance(v, Sym) and v.t[0] == 'str':
            return v
        return Sym(('str', (('tostr', self.freeze(st, v)),)))

    def freeze(self, st, v):
        """A hashable snapshot of a value for use inside terms."""
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ListO):
                return (o.kind, self.deep(st, o.seq))
            if isinstance(o, SetO):
                return ('set', o.term)
            if isinstance(o, SLO):
                return ('sl', o.seq)
            if isinstance(o, DictO):
                return ('dict', o.keys, o.layers)
            return ('obj', v.i)
        return v

    def deep(self, st, seq):
        out = []
        for p in seq:
            if p[0] == 'c':
                out.append(('c', self.freeze(st, p[1])))
            else:
                out.append(p)
        return tuple(out)

    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, C) and isinstance(p.v, str):
                if p.v:
                    if out and isinstance(out[-1], str):
                        out[-1] += p.v
                    else:
                        out.append(p.v)
            elif isinstance(p, Sym) and p.t[0] == 'str':
                for q in p.t[1]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
            else:
                out.append(('tostr', p))
        if not out:
            return C('')
        if len(out) == 1 and isinstance(out[0], str):
            return C(out[0])
        return Sym(('str', tuple(out)))

    def strfmt_percent(self, st, fmt, arg):
        import re
        args = list(arg.items) if isinstance(arg, Tup) else [arg]
        parts = []
        pos = 0
        for m in re.finditer(r'%([rs%])', fmt):
            parts.append(C(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                parts.append(C('%'))
            elif args:
                a = args.pop(0)
                parts.append(self.repr_val(st, a) if m.group(1) == 'r' else self.str_val(st, a))
        parts.append(C(fmt[pos:]))
        return self.strcat(parts)

    # ------------------------------------------------------------ attributes
    def is_dict(self, o):
        return '$dict' in o.fields

    def class_attr(self, cls, name):
        r = self.prog.lookup(cls.mod, cls.name, name)
        return r

    def getattr(self, st, v, name, node=None):
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, ObjO):
                return self.obj_getattr(st, v, o, name)
            if isinstance(o, SLO):
                return self.sl_getattr(st, v, o, name)
            if name == '__class__':
                return [(st, Bi({'ListO': 'list', 'SetO': 'set', 'DictO': 'dict'}.get(type(o).__name__, 'object')))]
            return [(st, BB(v, name))]
        if isinstance(v, (Sub, Slice)):
            if isinstance(v, Slice) and name in ('start', 'stop', 'step'):
                return [(st, {'start': v.a, 'stop': v.b, 'step': v.c}[name])]
            return [(st, BB(v, name))]
        if isinstance(v, Tup):
            return [(st, BB(v, name))]
        if isinstance(v, C):
            return [(st, BB(v, name))]
        if isinstance(v, Sym):
            return self.sym_getattr(st, v, name)
        if isinstance(v, Dyn) or isinstance(v, Cls):
            if name == '__name__':
                return [(st, Sym(('str', (('clsname', v),))))]
            r = self.prog.lookup(v.mod, v.name, name)
            if r is None:
                if name in ('__new__', '__init__'):
                    return [(st, Bi('object.' + name))]
                for c in self.prog.mro(v.mod, v.name):
                    if c == ('ext', 'dict'):
                        return [(st, Bi('dict.' + name))]
                if name in ('__qualname__', '__module__', '__doc__'):
                    return [(st, Sym(('str', (('clsname', v),))))]
                return self.exc(st, 'AttributeError', name)
            return self.class_value(st, v, r, name, None)
        if isinstance(v, Bi):
            if v.name.startswith('mod:'):
                m = v.name[4:]
                if m in self.prog.mods and m != '_abc':
                    r = self.prog.resolve(m, name)
                    if r is not None:
                        return [(st, self.global_value(st, r, name))]
                return [(st, Bi(CANON.get(m + '.' + name, m + '.' + name)))]
            if name == '__name__':
                return [(st, C(v.name.split('.')[-1]))]
            return [(st, Bi(CANON.get(v.name + '.' + name, v.name + '.' + name)))]
        if isinstance(v, SuperV):
            mro = self.prog.mro(v.rt.mod, v.rt.name)
            k = mro.index((v.cls.mod, v.cls.name)) + 1
            for c in mro[k:]:
                if c[0] == 'ext':
                    if c[1] == 'dict':
                        if name == '__new__':
                            return [(st, Bi('object.__new__'))]
                        return [(st, Part(('bi', 'dict.' + name), (v.self,), ()))]
                    continue
                t = self.prog.table(*c)
                if name in t:
                    return self.class_value(st, Cls(c[1], c[0]), (c, t[name]), name, None if name == '__new__' else v.self)
            if name in ('__init__',):
                return [(st, Bi('noop'))]
            if name == '__new__':
                return [(st, Bi('object.__new__'))]
            return [(st, Part(('bi', 'object.' + name), (v.self,), ()))]
        if isinstance(v, (Fn, BM)):
            if name == '__name__':
                return [(st, C(v.name if isinstance(v, Fn) else v.fn.name))]
            if name == '__self__' and isinstance(v, BM):
                return [(st, v.self)]
            if name == '__func__' and isinstance(v, BM):
                return [(st, v.fn)]
            return [(st, Sym(('unk', 'fnattr', uid())))]
        if isinstance(v, BB) and name == '__self__':
            return [(st, v.self)]
        if isinstance(v, ExcV) and name == 'args':
            return [(st, Tup(tuple(v.args)))]
        if isinstance(v, Lin) and name == 'bit_length':
            return [(st, BB(v, name))]
        raise Undecided('attribute %s of %r' % (name, v))

    def sym_getattr(self, st, v, name):
        if v.t[0] == 'dyncls':
            pass
        if name == '__class__':
            return [(st, Sym(('typeof', v.t)))]
        return [(st, BB(v, name))]

    def obj_getattr(self, st, v, o, name):
        r = self.prog.lookup(o.cls.mod, o.cls.name, name)
        if r is not None and r[1][0] == 'wrap' and r[1][1] == 'property':
            ent = r[1][2]
            if ent[0] == 'deco':
                ent = ent[2]
            fn = Fn(ent[1], None, r[0][1], r[0][0], name) if ent[0] == 'def' else None
            if fn is None:
                raise Undecided('property')
            return self.call(st, BM(fn, v), [], {}, None)
        if name in o.fields and not name.startswith('$'):
            return [(st, o.fields[name])]
        if name == '__class__':
            return [(st, Dyn(o.cls.name, o.cls.mod))]
        if name == '__dict__':
            raise Undecided('__dict__')
        if r is not None:
            return self.class_value(st, o.cls, r, name, v)
        if self.is_dict(o):
            return [(st, Part(('bi', 'dict.' + name), (v,), ()))]
        if '$open' in o.fields:
            return [(st, Sym(('attr', v.i, name)))]
        return self.exc(st, 'AttributeError', name)

    def class_value(self, st, cls, r, name, selfv):
        """Value of a class attribute, bound to selfv when given."""
        owner, ent = r
        if ent[0] == 'wrap':
            if ent[1] == 'staticmethod':
                return self.class_value(st, cls, (owner, ent[2]), name, None)
            if ent[1] == 'classmethod':
                inner = ent[2]
                if inner[0] == 'def':
                    fn = Fn(inner[1], None, owner[1], owner[0], name)
                    c = cls
                    if selfv is not None and isinstance(selfv, Ref) and isinstance(st.o(selfv), ObjO):
                        oc = st.o(selfv).cls
                        c = Dyn(oc.name, oc.mod)
                    return [(st, BM(fn, c))]
                raise Undecided('classmethod')
            if ent[1] == 'property':
                return [(st, Sym(('unk', 'property', uid())))]
        if ent[0] == 'deco':
            inner = ent[2]
            if ent[1] in ('recursive_repr', '_recursive_repr'):
                self.modes.add(('recursive_repr', owner, name))
                return self.class_value(st, cls, (owner, inner), name, selfv)
            if ent[1] in ('abstractmethod', 'wraps'):
                return self.class_value(st, cls, (owner, inner), name, selfv)
            raise Undecided('decorator %s' % ent[1])
        if ent[0] == 'def':
            fn = Fn(ent[1], None, owner[1], owner[0], name)
            return [(st, BM(fn, selfv) if selfv is not None else fn)]
        if ent[0] == 'cls':
            return [(st, Cls(ent[1], owner[0]))]
        if ent[0] == 'expr':
            v = self.class_expr(st, owner, ent, name)
            if isinstance(v, Fn) and selfv is not None:
                return [(st, BM(v, selfv))]
            return [(st, v)]
        raise Undecided('class attribute')

    def class_expr(self, st, owner, ent, name):
        """Evaluate a class-body expression in the namespace at that point."""
        key = ('$class', owner, name)
        if key in st.heap:
            return st.heap[key]
        e = ent[1]
        if isinstance(e, ast.Constant):
            return Lin(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else C(e.value)
        ns = ent[2]
        fid = uid()
        st.frames[fid] = fr = {'$mod': owner[0], '$parent': None, '$cls': owner[1].rsplit('.', 1)[-1]}
        for n, en in ns.items():
            if en[0] == 'def':
                fr[n] = Fn(en[1], None, owner[1], owner[0], n)
            elif en[0] == 'wrap' and en[1] == 'staticmethod' and en[2][0] == 'def':
                fr[n] = Fn(en[2][1], None, owner[1], owner[0], n)
            elif en[0] == 'cls':
                fr[n] = Cls(en[1], owner[0])
            elif en[0] == 'expr' and isinstance(en[1], ast.Constant):
                fr[n] = Lin(en[1].value) if isinstance(en[1].value, int) and not isinstance(en[1].value, bool) else C(en[1].value)
        cur, st.cur = st.cur, fid
        res = self.ev(e, st)
        res = [(s, v) for s, v in res if not isinstance(v, Exc)]
        if len(res) != 1:
            raise Undecided('class expression %s' % name)
        s, v = res[0]
        if s is not st:
            # adopt the heap/frames of the evaluated state
            st.heap, st.frames, st.facts = s.heap, s.frames, s.facts
        st.cur = cur
        st.heap[key] = v
        return v

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = st.frames[st.cur]
            if not e.args:
                f = fr
                while f.get('$owner') is None and f.get('$parent') is not None:
                    f = st.frames[f['$parent']]
                ow = f.get('$owner')
                selfv = f.get('$self')
                if ow is None or selfv is None:
                    raise Undecided('super')
                rt = st.o(selfv).cls if isinstance(selfv, Ref) else selfv
                return [(st, SuperV(Cls(ow[1], ow[0]), selfv, rt))]
            if len(e.args) == 2 and not e.keywords:
                def two(s, vs):
                    c, x = vs
                    rt = s.o(x).cls if isinstance(x, Ref) and isinstance(s.o(x), ObjO) else x
                    if not isinstance(c, (Cls, Dyn)) or not isinstance(rt, (Cls, Dyn)):
                        raise Undecided('super')
                    return [(s, SuperV(Cls(c.name, c.mod), x, rt))]
                return self.bind(self.ev_list(list(e.args), st), two)

        kwn = [k.arg for k in e.keywords]
        exprs = [e.func] + list(e.args) + [k.value for k in e.keywords]

        def k(s, vs):
            f = vs[0]
            npos = len(vs) - len(kwn)
            args = vs[1:npos]
            kw = {}
            extra = []
            for n, v in zip(kwn, vs[npos:]):
                if n is None:
                    extra.append(v)
                else:
                    kw[n] = v
            for x in extra:
                kw = dict(kw)
                if isinstance(x, Ref) and isinstance(s.o(x), DictO) and s.o(x).keys == ('empty',):
                    continue
                kw['**'] = x
            self.sites.add((s.frames[s.cur]['$mod'], e.lineno, e.col_offset))
            return self.call(s, f, args, kw, e)
        return self.bind(self.ev_list(exprs, st), k)

    def call(self, st, f, args, kw, node):
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, BM):
            if self.contracts is not None and isinstance(f.self, Ref):
                r = self.contracts(self, st, f.self, f.fn, args, kw)
                if r is not None:
                    return r
            return self.call_fn(st, f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, Bi):
            return self.call_bi(st, f.name, args, kw, node)
        if isinstance(f, BB):
            return self.call_bb(st, f.self, f.name, args, kw, node)
        if isinstance(f, (Cls, Dyn)):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, Part):
            fn = f.fn
            if isinstance(fn, tuple) and not hasattr(fn, '_fields') and fn[0] == 'bi':
                fn = Bi(fn[1])
            if isinstance(fn, tuple) and not hasattr(fn, '_fields') and fn[0] == 'itemgetter':
                if len(fn[1]) == 1:
                    return self.getitem(st, args[0], fn[1][0], node)
                raise Undecided('itemgetter')
            if isinstance(fn, tuple) and not hasattr(fn, '_fields') and fn[0] == 'attrgetter':
                return self.getattr(st, args[0], fn[1], node)
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(st, fn, list(f.args) + list(args), k2, node)
        if isinstance(f, Sym):
            return self.call_sym(st, f, args, kw, node)
        if isinstance(f, C):
            return self.exc(st, 'TypeError', 'not callable')
        if isinstance(f, Ref) and isinstance(st.o(f), ObjO):
            return self.bind(self.getattr(st, f, '__call__'), lambda s, g: self.call(s, g, args, kw, node))
        raise Undecided('call of %r' % (f,))

    def call_sym(self, st, f, args, kw, node):
        if f == self.keyfn or f.t[0] == 'keyfn':
            if len(args) == 1 and not kw:
                a = args[0]
                out = [] if isinstance(a, Sym) and stored_term(a.t) else self.may_raise(st, 'key function')
                t = a.t if isinstance(a, Sym) else ('val', self.freeze(st, a))
                return out + [(st, Sym(('key', t) if f == self.keyfn else ('key2', f.t, t)))]
        if f.t[0] == 'typeof':
            st.event('unknown-call')
        out = self.may_raise(st, 'call of %s' % (f.t,))
        st.imprecise('unknown call')
        return out + [(st, Sym(('call', f.t, tuple(tm(self.freeze(st, a)) for a in args))))]

    def call_fn(self, st, fn, args, kw, node):
        if st.depth > MAXDEPTH:
            raise Undecided('call depth')
        n = fn.node
        if fn.name and not isinstance(n, ast.Lambda):
            self.funcs.add((fn.mod, fn.owner, n.name, n.lineno))
        a = n.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        st_star = None
        i = 0
        for x in args:
            if type(x) is tuple and x and x[0] == '*':
                st_star = x
        if st_star is not None:
            k = args.index(st_star)
            # positional parameters must be filled before the starred part
            head, tail = args[:k], args[k:]
            if len(head) >= len(names) and a.vararg:
                for nm, v in zip(names, head):
                    env[nm] = v
                rest = head[len(names):]
                env[a.vararg.arg] = st.new(ListO(self.vals_to_seq(rest + tail), 'tuple'))
                args = None
            else:
                # fork on the number of starred elements
                return self.call_star(st, fn, head, tail, kw, node)
        if args is not None:
            if len(args) > len(names) and not a.vararg:
                return self.exc(st, 'TypeError', 'too many arguments for %s' % fn.name)
            for nm, v in zip(names, args):
                env[nm] = v
            if a.vararg:
                rest = args[len(names):]
                env[a.vararg.arg] = Tup(tuple(rest))
        kwrest = {}
        star2 = None
        for nm, v in kw.items():
            if nm == '**':
                star2 = v
                continue
            if nm in env:
                return self.exc(st, 'TypeError', 'multiple values for %s' % nm)
            if nm in names and nm not in [x.arg for x in a.posonlyargs] or nm in [x.arg for x in a.kwonlyargs]:
                env[nm] = v
            elif a.kwarg:
                kwrest[nm] = v
            else:
                return self.exc(st, 'TypeError', 'unexpected keyword %s' % nm)
        if a.kwarg:
            if star2 is not None and not (isinstance(star2, Ref) and isinstance(st.o(star2), DictO)):
                if kwrest:
                    raise Undecided('keywords and **')
                env[a.kwarg.arg] = star2
            else:
                d = st.new(st.o(star2) if star2 is not None else DictO(('empty',), ()))
                for nm, v in kwrest.items():
                    self.dict_store(st, d, ('val', C(nm)), v)
                env[a.kwarg.arg] = d
        elif star2 is not None:
            raise Undecided('** to %s' % fn.name)
        # defaults
        defaults = a.defaults
        need = []
        for nm, d in zip(names[len(names) - len(defaults):], defaults):
            if nm not in env:
                need.append((nm, d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                need.append((x.arg, d))
        res = [(st, env)]
        for nm, d in need:
            out = []
            for s, en in res:
                cur = s.cur
                fid = uid()
                s.frames[fid] = {'$mod': fn.mod, '$parent': fn.fid, '$cls': fn.owner.rsplit('.', 1)[-1] if fn.owner else None}
                if fn.owner and fn.fid is None:
                    # defaults see the class namespace
                    for cn, ce in self.prog.table(fn.mod, fn.owner).items():
                        if ce[0] == 'cls':
                            s.frames[fid][cn] = Cls(ce[1], fn.mod)
                        elif ce[0] == 'expr':
                            s.frames[fid].setdefault(cn, ('$lazy', (fn.mod, fn.owner), ce, cn))
                s.cur = fid
                if isinstance(d, ast.Name):
                    cname = mangle(d.id, fn.owner.rsplit('.', 1)[-1]) if fn.owner else d.id
                    lz = s.frames[fid].get(cname)
                    if type(lz) is tuple and lz and lz[0] == '$lazy':
                        s.cur = cur
                        v = self.class_expr(s, lz[1], lz[2], lz[3])
                        en2 = dict(en)
                        en2[nm] = v
                        s.frames.pop(fid, None)
                        out.append((s, en2))
                        continue
                for s2, v in self.ev(d, s):
                    s2.cur = cur
                    if isinstance(v, Exc):
                        out.append((s2, v))
                    else:
                        en2 = dict(en)
                        en2[nm] = v
                        out.append((s2, en2))
            res = out
        final = []
        for s, en in res:
            if isinstance(en, Exc):
                final.append((s, en))
                continue
            missing = [nm for nm in names if nm not in en] + [x.arg for x in a.kwonlyargs if x.arg not in en]
            if missing:
                final.append((s, Exc('TypeError', ('missing argument %s' % missing[0],))))
                continue
            final.extend(self.run_body(s, fn, en, names, node))
        return final

    def call_star(self, st, fn, head, tail, kw, node):
        raise Undecided('starred call of %s' % fn.name)

    def run_body(self, st, fn, env, names, node):
        n = fn.node
        fid = uid()
        fr = dict(env)
        fr['$mod'] = fn.mod
        fr['$parent'] = fn.fid
        fr['$cls'] = fn.owner.rsplit('.', 1)[-1] if fn.owner else None
        if not isinstance(n, ast.Lambda):
            fr['$owner'] = (fn.mod, fn.owner) if fn.owner else None
            fr['$self'] = env.get(names[0]) if names else None
            fr['$fn'] = fn.name
        st.frames[fid] = fr
        cur = st.cur
        st.cur = fid
        st.depth += 1
        out = []
        if isinstance(n, ast.Lambda):
            res = [(s, ('ret', v) if not isinstance(v, Exc) else v) for s, v in self.ev(n.body, st)]
        else:
            if is_generator(n):
                st.frames[fid]['$yield'] = st.new(ListO((), 'list'))
                res = self.block(n.body, st)
                res = [(s, c if isinstance(c, Exc) else ('ret', s.new(ItO(s.o(s.frames[fid]['$yield']).seq, 'gen')))) for s, c in res]
            else:
                res = self.block(n.body, st)
        for s, c in res:
            s.cur = cur
            s.depth -= 1
            if isinstance(c, Exc):
                out.append((s, c))
            elif c is None:
                out.append((s, NONE))
            elif c[0] == 'ret':
                out.append((s, c[1]))
            else:
                raise Undecided('control')
        return out

    # ------------------------------------------------------------ comprehension
    def ev_ListComp(self, e, st):
        return [(s, v if isinstance(v, Exc) else s.new(ListO(v, 'list'))) for s, v in self.comp_seq(e, st)]

    def ev_GeneratorExp(self, e, st):
        return [(s, v if isinstance(v, Exc) else s.new(ItO(v, 'gen'))) for s, v in self.comp_seq(e, st)]

    def ev_SetComp(self, e, st):
        def k(s, seq):
            return self.call_bi(s, 'set', [s.new(ItO(seq, 'gen'))], {}, e)
        return self.bind(self.comp_seq(e, st), k)

    def ev_DictComp(self, e, st):
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(e2, e)
        ast.copy_location(e2.elt, e)

        def k(s, seq):
            return self.call_bi(s, 'dict', [s.new(ItO(seq, 'gen'))], {}, e)
        return self.bind(self.comp_seq(e2, st), k)

    def ev_Starred(self, e, st):
        raise Undecided('starred')

    def ev_Yield(self, e, st):
        def k(s, v):
            y = self.yield_ref(s)
            s.put(y, ListO(s.o(y).seq + (('c', v),), 'list'))
            return [(s, NONE)]
        if e.value is None:
            return k(st, NONE)
        return self.bind(self.ev(e.value, st), k)

    def yield_ref(self, st):
        fid = st.cur
        while fid is not None:
            if '$yield' in st.frames[fid]:
                return st.frames[fid]['$yield']
            fid = st.frames[fid].get('$parent')
        raise Undecided('yield')

    def ev_YieldFrom(self, e, st):
        def k(s, v):
            out = []
            for s2, seq in self.iter_seq(s, v):
                if isinstance(seq, Exc):
                    out.append((s2, seq))
                    continue
                y = self.yield_ref(s2)
                s2.put(y, ListO(s2.o(y).seq + tuple(seq), 'list'))
                out.append((s2, NONE))
            return out
        return self.bind(self.ev(e.value, st), k)

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        """list of (state, control): None | ('ret', v) | ('brk',) | ('cnt',) | Exc"""
        if self.probe is not None and self.probe == st.cur and leaves(body):
            return []
        res = [(st, None)]
        for n in body:
            out = []
            for s, c in res:
                if c is not None:
                    out.append((s, c))
                else:
                    out.extend(self.ex(n, s))
            res = out
            if len(res) > MAXPATHS:
                raise Undecided('too many paths')
        return res

    def ex(self, n, st):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Undecided('statement %s at line %s' % (type(n).__name__, n.lineno))
        return m(n, st)

    def stm(self, results):
        return [(s, v if isinstance(v, Exc) else None) for s, v in results]

    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.stm(self.ev(n.value, st))

    def ex_Pass(self, n, st):
        return [(st, None)]

    def ex_Global(self, n, st):
        return [(st, None)]

    def ex_Nonlocal(self, n, st):
        fr = st.frames[st.cur]
        fr['$nonlocal'] = tuple(fr.get('$nonlocal', ())) + tuple(n.names)
        return [(st, None)]

    def ex_Import(self, n, st):
        for a in n.names:
            st.var((a.asname or a.name).split('.')[0], Bi('mod:' + a.name))
        return [(st, None)]

    def ex_ImportFrom(self, n, st):
        for a in n.names:
            if n.level or (n.module or '').startswith('sortedcontainers'):
                m = (n.module or '__init__').split('.')[-1]
                r = self.prog.resolve(m, a.name)
                if r is None:
                    raise Undecided('import')
                st.var(a.asname or a.name, self.global_value(st, r, a.name))
            elif n.module in ('collections.abc',):
                st.var(a.asname or a.name, Bi('abc.' + a.name))
            else:
                q = n.module + '.' + a.name
                st.var(a.asname or a.name, Bi(CANON.get(q, q)))
        return [(st, None)]

    def ex_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        res = self.ev(n.value, st)
        for s, v in res:
            s.trace = s.trace + ((n.lineno, 'return'),)
        return [(s, v if isinstance(v, Exc) else ('ret', v)) for s, v in res]

    def ex_Break(self, n, st):
        return [(st, ('brk',))]

    def ex_Continue(self, n, st):
        return [(st, ('cnt',))]

    def ex_FunctionDef(self, n, st):
        fr = st.frames[st.cur]
        if n.decorator_list:
            ok = all(isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) in ('wraps', 'recursive_repr') for d in n.decorator_list)
            if not ok:
                raise Undecided('decorated inner function')
        st.var(n.name, Fn(n, st.cur, fr.get('$cls'), fr['$mod'], n.name))
        return [(st, None)]

    def ex_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if isinstance(b, Exc):
                out.append((s, b))
            elif b:
                out.append((s, None))
            else:
                out.append((s, Exc('AssertionError', ())))
        return out

    def ex_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out.extend(self.block(n.body if b else n.orelse, s))
        return out

    def ex_Raise(self, n, st):
        if n.exc is None:
            fr = st.frames[st.cur]
            cur = fr.get('$exc')
            return [(st, cur if cur is not None else Exc('RuntimeError', ()))]

        def k(s, v):
            if isinstance(v, Bi):
                return [(s, Exc(v.name.split('.')[-1], ()))]
            if isinstance(v, ExcV):
                return [(s, Exc(v.kind, v.args))]
            if isinstance(v, Sym):
                return [(s, Exc('User', 'raised'))]
            raise Undecided('raise')
        return self.bind(self.ev(n.exc, st), k)

    def ex_Try(self, n, st):
        out = []
        for s, c in self.block(n.body, st):
            if isinstance(c, Exc):
                out.extend(self.handle(n, s, c))
            elif c is None and n.orelse:
                out.extend(self.block(n.orelse, s))
            else:
                out.append((s, c))
        if n.finalbody:
            res = []
            for s, c in out:
                for s2, c2 in self.block(n.finalbody, s):
                    res.append((s2, c if c2 is None else c2))
            out = res
        return out

    def handle(self, n, st, exc):
        out = []
        cur = st
        for h in n.handlers:
            m = True
            if h.type is not None:
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                m = False
                for t in types:
                    nm = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?')
                    r = exc_matches(exc.kind, nm)
                    if r is True:
                        m = True
                        break
                    if r is None:
                        m = None
            if m is False:
                continue
            hs = cur.copy() if m is None else cur
            fr = hs.frames[hs.cur]
            old = fr.get('$exc')
            fr['$exc'] = exc
            if h.name:
                fr[h.name] = ExcV(exc.kind, exc.val if isinstance(exc.val, tuple) else (exc.val,))
            for s2, c2 in self.block(h.body, hs):
                if s2.cur in s2.frames:
                    s2.frames[s2.cur]['$exc'] = old
                out.append((s2, c2))
            if m is True:
                return out
        out.append((cur, exc))
        return out

    def ex_With(self, n, st):
        for it in n.items:
            e = it.context_expr
            nm = ''
            if isinstance(e, ast.Call):
                nm = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
            if nm == 'suppress':
                t = ast.Try(body=n.body, handlers=[ast.ExceptHandler(type=ast.Tuple(elts=list(e.args), ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
                ast.copy_location(t, n)
                ast.fix_missing_locations(t)
                return self.ex_Try(t, st)
        raise Undecided('with')

    def ex_Delete(self, n, st):
        res = [(st, None)]
        for t in n.targets:
            out = []
            for s, c in res:
                if c is not None:
                    out.append((s, c))
                elif isinstance(t, ast.Name):
                    s.frames[s.cur].pop(t.id, None)
                    out.append((s, None))
                elif isinstance(t, ast.Subscript):
                    out.extend(self.stm(self.bind(self.ev_list([t.value, t.slice], s), lambda s2, vs: self.delitem(s2, vs[0], vs[1], n))))
                elif isinstance(t, ast.Attribute):
                    cls = s.frames[s.cur].get('$cls')
                    attr = mangle(t.attr, cls) if cls else t.attr

                    def k(s2, v):
                        if isinstance(v, Ref) and isinstance(s2.o(v), ObjO):
                            o = s2.o(v)
                            d = dict(o.fields)
                            d.pop(attr, None)
                            s2.put(v, ObjO(o.cls, d))
                            return [(s2, NONE)]
                        raise Undecided('del attribute')
                    out.extend(self.stm(self.bind(self.ev(t.value, s), k)))
                else:
                    raise Undecided('del')
            res = out
        return res

    def ex_Assign(self, n, st):
        def k(s, v):
            res = [(s, None)]
            for t in n.targets:
                out = []
                for s2, c in res:
                    if c is not None:
                        out.append((s2, c))
                    else:
                        out.extend(self.assign(s2, t, v, n))
                res = out
            return res
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(k(s, v))
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.assign(s, n.target, v, n))
        return out

    def setvar(self, st, name, v):
        fr = st.frames[st.cur]
        if name in fr.get('$nonlocal', ()):
            fid = fr.get('$parent')
            while fid is not None:
                if name in st.frames[fid]:
                    st.frames[fid][name] = v
                    return
                fid = st.frames[fid].get('$parent')
        fr[name] = v

    def assign(self, st, t, v, node):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t.elts, v, node)
        if isinstance(t, ast.Attribute):
            cls = st.frames[st.cur].get('$cls')
            attr = mangle(t.attr, cls) if cls else t.attr
            return self.stm(self.bind(self.ev(t.value, st), lambda s, o: self.setattr(s, o, attr, v)))
        if isinstance(t, ast.Subscript):
            return self.stm(self.bind(self.ev_list([t.value, t.slice], st), lambda s, vs: self.setitem(s, vs[0], vs[1], v, node)))
        if isinstance(t, ast.Starred):
            raise Undecided('starred target')
        raise Undecided('assignment target')

    def setattr(self, st, o, attr, v):
        if isinstance(o, Ref) and isinstance(st.o(o), ObjO):
            r = self.prog.lookup(st.o(o).cls.mod, st.o(o).cls.name, attr)
            if r is not None and r[1][0] == 'wrap' and r[1][1] == 'property':
                return self.exc(st, 'AttributeError', attr)
            st.setfield(o, attr, v)
            return [(st, NONE)]
        if isinstance(o, (Fn, BM)):
            return [(st, NONE)]
        if isinstance(o, Sym):
            mutated(st, o.t, 'attribute ' + attr)
            return [(st, NONE)]
        if isinstance(o, Ref) and isinstance(st.o(o), SLO):
            st.imprecise('field of inner list')
            return [(st, NONE)]
        raise Undecided('attribute store')

    def unpack(self, st, elts, v, node):
        if isinstance(v, Tup):
            if any(isinstance(x, ast.Starred) for x in elts):
                k = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)][0]
                m = len(elts) - 1
                if len(v.items) < m:
                    return [(st, Exc('ValueError', ('unpack',)))]
                tail = len(elts) - k - 1
                mid = v.items[k:len(v.items) - tail]
                r = st.new(ListO(tuple(('c', x) for x in mid), 'list'))
                items = list(v.items[:k]) + [r] + list(v.items[len(v.items) - tail:])
                elts = [x.value if isinstance(x, ast.Starred) else x for x in elts]
            else:
                if len(v.items) != len(elts):
                    return [(st, Exc('ValueError', ('unpack',)))]
                items = v.items
            res = [(st, None)]
            for t, x in zip(elts, items):
                out = []
                for s, c in res:
                    if c is not None:
                        out.append((s, c))
                    else:
                        out.extend(self.assign(s, t, x, node))
                res = out
            return res
        out = []
        for s, seq in self.iter_seq(st, v):
            if isinstance(seq, Exc):
                out.append((s, seq))
                continue
            if all(p[0] == 'c' for p in seq) :
                out.extend(self.unpack(s, elts, Tup(tuple(p[1] for p in seq)), node))
            elif len(seq) == 1 and seq[0][0] == 'o':
                vals = tuple(Sym(('item', seq[0][1], Lin(i))) for i in range(len(elts)))
                out.append((s.copy(), Exc('User', 'unpack')))
                out.extend(self.unpack(s, elts, Tup(vals), node))
            else:
                raise Undecided('unpack')
        return out

    def ex_AugAssign(self, n, st):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(st, t.id)
            if isinstance(cur, Exc):
                return [(st, cur)]
            out = []
            for s, v in self.ev(n.value, st):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                cv = self.lookup_name(s, t.id)
                for s2, r in self.inplace(s, op, cv, v, n):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                    else:
                        self.setvar(s2, t.id, r)
                        out.append((s2, None))
            return out
        if isinstance(t, ast.Attribute):
            cls = st.frames[st.cur].get('$cls')
            attr = mangle(t.attr, cls) if cls else t.attr

            def k(s, vs):
                o, v = vs
                return self.bind(self.getattr(s, o, attr), lambda s2, cv: self.bind(
                    self.inplace(s2, op, cv, v, n), lambda s3, r: self.setattr(s3, o, attr, r)))
            return self.stm(self.bind(self.ev_list([t.value, n.value], st), k))
        if isinstance(t, ast.Subscript):
            def k(s, vs):
                o, i, v = vs
                if isinstance(o, Ref) and isinstance(s.o(o), ListO) and is_tree(s.o(o).seq):
                    return self.tree_aug(s, o, i, op, v)
                return self.bind(self.getitem(s, o, i, n), lambda s2, cv: self.bind(
                    self.inplace(s2, op, cv, v, n), lambda s3, r: self.setitem(s3, o, i, r, n)))
            return self.stm(self.bind(self.ev_list([t.value, t.slice, n.value], st), k))
        raise Undecided('augmented target')

    def inplace(self, st, op, a, b, node):
        if isinstance(a, Ref):
            o = st.o(a)
            if isinstance(o, ListO) and o.kind == 'list' and op == 'Add':
                return [(s, v if isinstance(v, Exc) else a) for s, v in self.call_bb(st, a, 'extend', [b], {}, node)]
            if isinstance(o, ListO) and o.kind == 'list' and op == 'Mult':
                res = self.binop(st, op, a, b, node)

                def k(s, r):
                    s.put(a, s.o(r))
                    return [(s, a)]
                return self.bind(res, k)
            if isinstance(o, SetO) and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                nm = {'BitOr': 'update', 'BitAnd': 'intersection_update', 'Sub': 'difference_update', 'BitXor': 'symmetric_difference_update'}[op]
                return [(s, v if isinstance(v, Exc) else a) for s, v in self.call_bb(st, a, nm, [b], {}, node)]
            if isinstance(o, DictO) and op == 'BitOr':
                return [(s, v if isinstance(v, Exc) else a) for s, v in self.call_bb(st, a, 'update', [b], {}, node)]
            if isinstance(o, ObjO):
                nm = self.DUNDER.get(op)
                if nm and self.class_attr(o.cls, '__i%s__' % nm):
                    return self.bind(self.getattr(st, a, '__i%s__' % nm), lambda s, f: self.call(s, f, [b], {}, node))
        if isinstance(a, Sym) and op in ('Add', 'BitOr') and not isinstance(b, Lin) and self.is_listlike(st, b):
            mutated(st, a.t, 'in-place operator')
            return [(st, a)]
        return self.binop(st, op, a, b, node)

    # ------------------------------------------------------------ instances
    def instantiate(self, st, c, args, kw, node):
        name, mod = c.name, c.mod
        if self.new_hook is not None:
            r = self.new_hook(self, st, c, args, kw, node)
            if r is not None:
                return r
        mro = self.prog.mro(mod, name)
        if ('_abc', 'Exception') in mro or ('ext', 'Exception') in mro:
            return [(st, ExcV(name, tuple(args)))]
        fields = {}
        if ('ext', 'dict') in mro:
            d = st.new(DictO(('empty',), ()))
            fields['$dict'] = d
        r = self.prog.lookup(mod, name, '__new__')
        if r is not None:
            out = []
            for s, v in self.bind(self.class_value(st, Cls(name, mod), r, '__new__', None), lambda s, f: self.call(s, f, [c] + list(args), kw, node)):
                if isinstance(v, Exc):
                    out.append((s, v))
                    continue
                if isinstance(v, Ref) and isinstance(s.o(v), ObjO):
                    oc = s.o(v).cls
                    if (mod, name) in self.prog.mro(oc.mod, oc.name):
                        out.extend((s2, x if isinstance(x, Exc) else v) for s2, x in self.bind(self.getattr(s, v, '__init__'), lambda s3, f: self.call(s3, f, list(args), kw, node)))
                        continue
                out.append((s, v))
            return out
        ref = st.new(ObjO(Cls(name, mod), fields))
        if isinstance(c, Dyn):
            st.setfield(ref, '$dyn', TRUE)
        init = self.prog.lookup(mod, name, '__init__')
        if init is None:
            if args or kw:
                if ('ext', 'dict') in mro:
                    res = self.call(st, BB(ref, 'dict.update'), args, kw, node)
                    return [(s, v if isinstance(v, Exc) else ref) for s, v in res]
            return [(st, ref)]
        res = self.bind(self.class_value(st, Cls(name, mod), init, '__init__', ref), lambda s, f: self.call(s, f, args, kw, node))
        return [(s, v if isinstance(v, Exc) else ref) for s, v in res]

    new_hook = None


def is_generator(n):
    class Vis(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, x):
            pass

        def visit_Lambda(self, x):
            pass

        def visit_GeneratorExp(self, x):
            pass

        def visit_Yield(self, x):
            self.found = True

        def visit_YieldFrom(self, x):
            self.found = True
    v = Vis()
    for s in n.body:
        v.visit(s)
    return v.found


EXC_BASES = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'RuntimeError': 'Exception',
    'UnboundLocalError': 'NameError', 'NameError': 'Exception', 'AssertionError': 'Exception',
    'StopIteration': 'Exception', 'Exception': 'BaseException', 'ZeroDivisionError': 'ArithmeticError',
    'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
}


def exc_matches(kind, name):
    if kind == 'User':
        if name in ('BaseException',):
            return True
        if name == 'Exception':
            return True
        # assumed: user code does not raise what the library itself signals with
        return None if name == 'TypeError' else False
    k = kind
    while k is not None:
        if k == name:
            return True
        k = EXC_BASES.get(k)
    return False


PYBUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

CANON = {
    'bisect.bisect': 'bisect.bisect_right', 'bisect.insort': 'bisect.insort_right',
    '_bisect.bisect_left': 'bisect.bisect_left', 'reprlib.recursive_repr': 'recursive_repr',
}


def stored_term(t):
    """Value for which the key function has already answered (assumption of
    C13: the key of a value, once computed, can be computed again)."""
    if t[0] == 'at':
        return True
    if t[0] == 'el':
        return sorted_piece(t[1])
    return False


def sorted_piece(p):
    if p[0] in ('cutc', 'cut', 'rev'):
        return sorted_piece(p[1])
    if p[0] == 'chunks':
        return all(sorted_piece(q) for q in p[1])
    if p[0] == 'sorted':
        return p[2] != NONE
    return p[0] in ('v', 'rep')


_leaves = {}


def leaves(body):
    """The block always returns or raises (so it never reaches a loop end)."""
    if not body or not isinstance(body[-1], (ast.Return, ast.Raise)):
        return False
    k = id(body[0])
    r = _leaves.get(k)
    if r is None or r[0] is not body[0]:
        r = (body[0], not any(isinstance(x, (ast.Continue, ast.Break, ast.For, ast.While, ast.Try)) for n in body for x in ast.walk(n)))
        _leaves[k] = r
    return r[1]
