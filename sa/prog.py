"""Program model: modules, classes, method resolution, names."""
import ast
import hashlib
import os
import _collections_abc

STDLIB_ABC = _collections_abc.__file__

PKG = 'src/sortedcontainers'
EXTERNAL_BASES = {
    'object': [], 'dict': ['object'],
}


class AnchorError(Exception):
    pass


class Mod:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.names = {}      # name -> ('class', node) ('func', node) ('imp', modname, attr) ('expr', node)
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.names[n.name] = ('class', n)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[n.name] = ('func', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split('.')[0]] = ('imp', a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ('imp', ('.' * n.level) + (n.module or ''), a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('expr', n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                self.names[x.id] = ('expr', v)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.names[n.target.id] = ('expr', n.value)
            elif isinstance(n, ast.If):
                self.scan(n.body)
                self.scan(n.orelse)
            elif isinstance(n, ast.Try):
                self.scan(n.body)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names.pop(t.id, None)


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.classes = {}          # (mod, name) -> ClassDef
        base = os.path.join(repo, PKG)
        if not os.path.isdir(base):
            raise AnchorError('package directory %s not found' % base)
        h = hashlib.sha256()
        for fn in sorted(os.listdir(base)):
            if fn.endswith('.py'):
                p = os.path.join(base, fn)
                src = open(p, encoding='utf-8').read()
                h.update(fn.encode() + b'\0' + src.encode())
                try:
                    self.mods[fn[:-3]] = Mod(fn[:-3], p, src)
                except SyntaxError as e:
                    raise AnchorError('cannot parse %s: %s' % (p, e))
        self.digest = h.hexdigest()
        self.mods['_abc'] = Mod('_abc', STDLIB_ABC, open(STDLIB_ABC).read())
        self._mro = {}
        self._tab = {}

    # ------------------------------------------------------------ names
    def resolve(self, mod, name, seen=()):
        """Resolve a module-level name to a descriptor."""
        m = self.mods.get(mod)
        if m is None or name not in m.names:
            return None
        d = m.names[name]
        if d[0] == 'imp':
            src, attr = d[1], d[2]
            if src.startswith('.') or src.split('.')[0] == 'sortedcontainers':
                tgt = src.lstrip('.')
                if tgt.startswith('sortedcontainers'):
                    tgt = tgt[len('sortedcontainers'):].lstrip('.')
                tgt = tgt or '__init__'
                if attr is None:
                    return ('module', tgt)
                if tgt in self.mods:
                    if (tgt, attr) in seen:
                        return None
                    r = self.resolve(tgt, attr, seen + ((tgt, attr),))
                    if r is not None:
                        return r
                if tgt == '__init__' and attr in self.mods:
                    return ('module', attr)
                return ('ext', src + '.' + attr)
            if attr is None:
                return ('extmod', src)
            if src in ('collections.abc', '_collections_abc') and attr in self.mods['_abc'].names:
                return ('class', '_abc', attr)
            if src == 'operator' or src == '_operator':
                return ('ext', 'operator.' + attr)
            return ('ext', src + '.' + attr)
        if d[0] == 'class':
            return ('class', mod, name)
        if d[0] == 'func':
            return ('func', mod, d[1])
        if d[0] == 'expr':
            e = d[1]
            if isinstance(e, ast.Name):
                r = self.resolve(mod, e.id, seen + ((mod, name),)) if (mod, e.id) not in seen else None
                if r is not None:
                    return r
            return ('expr', mod, e)
        return None

    def classdef(self, mod, name):
        if '.' in name:            # nested class Outer.Inner
            outer, inner = name.rsplit('.', 1)
            for n in self.classdef(mod, outer).body:
                if isinstance(n, ast.ClassDef) and n.name == inner:
                    return n
            raise KeyError(name)
        d = self.mods[mod].names.get(name)
        if d is None or d[0] != 'class':
            raise AnchorError('class %s not found in module %s' % (name, mod))
        return d[1]

    def has_class(self, mod, name):
        try:
            return self.classdef(mod, name) is not None
        except (AnchorError, KeyError):
            return False

    def bases(self, mod, name):
        if mod == 'ext':
            return [('ext', 'object')] if name != 'object' else []
        node = self.classdef(mod, name)
        out = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(mod, b.id)
                if r is None:
                    out.append(('ext', b.id))
                elif r[0] == 'class':
                    out.append((r[1], r[2]))
                elif r[0] == 'ext':
                    out.append(('ext', r[1].split('.')[-1]))
                else:
                    out.append(('ext', b.id))
            elif isinstance(b, ast.Attribute):
                if b.attr in self.mods['_abc'].names:
                    out.append(('_abc', b.attr))
                else:
                    out.append(('ext', b.attr))
        return out or [('ext', 'object')]

    def mro(self, mod, name):
        k = (mod, name)
        if k in self._mro:
            return self._mro[k]
        bs = self.bases(mod, name)
        seqs = [list(self.mro(*b)) for b in bs] + [list(bs)]
        out = [k]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
                elif c in s:
                    s.remove(c)
        self._mro[k] = out
        return out

    def table(self, mod, name):
        """Class namespace after the class body: name -> entry.

        entry: ('def', FunctionDef) | ('expr', ast) | ('cls', qualname) |
        ('wrap', 'staticmethod'|'classmethod'|'property', entry)."""
        k = (mod, name)
        if k in self._tab:
            return self._tab[k]
        tab = {}
        self._tab[k] = tab
        if mod == 'ext':
            return tab
        node = self.classdef(mod, name)

        def m(n):
            return mangle(n, name.rsplit('.', 1)[-1])

        def run(body):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    e = ('def', n)
                    prev = tab.get(m(n.name))
                    for d in reversed(n.decorator_list):
                        dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
                        if isinstance(d, ast.Call):
                            f = d.func
                            dn = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else None)
                        if dn in ('staticmethod', 'classmethod', 'property'):
                            e = ('wrap', dn, e)
                        elif dn in ('recursive_repr', 'abstractmethod', 'wraps', '_recursive_repr'):
                            e = ('deco', dn, e)
                        elif dn in ('setter', 'deleter', 'getter') and isinstance(d, ast.Attribute):
                            e = prev
                        else:
                            e = ('deco', dn or '?', e)
                    tab[m(n.name)] = e
                elif isinstance(n, ast.ClassDef):
                    tab[m(n.name)] = ('cls', name + '.' + n.name)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            tab[m(t.id)] = val(n.value)
                        elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple):
                            for x, v in zip(t.elts, n.value.elts):
                                if isinstance(x, ast.Name):
                                    tab[m(x.id)] = val(v)
                elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                    tab[m(n.target.id)] = val(n.value)
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            tab.pop(m(t.id), None)
                elif isinstance(n, ast.If):
                    run(n.body)
                    run(n.orelse)

        def val(e):
            if isinstance(e, ast.Name):
                if m(e.id) in tab:
                    return tab[m(e.id)]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('staticmethod', 'classmethod', 'property') and len(e.args) >= 1:
                return ('wrap', e.func.id, val(e.args[0]))
            # snapshot of the namespace: calls like __make_cmp(eq, ...)
            return ('expr', e, dict(tab))

        run(node.body)
        return tab

    def lookup(self, mod, name, attr):
        """Find attr in the MRO: (owner, entry) or None."""
        for c in self.mro(mod, name):
            if c[0] == 'ext':
                continue
            t = self.table(*c)
            if attr in t:
                return c, t[attr]
        return None


def mangle(n, cls):
    if n.startswith('__') and not n.endswith('__'):
        return '_' + cls.lstrip('_') + n
    return n
