"""Which obligations of which analyses decide which property."""

LISTS = ('SortedList', 'SortedKeyList')
KEYED = ('SortedKeyList',)

MUTATORS = ('add', 'update', '__iadd__', '__imul__', 'clear', 'discard', 'remove', 'pop', '__delitem__', '__init__', '_reset')
STATE = ('sync', 'empty', 'len')
READERS = ('__contains__', 'count', 'index', 'bisect_left', 'bisect_right', 'bisect', 'bisect_key_left', 'bisect_key_right', 'bisect_key',
           'irange', 'irange_key', 'islice', '__iter__', '__reversed__', '__len__', '__getitem__', '__add__', '__radd__', '__mul__', '__rmul__',
           'copy', '__copy__', '__repr__', '__reduce__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')
NEWS = ('__add__', '__radd__', '__mul__', '__rmul__', 'copy', '__copy__')
REFUSED = ('append', 'extend', 'insert', 'reverse', '__setitem__')
COMPARES = ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')


class Sel:
    """Tasks of one domain and the obligation kinds that count."""
    def __init__(self, methods, kinds, classes=LISTS, dom='list', need=True):
        self.dom = dom
        self.classes = classes
        self.methods = methods
        self.kinds = kinds
        self.need = need

    def counts(self, ob):
        if ob.verdict == 'ok':
            # a discharged content or result obligation settles all its aspects
            x = ob.kind.rsplit(':', 1)[0] if ob.kind.endswith(':mset') else ob.kind
            return any(k == x or k.startswith(x + ':') or x.startswith(k + ':') for k in self.kinds)
        return any(ob.kind == k or ob.kind.startswith(k + ':') for k in self.kinds)


def state(*kinds):
    return Sel(MUTATORS, kinds)


S_MUT = ('add', 'discard', 'remove', 'pop', '__delitem__', 'clear', 'update', '__ior__', 'intersection_update', '__iand__', 'difference_update',
         '__isub__', 'symmetric_difference_update', '__ixor__', '__init__')
S_IN = ('update', '__ior__', 'intersection_update', '__iand__', 'difference_update', '__isub__', 'symmetric_difference_update', '__ixor__')
S_OPS = ('union', '__or__', '__ror__', 'intersection', '__and__', '__rand__', 'difference', '__sub__', '__rsub__', 'symmetric_difference',
         '__xor__', '__rxor__')
S_BIS = ('bisect', 'bisect_left', 'bisect_right', 'bisect_key', 'bisect_key_left', 'bisect_key_right', 'index', 'irange', 'irange_key', 'islice')
S_NEW = S_OPS + ('copy', '__copy__')
S_READ = S_NEW + S_BIS + COMPARES + ('__contains__', 'count', '__len__', '__iter__', '__reversed__', '__getitem__', 'isdisjoint', 'issubset',
                                     'issuperset', '__reduce__', '__repr__', 'key')
V_READ = tuple(v + '.' + m for v in ('keys', 'items', 'values') for m in (
    '__len__', '__iter__', '__reversed__', '__contains__', '__getitem__', 'count', 'index', 'isdisjoint') + COMPARES)
V_SET = tuple(v + '.' + m for v in ('keys', 'items') for m in (
    '__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__', '__rxor__', '_from_iterable'))
V_DEL = tuple(v + '.__delitem__' for v in ('keys', 'items', 'values'))
D_MUT = ('__setitem__', '__delitem__', 'pop', 'popitem', 'setdefault', 'update', '__ior__', 'clear', '__init__') + V_DEL
D_NEW = ('copy', '__copy__', '__or__', '__ror__', 'fromkeys')
D_READ = D_NEW + S_BIS + ('__contains__', '__getitem__', 'get', '__len__', '__iter__', '__reversed__', 'peekitem', 'keys', 'items', 'values',
                          '__reduce__', '__repr__', 'key') + V_READ + V_SET
STATES = ('sync', 'user:sync', 'fail:sync')


def sets(methods, *kinds):
    return Sel(methods, kinds, ('SortedSet',), 'set')


def dicts(methods, *kinds):
    return Sel(methods, kinds, ('SortedDict',), 'dict')


PROPS = {
    'C01': [state('sync', 'empty', 'content:order', 'result:content:order'),
            Sel(('__iter__', '__reversed__'), ('result', 'exc')),
            Sel(NEWS + ('__new__',), ('result:content:order', 'result:state'))],
    'C02': [state('len', 'content:mset', 'exc'),
            Sel(('__len__', '__iter__'), ('result', 'exc')),
            Sel(NEWS + ('__new__',), ('result:content:mset', 'result:state'))],
    'C03': [state('index'),
            Sel(READERS, ('index', 'result:state')),
            Sel(('__getitem__', 'bisect_left', 'bisect_right', '_loc', '_pos', '_build_index'), ('result', 'index', 'exc'))],
    'C04': [state('sync', 'empty'),
            Sel(('__contains__', 'discard', 'remove', 'count', 'index'), ('result', 'content', 'fail:content', 'exc'))],
    'C05': [state('sync', 'empty', 'index'),
            Sel(('bisect_left', 'bisect_right', 'bisect', 'bisect_key_left', 'bisect_key_right', 'bisect_key', '_loc'), ('result', 'exc'))],
    'C06': [state('sync', 'empty'),
            Sel(('irange', 'irange_key'), ('result', 'exc'))],
    'C07': [state('len', 'empty', 'index'),
            Sel(('__getitem__', 'islice', '__iter__', '__reversed__', '_pos', '_loc', '_build_index'), ('result', 'exc'))],
    'C08': [state('len', 'empty', 'index'),
            Sel(('__delitem__', 'pop'), ('result', 'content', 'fail:content', 'exc')),
            Sel(('_pos', '_loc'), ('result', 'exc'))],
    'C09': [Sel(MUTATORS + READERS, ('keyonly',), KEYED),
            Sel(MUTATORS, ('sync',), KEYED),
            Sel(('add', 'update', '__contains__', 'discard', 'remove', 'count', 'index', 'bisect_left', 'bisect_right', 'bisect',
                 'bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange', 'irange_key'), ('result', 'content', 'exc'), KEYED),
            Sel(('__new__', 'key'), ('result', 'exc'), KEYED)],
    'C10': [Sel(MUTATORS, ('content:ties', 'content:order')),
            Sel(NEWS, ('result:content:ties', 'result:content:order'))],
    'C11': [dicts(D_MUT + D_READ, *STATES, 'bound', 'key', 'result:state'),
            dicts(('__contains__', '__getitem__', '__len__', '__iter__', '__reversed__', 'keys.__iter__', 'keys.__len__'), 'result', 'exc')],
    'C12': [sets(S_MUT + S_READ, *STATES, 'bound', 'key', 'result:state'),
            sets(S_BIS + ('__contains__', '__len__', '__iter__', '__reversed__', '__getitem__', 'count', '__init__'), 'result', 'exc')],
    'C13': [Sel(MUTATORS, ('user', 'fail', 'exc')),
            Sel(('__getitem__', 'index'), ('fail', 'exc')),
            sets(S_MUT + S_READ, 'user', 'fail'),
            dicts(D_MUT + D_READ, 'user', 'fail')],
    'C14': [Sel(READERS, ('content', 'sync', 'empty', 'len', 'index', 'args', 'load', 'user', 'fail')),
            Sel(MUTATORS, ('args',)),
            sets(S_READ, 'content', 'sync', 'args', 'user', 'fail'),
            sets(S_MUT, 'args', 'user:args', 'fail:args'),
            dicts(D_READ, 'content', 'sync', 'args', 'user', 'fail'),
            dicts(D_MUT, 'args', 'user:args', 'fail:args')],
    'C15': [Sel(READERS + MUTATORS, ('escape', 'result:share')),
            sets(S_READ + S_MUT, 'escape', 'result:share'),
            dicts(D_READ + D_MUT, 'escape', 'result:share')],
    'C16': [Sel(NEWS + ('__new__',), ('result:class', 'result:key', 'result:state')),
            Sel(('key',), ('result', 'exc')),
            sets(S_NEW, 'result:class', 'result:key', 'result:state'),
            sets(S_MUT, 'key'),
            sets(('key',), 'result'),
            dicts(D_NEW, 'result:class', 'result:key', 'result:state'),
            dicts(D_MUT, 'key'),
            dicts(('key',), 'result')],
    'C17': [Sel(('__iadd__', '__imul__'), ('result', 'content', 'exc')),
            sets(S_IN, 'result', 'content', 'exc'),
            sets(S_MUT + S_READ, 'bound', 'user:bound', 'fail:bound'),
            sets(S_BIS + ('isdisjoint', 'issubset', 'issuperset'), 'result', 'exc'),
            dicts(('__ior__',), 'result', 'content', 'exc'),
            dicts(D_MUT + D_READ, 'bound', 'user:bound', 'fail:bound'),
            dicts(S_BIS, 'result', 'exc')],
    'C18': [Sel(REFUSED, ('exc', 'content', 'fail')),
            Sel(COMPARES, ('result', 'exc')),
            sets(COMPARES, 'result', 'exc'),
            dicts(('__or__', '__ror__', '__ior__'), 'result', 'exc')],
    'C19': [state('size', 'empty', 'load'),
            Sel(READERS, ('load', 'size', 'empty', 'result:state'))],
    'C20': [dicts(V_READ + V_DEL + V_SET, 'result', 'exc', 'content', 'sync', 'fail', 'user'),
            dicts(('keys', 'items', 'values'), 'result')],
    'C21': [dicts(D_MUT, 'content', 'fail:content', 'user:content', 'result', 'exc'),
            dicts(('__or__', '__ror__', 'fromkeys', 'copy', '__copy__'), 'result:content', 'exc'),
            dicts(('__getitem__', 'get', 'peekitem'), 'result', 'exc')],
    'C22': [sets(S_IN, 'content', 'result', 'exc'),
            sets(S_OPS, 'result:content', 'result:state', 'exc')],
    'C23': [Sel(COMPARES, ('result', 'exc')),
            sets(COMPARES + ('isdisjoint', 'issubset', 'issuperset'), 'result', 'exc')],
    'C24': [Sel(('remove', 'index', 'pop', '__getitem__', '__delitem__'), ('exc',)),
            sets(('remove', 'pop', '__getitem__', '__delitem__', 'index', 'discard'), 'exc'),
            dicts(('__getitem__', '__delitem__', 'pop', 'popitem', 'peekitem', 'index') + V_DEL + V_READ, 'exc')],
    'C25': [Sel(('__reduce__', '__init__'), ('result', 'content', 'sync', 'len', 'empty', 'exc')),
            sets(('__reduce__', '__init__', 'copy', '__copy__'), 'result', 'content', 'sync', 'exc'),
            dicts(('__reduce__', '__init__', 'copy', '__copy__'), 'result', 'content', 'sync', 'exc')],
    'C26': [Sel(('__repr__',), ('result', 'exc', 'content')),
            sets(('__repr__',), 'result', 'exc', 'content'),
            dicts(('__repr__',), 'result', 'exc', 'content')],
    'C27': [Sel(('_loc', '_pos', '_build_index', '__getitem__', 'bisect_left', 'bisect_right'), ('result', 'exc', 'index'))],
}

# variants left to the thorough tier
SLOW = set()
