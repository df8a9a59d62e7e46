"""Human-readable rendering of abstract values."""
from .lin import Lin


def show(x, d=0):
    if d > 7:
        return '…'
    if isinstance(x, Lin):
        if not x.t:
            return str(x.c)
        s = ''
        for a, k in x.t:
            t = show_atom(a, d + 1)
            if k == 1:
                s += ('+' if s else '') + t
            elif k == -1:
                s += '-' + t
            else:
                s += ('+' if s and k > 0 else '') + '%d*%s' % (k, t)
        if x.c:
            s += '%+d' % x.c
        return s
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            h = x[0]
            if h == 'k':
                return repr(x[1])
            if h == 'sym':
                return str(x[1])
            if h == 'at':
                return 'A%s[%s]' % (x[1] or '', show(x[2], d + 1))
            if h == 'v':
                f = '.'.join(x[4])
                return '%sA%s[%s:%s]' % (f + '*' if f else '', x[1] or '', show(x[2], d + 1), show(x[3], d + 1))
            if h == 'c':
                return '<' + show(x[1], d + 1) + '>'
            return h + '(' + ', '.join(show(y, d + 1) for y in x[1:]) + ')'
        return '[' + ' ++ '.join(show(y, d + 1) for y in x) + ']'
    if hasattr(x, 'showname'):
        return x.showname()
    return str(x)


def show_atom(a, d=0):
    k = a[0]
    if k == 'N':
        return 'N%s' % (a[1] or '')
    if k == 'G':
        return 'G%s(%s)' % (a[1] or '', show(a[2], d))
    if k == 'bm':
        return 'bisect_%s(maxes,%s)' % ({'l': 'left', 'r': 'right'}[a[3]], show(a[4], d))
    if k == 'pos':
        return 'rank_%s(%s)' % ({'l': 'left', 'r': 'right'}[a[3]], show(a[4], d))
    if k == 'bs':
        return 'bisect_%s(sub[%s],%s)' % ({'l': 'left', 'r': 'right'}[a[3]], show(a[4], d), show(a[5], d))
    if k == 'load':
        return 'load'
    if k == 'sl':
        return 'slice.' + a[2]
    return k + '(' + ','.join(show(y, d) for y in a[1:]) + ')'
