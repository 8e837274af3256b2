"""Hash-consed value-graph nodes.

A node is (op, args); args are nodes, strings, ints, Fractions or None.  Interning makes
structural equality the same as identity, so that value numbering is a table lookup.
"""
from fractions import Fraction
import itertools

_table = {}
_by_uid = []


class T:
    __slots__ = ('op', 'args', 'uid', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = len(_by_uid)
        _by_uid.append(t)
        _table[key] = t
    return t


def by_uid(i):
    return _by_uid[i]


NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
# poison: the value of a name on a path where it was never bound
UNBOUND = mk('unbound')


def num(v):
    return mk('num', Fraction(v))


ZERO = num(0)
ONE = num(1)


def num_literal(text_or_value):
    """Exact value of a Python numeric literal (floats are read as the decimal they print as)."""
    v = text_or_value
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        from decimal import Decimal
        if v != v or v in (float('inf'), float('-inf')):
            return mk('atomc', repr(v))
        return num(Fraction(Decimal(repr(v))))
    if isinstance(v, complex):
        re_, im = num_literal(v.real), num_literal(v.imag)
        return add(re_, mul(im, mk('imag')))
    raise TypeError(v)


def s(v):
    return mk('str', v)


def sym(name, ty='any'):
    return mk('sym', name, ty)


_bv = itertools.count()


def fresh(ty='any', tag='bv'):
    return mk(tag, 'f%d' % next(_bv), ty)


def attr(b, name):
    return mk('attr', b, name)


def item(b, k):
    return mk('item', b, k)


def call(fn, *args):
    return mk('call', fn, *args)


def tup(*xs):
    return mk('tuple', *xs)


def lst(*xs):
    return mk('list', *xs)


def is_const_bool(t):
    return t.op == 'bool'


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNBOUND:
        return b
    if b is UNBOUND:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE and is_boolish(c):
        return c
    if a is FALSE and b is TRUE and is_boolish(c):
        return not_(c)
    # drop a test the branch repeats
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


BOOL_OPS = {'bool', 'not', 'and', 'or', 'lt', 'le', 'eq', 'is', 'isnone', 'isin', 'isinst', 'truthy', 'any', 'typeis',
            'hasattr', 'callable'}


def is_boolish(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == 'ite':
        return is_boolish(t.args[1]) and is_boolish(t.args[2])
    return False


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def add(*xs):
    c = Fraction(0)
    out = []
    for x in xs:
        if x.op == 'num':
            c += x.args[0]
        elif x.op == 'add':
            for y in x.args:
                if y.op == 'num':
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if not out:
        return num(c)
    if c != 0:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk('add', *sorted(out, key=lambda t: t.uid))


def mul(*xs):
    c = Fraction(1)
    out = []
    for x in xs:
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            for y in x.args:
                if y.op == 'num':
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if not out:
        return num(c)
    if c != 1:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *sorted(out, key=lambda t: t.uid))


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def power(a, b):
    if b.op == 'num' and a.op == 'num' and b.args[0].denominator == 1 and abs(b.args[0]) < 64 and \
            (a.args[0] != 0 or b.args[0] >= 0):
        return num(a.args[0] ** int(b.args[0]))
    if b is ONE:
        return a
    return mk('pow', a, b)


def div(a, b):
    if b is ONE:
        return a
    if b.op == 'num' and b.args[0] != 0:
        return mul(a, num(1 / b.args[0]))
    return mul(a, power(b, num(-1)))


def lt(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk('lt', a, b)


def le(a, b):
    return not_(lt(b, a))


CONST_OPS = {'num', 'str', 'none', 'bool', 'cls', 'func'}
NONNULL_OPS = {'num', 'str', 'bool', 'tuple', 'list', 'dict', 'set', 'new', 'compr', 'dictc', 'add', 'mul', 'closure',
               'concat', 'fmt', 'range', 'lam', 'cls', 'self', 'arr', 'listcat', 'subs', 'setc', 'rng', 'sorted', 'flat',
               'dictadd', 'dictupd', 'floorint', 'strof', 'join'}
# contract functions of the repository that evidently return a value
NONNULL_CALLS = set()


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONST_OPS and b.op in CONST_OPS:
        if a.op == 'bool' and b.op == 'num' or a.op == 'num' and b.op == 'bool':
            return TRUE if int(a.args[0]) == int(b.args[0]) else FALSE
        return FALSE
    if a.op in ('tuple', 'list') and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.uid > b.uid:
        a, b = b, a
    return mk('eq', a, b)


def isnone(a):
    if a is NONE:
        return TRUE
    if a.op in NONNULL_OPS or a.op == 'call' and a.args[0] in NONNULL_CALLS:
        return FALSE
    if a.op in ('sym', 'bv') and a.args[1] != 'any' and not a.args[1].startswith('opt['):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    if a.op == 'match':        # no first match: nothing found
        return eq(mk('call', 'len', a.args[0].args[0]), ZERO) if a.args[0].op == 'item' else FALSE
    return mk('isnone', a)


def is_(a, b):
    if a is b:
        return TRUE
    if a is NONE:
        return isnone(b)
    if b is NONE:
        return isnone(a)
    if a.op == 'bool' and b.op == 'bool':
        return FALSE
    if a.op == b.op == 'call' and a.args[0] == b.args[0] == 'newgraph':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'bool' and (y.op in ('add', 'mul', 'pow', 'num', 'str', 'list', 'tuple', 'dict', 'set', 'compr') or
                               y.op in ('sym', 'bv') and y.args[1] in ('num', 'int', 'half', 'halfnn', 'str',
                                                                       'Quantity')):
            return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk('is', a, b)


def subst(t, m, memo=None):
    """Replace nodes of t by the mapping m (T -> T), rebuilding with the smart constructors."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    new = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
    r = t if new == t.args else rebuild(t.op, new)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'is':
        return is_(*args)
    if op == 'isnone':
        return isnone(*args)
    if op == 'attr':
        from . import model
        return model.norm_attr(*args)
    if op == 'item':
        from . import model
        return model.norm_item(*args)
    return mk(op, *args)


def subst_exact(t, a, b):
    """replace occurrences of the node a below t by b"""
    return subst(t, {a: b})


_contains_memo = {}


def free_syms(t):
    """All leaf symbol nodes (sym/bv/acc) below t."""
    r = _contains_memo.get(t)
    if r is None:
        if t.op in ('sym', 'bv', 'acc', 'self'):
            r = frozenset([t])
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r = r | free_syms(a)
        _contains_memo[t] = r
    return r


def contains(t, x):
    return x in free_syms(t)


def nodes(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from nodes(a, seen)


BIN = {'eq': ' == ', 'is': ' is ', 'lt': ' < ', 'and': ' and '}


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 14:
        return '…'
    o, a = t.op, t.args
    f = lambda x: show(x, d + 1)
    if o == 'num':
        v = a[0]
        return str(v) if v.denominator == 1 else (repr(float(v)) if v.denominator in (2, 4, 5, 8, 10, 20, 100, 1000, 10000) else '%s' % v)
    if o == 'str':
        return repr(a[0])
    if o == 'bool':
        return str(a[0])
    if o == 'none':
        return 'None'
    if o in ('sym',):
        return a[0]
    if o == 'bv':
        return '_' + str(a[0])
    if o == 'attr':
        return f(a[0]) + '.' + str(a[1])
    if o == 'item':
        return f(a[0]) + '[' + f(a[1]) + ']'
    if o == 'ite':
        return '(' + f(a[1]) + ' if ' + f(a[0]) + ' else ' + f(a[2]) + ')'
    if o == 'not':
        return 'not(' + f(a[0]) + ')'
    if o in BIN:
        return '(' + BIN[o].join(f(x) for x in a) + ')'
    if o == 'isnone':
        return '(' + f(a[0]) + ' is None)'
    if o == 'isin':
        return '(' + f(a[0]) + ' in ' + f(a[1]) + ')'
    if o == 'add':
        return '(' + ' + '.join(f(x) for x in a) + ')'
    if o == 'mul':
        return '*'.join(f(x) for x in a)
    if o == 'pow':
        return '(' + f(a[0]) + ')**' + f(a[1])
    if o == 'tuple':
        return '(' + ', '.join(f(x) for x in a) + ',)'
    if o == 'list':
        return '[' + ', '.join(f(x) for x in a) + ']'
    if o == 'call':
        return str(a[0]) + '(' + ', '.join(f(x) for x in a[1:]) + ')'
    if o == 'mcall':
        return f(a[0]) + '.' + str(a[1]) + '(' + ', '.join(f(x) for x in a[2:]) + ')'
    if o in ('le', 'ltb'):
        try:
            l = showpoly(a[0], d)
        except Exception:
            l = str(a[0])
        return '(' + l + (' <= ' if o == 'le' else ' < ') + str(a[1]) + ')'
    if o == 'rat':
        return showrat(t, d)
    if o == 'unit':
        return str(a[0])
    return o + '(' + ', '.join(f(x) for x in a) + ')'


def showpoly(p, d):
    parts = []
    for mono, c in p:
        fs = []
        for u, e in mono:
            fs.append(show(by_uid(u), d + 1) + ('' if e == 1 else '**%s' % e))
        cs = show(num(c)) if (c != 1 or not fs) else ''
        parts.append('*'.join(([cs] if cs else []) + fs))
    return ' + '.join(parts) or '0'


def showrat(t, d=0):
    n, dd = t.args
    ns = showpoly(n, d)
    if dd == (((), Fraction(1)),):
        return '(' + ns + ')'
    return '((' + ns + ')/(' + showpoly(dd, d) + '))'
