"""Built-in and third-party calls, expressed on value-graph nodes."""
import ast
import hashlib
from fractions import Fraction
from . import terms as tm
from .terms import T, mk, num, s, TRUE, FALSE, NONE, ZERO, ONE, UNBOUND, ite, and_, or_, not_
from . import model, extern, regex, signatures

GRAPH_TYPES = ('Graph',)


def _pos(args, kwargs, names):
    """positional view of a call that may use keywords"""
    out = list(args)
    for n in names[len(out):]:
        out.append(kwargs.get(n))
    return out


def over(t, f):
    if t.op == 'ite':
        return ite(t.args[0], over(t.args[1], f), over(t.args[2], f))
    return f(t)


def ext_call(it, fr, dotted, args, kwargs, node):
    if dotted.startswith('exc.'):
        return mk('call', 'exc', s(dotted[4:]), *it.opargs(fr, args, kwargs))
    if dotted in extern.IGNORED_EXT:
        return NONE
    name = extern.ALIASES.get(dotted)
    if name is None:
        name = dotted[9:] if dotted.startswith('builtins.') else dotted
    h = HANDLERS.get(name)
    if h is not None and not any(isinstance(x, T) and x.op == 'star' for x in args) or name in ('zip',):
        r = h(it, fr, args, kwargs, node)
        if r is not None:
            return r
    return opaque(it, fr, name, args, kwargs, node)


def opaque(it, fr, name, args, kwargs, node):
    args, kwargs = signatures.normal(name, args, kwargs)
    r = mk('call', name, *it.opargs(fr, args, kwargs))
    it.opaque_calls += 1
    if it_try(it) and is_symbol(name):
        for exc in REFUSES[name.split('.')[0]]:
            it.implicit(fr, exc, mk('truthy', mk('call', 'raises', s(exc), r)))
    if name.split('.')[-1] in extern.EFFECTFUL and name.split('.')[-1] not in extern.IGNORED:
        it.emit(fr, mk('eff', r))
    return r


# libraries whose coupling symbols refuse arguments that break a selection rule
REFUSES = {'sympy': ('ValueError',), 'py3nj': ('ValueError', 'IndexError')}


def is_symbol(name):
    return isinstance(name, str) and name.split('.')[0] in REFUSES and 'wigner' in name.split('.')[-1]


HANDLERS = {}


def handler(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


# ---------------------------------------------------------------- numbers
def elementwise(it, fr, x, f):
    if x.op == 'ite' and (it.is_arr(x.args[1]) or it.is_arr(x.args[2])):
        return ite(x.args[0], elementwise(it, fr, x.args[1], f), elementwise(it, fr, x.args[2], f))
    if it.is_arr(x):
        return mk('arr', it.map_seq(it.arr_seq(x), lambda e: elementwise(it, fr, mk('arr', e) if e.op in (
            'list',) else e, f)))
    return f(x)


def absof(x):
    if x.op == 'num':
        return num(abs(x.args[0]))
    x = oriented(x)
    return ite(tm.lt(x, ZERO), tm.neg(x), x)


_shape_memo = {}


def shape(t):
    """a text of the structure of t that does not depend on the names of bound variables"""
    r = _shape_memo.get(t)
    if r is None:
        if t.op == 'bv':
            r = 'bv:' + str(t.args[1])
        else:
            parts = sorted(shape(a) if isinstance(a, T) else repr(a) for a in t.args) if t.op in ('add', 'mul') else [
                shape(a) if isinstance(a, T) else repr(a) for a in t.args]
            r = t.op + '(' + ','.join(parts) + ')'
        if len(r) > 200:
            r = r[:60] + '#' + hashlib.sha1(r.encode()).hexdigest()
        _shape_memo[t] = r
    return r


def oriented(x):
    """x or -x, whichever has a positive coefficient at its first summand (in an order of structure): abs(a - b) and
    abs(b - a) are one value and are split at the same boundary"""
    if x.op == 'mul' and len(x.args) == 2 and x.args[0].op == 'num' and x.args[1].op == 'add' and x.args[0].args[0] < 0:
        return oriented(tm.neg(x))
    best = None
    for p in x.args if x.op == 'add' else (x,):
        c, rest = 1, p
        if p.op == 'num':
            c, rest = p.args[0], ONE
        elif p.op == 'mul' and any(q.op == 'num' for q in p.args):
            c = next(q.args[0] for q in p.args if q.op == 'num')
            rest = tm.mul(*[q for q in p.args if q.op != 'num'])
        k = shape(rest)
        if best is None or k < best[0]:
            best = (k, c)
    return tm.neg(x) if best and best[1] < 0 else x


@handler('abs')
def _abs(it, fr, args, kw, node):
    return elementwise(it, fr, args[0], absof)


@handler('sqrt')
def _sqrt(it, fr, args, kw, node):
    return elementwise(it, fr, args[0], lambda x: tm.power(x, num(Fraction(1, 2))))


@handler('square')
def _square(it, fr, args, kw, node):
    return it.arith(fr, 'pow', args[0], num(2))


@handler('power', 'pow')
def _power(it, fr, args, kw, node):
    return it.arith(fr, 'pow', args[0], args[1])


def _un(name):
    def f(it, fr, args, kw, node):
        return elementwise(it, fr, args[0], lambda x: mk('call', name, x))
    return f


for _n in ('exp', 'cos', 'sin', 'log', 'arctan', 'factorial'):
    HANDLERS[_n] = _un(_n)


@handler('jv')
def _jv(it, fr, args, kw, node):
    return elementwise(it, fr, args[1], lambda x: mk('call', 'jv', args[0], x))


@handler('voigt_profile')
def _vp(it, fr, args, kw, node):
    return elementwise(it, fr, args[0], lambda x: mk('call', 'voigt_profile', x, *args[1:]))


for _n, _o in (('npadd', 'add'), ('npsub', 'sub'), ('npmul', 'mul'), ('npdiv', 'div'), ('bitand', 'bitand'),
               ('bitor', 'bitor')):
    HANDLERS[_n] = (lambda o: lambda it, fr, args, kw, node: it.arith(fr, o, args[0], args[1], node))(_o)


@handler('floor')
def _floor(it, fr, args, kw, node):
    return elementwise(it, fr, args[0], lambda x: mk('floorint', x))


@handler('round')
def _round(it, fr, args, kw, node):
    return mk('call', 'round', *args)


@handler('float')
def _float(it, fr, args, kw, node):
    if not args:
        return ZERO

    def f(x):
        if x.op == 'num' or model.is_num(x):
            return x
        if x.op == 'bool':
            return num(int(x.args[0]))
        if x.op == 'str':
            w = x.args[0].strip().lower()
            if w.lstrip('+-') in ('inf', 'infinity', 'nan'):
                v = mk('atomc', 'nan' if 'nan' in w else 'inf')
                return tm.neg(v) if w[0] == '-' else v
        if x.op == 'call' and is_symbol(x.args[0]):
            return mk('call', 'float', x)
        if model.typeof(x) == 'str' or it_try(it):
            it.implicit(fr, 'ValueError', mk('truthy', mk('call', 'raises', s('float'), x)))
        return mk('call', 'float', x)
    return over(args[0], f)


def it_try(it):
    return any(f.tries for f in it.cur)


@handler('complex')
def _complex(it, fr, args, kw, node):
    if len(args) == 2:
        return tm.add(args[0], tm.mul(args[1], mk('imag')))
    return mk('call', 'complex', *args)


@handler('open')
def _open(it, fr, args, kw, node):
    a = _pos(args, kw, ['file', 'mode'])
    kw = {k: v for k, v in kw.items() if k not in ('file', 'mode')}
    f = mk('call', 'open', *[it.escape(fr, x) for x in (a[0], a[1] if a[1] is not None else s('r'))],
           *[mk('kw', k, it.escape(fr, kw[k])) for k in sorted(kw)])
    return f


@handler('int')
def _int(it, fr, args, kw, node):
    if not args:
        return ZERO

    def f(x):
        if x.op == 'num':
            v = x.args[0]
            return num(int(v))
        if x.op == 'bool':
            return num(int(x.args[0]))
        if model.typeof(x) in ('int', 'nat'):
            return x
        if x.op == 'floorint':
            return x
        if model.typeof(x) == 'str':
            it.implicit(fr, 'ValueError', mk('truthy', mk('call', 'raises', s('int'), x)))
        # an integer-valued expression over the half-integer lattice
        return mk('call', 'int', x)
    return over(args[0], f)


@handler('bool')
def _bool(it, fr, args, kw, node):
    return it.truth(args[0]) if args else FALSE


@handler('str')
def _str(it, fr, args, kw, node):
    if not args:
        return s('')
    return it.textof(fr, args[0], node)


@handler('repr')
def _repr(it, fr, args, kw, node):
    return it.reprof(fr, args[0], node)


@handler('max', 'min')
def _max(it, fr, args, kw, node):
    raise AssertionError


def _minmax(which):
    def f(it, fr, args, kw, node):
        key = kw.get('key')
        dflt = kw.get('default')
        if len(args) == 1:
            S = it.seq(fr, args[0], node)
            return over(S, lambda S_: red(it, fr, S_, key, dflt))
        return lits(it, fr, list(args), key)

    def better(a, b):
        # is b strictly better than the incumbent a
        return tm.lt(b, a) if which == 'min' else tm.lt(a, b)

    def lits(it, fr, xs, key):
        ks = [x if key is None or key is NONE else it.apply(fr, key, [x], {}) for x in xs]
        r, k = xs[0], ks[0]
        for x, kx in zip(xs[1:], ks[1:]):
            c = better(k, kx)
            r, k = ite(c, x, r), ite(c, kx, k)
        return r

    def red(it, fr, S, key, dflt):
        els = it.elements(S)
        if els is not None:
            if not els:
                if dflt is not None:
                    return dflt
                it.implicit(fr, 'ValueError', TRUE)
                return UNBOUND
            return lits(it, fr, els, key)
        bv, src, c0, bind = bind_of(it, S)
        d = key.args[0] if key is not None and key.op in ('attr', 'bound') and key.args[1] in ('get', '__getitem__') \
            else None
        if d is not None and d.op == 'dictc' and it.seq(fr, d) is S:
            # the key whose entry is the least
            S2, b2, c2, kv = d.args
            r = mk('arg' + which, S2, b2, c2, mk('kv', kv.args[1], kv.args[0]))
        elif key is None or key is NONE:
            r = mk(which + 'of', src, bv, c0, bind)
        else:
            r = mk('arg' + which, src, bv, c0, mk('kv', it.apply(fr, key, [bind], {}), bind))
        if dflt is not None:
            return ite(mk('any', src, bv, TRUE, c0), r, dflt)
        return r
    return f


HANDLERS['max'] = _minmax('max')
HANDLERS['min'] = _minmax('min')


def bind_of(it, S):
    """(bv, source, condition, bound element) of one symbolic iteration of S"""
    if S.op == 'compr':
        bv = tm.fresh(S.args[1].args[1])
        m = {S.args[1]: bv}
        return bv, S.args[0], tm.subst(S.args[2], m), tm.subst(S.args[3], m)
    bv = tm.fresh(it.elty(S))
    return bv, S, TRUE, bv


def reduce_sum(it, fr, S, start=ZERO):
    def f(S_):
        els = it.elements(S_)
        if els is not None:
            r = start
            for e in els:
                r = it.arith(fr, 'add', r, e) if r is not ZERO else e
            return r
        if S_.op == 'listcat':
            r = start
            for p in S_.args:
                r = it.arith(fr, 'add', r, reduce_sum(it, fr, p))
            return r
        if S_.op == 'flat':
            c = S_.args[0]
            v = sum_node(c.args[0], c.args[1], c.args[2], reduce_sum(it, fr, c.args[3]))
        elif S_.op == 'product':
            v = mk('call', 'sum', S_)
        else:
            bv, src, c0, e = bind_of(it, S_)
            v = sum_node(src, bv, c0, e)
        return v if start is ZERO else it.arith(fr, 'add', start, v)
    return over(S, f)


def sum_node(src, bv, cond, e):
    if src.op == 'ite':
        return ite(src.args[0], sum_node(src.args[1], bv, cond, e), sum_node(src.args[2], bv, cond, e))
    return mk('sum', src, bv, cond, e)


@handler('sum')
def _sum(it, fr, args, kw, node):
    x = args[0]
    if 'axis' in kw or (len(args) > 1 and x.op == 'arr'):
        return mk('call', 'sum', *it.opargs(fr, args, kw))
    S = it.seq(fr, x, node)
    # a 2-d array sums over all entries
    if it.is_arr(x) and S.op == 'list' and S.args and all(e.op in ('list', 'compr') for e in S.args):
        r = ZERO
        for e in S.args:
            r = it.arith(fr, 'add', r, reduce_sum(it, fr, e))
        return r
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    return reduce_sum(it, fr, S, start)


@handler('prod')
def _prod(it, fr, args, kw, node):
    els = it.elements(it.seq(fr, args[0], node))
    if els is None:
        return None
    r = ONE
    for e in els:
        r = it.arith(fr, 'mul', r, e)
    return r


def anyall(it, fr, S, isany):
    def f(S_):
        els = it.elements(S_)
        if els is not None:
            cs = [it.truth(e) for e in els]
            return or_(*cs) if isany else and_(*cs)
        if S_.op == 'listcat':
            cs = [anyall(it, fr, p, isany) for p in S_.args]
            return or_(*cs) if isany else and_(*cs)
        if S_.op == 'flat':
            c = S_.args[0]
            inner = anyall(it, fr, c.args[3], isany)
            r = mk('any', c.args[0], c.args[1], TRUE, and_(c.args[2], inner if isany else not_(inner)))
            return r if isany else not_(r)
        bv, src, c0, e = bind_of(it, S_)
        b = it.truth(e)
        r = mk('any', src, bv, TRUE, and_(c0, b if isany else not_(b)))
        return r if isany else not_(r)
    return over(S, f)


@handler('any')
def _any(it, fr, args, kw, node):
    return anyall(it, fr, it.seq(fr, args[0], node), True)


@handler('all')
def _all(it, fr, args, kw, node):
    return anyall(it, fr, it.seq(fr, args[0], node), False)


# ---------------------------------------------------------------- sequences
@handler('len')
def _len(it, fr, args, kw, node):
    def f(x):
        ty = model.base_type(x)
        if model.is_class(ty):
            r = it.class_method(fr, x, ty, '__len__', [], {}, node)
            if r is not None:
                return r
        if x.op == 'arr':
            x = x.args[0]
        if x.op == 'dict':
            return num(len(x.args) // 2)
        if x.op in ('tuple', 'list', 'set'):
            els = it.elements(x)
            if els is not None:
                return num(len(els))
        if x.op == 'str':
            return num(len(x.args[0]))
        if x.op == 'call' and it.elements(x) is not None:
            return num(len(it.elements(x)))
        if x.op in ('nodeview', 'nodedict', 'nodekeys'):
            return mk('call', 'len', mk('nodes', x.args[0]))
        return mk('call', 'len', x)
    return over(args[0], f)


@handler('range')
def _range(it, fr, args, kw, node):
    a = list(args)
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = a + [ONE]
    return over3(a, lambda x, y, z: mk('rng', x, y, z, s('range')))


@handler('arange')
def _arange(it, fr, args, kw, node):
    a = [x for x in _pos(args, {k: v for k, v in kw.items() if k != 'dtype'}, ['start', 'stop', 'step'])]
    a = [x for x in a if x is not None]
    if len(a) == 1:
        a = [ZERO, a[0], ONE]
    elif len(a) == 2:
        a = a + [ONE]
    return mk('arr', over3(a, lambda x, y, z: mk('rng', x, y, z, s('arange'))))


def over3(a, f):
    for i, x in enumerate(a):
        if x.op == 'ite':
            b, c = list(a), list(a)
            b[i], c[i] = x.args[1], x.args[2]
            return ite(x.args[0], over3(b, f), over3(c, f))
    return f(*a)


@handler('list', 'tuple')
def _list(it, fr, args, kw, node):
    raise AssertionError


def _mkseq(op):
    def f(it, fr, args, kw, node):
        if not args:
            return mk(op)

        def g(S):
            els = it.elements(S)
            if els is not None:
                return mk(op, *els)
            if op == 'list' and S.op in ('item', 'attr', 'call', 'sym', 'mcall') and \
                    not model.typeof(S).startswith(('list', 'tuple', 'str')):
                # a list whatever was iterated (adding lists is not adding what they were made of)
                bv = tm.fresh(model.elem_type(model.typeof(S)))
                return mk('compr', S, bv, TRUE, bv)
            return S
        return over(it.seq(fr, args[0], node), g)
    return f


HANDLERS['list'] = _mkseq('list')
HANDLERS['tuple'] = _mkseq('tuple')


@handler('numpy.polyval')
def _polyval(it, fr, args, kw, node):
    if len(args) != 2 or kw:
        return None
    cs = it.elements(it.seq(fr, args[0], node))
    if cs is None:
        return None
    r = ZERO
    for c in cs:
        r = tm.add(tm.mul(r, args[1]), c)
    return r


@handler('numpy.unique')
def _unique(it, fr, args, kw, node):
    if len(args) != 1 or kw:
        return opaque(it, fr, 'numpy.unique', args, kw)
    return HANDLERS['sorted'](it, fr, [_set(it, fr, args, {}, node)], {}, node)


@handler('networkx.selfloop_edges')
def _selfloops(it, fr, args, kw, node):
    if len(args) != 1 or kw:
        return opaque(it, fr, 'networkx.selfloop_edges', args, kw)
    bv = tm.fresh('str')
    pair = tm.tup(bv, bv)
    return over(args[0], lambda g: mk('compr', it.seq(fr, mk('nodekeys', g)), bv,
                                      mk('isin', pair, mk('edgeset', g)), pair))


@handler('set', 'frozenset')
def _set(it, fr, args, kw, node):
    if not args:
        return mk('set')
    S = it.seq(fr, args[0], node)
    els = it.elements(S)
    if els is not None:
        return mk('set', *sorted(set(els), key=lambda x: x.uid))
    return mk('call', 'setof', S)


@handler('iter', 'identity')
def _iter(it, fr, args, kw, node):
    x = args[0]
    if node is not None and isinstance(node, ast.Call) and ast.unparse(node.func).endswith('iter'):
        return it.seq(fr, x, node)
    return x


@handler('dict')
def _dict(it, fr, args, kw, node):
    d = mk('dict')
    if args:
        x = args[0]
        d = as_dict(it, fr, x)
    for k in kw:
        if k == '**':
            d = it.dict_update(d, kw[k])
        else:
            d = model.dict_put(d, s(k), kw[k])
    return d


def as_dict(it, fr, x):
    def f(y):
        if y.op in ('dict', 'dictc', 'dictadd', 'dictdel', 'dictupd', 'nodedict', 'edgedict') or \
                model.typeof(y).startswith('dict'):
            return y
        S = it.seq(fr, y)
        els = it.elements(S)
        if els is not None and all(e.op in ('tuple', 'list') and len(e.args) == 2 for e in els):
            d = mk('dict')
            for e in els:
                d = model.dict_put(d, e.args[0], e.args[1])
            return d
        if S.op in ('compr', 'listcat'):
            return it.dict_of_kv(S)
        return mk('call', 'dictof', S)
    return over(x, f)


@handler('sorted')
def _sorted(it, fr, args, kw, node):
    key = kw.get('key')
    return over(it.seq(fr, args[0], node), lambda S: it.sorted_(fr, S, key, kw.get('reverse', FALSE)))


@handler('reversed')
def _reversed(it, fr, args, kw, node):
    S = it.seq(fr, args[0], node)
    els = it.elements(S)
    if els is not None:
        return tm.lst(*reversed(els))
    return mk('call', 'reversed', S)


@handler('zip')
def _zip(it, fr, args, kw, node):
    if len(args) == 1 and args[0].op == 'star':
        return it.transpose(args[0].args[0])
    if any(a.op == 'star' for a in args):
        return None
    return it.zip_([it.seq(fr, a, node) for a in args])


@handler('enumerate')
def _enumerate(it, fr, args, kw, node):
    S = it.seq(fr, args[0], node)
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    els = it.elements(S)
    if els is not None:
        return tm.lst(*[tm.tup(tm.add(num(i), start), e) for i, e in enumerate(els)])
    i = tm.fresh('int')
    return mk('compr', mk('rng', ZERO, mk('call', 'len', S), ONE, s('range')), i, TRUE,
              tm.tup(tm.add(i, start), model.norm_item(S, i)))


@handler('map')
def _map(it, fr, args, kw, node):
    f = args[0]
    if len(args) == 1:
        return None
    S = it.seq(fr, args[1], node) if len(args) == 2 else it.zip_([it.seq(fr, a, node) for a in args[1:]])

    def g(S_):
        return it.map_seq(S_, lambda e: it.apply(fr, f, [e] if len(args) == 2 else list(e.args), {}))
    return over(S, g)


@handler('filter')
def _filter(it, fr, args, kw, node):
    f = args[0]
    S = it.seq(fr, args[1], node)

    def g(S_):
        els = it.elements(S_)
        test = (lambda e: it.truth(it.apply(fr, f, [e], {}))) if f is not NONE else it.truth
        if els is not None:
            out = tm.lst()
            for e in els:
                c = test(e)
                if c is TRUE:
                    out = it.listcat(out, tm.lst(e))
                elif c is not FALSE:
                    out = it.listcat(out, ite(c, tm.lst(e), tm.lst()))
            return out
        bv, src, c0, e = bind_of(it, S_)
        return mk('compr', src, bv, and_(c0, test(e)), e)
    return over(S, g)


@handler('next')
def _next(it, fr, args, kw, node):
    S = it.seq(fr, args[0], node)
    d = args[1] if len(args) > 1 else None

    def g(S_):
        els = it.elements(S_)
        if els is not None:
            if els:
                return els[0]
            if d is None:
                it.implicit(fr, 'StopIteration', TRUE)
                return UNBOUND
            return d
        bv, src, c0, e = bind_of(it, S_)
        if d is None:
            it.implicit(fr, 'StopIteration', not_(mk('any', src, bv, TRUE, c0)))
        return mk('first', src, bv, c0, e, d if d is not None else mk('raise', 'StopIteration'))
    return over(S, g)


@handler('product')
def _product(it, fr, args, kw, node):
    xs = [it.seq(fr, a, node) for a in args]
    if 'repeat' in kw:
        k = model.const_int(kw['repeat'])
        if k is None:
            return None
        xs = xs * k

    def go(i, got):
        if i == len(xs):
            p = mk('product', *got)
            els = it.elements(p)
            return tm.lst(*els) if els is not None else p
        return over(xs[i], lambda y: go(i + 1, got + [y]))
    return go(0, [])


@handler('chain')
def _chain(it, fr, args, kw, node):
    r = tm.lst()
    for a in args:
        r = it.listcat(r, it.seq(fr, a, node))
    return r


@handler('flatten')
def _flatten(it, fr, args, kw, node):
    return flatten(it, fr, it.seq(fr, args[0], node))


def flatten(it, fr, S):
    def f(S_):
        els = it.elements(S_)
        if els is not None:
            r = tm.lst()
            for e in els:
                r = it.listcat(r, it.seq(fr, e))
            return r
        if S_.op == 'compr':
            return it.flat(S_.args[0], S_.args[1], S_.args[2], it.seq(fr, S_.args[3]))
        return mk('call', 'flatten', S_)
    return over(S, f)


@handler('combinations')
def _comb(it, fr, args, kw, node):
    els = it.elements(it.seq(fr, args[0], node))
    k = model.const_int(args[1])
    if els is not None and k is not None:
        import itertools
        return tm.lst(*[tm.tup(*c) for c in itertools.combinations(els, k)])
    return None


@handler('reduce')
def _reduce(it, fr, args, kw, node):
    els = it.elements(it.seq(fr, args[1], node))
    if els is None:
        return None
    if len(args) > 2:
        r = args[2]
    elif els:
        r, els = els[0], els[1:]
    else:
        return None
    for e in els:
        r = it.apply(fr, args[0], [r, e], {})
    return r


# ---------------------------------------------------------------- arrays
def deep_list(it, fr, x):
    if x.op == 'ite':
        return ite(x.args[0], deep_list(it, fr, x.args[1]), deep_list(it, fr, x.args[2]))
    S = x.args[0] if x.op == 'arr' else x
    if S.op in ('tuple', 'list'):
        return tm.lst(*[deep_list(it, fr, e) for e in S.args])
    if S.op == 'compr':
        return mk('compr', S.args[0], S.args[1], S.args[2], deep_list(it, fr, S.args[3]))
    return S


@handler('array')
def _array(it, fr, args, kw, node):
    def f(x):
        if it.is_arr(x):
            return x
        ty = model.typeof(x)
        if model.tuple_size(ty):
            return mk('arr', tm.lst(*[model.norm_item(x, num(i)) for i in range(model.tuple_size(ty))]))
        if x.op in ('tuple', 'list', 'compr', 'rng', 'listcat', 'subs', 'flat') or ty.startswith('list') or \
                x.op == 'dkeys':
            S = it.seq(fr, x)
            els = it.elements(S)
            return mk('arr', deep_list(it, fr, tm.lst(*els) if els is not None else S))
        return mk('call', 'array', x)
    return over(args[0], f)


@handler('networkx.Graph')
def _graph(it, fr, args, kw, node):
    # every call makes a graph of its own
    it.graphs = getattr(it, 'graphs', 0) + 1
    return mk('call', 'newgraph', num(it.graphs), *it.opargs(fr, args, kw))


@handler('zeros_like')
def _zl(it, fr, args, kw, node):
    x = args[0]
    if it.is_arr(x):
        return mk('arr', it.map_seq(it.arr_seq(x), lambda e: ZERO))
    return ZERO


@handler('norm')
def _norm(it, fr, args, kw, node):
    x = args[0]
    S = it.arr_seq(x)
    els = it.elements(S)
    if els is None and model.typeof(x).startswith('vec3'):
        els = [model.norm_item(x, num(i)) for i in range(3)]
    if els is None:
        return None
    tot = ZERO
    for e in els:
        if model.typeof(e) == 'complex' or any(n.op == 'imag' for n in tm.nodes(e)):
            return None
        tot = tm.add(tot, tm.power(e, num(2)))
    return tm.power(tot, num(Fraction(1, 2)))


def vec(it, x):
    els = it.elements(it.arr_seq(x))
    if els is None and model.typeof(x).startswith('vec3'):
        els = [model.norm_item(x, num(i)) for i in range(3)]
    return els


@handler('dot')
def _dot(it, fr, args, kw, node):
    a, b = vec(it, args[0]), vec(it, args[1])
    if a is None or b is None or len(a) != len(b):
        return None
    r = ZERO
    for x, y in zip(a, b):
        r = tm.add(r, tm.mul(x, y))
    return r


@handler('cross')
def _cross(it, fr, args, kw, node):
    a, b = vec(it, args[0]), vec(it, args[1])
    if a is None or b is None:
        return None
    m = lambda i, j: tm.sub(tm.mul(a[i], b[j]), tm.mul(a[j], b[i]))
    return mk('arr', tm.lst(m(1, 2), m(2, 0), m(0, 1)))


@handler('stack')
def _stack(it, fr, args, kw, node):
    if kw:
        return None
    S = it.seq(fr, args[0])
    els = it.elements(S)
    if els is not None:
        return mk('arr', tm.lst(*[it.arr_seq(e) for e in els]))
    return None


def _nest(it, outer, inner, pick):
    a, b = tm.fresh(it.elty(outer)), tm.fresh(it.elty(inner))
    return mk('arr', it.flat(outer, a, TRUE, mk('compr', inner, b, TRUE, pick(a, b))))


def _count(n):
    return mk('rng', ZERO, n, ONE, s('range'))


@handler('repeat')
def _repeat(it, fr, args, kw, node):
    if kw or len(args) != 2 or not model.is_num(args[1]):
        return None
    return over(it.seq(fr, args[0]), lambda S: _nest(it, S, _count(args[1]), lambda a, b: a))


@handler('tile')
def _tile(it, fr, args, kw, node):
    if kw or len(args) != 2 or not model.is_num(args[1]):
        return None
    return over(it.seq(fr, args[0]), lambda S: _nest(it, _count(args[1]), S, lambda a, b: b))


# ---------------------------------------------------------------- classes
def classes(it, c):
    if c.op == 'tuple':
        return [x for y in c.args for x in classes(it, y)]
    n = it.cls_name(c)
    return [n] if n is not None else [None]


@handler('isinstance')
def _isinstance(it, fr, args, kw, node):
    x, c = args
    out = []
    if c.op == 'typeof':
        y = c.args[0]
        cy = model.py_class(y)
        if cy is not None and (cy in model.EXACT or not model.is_class(cy)):
            return isinst_over(x, cy)
        return mk('isinst', x, 'typeof:%d' % y.uid)
    for n in classes(it, c):
        if n is None:
            return None
        n = {'Number': 'Number', 'integer': 'int', 'floating': 'float', 'ndarray': 'ndarray'}.get(n, n)
        out.append(isinst_over(x, n))
    return or_(*out)


def isinst_over(x, n):
    return model.isinst(x, n)


@handler('issubclass')
def _issubclass(it, fr, args, kw, node):
    a, b = it.cls_name(args[0]), it.cls_name(args[1])
    if a is None or b is None or not model.is_class(a) or not model.is_class(b):
        return None
    return TRUE if model.subclass(a, b) else FALSE


@handler('type')
def _type(it, fr, args, kw, node):
    x = args[0]
    c = model.py_class(x)
    if c is not None and c in model.EXACT:
        return mk('cls', c)
    return mk('typeof', x)


@handler('callable')
def _callable(it, fr, args, kw, node):
    x = args[0]
    if x.op in ('closure', 'func', 'lam', 'bound', 'cls', 'ext', 'partial'):
        return TRUE
    if x.op in ('str', 'num', 'tuple', 'list', 'none') or model.typeof(x) in ('str', 'num', 'int'):
        return FALSE
    return mk('callable', x)


@handler('hasattr')
def _hasattr(it, fr, args, kw, node):
    if args[1].op != 'str':
        return None
    return over(args[0], lambda x: TRUE if x.op in ('ext',) else model.hasattr_(x, args[1].args[0]))


@handler('getattr')
def _getattr(it, fr, args, kw, node):
    if args[1].op == 'ite':
        n = args[1]
        a2, a3 = list(args), list(args)
        a2[1], a3[1] = n.args[1], n.args[2]
        return ite(n.args[0], _getattr(it, fr, a2, kw, node), _getattr(it, fr, a3, kw, node))
    if args[1].op == 'concat' or args[1].op != 'str':
        if len(args) == 2:
            return mk('call', 'getattr', args[0], args[1])
        return None
    if len(args) == 3:
        has = _hasattr(it, fr, args[:2], {}, node)
        if has is FALSE:
            return args[2]
        v = it.getattr(fr, args[0], args[1].args[0], node)
        return v if has is TRUE else ite(has, v, args[2])
    return it.getattr(fr, args[0], args[1].args[0], node)


@handler('setattr')
def _setattr(it, fr, args, kw, node):
    if args[1].op != 'str':
        return None
    it.setattr(fr, args[0], args[1].args[0], args[2], node)
    return NONE


@handler('delattr')
def _delattr(it, fr, args, kw, node):
    if args[1].op != 'str':
        return None
    it.heap_set(fr, args[0], args[1].args[0], UNBOUND)
    return NONE


@handler('cast')
def _cast(it, fr, args, kw, node):
    return args[1]


@handler('copyof')
def _copy(it, fr, args, kw, node):
    x = args[0]
    if x.op in ('dict', 'list', 'tuple', 'compr', 'dictc', 'num', 'str') or model.typeof(x).startswith(('dict',
                                                                                                      'list')):
        return x
    return None


# ---------------------------------------------------------------- functions
@handler('partial')
def _partial(it, fr, args, kw, node):
    if args[0].op == 'ext' and extern.ALIASES.get(args[0].args[0]) in ('lru_cache', 'wraps'):
        return mk('partialdec', args[0])
    return mk('partial', *args, *[mk('kw', k, kw[k]) for k in sorted(kw)])


@handler('wraps')
def _wraps(it, fr, args, kw, node):
    return mk('partialdec', mk('ext', 'functools.wraps'))


@handler('lru_cache', 'cached_property')
def _lru(it, fr, args, kw, node):
    if len(args) == 1 and args[0].op in ('func', 'closure'):
        return args[0]
    return mk('partialdec', mk('ext', 'functools.lru_cache'))


@handler('attrgetter')
def _ag(it, fr, args, kw, node):
    if len(args) != 1 or args[0].op != 'str':
        return None
    return mk('getter', 'attr', args[0].args[0])


@handler('itemgetter')
def _ig(it, fr, args, kw, node):
    if len(args) != 1:
        return None
    return mk('getter', 'item', args[0])


@handler('warn')
def _warn(it, fr, args, kw, node):
    it.emit(fr, mk('eff', mk('call', 'warn')))
    return NONE


# ---------------------------------------------------------------- units
@handler('Quantity')
def _quantity(it, fr, args, kw, node):
    a = _pos(args, kw, ['value', 'units'])
    v, u = a[0], a[1]
    if u is None or u is NONE:
        if model.typeof(v) == 'Quantity':
            return v
        if v.op == 'num':
            return v
        return mk('call', 'Quantity', v)
    return over(v, lambda x: tm.mul(x, extern.unit_of(u)) if x.op != 'str' else mk('call', 'Quantity', x, u))


@handler('pint.UnitRegistry')
def _ureg(it, fr, args, kw, node):
    return mk('ext', 'ureg')


@handler('isclose')
def _isclose(it, fr, args, kw, node):
    return mk('truthy', mk('call', 'isclose', *it.opargs(fr, args, kw)))


@handler('isna')
def _isna(it, fr, args, kw, node):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in ('num', 'str'):
            return FALSE
        return mk('truthy', mk('call', 'isna', x))
    return over(args[0], f)


# ---------------------------------------------------------------- graphs
@handler('get_node_attributes')
def _gna(it, fr, args, kw, node):
    if args[1] is not s('level'):
        return None
    return over(args[0], lambda g: mk('nodedict', g))


@handler('get_edge_attributes')
def _gea(it, fr, args, kw, node):
    if args[1] is not s('transition'):
        return None
    return over(args[0], lambda g: mk('edgedict', g))


# ---------------------------------------------------------------- regular expressions
FINDERS = ('findall', 'finditer', 'search', 'match', 'fullmatch')


@handler('re.compile')
def _compile(it, fr, args, kw, node):
    if len(args) == 1 and not kw and args[0].op == 'str':
        return mk('regex', args[0])


def matches(it, name, p, subject):
    """the matches of a pattern in a text, and what they hold"""
    text = p.args[0]
    if name in ('match', 'fullmatch'):
        text = r'\A(?:%s)' % text + (r'\Z' if name == 'fullmatch' else '')
    f = regex.form(text)
    if f is None:
        return None
    base = mk('call', 're.findall', s('regex:' + f[0]), subject)
    m = tm.fresh('Match')
    if name == 'finditer':
        return mk('compr', base, m, TRUE, mk('match', m, s(text)))
    if name == 'findall':
        caps = [mk('call', 'cap', m, s(g)) for g in f[1]]
        return mk('compr', base, m, TRUE, mk('call', 'cap', m, s('all')) if not caps else caps[0] if len(caps) == 1
                  else tm.tup(*caps))
    return mk('match', tm.item(base, ZERO), s(text))


def finder(name):
    def call(it, fr, args, kw, node):
        a = _pos(args, kw, ['pattern', 'string'])
        if len(a) == 2 and a[0].op == 'regex':
            a[0] = a[0].args[0]
        if len(a) != 2 or a[0].op != 'str':
            return None
        return over(a[1], lambda x: matches(it, name, a[0], x))
    return call


for _n in FINDERS:
    HANDLERS['re.' + _n] = finder(_n)


def match_method(it, fr, m, name, args, kw):
    f = regex.form(m.args[1].args[0])
    return None if f is None or kw else captures(m.args[0], f, name, args)


def captures(m, f, name, args):
    text, places, names = f
    cap = lambda i: mk('call', 'cap', m, s('all')) if i == 0 else absent(mk('call', 'cap', m, s(places[i - 1])), places[i - 1])
    if name == 'groups' and not args:
        return tm.tup(*[cap(i + 1) for i in range(len(places))])
    if name in ('group', '__getitem__'):
        ks = [names.get(k.args[0]) if k.op == 'str' else model.const_int(k) for k in args] or [0]
        if all(k is not None and 0 <= k <= len(places) for k in ks):
            return cap(ks[0]) if len(ks) == 1 else tm.tup(*[cap(k) for k in ks])
    return None


def absent(c, place):
    """a group that need not take part in a match is None for a match object and empty text for findall"""
    return ite(tm.eq(c, s('')), NONE, c) if place.startswith('((') and place[2] != ')' else c


# ======================================================================= methods
def ext_method(it, fr, obj, name, args, kwargs, node):
    if obj.op == 'ite':
        c = obj.args[0]
        return it.branch_expr(fr, c, lambda: ext_method(it, fr, obj.args[1], name, args, kwargs, node),
                              lambda: ext_method(it, fr, obj.args[2], name, args, kwargs, node))
    if obj is UNBOUND:
        return UNBOUND
    ty = model.base_type(obj)
    if name in extern.IGNORED:
        return NONE
    if name in ('__getattribute__', '__getattr__') and len(args) == 1:
        return _getattr(it, fr, [obj] + list(args), {}, node)
    if name in ('to', 'ito', 'to_base_units', 'm_as'):
        if name == 'to' and args:
            return extern.q_to(obj, args[0])
        if name == 'm_as':
            return extern.magnitude(extern.q_to(obj, args[0]))
    if ty == 'Graph':
        r = graph_method(it, fr, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if obj.op in ('nodeview', 'edgeview', 'adjview', 'adj', 'nodedict', 'edgedict', 'edgedata', 'nodedata', 'edgesof'):
        r = view_method(it, fr, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if obj.op in ('dict', 'dictc', 'dictadd', 'dictdel', 'dictupd', 'nodedict', 'edgedict') or ty.startswith('dict') \
            or obj.op == 'attr' and obj.args[1] == 'aliases':
        r = dict_method(it, fr, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if ty == 'str':
        r = str_method(it, fr, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if it.is_arr(obj) or obj.op in ('list', 'tuple', 'compr', 'set', 'listcat'):
        r = seq_method(it, fr, obj, name, args, kwargs, node)
        if r is not None:
            return r
    if obj.op == 'regex' and name in FINDERS and len(args) == 1 and not kwargs:
        r = over(args[0], lambda x: matches(it, name, obj.args[0], x))
        if r is not None:
            return r
    if obj.op == 'match':
        r = match_method(it, fr, obj, name, args, kwargs)
        if r is not None:
            return r
    if name == '__len__':
        return HANDLERS['len'](it, fr, [obj], {}, node)
    if name in ('__contains__',):
        return it.isin(fr, args[0], obj)
    if name == '__eq__':
        return it.eq(fr, obj, args[0], node)
    if name == 'is_integer' and model.typeof(obj) in ('int', 'nat'):
        return TRUE
    if name == 'is_integer' and model.is_num(obj):
        return tm.eq(mk('floorint', obj), obj)
    if name == 'get' and len(args) in (1, 2) and not kwargs and ty in ('any', 'item', ''):
        k = args[0]
        return ite(it.isin(fr, k, obj), it.getitem(fr, obj, k), args[1] if len(args) > 1 else NONE)
    if name in ('total', 'conjugate', 'conj') and model.typeof(obj) in ('num', 'int', 'half'):
        return obj
    if name == 'joinpath' and model.is_path(obj) and not kwargs:
        return model.join_path(obj, *args)
    if not args and not kwargs and obj.op == 'item' and (
            name in ('tolist', 'to_list') or name == 'to_numpy' and model.typeof(obj) == 'Series'):
        return HANDLERS['list'](it, fr, [obj], {}, node)
    if name == 'write' and len(args) == 1 and not kwargs and args[0].op == 'call' and \
            args[0].args[0] in ('pickle.dumps', 'json.dumps'):
        # written at once or by way of a text: the same
        r = mk('call', args[0].args[0][:-1], args[0].args[1], obj, *args[0].args[2:])
        it.emit(fr, mk('eff', r))
        return NONE
    if name == 'writerows' and len(args) == 1 and not kwargs:
        S = it.seq(fr, args[0], node)
        if S.op == 'compr':
            src, bv, c, e = S.args
            w = mk('effset', mk('eff', mk('mcall', obj, 'writerow', e)))
            it.emit(fr, mk('foreach', src, bv, ite(c, w, mk('effset'))))
            return NONE
    args, kwargs = signatures.normal(name, args, kwargs, method=True)
    r = mk('mcall', obj, name, *it.opargs(fr, args, kwargs))
    it.opaque_calls += 1
    from .interp import EFFECT_METHODS
    if name in extern.EFFECTFUL or name in EFFECT_METHODS:
        it.emit(fr, mk('eff', r))
    if it_try(it) and name in ('index', 'remove'):
        it.implicit(fr, 'ValueError', mk('truthy', mk('call', 'raises', s('ValueError'), r)))
    if it_try(it) and name == 'astype' and args and args[0] in (mk('ext', 'builtins.float'), mk('ext', 'builtins.int')):
        it.implicit(fr, 'ValueError', mk('truthy', mk('call', 'raises', s('ValueError'), r)))
    return r


def graph_method(it, fr, g, name, args, kw, node):
    if name == 'nodes':
        data = kw.get('data', args[0] if args else FALSE)
        if data is s('level'):
            ety = node_ty(g)
            bv = tm.fresh(ety)
            return mk('compr', mk('nodes', g), bv, TRUE, tm.tup(model.norm_attr(bv, 'name'), bv))
        if data is FALSE:
            return mk('nodekeys', g)
        return None
    if name == 'edges':
        data = kw.get('data', args[0] if args and args[0].op in ('bool', 'str') else FALSE)
        if data is TRUE:
            e = tm.fresh(edge_ty(g))
            n = lambda x: model.norm_attr(model.norm_attr(e, x), 'name')
            return mk('compr', mk('edges', g), e, TRUE, tm.tup(n('E_1'), n('E_2'), mk('edgedat', e)))
        if data is s('transition'):
            e = tm.fresh(edge_ty(g))
            n = lambda x: model.norm_attr(model.norm_attr(e, x), 'name')
            return mk('compr', mk('edges', g), e, TRUE, tm.tup(n('E_1'), n('E_2'), e))
        if data is FALSE and not args:
            return mk('edgeview', g)
        return None
    if name == 'copy' and not args:
        return mk('mcall', g, 'copy')
    if name == 'has_edge':
        return mk('isin', tm.tup(args[0], args[1]), mk('edgeset', g))
    if name in ('has_node', '__contains__'):
        return mk('isin', args[0], mk('nodedict', g))
    if name == 'get_edge_data':
        from .interp import edgedata
        return edgedata(g, tm.tup(args[0], args[1]))
    if name == 'neighbors':
        return mk('adj', g, args[0])
    if name == '__getitem__':
        return mk('adj', g, args[0])
    if name == 'remove_edges_from' and len(args) == 1:
        S = it.seq(fr, args[0], node)
        if S.op == 'ite':
            return it.branch_expr(fr, S.args[0], lambda: graph_method(it, fr, g, name, [S.args[1]], kw, node),
                                  lambda: graph_method(it, fr, g, name, [S.args[2]], kw, node))

        def removal(pair):
            u, v = it.getitem(fr, pair, ZERO), it.getitem(fr, pair, ONE)
            return ite(mk('isin', tm.tup(u, v), mk('edgeset', g)), mk('effset', mk('eff', mk(
                'mcall', g, 'remove_edge', u, v))), mk('effset'))
        els = it.elements(S)
        if els is not None:
            for e in els:
                it.emit(fr, removal(e))
            return NONE
        if S.op == 'compr':
            src, bv, c, e = S.args
            it.emit(fr, mk('foreach', src, bv, ite(c, removal(e), mk('effset'))))
            return NONE
    if name in ('add_node', 'add_edge', 'remove_node', 'remove_edge'):
        if name == 'remove_edge' and len(args) == 2:
            it.implicit(fr, 'NetworkXError', not_(mk('isin', tm.tup(*args), mk('edgeset', g))))
        r = mk('mcall', g, name, *it.opargs(fr, args, kw))
        it.emit(fr, mk('eff', r))
        return NONE
    return None


def node_ty(g):
    while g.op == 'mcall' and g.args[1] == 'copy':
        g = g.args[0]
    if g.op == 'attr':
        return {'_hfModel': 'HFLevel', '_zModel': 'ZLevel'}.get(g.args[1], 'EnergyLevel')
    return 'EnergyLevel'


def edge_ty(g):
    while g.op == 'mcall' and g.args[1] == 'copy':
        g = g.args[0]
    if g.op == 'attr':
        return {'_hfModel': 'HFTransition', '_zModel': 'ZTransition'}.get(g.args[1], 'Transition')
    return 'Transition'


def view_method(it, fr, v, name, args, kw, node):
    g = v.args[0]
    if v.op in ('nodeview', 'nodekeys') and name == '__call__':
        return graph_method(it, fr, g, 'nodes', args, kw, node)
    if v.op == 'nodeview' and name == 'data':
        return graph_method(it, fr, g, 'nodes', [], {'data': args[0]}, node)
    if v.op == 'nodedict':
        bv = tm.fresh(node_ty(g))
        nm = model.norm_attr(bv, 'name')
        if name == 'values':
            return mk('nodes', g)
        if name in ('keys', '__iter__'):
            return mk('compr', mk('nodes', g), bv, TRUE, nm)
        if name == 'items':
            return mk('compr', mk('nodes', g), bv, TRUE, tm.tup(nm, bv))
    if v.op == 'edgedict':
        if name == 'values':
            return mk('edges', g)
        if name in ('keys', '__iter__'):
            return mk('edgekeys', g)
        if name == 'items':
            bv = tm.fresh(edge_ty(g))
            n = lambda x: model.norm_attr(model.norm_attr(bv, x), 'name')
            return mk('compr', mk('edges', g), bv, TRUE, tm.tup(mk('edgekey', bv), bv))
    if v.op == 'adj' and name == 'items':
        bv = tm.fresh(edge_ty(g))
        return mk('compr', mk('edgesat', g, v.args[1]), bv, TRUE,
                  tm.tup(mk('otherend', bv, v.args[1], g), mk('edgedat', bv)))
    if v.op == 'adj' and name in ('keys', '__iter__'):
        bv = tm.fresh(edge_ty(g))
        return mk('compr', mk('edgesat', g, v.args[1]), bv, TRUE, mk('otherend', bv, v.args[1], g))
    if v.op == 'adj' and name == 'values':
        bv = tm.fresh(edge_ty(g))
        return mk('compr', mk('edgesat', g, v.args[1]), bv, TRUE, mk('edgedat', bv))
    return None


def by_key(it, fr, d, f):
    """the values / items of an opaque dict as a sequence over its keys"""
    if d.op == 'attr' and d.args[1] in ('_sublevels', '_subtransitions'):
        # nothing before the components are made, afterwards what the accessors give
        subs = mk('subs', d.args[0])
        bv = tm.fresh(model.elem_type(model.typeof(subs)))
        made = mk('compr', subs, bv, TRUE, f(it.sub_key(bv, d.args[1] == '_subtransitions'), bv))
        return ite(tm.eq(mk('call', 'len', d), ZERO), tm.lst(), made)
    K = it.seq(fr, d)
    bv = tm.fresh(model.parse_generic(model.base_type(d))[1][0] if '[' in model.base_type(d) else 'any')
    return mk('compr', K, bv, TRUE, f(bv, it.dict_item(d, bv)))


def dict_method(it, fr, d, name, args, kw, node):
    if name == 'get':
        a = _pos(args, kw, ['key', 'default'])
        dflt = a[1] if len(a) > 1 and a[1] is not None else NONE
        has = it.isin(fr, a[0], d)
        if has is TRUE:
            return it.getitem(fr, d, a[0])
        if has is FALSE:
            return dflt
        # the lookup happens only when the key is there
        v = it.dict_item(d, a[0]) if d.op not in ('nodedict', 'edgedict') else \
            (it.node_at(d.args[0], a[0]) if d.op == 'nodedict' else it.edge_at(d.args[0], a[0]))
        return ite(has, v, dflt)
    if name in ('keys', '__iter__'):
        S = it.seq(fr, d)
        return mk('dkeys', d) if S is d else S
    if name == 'values':
        if d.op == 'dict':
            return tm.lst(*d.args[1::2])
        if d.op == 'dictc':
            S, bv, c, kv = d.args
            return mk('compr', S, bv, c, kv.args[1])
        return by_key(it, fr, d, lambda k, v: v)
    if name == 'items':
        if d.op == 'dict':
            return tm.lst(*[tm.tup(d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)])
        if d.op == 'dictc':
            S, bv, c, kv = d.args
            return mk('compr', S, bv, c, tm.tup(*kv.args))
        return by_key(it, fr, d, lambda k, v: tm.tup(k, v))
    if name == 'copy':
        return d
    if name == '__contains__':
        return it.isin(fr, args[0], d)
    if name == '__getitem__':
        return it.getitem(fr, d, args[0], node)
    return None


def str_method(it, fr, x, name, args, kw, node):
    if name in ('split', 'rsplit') and set(kw) <= {'sep', 'maxsplit'} and (kw or len(args) == 2) and x.op != 'str':
        sep = args[0] if args else kw.get('sep', NONE)
        n = args[1] if len(args) > 1 else kw.get('maxsplit', num(-1))
        it.opaque_calls += 1

        def parts(n):
            if n is ZERO and sep.op == 'str':
                return tm.lst(x)
            rest = [sep] + ([n] if n is not num(-1) else [])
            return mk('mcall', x, name, *([] if rest == [NONE] else rest))
        return over(n, parts)
    if name in ('isupper', 'islower') and x.op == 'call' and x.args[0] == 'cap':
        ls = regex.letters(x)
        if ls is not None:
            some = not_(tm.eq(x, s('')))
            if ls[name == 'islower'] is False:
                return FALSE
            if ls[name == 'isupper'] is False:
                return some
            up = mk('truthy', mk('mcall', x, 'isupper'))
            return and_(some, up if name == 'isupper' else not_(up))
    if name == 'format' and x.op == 'str' and not any(v.op in ('star', 'dstar') for v in args):
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(x.args[0]):
            if lit:
                parts.append(s(lit))
            if field is None:
                continue
            if field == '' and auto < len(args):
                v = args[auto]
                auto += 1
            elif field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(mk('fmt', v, s(spec)) if spec else it.shown(fr, v, conv))
        return it.concat(parts) if parts else s('')
    if name == 'join' and args:
        S = it.seq(fr, args[0])
        if S.op == 'ite':
            return ite(S.args[0], str_method(it, fr, x, name, [S.args[1]], kw, node),
                       str_method(it, fr, x, name, [S.args[2]], kw, node))
        els = it.elements(S)
        if els is not None:
            parts = []
            for i, e in enumerate(els):
                if i:
                    parts.append(x)
                parts.append(e)
            return it.concat(parts) if parts else s('')
        if S.op == 'mcall' and S.args[1] in ('split', 'rsplit') and len(S.args) == 3 and S.args[2].op == 'str' and \
                S.args[2].args[0]:
            return mk('mcall', S.args[0], 'replace', S.args[2], x)
        return mk('join', x, S)
    if name == '__contains__':
        return it.isin(fr, args[0], x)
    if name in ('find', 'rfind') and len(args) == 1 and not kw and not (x.op == 'str' and args[0].op == 'str'):
        at = mk('call', 'at_' + name, x, args[0])
        return ite(it.isin(fr, args[0], x), at, num(-1))
    if name == 'index' and len(args) == 1 and not kw and x.op == 'str' and args[0].op not in ('str', 'ite') and \
            0 < len(x.args[0]) <= 26 and len(set(x.args[0])) == len(x.args[0]):
        r = mk('mcall', x, 'index', args[0])
        if it_try(it):
            it.implicit(fr, 'ValueError', mk('truthy', mk('call', 'raises', s('ValueError'), r)))
        for i, c in reversed(list(enumerate(x.args[0]))):
            r = ite(tm.eq(args[0], s(c)), num(i), r)
        return r
    if name in ('startswith', 'endswith') and args and args[0].op == 'str':
        if x.op == 'str':
            return TRUE if getattr(x.args[0], name)(args[0].args[0]) else FALSE
        return mk('truthy', mk('mcall', x, name, args[0]))
    if x.op == 'str' and all(a.op in ('str', 'num') for a in args) and not kw:
        return extern.norm_mcall((x, name) + tuple(args)) if name not in ('split', 'rsplit') else \
            tm.lst(*[s(p) for p in getattr(x.args[0], name)(*[a.args[0] if a.op == 'str' else int(a.args[0])
                                                               for a in args])])
    return None


def seq_method(it, fr, x, name, args, kw, node):
    if name in ('sum', 'max', 'min', 'any', 'all') and not kw and not args:
        return HANDLERS[name](it, fr, [x], {}, node)
    if name in ('tolist', 'copy', 'flatten', 'ravel', 'astype'):
        return x
    if name == 'transpose':
        return mk('arr', it.transpose(it.arr_seq(x)))
    if name == 'index':
        els = it.elements(x)
        if els is not None and args[0].op in tm.CONST_OPS and all(e.op in tm.CONST_OPS for e in els):
            for i, e in enumerate(els):
                if e is args[0]:
                    return num(i)
            it.implicit(fr, 'ValueError', TRUE)
            return UNBOUND
    if name == 'count':
        els = it.elements(x)
        if els is not None:
            r = ZERO
            for e in els:
                r = tm.add(r, ite(tm.eq(e, args[0]), ONE, ZERO))
            return r
        if x.op == 'compr':
            return mk('call', 'len', mk('compr', x.args[0], x.args[1], and_(x.args[2], tm.eq(x.args[3], args[0])), ONE))
    if name == 'conj':
        return x
    return None
