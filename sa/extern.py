"""Meaning of the external functions, methods and attributes the repository uses."""
from fractions import Fraction
from . import terms as tm
from .terms import T, mk, num, s, TRUE, FALSE, NONE, ZERO, ONE
from . import model

# ------------------------------------------------------------------ units
PREFIX = {'': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'm': -3, 'u': -6, 'n': -9, 'kilo': 3, 'mega': 6, 'giga': 9,
          'tera': 12, 'milli': -3, 'micro': -6, 'nano': -9, 'c': -2, 'centi': -2, 'p': -12, 'pico': -12}
BASE_UNITS = {'Hz': 'Hz', 'hertz': 'Hz', 'G': 'gauss', 'gauss': 'gauss', 's': 's', 'second': 's', 'm': 'm',
              'meter': 'm', 'metre': 'm', 'K': 'K', 'kelvin': 'K', 'amu': 'amu', 'u': 'amu', 'kg': 'kg',
              'T': 'tesla', 'tesla': 'tesla'}
CONSTANTS = {'speed_of_light': 'speed_of_light', 'c': 'speed_of_light', 'k': 'boltzmann_constant',
             'boltzmann_constant': 'boltzmann_constant', 'vacuum_permittivity': 'vacuum_permittivity',
             'epsilon_0': 'vacuum_permittivity', 'k_B': 'boltzmann_constant'}
LENGTH = {'m'}


def unit_named(name):
    """unit node (numeric factor times base unit) or None"""
    n = name.strip()
    if n in CONSTANTS and n not in ('k', 'c'):
        return mk('unit', CONSTANTS[n])
    if n in ('G', 'T', 'm'):
        return mk('unit', BASE_UNITS[n])
    if n.endswith('s') and n[:-1] in BASE_UNITS and len(n) > 3:
        n = n[:-1]
    if n in BASE_UNITS:
        return mk('unit', BASE_UNITS[n])
    for p, e in sorted(PREFIX.items(), key=lambda x: -len(x[0])):
        if p and n.startswith(p) and n[len(p):] in BASE_UNITS:
            return tm.mul(num(Fraction(10) ** e), mk('unit', BASE_UNITS[n[len(p):]]))
    if n in CONSTANTS:
        return mk('unit', CONSTANTS[n])
    if n in ('wavenumber', 'cm**-1', 'cm^-1', '1/cm'):
        return mk('unit', 'percm')
    return None


def unit_of(u):
    """unit node for an expression naming a unit (string or quantity)"""
    if u.op == 'str':
        r = unit_named(u.args[0])
        if r is not None:
            return r
        txt = u.args[0].replace(' ', '')
        if '/' in txt and txt.count('/') == 1:
            a, b = txt.split('/')
            x, y = unit_named(a), unit_named(b)
            if x is not None and y is not None:
                return tm.div(x, y)
        return mk('unit', 'str:' + u.args[0])
    if u.op == 'ite':
        return tm.ite(u.args[0], unit_of(u.args[1]), unit_of(u.args[2]))
    if model.typeof(u) in ('str', 'any') and u.op not in ('mul', 'add', 'unit', 'pow'):
        return mk('call', 'unitof', u)
    return u


def has_unit(t):
    return any(x.op == 'unit' for x in tm.nodes(t))


def q_to(q, u):
    un = unit_of(u)
    if any(x.op == 'unit' and x.args[0] in LENGTH for x in tm.nodes(un)):
        return mk('to_wl', q, un)
    return mk('to', q, un)


def magnitude(q):
    if q.op == 'ite':
        return tm.ite(q.args[0], magnitude(q.args[1]), magnitude(q.args[2]))
    if q.op == 'to':
        return tm.div(q.args[0], q.args[1])
    if q.op == 'mul':
        us = [x for x in q.args if x.op == 'unit' or (x.op == 'pow' and x.args[0].op == 'unit')]
        rest = [x for x in q.args if x not in us]
        if len(us) == 1 and us[0].op == 'unit' and all(model.typeof(x) != 'Quantity' and not has_unit(x)
                                                       for x in rest):
            return tm.mul(*rest)
    if q.op == 'unit':
        return ONE
    return mk('mag', q)


# ------------------------------------------------------------------ canonical function names
ALIASES = {
    'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'numpy.fabs': 'abs', 'math.fabs': 'abs', 'builtins.abs': 'abs',
    'numpy.sqrt': 'sqrt', 'math.sqrt': 'sqrt', 'cmath.sqrt': 'sqrt',
    'numpy.exp': 'exp', 'math.exp': 'exp', 'numpy.cos': 'cos', 'numpy.sin': 'sin', 'numpy.log': 'log',
    'math.cos': 'cos', 'math.sin': 'sin', 'math.log': 'log',
    'numpy.arctan': 'arctan', 'math.atan': 'arctan',
    'numpy.any': 'any', 'numpy.all': 'all', 'numpy.sum': 'sum', 'math.fsum': 'sum', 'numpy.max': 'max',
    'numpy.amax': 'max', 'numpy.amin': 'min',
    'numpy.min': 'min', 'numpy.maximum': 'max', 'numpy.minimum': 'min',
    'numpy.array': 'array', 'numpy.asarray': 'array', 'numpy.arange': 'arange',
    'numpy.math.factorial': 'factorial', 'math.factorial': 'factorial',
    'scipy.special.factorial': 'factorial',
    'numpy.linalg.norm': 'norm', 'numpy.dot': 'dot', 'numpy.vdot': 'dot', 'numpy.inner': 'dot',
    'numpy.cross': 'cross', 'numpy.zeros_like': 'zeros_like', 'numpy.power': 'power', 'math.pow': 'power',
    'numpy.square': 'square', 'numpy.repeat': 'repeat', 'numpy.tile': 'tile', 'numpy.stack': 'stack',
    'numpy.vstack': 'stack', 'numpy.logical_and': 'bitand', 'numpy.logical_or': 'bitor',
    'numpy.prod': 'prod', 'math.prod': 'prod', 'numpy.floor': 'floor', 'math.floor': 'floor',
    'numpy.subtract': 'npsub', 'numpy.add': 'npadd', 'numpy.multiply': 'npmul', 'numpy.divide': 'npdiv',
    'scipy.special.jv': 'jv', 'scipy.special.jn': 'jv', 'scipy.special.voigt_profile': 'voigt_profile',
    'itertools.product': 'product', 'itertools.chain': 'chain', 'itertools.chain.from_iterable': 'flatten',
    'itertools.combinations': 'combinations',
    'networkx.get_node_attributes': 'get_node_attributes', 'networkx.get_edge_attributes': 'get_edge_attributes',
    'tqdm.tqdm': 'identity', 'tqdm.auto.tqdm': 'identity', 'tqdm.trange': 'range',
    'functools.wraps': 'wraps', 'functools.lru_cache': 'lru_cache', 'functools.cache': 'lru_cache',
    'functools.partial': 'partial', 'functools.reduce': 'reduce', 'functools.cached_property': 'cached_property',
    'copy.copy': 'copyof', 'copy.deepcopy': 'deepcopyof', 'math.isclose': 'isclose', 'numpy.isclose': 'isclose',
    'pandas.isna': 'isna', 'pandas.isnull': 'isna', 'numpy.isnan': 'isna', 'math.isnan': 'isna',
    'collections.OrderedDict': 'dict', 'typing.cast': 'cast', 'operator.attrgetter': 'attrgetter',
    'operator.itemgetter': 'itemgetter', 'collections.defaultdict': 'defaultdict',
    'warnings.warn': 'warn', 'itertools.islice': 'islice', 'operator.mul': 'npmul', 'operator.add': 'npadd',
}
EXT_VALUES = {'numpy.pi': mk('pi'), 'math.pi': mk('pi'), 'numpy.inf': mk('atomc', 'inf'),
              'math.inf': mk('atomc', 'inf'), 'numpy.nan': mk('atomc', 'nan'), 'math.nan': mk('atomc', 'nan')}

# external calls with an observable effect
EFFECTFUL = {'add_node', 'add_edge', 'remove_node', 'remove_edge', 'writerows', 'writerow', 'write', 'to_csv', 'plot',
             'add_collection', 'add_patch', 'autoscale', 'savefig', 'clear', 'add_edges_from', 'add_nodes_from',
             'remove_edges_from', 'remove_nodes_from', 'dump', 'xlabel', 'ylim', 'legend', 'rename', 'fill',
             'set_description', 'setdefault', 'update', 'popitem', 'draw', 'warn', 'print',
             'set_node_attributes', 'set_edge_attributes', 'set_application_registry', 'enable_contexts', 'disable_contexts', 'define', 'load_definitions',
             'add_transformation', 'add_context', 'redefine'}
IGNORED = {'set_description', 'print', 'set_postfix', 'flush', 'debug', 'info'}
IGNORED_EXT = {'builtins.print', 'warnings.filterwarnings', 'warnings.simplefilter', 'logging.debug', 'logging.info'}


def norm_call(a):
    """rewrite a call node whose arguments are leaves (case-free); a[0] is the function name"""
    f = a[0]
    xs = a[1:]
    if f == 'unitof' and xs[0].op == 'str':
        from . import canon
        return canon.canon(unit_of(xs[0]))
    if f == 'len':
        return n_len(xs[0], a)
    if f in ('pickle.loads', 'json.loads') and len(xs) == 1 and xs[0].op == 'mcall' and len(xs[0].args) == 2 and \
            xs[0].args[1] == 'read':
        return mk('call', f[:-1], xs[0].args[0])
    if f == 'float_to_frac' and len(xs) == 1:
        x = xs[0]
        if x.op == 'num' and x.args[0].denominator in (1, 2):
            v = x.args[0]
            return s(str(int(v)) if v.denominator == 1 else '%d/2' % int(v * 2))
        if x is NONE:
            return NONE
        # the string forms the level tree stores next to the numbers
        for n in ('J', 'F', 'mF'):
            if x.op == 'attr' and x.args[1] == n:
                return mk('attr', x.args[0], n + '_frac')
    if f == 'frac_to_float' and len(xs) == 1 and (xs[0] is NONE or model.is_num(xs[0])):
        return xs[0]
    if f == 'float':
        x = xs[0]
        if model.is_num(x) or x.op in ('num', 'rat'):
            return x
        if x.op == 'strof' and (model.is_num(x.args[0]) or x.args[0].op in ('num', 'rat')):
            return x.args[0]
    if f == 'factorial' and xs[0].op == 'num' and xs[0].args[0].denominator == 1 and 0 <= xs[0].args[0] <= 20:
        import math
        return num(math.factorial(int(xs[0].args[0])))
    if f == 'exp' and xs[0] is ZERO:
        return ONE
    if f == 'max_' or f == 'min_':
        pass
    if f == 'isna' and xs[0] is NONE:
        return TRUE
    if f == 'abs':
        from . import canon as cn
        x = xs[0]
        return cn.canon(tm.ite(tm.lt(x, ZERO), tm.neg(x), x))
    return mk('call', *a)


def n_len(x, a):
    if x.op in ('tuple', 'list', 'str', 'set'):
        return num(len(x.args[0]) if x.op == 'str' else len(x.args))
    if x.op == 'dict':
        return num(len(x.args) // 2)
    if x.op == 'rangec':
        return x.args[1]
    if x.op in ('edgedict', 'edgekeys', 'edgeview', 'nodedict', 'nodekeys', 'nodeview'):
        return mk('call', 'len', mk('edges' if x.op[0] == 'e' else 'nodes', x.args[0]))
    if x.op == 'compr' and x.args[2] is TRUE:
        return model.seq_len(x.args[0])
    if x.op == 'sorted':
        return model.seq_len(x.args[0])
    if x.op == 'flat':
        from . import canon
        z = canon.rect(x)
        if z is not None:
            return canon.l_mul([z[0].args[1], z[2].args[1]])
    if x.op == 'dictc' and x.args[2] is TRUE:
        k = x.args[3].args[0]
        if k is x.args[1] or k.op == 'attr' and k.args == (x.args[1], 'name'):
            return model.seq_len(x.args[0])
    if x.op == 'compr':
        from . import canon
        return canon.canon(mk('sum', x.args[0], x.args[1], x.args[2], ONE))
    return mk('call', *a)


def norm_mcall(a):
    obj, name = a[0], a[1]
    xs = a[2:]
    if obj.op == 'str' and all(isinstance(x, T) and x.op in ('str', 'num') for x in xs):
        v = obj.args[0]
        try:
            if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'index',
                        'find', 'count'):
                ys = [x.args[0] if x.op == 'str' else int(x.args[0]) for x in xs]
                r = getattr(v, name)(*ys)
                return s(r) if isinstance(r, str) else (TRUE if r is True else FALSE if r is False else num(r))
        except ValueError:
            pass
    if obj.op == 'concat' and name in ('startswith', 'endswith') and len(xs) == 1 and xs[0].op == 'str':
        # settled by the known end of the text
        end = obj.args[-1 if name == 'endswith' else 0]
        if end.op == 'str':
            v, w = end.args[0], xs[0].args[0]
            if len(v) >= len(w) or not (w.endswith(v) if name == 'endswith' else w.startswith(v)):
                return TRUE if getattr(v, name)(w) else FALSE
    return mk('mcall', *a)
