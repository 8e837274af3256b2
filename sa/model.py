"""Typing tables and normalisation rules for the modelled program values."""
from fractions import Fraction
from math import gcd
from . import terms as tm
from .terms import T, mk, num, TRUE, FALSE

# class name -> list of base class names (MRO order, excluding itself); filled by the loader
MRO = {}

LEVELS = ('BaseLevel', 'EnergyLevel', 'HFLevel', 'ZLevel')
TRANS = ('BaseTransition', 'Transition', 'HFTransition', 'ZTransition')

FIELDS = {
    'BaseLevel': {'parent': 'any', '_alias': 'opt[str]', 'term': 'MultiTerm', 'atom': 'Atom', 'manifold': 'EnergyLevel',
                  'name': 'str', 'fixed': 'bool', '_sublevels': 'dict[str,BaseLevel]', '_model': 'Graph',
                  '_submodel': 'Graph', 'model': 'Graph', 'submodel': 'Graph', 'alias': 'opt[str]', 'level_Hz': 'num', 'shift_Hz': 'num',
                  'level': 'Quantity', 'shift': 'Quantity'},
    'EnergyLevel': {'parent': 'Atom', '_level_Hz': 'num', 'hfA_Hz': 'num', 'hfB_Hz': 'num', 'hfC_Hz': 'num',
                    'lande': 'num', '_sublevels': 'dict[str,HFLevel]'},
    'HFLevel': {'parent': 'EnergyLevel', 'gF': 'num', '_sublevels': 'dict[str,ZLevel]'},
    'ZLevel': {'parent': 'HFLevel', 'quadratic_zeeman': 'num'},
    'BaseTransition': {'parent': 'opt[BaseTransition]', '_alias': 'opt[str]', '_model': 'Graph', '_submodel': 'Graph', 'model': 'Graph', 'submodel': 'Graph',
                       'E_1': 'BaseLevel', 'E_2': 'BaseLevel', 'E_upper': 'BaseLevel', 'E_lower': 'BaseLevel',
                       'atom': 'Atom', 'name': 'str', '_A': 'opt[Quantity]', 'A': 'opt[Quantity]',
                       'rel_strength': 'num', 'allowed_types': 'tuple3[bool]', 'set_freq': 'opt[Quantity]',
                       'model_name': 'tuple', '_subtransitions': 'dict[any,BaseTransition]',
                       'freq': 'Quantity', 'freq_Hz': 'num', 'wl': 'Quantity'},
    'Transition': {'E_1': 'EnergyLevel', 'E_2': 'EnergyLevel', 'E_upper': 'EnergyLevel', 'E_lower': 'EnergyLevel'},
    'HFTransition': {'E_1': 'HFLevel', 'E_2': 'HFLevel', 'E_upper': 'HFLevel', 'E_lower': 'HFLevel',
                     'parent': 'opt[Transition]'},
    'ZTransition': {'E_1': 'ZLevel', 'E_2': 'ZLevel', 'E_upper': 'ZLevel', 'E_lower': 'ZLevel',
                    'parent': 'opt[HFTransition]'},
    'Atom': {'name': 'str', 'I': 'halfnn', 'B_gauss': 'num', '_levelsModel': 'Graph', '_hfModel': 'Graph',
             '_zModel': 'Graph', 'levels': 'LevelStructure', 'transitions': 'TransitionStructure'},
    'LevelStructure': {'atom': 'Atom', 'model': 'Graph', 'hf_model': 'Graph', 'z_model': 'Graph',
                       'aliases': 'dict[str,BaseLevel]'},
    'TransitionStructure': {'atom': 'Atom', 'model': 'Graph', 'hf_model': 'Graph', 'z_model': 'Graph',
                            'aliases': 'dict[str,BaseTransition]'},
    'Term': {'conf': 'str', 'term': 'str', 'percentage': 'num', 'parity': 'int', 'J': 'halfnn', 'F': 'halfnn',
             'mF': 'half', 'J_frac': 'str', 'F_frac': 'str', 'mF_frac': 'str', 'term_name': 'str',
             'short_name': 'str', 'name': 'str', 'coupling': 'str', 'quantum_nums': 'tuple',
             'lc': 'halfnn', 'sc': 'halfnn', 'lo': 'halfnn', 'so': 'halfnn', 'jc': 'halfnn', 'jo': 'halfnn',
             'l': 'halfnn', 's': 'halfnn', 'k': 'halfnn'},
    'MultiTerm': {'terms': 'list[Term]', 'terms_dict': 'dict[num,Term]', 'full_name': 'str'},
    'LorentzianLineShape': {'gamma': 'num', 'fwhm': 'num'},
    'GaussianLineShape': {'sigma': 'num', 'fwhm': 'num'},
    'ModLorentzianLineShape': {'gamma': 'num', 'mod_freq_GHz': 'num', 'depth': 'num', 'num_sidebands': 'int'},
    'Grotrian': {'level_width': 'num', 'level_ordering': 'str', 'add_level_strategy': 'str', 'lines_df': 'DataFrame',
                 'level_prompts': 'DataFrame', 'transition_prompts': 'DataFrame'},
}
TERM_SLOTS = set(FIELDS['Term'])
# quantum numbers a sublevel shares with the level it belongs to
INHERITED = TERM_SLOTS - {'F', 'mF', 'F_frac', 'mF_frac', 'term_name', 'short_name', 'name', 'percentage'}

# sequences with element types / methods returning known types
CALL_TYPES = {'matplotlib.colors.to_rgb': 'tuple3[num]', 'colorsys.rgb_to_hls': 'tuple3[num]',
              'colorsys.hls_to_rgb': 'tuple3[num]', 're.findall': 'list[Match]', 'cap': 'str', 'rows_eq': 'Series', 'newgraph': 'Graph', 'wigner3j': 'num', 'wigner6j': 'num', 'wigner9j': 'num', 'len': 'int', 'at_find': 'int', 'at_rfind': 'int', 'exp': 'num', 'jv': 'num',
              'float': 'num', 'factorial': 'int', 'norm': 'num', 'sin': 'num', 'cos': 'num', 'log': 'num',
              'float_to_frac': 'str', 'l_to_let': 'str', 'get_term_coupling': 'str', 'dot': 'num', 'voigt_profile': 'num', 'levels_at': 'BaseLevel',
              'transitions_at': 'BaseTransition', 'frac_to_float': 'num', 'arctan': 'num', 'mag': 'num',
              'round': 'num', 'zeros_like': 'num', 'JJ_to_LS': 'rows3', 'JK_to_LS': 'rows3', 'LK_to_LS': 'rows3'}


def mro(c):
    return [c] + MRO.get(c, [])


def is_class(c):
    return c in MRO


def subclass(c, d):
    return d in mro(c)


def subclasses(c):
    return [k for k in MRO if subclass(k, c)]


def field_type(cls, name):
    for c in mro(cls):
        f = FIELDS.get(c, {})
        if name in f:
            return f[name]
    if cls == 'MultiTerm' and name in TERM_SLOTS:
        return FIELDS['Term'][name]
    return 'any'


def unopt(ty):
    if ty.startswith('opt['):
        return ty[4:-1]
    return ty


def base_type(t):
    return unopt(typeof(t))


def parse_generic(ty):
    if '[' not in ty:
        return ty, []
    h, rest = ty.split('[', 1)
    rest = rest[:-1]
    parts, dep, cur = [], 0, ''
    for ch in rest:
        if ch == '[':
            dep += 1
        if ch == ']':
            dep -= 1
        if ch == ',' and dep == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    return h, parts


def elem_type(ty):
    h, ps = parse_generic(unopt(ty))
    if h in ('list', 'seq', 'tuple3', 'iter', 'tuplen'):
        return ps[0]
    if h == 'dict':
        return ps[0]
    if h == 'range':
        return 'int'
    if h == 'str':
        return 'str'
    return 'any'


_types = {}


def never_none(t):
    """an entry of an alias table: only levels and transitions are ever put there"""
    return t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] in ('aliases', '_sublevels', '_subtransitions') and \
        is_class(unopt(typeof(t)))


def typeof(t):
    r = _types.get(t)
    if r is None:
        r = _typeof(t)
        _types[t] = r
    return r


def _typeof(t):
    op, a = t.op, t.args
    if op in ('sym', 'bv', 'acc', 'self'):
        return a[1]
    if op == 'num':
        v = a[0]
        return 'int' if v.denominator == 1 else ('half' if v.denominator == 2 else 'num')
    if op in ('str', 'concat', 'strof', 'fmt', 'join'):
        return 'str'
    if op == 'bool' or op in tm.BOOL_OPS:
        return 'bool'
    if op in ('add', 'mul', 'pow'):
        ts = {typeof(x) for x in a}
        if 'Quantity' in ts:
            return 'Quantity'
        if ts <= {'int', 'bool'} and op != 'pow':
            return 'int'
        if ts <= {'int', 'half', 'halfnn', 'bool'} and op == 'add':
            return 'half'
        if 'any' in ts:
            return 'any'
        return 'num'
    if op in ('rat', 'sum', 'sgn', 'root', 'powl', 'absl', 'mag', 'pi', 'imag', 'minof', 'maxof', 'floorint',
              'divzero'):
        if op == 'rat':
            for p in a:
                for m, _ in p:
                    for u, _e in m:
                        if tm.by_uid(u).op == 'unit':
                            return 'Quantity'
        return 'num'
    if op == 'to':
        return 'Quantity'
    if op == 'unit':
        return 'Quantity'
    if op == 'attr':
        bt = unopt(typeof(a[0]))
        if is_class(bt):
            return field_type(bt, a[1])
        return 'any'
    if op == 'item':
        bt = unopt(typeof(a[0]))
        h, ps = parse_generic(bt)
        if h in ('list', 'seq', 'tuple3', 'tuplen'):
            return ps[0]
        if h == 'tuple' and ps:
            i = const_int(a[1])
            if i is not None and -len(ps) <= i < len(ps):
                return ps[i]
            return ps[0] if len(set(ps)) == 1 else 'any'
        if h == 'dict':
            return ps[1]
        if h == 'MultiTerm':
            return 'Term'
        if h == 'NodeView':
            return 'NodeData:' + ps[0]
        if h.startswith('NodeData:') or h == 'NodeData':
            return 'EnergyLevel'
        if h == 'EdgeData':
            return 'Transition'
        if h == 'DataFrame':
            return 'DataFrame' if typeof(a[1]) == 'Series' else 'Series'
        return 'any'
    if op == 'ite':
        x, y = typeof(a[1]), typeof(a[2])
        if x == y:
            return x
        if a[1] is tm.NONE:
            return 'opt[%s]' % unopt(y)
        if a[2] is tm.NONE:
            return 'opt[%s]' % unopt(x)
        if {x, y} <= {'int', 'half', 'halfnn', 'num'}:
            return 'half' if {x, y} <= {'int', 'half', 'halfnn'} else 'num'
        for c in MRO:
            pass
        if is_class(x) and is_class(y):
            for c in mro(x):
                if subclass(y, c):
                    return c
        return 'any'
    if op == 'call':
        if a[0].startswith('node_at_') or a[0].startswith('edge_at_'):
            return a[0][8:]
        if a[0] in ('populated', 'populatedt'):
            sub = mk('subs', a[1])
            return 'dict[any,%s]' % elem_type(typeof(sub))
        return CALL_TYPES.get(a[0], 'any')
    if op == 'new':
        return a[0]
    if op == 'tuple':
        return 'tuple'
    if op in ('list',):
        return 'list[%s]' % (typeof(a[0]) if a else 'any')
    if op == 'compr':
        return 'list[%s]' % typeof(a[3])
    if op in ('dict', 'dictc', 'dictadd'):
        return 'dict[any,any]'
    if op in ('rangec', 'rangeo'):
        return 'list[%s]' % ('int' if typeof(a[0]) == 'int' else 'half')
    if op == 'subs':
        bt = base_type(a[0])
        return 'list[%s]' % {'EnergyLevel': 'HFLevel', 'HFLevel': 'ZLevel', 'Transition': 'HFTransition',
                             'HFTransition': 'ZTransition', 'BaseTransition': 'BaseTransition'}.get(bt, 'BaseLevel')
    if op == 'sub_at':
        bt = base_type(a[0])
        return {'EnergyLevel': 'HFLevel', 'HFLevel': 'ZLevel', 'Transition': 'HFTransition',
                'HFTransition': 'ZTransition', 'BaseTransition': 'BaseTransition'}.get(bt, 'BaseLevel')
    if op == 'nodes':
        return 'list[EnergyLevel]'
    if op == 'edges':
        return 'list[Transition]'
    if op in ('first', 'argmin', 'argmax'):
        e = a[3]
        if e.op in ('kv', 'tuple') and op != 'first':
            return typeof(e.args[1])
        return typeof(e)
    if op == 'sorted':
        return typeof(a[0])
    if op == 'mcall':
        if a[0].op == 'cls' and a[1] in ('from_dataframe', 'load') and is_class(a[0].args[0]):
            return a[0].args[0]
        return MCALL_TYPES.get((base_type(a[0]), a[1]), MCALL_TYPES.get(a[1], 'any'))
    return 'any'


MCALL_TYPES = {('Graph', 'subgraph'): 'Graph', ('Graph', 'edge_subgraph'): 'Graph', ('Graph', 'copy'): 'Graph', 'linked_levels': 'dict[str,BaseTransition]', 'transition_allowed': 'tuple3[bool]', 'format': 'str', 'lower': 'str', 'upper': 'str', 'strip': 'str', 'split': 'list[str]',
               'rsplit': 'list[str]', 'replace': 'str', 'join': 'str', 'index': 'int', 'count': 'int',
               'keys': 'list[any]', 'startswith': 'bool', 'endswith': 'bool', 'isupper': 'bool', 'islower': 'bool',
               'is_integer': 'bool', 'shift_Hz': 'num', 'to_list': 'list[any]', 'partition': 'list[str]',
               'rpartition': 'list[str]'}


def is_str(t):
    return typeof(t) == 'str'


def is_num(t):
    return typeof(t) in ('num', 'half', 'halfnn', 'int', 'Quantity', 'complex')


def nonneg(t):
    ty = typeof(t)
    if ty in ('halfnn',) or t.op in ('unit', 'pi', 'absl'):
        return True
    if t.op == 'root' and t.args[0] % 2 == 0:
        return True
    if t.op == 'sym' and ty in ('posnum', 'nat'):
        return True
    if t.op == 'call' and t.args[0] in ('len', 'factorial', 'exp', 'norm', 'at_find', 'at_rfind'):
        return True
    if t.op == 'sum' and t.args[3].op == 'num' and t.args[3].args[0] >= 0:
        return True
    return False


def positive(t):
    if t.op in ('unit', 'pi'):
        return True
    if t.op == 'root' and t.args[1].op == 'num':
        return True
    if t.op == 'sym' and t.args[1] == 'posnum':
        return True
    if t.op == 'call' and t.args[0] in ('exp', 'factorial'):
        return True
    return False


def lat_atom(t):
    ty = typeof(t)
    if ty in ('half', 'halfnn'):
        return 2
    if ty in ('int', 'bool', 'nat'):
        return 1
    return None


def lattice_mono(ts):
    r = 1
    for t in ts:
        x = lat_atom(t)
        if x is None:
            return None
        r *= x
    return r


def lattice_poly(d):
    """L such that every value of the (integer-coefficient) polynomial d is a multiple of 1/L, or None"""
    L = 1
    for m, c in d.items():
        ts = []
        for u, e in m:
            ts += [tm.by_uid(u)] * e
        x = lattice_mono(ts)
        if x is None:
            return None
        x *= c.denominator
        x //= gcd(x, abs(c.numerator))
        L = L * x // gcd(L, x)
    return L


def lattice_leaf(t):
    if t.op == 'num':
        return t.args[0].denominator
    if t.op == 'rat':
        if t.args[1] != (((), Fraction(1)),):
            return None
        L = 1
        for m, c in t.args[0]:
            x = lattice_poly({m: c}) if m else c.denominator
            if x is None:
                return None
            L = L * x // gcd(L, x)
        return L
    return lat_atom(t)


# ------------------------------------------------------------------ attribute / item normal forms
# (cls, attr) -> constructor argument name that is stored verbatim
NEW_FIELDS = {('HFLevel', 'parent'): 'parent', ('ZLevel', 'parent'): 'parent', ('EnergyLevel', 'parent'): 'parent',
              ('HFLevel', 'term'): 'term', ('ZLevel', 'term'): 'term', ('EnergyLevel', 'term'): 'term',
              ('Transition', 'E_1'): 'E1', ('Transition', 'E_2'): 'E2', ('HFTransition', 'E_1'): 'E1',
              ('HFTransition', 'E_2'): 'E2', ('ZTransition', 'E_1'): 'E1', ('ZTransition', 'E_2'): 'E2',
              ('Transition', 'parent'): 'parent', ('HFTransition', 'parent'): 'parent',
              ('ZTransition', 'parent'): 'parent', ('Transition', 'set_freq'): 'freq'}


def norm_attr(b, name):
    if b.op == 'ite':
        return tm.ite(b.args[0], norm_attr(b.args[1], name), norm_attr(b.args[2], name))
    ty = base_type(b)
    # an atom and its two structures share the three graphs
    if ty in ('LevelStructure', 'TransitionStructure') and b.op == 'attr' and base_type(b.args[0]) == 'Atom':
        if name == 'atom':
            return b.args[0]
        if name in ('model', 'hf_model', 'z_model'):
            return tm.attr(b.args[0], {'model': '_levelsModel', 'hf_model': '_hfModel', 'z_model': '_zModel'}[name])
    if b.op == 'new':
        f = NEW_FIELDS.get((ty, name))
        if f:
            for k in b.args[1:]:
                if k.op == 'kw' and k.args[0] == f and (name != 'term' or base_type(k.args[1]) == 'MultiTerm'):
                    return k.args[1]
    if ty == 'EnergyLevel' and name == 'manifold':
        return b
    if ty == 'HFLevel' and name == 'manifold':
        return tm.attr(b, 'parent')
    if ty == 'ZLevel' and name == 'manifold':
        return tm.attr(tm.attr(b, 'parent'), 'parent')
    if ty in ('HFLevel', 'ZLevel') and name == 'atom':
        return norm_attr(norm_attr(b, 'manifold'), 'atom')
    if ty == 'ZLevel' and name == 'parent' and b.op == 'attr' and False:
        return b
    if ty in TRANS and name == 'model_name':
        return tm.tup(norm_attr(norm_attr(b, 'E_1'), 'name'), norm_attr(norm_attr(b, 'E_2'), 'name'))
    if ty in TRANS and name == 'atom':
        return norm_attr(norm_attr(b, 'E_1'), 'atom')
    if ty in LEVELS and name == 'atom' and b.op == 'attr' and b.args[1] in ('E_2', 'E_upper', 'E_lower') \
            and base_type(b.args[0]) in TRANS:
        return norm_attr(norm_attr(b.args[0], 'E_1'), 'atom')
    if ty in LEVELS and name == 'atom' and b.op == 'attr' and b.args[1] in ('parent',) and \
            base_type(b.args[0]) in LEVELS:
        x = _strip_parent(b)
        if x.op == 'attr' and x.args[1] in ('E_2', 'E_upper', 'E_lower') and base_type(x.args[0]) in TRANS:
            return tm.mk('attr', _wrap_parent(tm.attr(x.args[0], 'E_1')), 'atom')
    if ty in LEVELS and name == 'name':
        return norm_attr(norm_attr(b, 'term'), 'name')
    # leading term of a MultiTerm
    if ty == 'Term' and b.op == 'item' and b.args[1] is tm.ZERO and b.args[0].op == 'attr' and \
            b.args[0].args[1] == 'terms':
        return norm_attr(b.args[0].args[0], name)
    # quantum numbers shared with the parent level
    if name in TERM_SLOTS and b.op == 'attr' and b.args[1] == 'term':
        lv = b.args[0]
        lt = base_type(lv)
        if lt in ('HFLevel', 'ZLevel') and name in INHERITED:
            return norm_attr(norm_attr(norm_attr(lv, 'manifold'), 'term'), name)
        if lt == 'ZLevel' and name in ('F', 'F_frac'):
            return norm_attr(norm_attr(norm_attr(lv, 'parent'), 'term'), name)
    if name == 'parity' and ty in ('Term', 'MultiTerm') and b.op != 'new':
        # plus or minus one (C20: set once, from the star of the term symbol)
        return tm.ite(mk('truthy', tm.attr(b, 'odd parity')), num(-1), tm.ONE)
    return tm.attr(b, name)


def _strip_parent(b):
    while b.op == 'attr' and b.args[1] == 'parent':
        b = b.args[0]
    return b


def _wrap_parent(e1):
    return norm_attr(e1, 'manifold')


def const_int(k):
    if k.op == 'num' and k.args[0].denominator == 1:
        return int(k.args[0])
    return None


def one_char(t):
    return t.op == 'item' and t.args[1].op != 'slice' and is_str(t.args[0]) and t.args[0].op not in ('tuple', 'list')


def pieces(S):
    """the number of parts of a text split a fixed number of times (of keys that have that many)"""
    if S.op == 'mcall' and S.args[1] in ('split', 'rsplit') and len(S.args) == 4:
        k = const_int(S.args[3]) if isinstance(S.args[3], T) else None
        if k is not None and 0 < k <= 4:
            return k + 1
    return 0


def norm_item(b, k):
    if b.op == 'ite':
        return tm.ite(b.args[0], norm_item(b.args[1], k), norm_item(b.args[2], k))
    if b.op == 'dictc':
        S, bv, cond, kv = b.args
        D = kv.args[0].args[0] if kv.args[0].op == 'item' else None
        if D is not None and kv.args[0].args[1] is bv and S.op == 'rangec' and S.args[0] is tm.ZERO and S.args[2] is tm.ONE \
                and D.op in ('sorted', 'call') and not any(n is bv for n in tm.nodes(D)):
            src = D.args[0] if D.op == 'sorted' else D
            if src.op == 'call' and src.args[0] == 'setof' and seq_len(src) is S.args[1]:
                # numbered values, all different: the number is the position
                return tm.subst(kv.args[1], {bv: mk('mcall', D, 'index', k)})
    if b.op in ('tuple', 'list'):
        i = const_int(k)
        if i is not None and -len(b.args) <= i < len(b.args):
            return b.args[i]
        if k.op == 'slice':
            lo, hi, st = [None if x is tm.NONE else const_int(x) for x in k.args]
            if all(x is tm.NONE or const_int(x) is not None for x in k.args):
                return mk(b.op, *b.args[slice(lo, hi, st)])
    if b.op == 'dict' and all(x.op in tm.CONST_OPS for x in b.args[0::2]) and k.op in tm.CONST_OPS:
        for i in range(0, len(b.args), 2):
            if b.args[i] is k:
                return b.args[i + 1]
    if b.op == 'mcall' and len(b.args) == 3 and b.args[1] == 'partition' and b.args[2] is tm.s('/') and \
            const_int(k) in (0, 2):
        # a fraction has one slash
        return tm.item(mk('mcall', b.args[0], 'split', b.args[2]), tm.num(const_int(k) // 2))
    if b.op == 'mcall' and len(b.args) == 3 and b.args[1] in ('partition', 'rpartition') and const_int(k) == 1 and \
            b.args[2].op == 'str' and b.args[2].args[0]:
        return tm.ite(mk('isin', b.args[2], b.args[0]), b.args[2], tm.s(''))
    if k.op == 'slice' and k.args[2] is tm.NONE and (b.op == 'rng' or b.op == 'compr' and b.args[2] is TRUE and
                                                     b.args[0].op == 'rng'):
        # part of a range of known ends
        r = b if b.op == 'rng' else b.args[0]
        lo, hi = [None if x is tm.NONE else const_int(x) for x in k.args[:2]]
        if all(x.op == 'num' for x in r.args[:3]) and r.args[2].args[0] != 0 and all(
                x is tm.NONE or const_int(x) is not None for x in k.args[:2]):
            from math import ceil
            st, en, sp = (x.args[0] for x in r.args[:3])
            a, z, _ = slice(lo, hi).indices(max(0, ceil((en - st) / sp)))
            r2 = mk('rng', tm.num(st + a * sp), tm.num(st + max(a, z) * sp), *r.args[2:])
            return r2 if b is r else mk('compr', r2, *b.args[1:])
    if b.op == 'str':
        i = const_int(k)
        if i is not None and -len(b.args[0]) <= i < len(b.args[0]):
            return tm.s(b.args[0][i])
    if b.op == 'sorted' and k is tm.ZERO and b.args[2] is FALSE and b.args[1].op == 'lam':
        lam = b.args[1]
        bv = tm.fresh(lam.args[0].args[1])
        return mk('argmin', b.args[0], bv, TRUE, mk('kv', tm.subst(lam.args[1], {lam.args[0]: bv}), bv))
    if base_type(b) == 'MultiTerm':
        return norm_item(tm.attr(b, 'terms'), k)
    if k.op == 'slice' and typeof(b).startswith('tuple3') and all(x is tm.NONE or const_int(x) is not None
                                                                 for x in k.args):
        return norm_item(tm.tup(*[norm_item(b, tm.num(i)) for i in range(3)]), k)
    if b.op == 'rangec':
        i = const_int(k)
        if i is not None and i >= 0 or k.op == 'bv' and typeof(k) == 'int':
            return tm.add(b.args[0], tm.mul(k, b.args[2]))
    if b.op == 'item' and b.args[1].op == 'slice' and const_int(k) is not None:
        # an element of a part of a list that is long enough
        lo, hi, st = b.args[1].args
        lo = 0 if lo is tm.NONE else const_int(lo)
        i = const_int(k)
        if st is tm.NONE and lo is not None and lo >= 0 and i >= 0:
            return norm_item(b.args[0], tm.num(lo + i))
    if k.op == 'posof' and k.args[0] is b:
        return k.args[1]
    if b.op == 'compr' and b.args[2] is TRUE and k.op == 'posof' and k.args[0] is b.args[0]:
        return tm.subst(b.args[3], {b.args[1]: k.args[1]})
    if b.op == 'compr' and b.args[2] is TRUE and b.args[0].op == 'call' and b.args[0].args[0] == 're.findall' and \
            k.op != 'slice':
        return tm.subst(b.args[3], {b.args[1]: tm.item(b.args[0], k)})
    if b.op == 'compr' and b.args[2] is TRUE and b.args[0].op == 'mcall' and (const_int(k) or 0) >= 0 and \
            const_int(k) is not None:
        return tm.subst(b.args[3], {b.args[1]: norm_item(b.args[0], k)})
    if k.op == 'slice' and pieces(b) and all(x is tm.NONE or const_int(x) is not None for x in k.args):
        return norm_item(tm.lst(*[norm_item(b, tm.num(i)) for i in range(pieces(b))]), k)
    if pieces(b) and const_int(k) is not None and const_int(k) < 0 and const_int(k) + pieces(b) >= 0:
        return norm_item(b, tm.num(const_int(k) + pieces(b)))
    if b.op == 'compr' and b.args[2] is TRUE and k.op == 'bv' and typeof(k) == 'int':
        return tm.subst(b.args[3], {b.args[1]: norm_item(b.args[0], k)})
    return tm.item(b, k)


def dict_put(d, k, v):
    if d.op == 'dict':
        a = list(d.args)
        for i in range(0, len(a), 2):
            if a[i] is k:
                a[i + 1] = v
                return mk('dict', *a)
        if all(x.op in tm.CONST_OPS for x in a[0::2]) and k.op in tm.CONST_OPS:
            pairs = sorted([(a[i], a[i + 1]) for i in range(0, len(a), 2)] + [(k, v)], key=lambda p: p[0].uid)
            return mk('dict', *[x for p in pairs for x in p])
        return mk('dict', *(a + [k, v]))
    if d.op == 'dictadd' and d.args[1] is k:
        return mk('dictadd', d.args[0], k, v)
    return mk('dictadd', d, k, v)


def norm_range(start, stop, step, kind):
    """canonical arithmetic progression: start, number of elements, step"""
    from . import canon as cn
    if step.op != 'num' or step.args[0] == 0:
        return mk('rangeo', start, stop, step)
    n = cn.l_mul([cn.l_add([stop, cn.l_mul([num(-1), start])]), num(1 / step.args[0])])
    # number of elements = ceil(n) if positive
    L = lattice_leaf(n)
    if n.op == 'num':
        v = n.args[0]
        c = -((-v.numerator) // v.denominator)
        return mk('rangec', start, num(max(c, 0)), step)
    if L == 1:
        return mk('rangec', start, n, step)
    if n.op == 'rat' and n.args[1] == cn.p_key(cn.p_const(1)):
        rest = dict(n.args[0])
        c = rest.pop((), Fraction(0))
        if rest and lattice_poly(rest) == 1:
            rest[()] = Fraction(-((-c.numerator) // c.denominator))
            return mk('rangec', start, cn.mk_rat(rest, cn.p_const(1)), step)
    if kind.args[0] == 'arange':
        # np.arange over quantum numbers: bounds differ by an integer (angular momenta that couple)
        return mk('rangec', start, n, step)
    return mk('rangeo', start, stop, step)


def norm_generic(op, a):
    if op == 'seteff' and a[2] is norm_attr(a[0], a[1].args[0]):
        return mk('effs')       # storing what is already there
    if op in ('call', 'mcall') and any(isinstance(x, T) and x.op == 'star' and x.args[0].op in ('tuple', 'list')
                                       for x in a):
        xs = []
        for x in a:
            if isinstance(x, T) and x.op == 'star' and x.args[0].op in ('tuple', 'list'):
                xs += x.args[0].args
            else:
                xs.append(x)
        a = tuple(xs)
    if op == 'call':
        from . import extern
        return extern.norm_call(a)
    if op == 'mcall':
        from . import extern
        return extern.norm_mcall(a)
    if op == 'carried' and not any(x.op == 'acc' for x in tm.free_syms(a[0])):
        return a[0]         # nothing left that an earlier round could have changed
    if op == 'listcat':
        parts = []
        for x in a:
            if x.op not in ('list', 'tuple'):
                parts.append(x)
            elif x.args:
                if parts and parts[-1].op == 'list':
                    parts[-1] = tm.lst(*(parts[-1].args + x.args))
                else:
                    parts.append(tm.lst(*x.args))
        if not parts:
            return tm.lst()
        if len(parts) == 1 and parts[0].op == 'list':
            return parts[0]
        return mk(op, *parts)
    if op == 'join' and a[1].op in ('list', 'tuple'):
        parts = []
        for i, e in enumerate(a[1].args):
            parts += ([a[0]] if i else []) + [e]
        from . import canon
        return canon.l_concat(parts) if parts else tm.s('')
    if op == 'tuple' and a and a[0].op == 'item':
        # (k[0], ..., k[n-1]) of an n-tuple k is k itself
        k = a[0].args[0]
        n = tuple_size(typeof(k))
        if n == len(a) and all(x.op == 'item' and x.args[0] is k and x.args[1].op == 'num' and x.args[1].args[0] == i
                               for i, x in enumerate(a)):
            return k
    return mk(op, *a)


def is_path(x):
    while x.op in ('mcall', 'item', 'attr'):
        x = x.args[0]
    return x.op == 'call' and x.args[0] in ('pathlib.Path', 'pathlib.PurePath')


def join_path(p, *parts):
    """p.joinpath(*parts), with the parts of one path put together"""
    for q in parts:
        if p.op == 'mcall' and p.args[1] == 'joinpath' and len(p.args) == 3 and p.args[2].op == q.op == 'str':
            p, q = p.args[0], tm.s(p.args[2].args[0].rstrip('/') + '/' + q.args[0])
        p = mk('mcall', p, 'joinpath', q)
    return p


def tuple_size(ty):
    h, args = parse_generic(ty)
    if h == 'tuple':
        return len(args)
    return {'tuple2': 2, 'tuple3': 3}.get(h)


def seq_len(S):
    if S.op == 'rangec':
        return S.args[1]
    return mk('call', 'len', S)


# ------------------------------------------------------------------ class tests
BUILTIN_OF = {'str': 'str', 'int': 'int', 'num': 'float', 'half': 'float', 'halfnn': 'float', 'bool': 'bool',
              'tuple': 'tuple', 'Quantity': 'Quantity'}


def py_class(t):
    ty = typeof(t)
    if t.op == 'slice':
        return 'slice'
    if ty == 'fn' or t.op in ('closure', 'func', 'lam'):
        return 'function'
    if ty.startswith('opt['):
        return None
    h, _ = parse_generic(ty)
    if h in ('list', 'dict', 'tuple', 'tuple3', 'tuplen'):
        return 'tuple' if h.startswith('tuple') else h
    if h in BUILTIN_OF:
        return BUILTIN_OF[h]
    if is_class(h):
        return h
    return None


def isinst(x, cls):
    if x is tm.NONE:
        return FALSE
    if x.op == 'ite':
        return tm.ite(x.args[0], isinst(x.args[1], cls), isinst(x.args[2], cls))
    c = py_class(x)
    if c is None:
        return mk('isinst', x, cls)
    if is_class(c):
        if not is_class(cls):
            if cls in ('Sequence',) and c == 'MultiTerm':
                return TRUE
            return FALSE
        if subclass(c, cls):
            return TRUE
        if not any(subclass(k, cls) for k in subclasses(c)):
            return FALSE
        if c in EXACT:
            return FALSE
        return mk('isinst', x, cls)
    if is_class(cls):
        return FALSE
    if c == cls or c == 'function' and cls == 'Callable':
        return TRUE
    if c == 'bool' and cls == 'int':
        return TRUE
    if c == 'float' and cls in ('int', 'Real', 'Number'):
        return TRUE if cls != 'int' else mk('isinst', x, cls)
    if c == 'int' and cls == 'float':
        return mk('isinst', x, cls)
    return FALSE


# types that the analysis contexts always use exactly (never a subclass instance)
EXACT = {'EnergyLevel', 'HFLevel', 'ZLevel', 'Transition', 'HFTransition', 'ZTransition', 'Atom', 'Term', 'MultiTerm',
         'LevelStructure', 'TransitionStructure', 'LorentzianLineShape', 'GaussianLineShape',
         'ModLorentzianLineShape', 'Grotrian', 'LightField'}


def typeis(x, cls):
    if x.op == 'ite':
        return tm.ite(x.args[0], typeis(x.args[1], cls), typeis(x.args[2], cls))
    c = py_class(x)
    if c is not None and c in EXACT:
        return TRUE if c == cls else FALSE
    if c is not None and not is_class(c) and c in ('str', 'tuple', 'list', 'dict', 'slice'):
        return TRUE if c == cls else FALSE
    if x is tm.NONE:
        return FALSE
    if cls in ('str', 'tuple', 'list', 'dict', 'NoneType') and is_num(x):
        return FALSE
    if cls == 'int' and x.op == 'num' and x.args[0].denominator == 1:
        return TRUE
    if cls == 'str':
        return isinst(x, cls)       # no other kind of text occurs here
    return mk('typeis', x, cls)


def hasattr_(x, name):
    c = py_class(x)
    if c and is_class(c):
        from . import loader
        if field_type(c, name) != 'any' or loader.has_member(c, name):
            return TRUE
        return mk('hasattr', x, name)
    if c in ('str', 'int', 'tuple', 'float') and name in ('name', 'E_1', 'term', 'level'):
        return FALSE
    return mk('hasattr', x, name)


def class_implies(op1, c1, v1, op2, c2):
    """does op1(x,c1)==v1 decide op2(x,c2)?"""
    k1, k2 = is_class(c1), is_class(c2)
    if v1:
        if op1 == 'typeis':
            if op2 == 'typeis':
                return c1 == c2
            if c1 == c2 or (k1 and k2 and subclass(c1, c2)):
                return True
            return False
        # isinstance(x, c1)
        if c1 == c2 and op2 == 'isinst':
            return True
        if k1 and k2:
            if op2 == 'isinst' and subclass(c1, c2):
                return True
            if not any(subclass(k, c1) and subclass(k, c2) for k in MRO):
                return False
            if op2 == 'typeis' and not subclass(c2, c1):
                return False
            return None
        if k1 != k2:
            return False
        if not k1 and c1 != c2 and {c1, c2} != {'bool', 'int'}:
            return False
        return None
    if op1 == 'isinst':
        if k1 and k2 and subclass(c2, c1):
            return False
        if c1 == c2:
            return False
    return None
