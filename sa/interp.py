"""Builds the value graph of a function from its syntax tree.

One pass over the statements (no path enumeration): values are hash-consed nodes, branches are
merged with gated selects, loops become binders (sum / comprehension / first / arg-min / fold /
for-each), calls to repository functions are replaced by their own graphs except at declared
boundaries (contracts), where they stay named operations.
"""
import ast
from fractions import Fraction
from . import terms as tm
from .terms import T, mk, num, s, TRUE, FALSE, NONE, ZERO, ONE, UNBOUND, ite, and_, or_, not_, attr
from . import model, extern
from .loader import Func, Cls, Module, AnalysisError
import builtins as _b

BUILTIN_EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
BUILTINS = {'abs', 'len', 'range', 'list', 'tuple', 'dict', 'set', 'frozenset', 'sum', 'any', 'all', 'min', 'max',
            'sorted', 'zip', 'enumerate', 'map', 'filter', 'isinstance', 'issubclass', 'type', 'str', 'int', 'float',
            'bool', 'complex', 'round', 'hasattr', 'getattr', 'setattr', 'callable', 'print', 'reversed', 'iter',
            'next', 'super', 'open', 'repr', 'id', 'hash', 'pow', 'divmod', 'vars', 'object', 'slice', 'delattr',
            'property', 'staticmethod', 'classmethod', 'format'}


class Unsupported(AnalysisError):
    pass


class St:
    __slots__ = ('env', 'heap', 'live', 'base', 'exc')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.live = TRUE
        self.base = TRUE
        self.exc = []

    def copy(self):
        n = St()
        n.env = dict(self.env)
        n.heap = dict(self.heap)
        n.live = self.live
        n.base = self.base
        n.exc = self.exc
        return n


class Frame:
    def __init__(self, func, module, outer=None):
        self.func = func
        self.module = module
        self.outer = outer
        self.st = St()
        self.rets = []
        self.loops = []
        self.tries = []
        self.gate_env = 0
        self.yields = False
        self.locals = None
        self.nonlocals = ()


class Loop:
    def __init__(self):
        self.brk = []
        self.cont = []


EXC_PARENTS = {'KeyError': {'LookupError'}, 'IndexError': {'LookupError'}, 'FileNotFoundError': {'OSError', 'IOError'},
               'NetworkXError': set(), 'IOError': {'OSError'}, 'OSError': {'IOError'},
               'NotImplementedError': {'RuntimeError'}, 'ZeroDivisionError': {'ArithmeticError'}}


def edgedata(g, k):
    """the data of the edge between two nodes; an edge found at one of them is that edge"""
    if k.op == 'tuple' and len(k.args) == 2:
        for a, b in (k.args, k.args[::-1]):
            if b.op == 'otherend' and b.args[1] is a and b.args[2] is g:
                return mk('edgedat', b.args[0])
    return mk('edgedata', g, k)


# ---------------------------------------------------------------- contracts
LEVEL_VIEWS = {'values', 'sublevels', 'items', 'keys', '__iter__', '__len__', '__getitem__'}
TRANS_VIEWS = {'values', 'subtransitions', 'items', 'keys', '__iter__', '__len__', '__getitem__'}
OPAQUE_PROPS = {'level_Hz', 'shift_Hz', 'freq_Hz'}
EFFECT_METHODS = {'populate_sublevels', 'populate_subtransitions', 'add_to_atom', 'enforce_consistency',
                  'set_frequency', 'add_level', 'add_transition', 'populate_transitions',
                  'populate_internal_transitions', 'populate_transitions_df', 'save', 'render_levels',
                  'render_transitions'}
VALUE_METHODS = {'make_term_copy', 'compute_gJ', 'linked_levels', 'state_lifetime', 'compute_branching_ratios'}
OPAQUE_FUNCS = {'float_to_frac', 'frac_to_float', 'wigner3j', 'wigner6j', 'wigner9j', 'JJ_to_LS', 'JK_to_LS',
                'LK_to_LS', 'get_term_coupling', 'get_quantum_nums', 'parse_LS_term', 'parse_JK_term',
                'parse_JJ_term', 'parse_LK_term', 'let_to_l', 'l_to_let', 'apply_hf_csv', 'apply_transition_csv',
                'color_table_from_property'}
OPAQUE_CLASSMETHODS = {'from_dataframe', 'load'}


class Interp:
    def __init__(self, prog, inline=(), opaque=(), inline_new=(), max_depth=40):
        self.prog = prog
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.sizes = {}
        self.inline_new = set(inline_new)
        self.effects = []
        self.guard = TRUE
        self.stack = []
        self.closures = []
        self.written = {}
        self.fresh = set()
        self.visited = set()       # functions analysed (for the evidence)
        self.globals = {}
        self.max_depth = max_depth
        self.cur = []
        self.opaque_calls = 0

    # ------------------------------------------------------------ helpers
    def err(self, node, msg):
        f = self.cur[-1].func if self.cur else None
        where = '%s:%s' % (f.module.rel, getattr(node, 'lineno', '?')) if f is not None else '?'
        raise Unsupported('%s: %s' % (where, msg))

    def emit(self, fr, eff):
        self.effects.append((and_(self.guard, fr.st.live), eff))

    def truth(self, t):
        if t.op in ('bool',) or tm.is_boolish(t):
            return t
        if t is NONE:
            return FALSE
        if t.op == 'num':
            return TRUE if t.args[0] != 0 else FALSE
        if t.op == 'str':
            return TRUE if t.args[0] else FALSE
        if t.op in ('tuple', 'list', 'dict', 'set'):
            return TRUE if t.args else FALSE
        if t.op == 'ite':
            return ite(t.args[0], self.truth(t.args[1]), self.truth(t.args[2]))
        if t.op in ('func', 'cls', 'closure', 'bound', 'new', 'ext', 'lam', 'mod'):
            return TRUE
        if t.op in ('compr', 'dictc', 'listcat', 'flat', 'subs', 'nodes'):
            return not_(tm.eq(mk('call', 'len', t), ZERO))
        if t.op == 'arr':
            return mk('truthy', t.args[0])
        if t.op == 'match':
            return not_(tm.isnone(t))
        return mk('truthy', t)

    # ------------------------------------------------------------ name lookup
    def lookup(self, fr, name, node=None):
        f = fr
        while f is not None:
            if name in f.st.env:
                v = f.st.env[name]
                if v.op == 'ite' and f is not fr:
                    from .loops import under
                    v = under(v, self.live_since(f))
                return v
            if f.func is not None and name in stored_names(f.func.node) and (
                    f is not fr or name not in unsteady_names(f.func.node)):
                return UNBOUND
            f = f.outer
        return self.global_name(fr.module, name, node)

    def global_name(self, m, name, node=None):
        r = self.prog.resolve(m, name)
        if r is None:
            if name in BUILTINS:
                return mk('ext', 'builtins.' + name)
            if name in BUILTIN_EXC:
                return mk('ext', 'exc.' + name)
            if name == '__name__':
                return s(m.name)
            if name == '__file__':
                return mk('sym', '__file__', 'str')
            if name == 'Callable':
                return mk('ext', 'typing.Callable')
            self.err(node, 'unresolved name %r' % name)
        return self.as_value(r)

    def as_value(self, r):
        if isinstance(r, Func):
            return self.func_value(r)
        if isinstance(r, Cls):
            return mk('cls', r.name)
        if r[0] == 'ext':
            return self.ext_value(r[1])
        if r[0] == 'mod':
            return mk('mod', r[1].name)
        if r[0] == 'assign':
            _, m, expr = r
            for n in ('wigner3j', 'wigner6j', 'wigner9j'):
                d = m.defs.get(n)
                if isinstance(d, tuple) and d[-1] is expr and n not in self.inline:
                    return mk('ext', n)
            key = (m.name, id(expr))
            if key not in self.globals:
                self.globals[key] = None
                fr = Frame(Func(ast.parse('def _module(): pass').body[0], m), m)
                self.cur.append(fr)
                try:
                    self.globals[key] = self.ev(fr, expr)
                finally:
                    self.cur.pop()
            v = self.globals[key]
            if v is None:
                raise Unsupported('recursive global in %s' % m.name)
            return v
        raise Unsupported('name %r' % (r,))

    def ext_value(self, dotted):
        if dotted in extern.EXT_VALUES:
            return extern.EXT_VALUES[dotted]
        if dotted in ('pint.Quantity',):
            return mk('ext', 'Quantity')
        return mk('ext', dotted)

    _funcs = {}

    def func_value(self, f):
        if id(f.node) not in Interp._funcs:
            Interp._funcs[id(f.node)] = f
        v = mk('func', id(f.node), f.qual)
        return v

    def func_of(self, t):
        return Interp._funcs[t.args[0]]

    def closure(self, func, fr, self_obj=None):
        func.outer = fr
        self.closures.append((func, self_obj))
        return mk('closure', '%x.%d' % (id(self), len(self.closures) - 1))

    def closure_of(self, t):
        return self.closures[int(t.args[0].split('.')[1])]

    # ------------------------------------------------------------ heap
    def heap_get(self, fr, b, name):
        h = fr.st.heap
        v = h.get((b, name))
        if v is not None:
            return v
        r = None
        for (b2, n2), val in h.items():
            if n2 != name:
                continue
            if self.distinct(b, b2):
                continue
            if r is None:
                r = model.norm_attr(b, name)
            r = ite(tm.is_(b, b2), val, r)
        return r

    def distinct(self, a, b):
        if a.op in ('new', 'cls', 'closure') and b.op in ('new', 'cls', 'closure', 'sym', 'attr', 'bv', 'item',
                                                           'sub_at'):
            return not (a.op == 'new' and b.op == 'new' and a.args[0] == b.args[0]) or a.op == 'cls'
        if b.op == 'new':
            return True
        ta, tb = model.base_type(a), model.base_type(b)
        if model.is_class(ta) and model.is_class(tb):
            if not any(model.subclass(k, ta) and model.subclass(k, tb) for k in model.MRO):
                return True
            # a level is never its own parent
            if self.chain_root(a, b) or self.chain_root(b, a):
                return True
        elif model.is_class(ta) != model.is_class(tb) and ta != 'any' and tb != 'any':
            return True
        return False

    def chain_root(self, a, b):
        """a == b.parent(.parent...)?"""
        while b.op == 'attr' and b.args[1] in ('parent', 'manifold'):
            b = b.args[0]
            if b is a:
                return True
        return False

    def heap_set(self, fr, b, name, v):
        st = fr.st
        if st.live is FALSE:
            return
        if b.op == 'ite':
            # write through a conditional reference
            l, base = st.live, st.base
            for c, x in ((b.args[0], b.args[1]), (not_(b.args[0]), b.args[2])):
                if x is UNBOUND or x is NONE:
                    continue
                old = self.getattr_raw(fr, x, name)
                self.heap_set(fr, x, name, ite(c, v, old))
            return
        if st.live is not st.base:
            old = self.getattr_raw(fr, b, name)
            v = ite(st.live, v, old)
        st.heap[(b, name)] = v

    def getattr_raw(self, fr, b, name):
        v = self.heap_get(fr, b, name)
        if v is None:
            v = model.norm_attr(b, name)
        return v

    # ------------------------------------------------------------ attributes
    def contract_opaque(self, cname, name):
        for c in model.mro(cname):
            if c + '.' + name in self.inline:
                return False
        return True

    def member(self, cname, name):
        c = self.prog.classes.get(cname)
        if c is None:
            return None, None
        return c.lookup(name)

    def overridden(self, cname, name):
        if cname in model.EXACT and not (cname == 'HFLevel' and False):
            return False
        for k in model.subclasses(cname):
            if k != cname and name in self.prog.classes[k].members:
                return True
        return False

    def getattr(self, fr, b, name, node=None):
        if b.op == 'ite':
            done = {}

            def each(t):
                if t.op != 'ite':
                    return self.getattr(fr, t, name, node)
                if t not in done:
                    done[t] = ite(t.args[0], each(t.args[1]), each(t.args[2]))
                return done[t]
            return each(b)
        if b is UNBOUND:
            return UNBOUND
        if b.op == 'mod':
            m = self.prog.modules[b.args[0]]
            r = self.prog.resolve(m, name)
            if r is None:
                sub = self.prog.modules.get(m.name + '.' + name)
                if sub:
                    return mk('mod', sub.name)
                self.err(node, 'module %s has no %s' % (m.name, name))
            return self.as_value(r)
        if b.op == 'ext':
            return self.ext_attr(b, name)
        if name in ('values', 'array') and b.op == 'item' and model.base_type(b) == 'Series':
            return self.run_list(fr, b, node)
        if b.op == 'super':
            return mk('superattr', b, name)
        if b.op == 'cls':
            c, mem = self.member(b.args[0], name)
            if mem is not None:
                if isinstance(mem, Func):
                    if mem.kind == 'class':
                        return mk('bound', b, name)
                    return self.func_value(mem)
                if mem[0] == 'attr':
                    return self.ev_in_module(mem[1], c.module)
                if mem[0] == 'prop':
                    return mk('propobj', b.args[0], name)
            if name == '__name__':
                return s(b.args[0])
            if name == '__slots__' or name == '__mro__':
                return mk('attr', b, name)
            v = self.heap_get(fr, b, name)
            if v is not None:
                return v
            return mk('attr', b, name)
        if b.op in ('func', 'closure', 'lam') and name in ('__name__', '__doc__', '__wrapped__'):
            return mk('attr', b, name)
        ty = model.base_type(b)
        if name == '__class__':
            from .extcalls import HANDLERS
            return HANDLERS['type'](self, fr, [b], {}, node)
        if model.is_class(ty):
            v = self.heap_get(fr, b, name)
            if v is not None:
                return v
            return self.class_attr(fr, b, ty, name, node)
        # quantities
        if name in ('magnitude', 'm'):
            return extern.magnitude(b)
        if name == 'args' and b.op == 'sym':
            return mk('attr', b, name)
        if name == 'T' and b.op == 'arr':
            return mk('arr', self.transpose(b.args[0]))
        if name == 'value' and b.op == 'call':
            return mk('attr', b, name)
        if ty == 'Graph' and name in ('nodes', 'edges', 'adj'):
            return mk({'nodes': 'nodeview', 'edges': 'edgeview', 'adj': 'adjview'}[name], b)
        v = self.heap_get(fr, b, name)
        if v is not None:
            return v
        if model.typeof(b).startswith('opt[') or b is NONE:
            self.implicit(fr, 'AttributeError', tm.isnone(b))
        return model.norm_attr(b, name)

    def ext_attr(self, b, name):
        d = b.args[0]
        if d == 'ureg':
            if name in ('Quantity',):
                return mk('ext', 'Quantity')
            if name in extern.EFFECTFUL:
                return mk('ext', 'ureg.' + name)
            u = extern.unit_named(name)
            return u if u is not None else mk('unit', name)
        if d == 'numpy.math':
            d = 'math'
        return self.ext_value(d + '.' + name)

    def class_attr(self, fr, b, ty, name, node=None):
        if ty in model.LEVELS:
            if name == 'level' and self.contract_opaque(ty, 'level'):
                return tm.mul(self.getattr(fr, b, 'level_Hz', node), mk('unit', 'Hz'))
            if name == 'shift' and self.contract_opaque(ty, 'shift'):
                return tm.mul(self.getattr(fr, b, 'shift_Hz', node), mk('unit', 'Hz'))
            if name == 'model' and self.contract_opaque(ty, 'model'):
                return self.graph_of(fr, b, ty)
        if ty in model.TRANS:
            if name == 'freq' and self.contract_opaque(ty, 'freq'):
                return tm.mul(self.getattr(fr, b, 'freq_Hz', node), mk('unit', 'Hz'))
        c, mem = self.member(ty, name)
        if mem is None:
            if ty == 'MultiTerm' and name in model.TERM_SLOTS:
                return model.norm_attr(b, name)
            if model.typeof(b).startswith('opt['):
                self.implicit(fr, 'AttributeError', tm.isnone(b))
            return model.norm_attr(b, name)
        if isinstance(mem, Func):
            return mk('bound', b, name)
        if mem[0] == 'attr':
            if isinstance(mem[1], ast.Constant) and 'LineShape' in model.mro(ty) and not self.overridden(ty, name):
                # the constants of a lineshape are not settings that the user changes
                return self.ev_in_module(mem[1], c.module)
            return model.norm_attr(b, name)
        if mem[0] == 'prop':
            if name in OPAQUE_PROPS and ty != 'EnergyLevel' and self.contract_opaque(ty, name) and \
                    name in model.FIELDS.get('BaseLevel', {}) | model.FIELDS.get('BaseTransition', {}):
                return model.norm_attr(b, name)
            if mem[1] is None or getattr(mem[1], 'abstract', False) or self.overridden(ty, name):
                return model.norm_attr(b, name)
            if self.recursing(mem[1], b):
                return model.norm_attr(b, name)
            return self.call_method_func(fr, mem[1], b, [], {}, node)
        return model.norm_attr(b, name)

    def graph_of(self, fr, b, ty):
        n = {'EnergyLevel': '_levelsModel', 'HFLevel': '_hfModel', 'ZLevel': '_zModel'}.get(ty)
        if n is None:
            return model.norm_attr(b, 'model')
        return model.norm_attr(self.getattr(fr, b, 'atom'), n)

    def recursing(self, func, b, args=None):
        if len(self.stack) > self.max_depth:
            return True
        if args is not None:
            # a call for an object of another class is another case of the function, not a repetition
            cs = tuple(model.py_class(x) for x in (b,) + tuple(args))
            return any(f is func.node and o is b and not (
                model.EXACT & set(x for x in cs if x) and model.EXACT & set(x for x in k if x) and len(k) == len(cs) and
                any(x != y and x in model.EXACT and y in model.EXACT for x, y in zip(cs, k)))
                for f, o, k in self.stack)
        return any(f is func.node and o is b for f, o, _ in self.stack)

    def setattr(self, fr, b, name, v, node=None):
        if b.op == 'ite':
            for c, x in ((b.args[0], b.args[1]), (not_(b.args[0]), b.args[2])):
                if x is UNBOUND or x is NONE:
                    continue
                if model.is_class(model.base_type(x)):
                    cc, mem = self.member(model.base_type(x), name)
                    if isinstance(mem, tuple) and mem[0] == 'prop':
                        st0 = fr.st
                        st1 = st0.copy()
                        st1.live = and_(st0.live, c)
                        st1.base = st1.live
                        fr.st = st1
                        self.setattr(fr, x, name, v, node)
                        st2 = st0.copy()
                        st2.live = and_(st0.live, not_(c))
                        st2.base = st2.live
                        fr.st = self.merge(fr, c, st0, st1, st2)
                        continue
                self.heap_set(fr, x, name, ite(c, v, self.getattr_raw(fr, x, name)))
            return
        ty = model.base_type(b)
        if model.is_class(ty):
            c, mem = self.member(ty, name)
            if isinstance(mem, tuple) and mem[0] == 'prop':
                if name in ('model', 'submodel') and mem[2] is not None:
                    pass
                if mem[2] is None or getattr(mem[2], 'abstract', False) or \
                        (self.overridden(ty, name) and name in ('level_Hz',)):
                    self.heap_set(fr, b, name, v)
                    return
                self.call_method_func(fr, mem[2], b, [v], {}, node)
                return
        self.heap_set(fr, b, name, v)

    def ev_in_module(self, expr, m):
        fr = Frame(Func(ast.parse('def _cls(): pass').body[0], m), m)
        self.cur.append(fr)
        try:
            return self.ev(fr, expr)
        finally:
            self.cur.pop()

    # ------------------------------------------------------------ exceptions
    def implicit(self, fr, exc, cond):
        if cond is FALSE:
            return
        for f in reversed(self.cur):
            for names in f.tries:
                if exc in names or names & EXC_PARENTS.get(exc, set()) or 'Exception' in names:
                    self.raise_(fr, exc, cond)
                    return
            if f is not fr and False:
                break

    def raise_(self, fr, exc, cond):
        c = and_(fr.st.live, cond)
        if c is FALSE:
            return
        fr.st.exc = fr.st.exc + [(c, exc)]
        fr.st.live = and_(fr.st.live, not_(cond))

    # ------------------------------------------------------------ calling
    def call_func(self, fr, func, args, kwargs, node=None, self_obj=None, skip_dec=False):
        if func.decorators and not skip_dec:
            v = self.decorated(fr, func)
            if v is not None:
                return self.apply(fr, v, args, kwargs, node)
        if len(self.stack) > self.max_depth:
            self.err(node, 'call depth exceeded at %s' % func.qual)
        self.visited.add(func.qual)
        nf = Frame(func, func.module, func.outer)
        st = nf.st
        st.heap = dict(fr.st.heap) if fr is not None else {}
        nf.yields = has_yield(func.node)
        nf.locals = assigned_names(func.node)
        nf.nonlocals = nonlocal_names(func.node)
        if nf.nonlocals:
            nf.locals = nf.locals - nf.nonlocals
        self.cur.append(nf)
        self.bind(nf, func, args, kwargs, node)
        changed = mutated_params(func.node)
        given = {p: st.env.get(p) for p in changed}
        if changed:
            nf.gate_env += 1
        if nf.yields:
            st.env['%yield'] = tm.lst()
        saved = self.guard
        if fr is not None:
            self.guard = and_(self.guard, fr.st.live)
        self.stack.append((func.node, args[0] if args else None, tuple(model.py_class(x) for x in args)))
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(nf, func.node.body)
                nf.rets.append((nf.st.live, v))
            else:
                self.block(nf, func.node.body)
                if nf.st.live is not FALSE:
                    nf.rets.append((nf.st.live, nf.st.env['%yield'] if nf.yields else NONE))
        finally:
            self.stack.pop()
            self.guard = saved
            self.cur.pop()
        st = nf.st
        # result
        if changed and node is not None:
            self.written[node] = (func, len(args), {p: st.env[p] for p in changed if st.env.get(p) is not given[p]})
        res = UNBOUND
        for c, v in reversed(nf.rets):
            res = ite(c, v, res) if res is not UNBOUND else v
        if fr is None:
            return res, st
        # heap back to the caller
        if fr.st.live is fr.st.base:
            fr.st.heap = st.heap
        else:
            for k, v in st.heap.items():
                old = fr.st.heap.get(k)
                if old is v:
                    continue
                if old is None:
                    old = model.norm_attr(*k) if True else None
                fr.st.heap[k] = ite(fr.st.live, v, old)
        for c, e in st.exc:
            fr.st.exc = fr.st.exc + [(and_(fr.st.live, c), e)]
        for c, e in st.exc:
            fr.st.live = and_(fr.st.live, not_(c))
        return res if res is not UNBOUND else NONE

    def decorated(self, fr, func):
        """value of a decorated function, or None if the decorators do not matter"""
        v = None
        for d in reversed(func.decorators):
            mfr = Frame(func, func.module)
            self.cur.append(mfr)
            try:
                dv = self.ev(mfr, d)
            finally:
                self.cur.pop()
            dn = dv.args[0] if dv.op == 'ext' else (dv.args[0].args[0] if dv.op == 'partialdec' else None)
            name = extern.ALIASES.get(dn, dn)
            if name in ('lru_cache', 'cached_property'):
                from . import hidden
                if func.cls is not None and func.kind in ('plain',) or isinstance(func.node, ast.FunctionDef) and \
                        hidden.reads_objects(func.node, {a.arg for a in func.node.args.args}, self.prog, func.module):
                    self.visited.add(func.qual)
                    return mk('stale', s(func.qual))
                continue
            if name == 'wraps':
                continue
            if v is None:
                raw = Func(func.node, func.module, func.cls, func.name, func.kind, func.outer)
                v = self.closure(raw, func.outer)
            v = self.apply(mfr, dv, [v], {}, d)
        return v

    def bind(self, nf, func, args, kwargs, node):
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        env = nf.st.env
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop('**', None)
        if any(x.op == 'star' for x in args):
            # an opaque *args: bind positionally by item
            out = []
            for x in args:
                if x.op == 'star':
                    if a.vararg is not None and len(out) >= len(params):
                        out.append(x)
                        continue
                    k = 0
                    while len(out) < len(params):
                        out.append(model.norm_item(x.args[0], num(k)))
                        k += 1
                else:
                    out.append(x)
            args = out
        pos, extra = args[:len(params)], args[len(params):]
        for p, v in zip(params, pos):
            env[p] = v
        if extra:
            if a.vararg is None:
                self.err(node, 'too many arguments for %s' % func.qual)
        if a.vararg is not None:
            if len(extra) == 1 and extra[0].op == 'star':
                env[a.vararg.arg] = extra[0].args[0]
            elif any(x.op == 'star' for x in extra):
                env[a.vararg.arg] = mk('listcat', *[x.args[0] if x.op == 'star' else tm.lst(x) for x in extra])
            else:
                env[a.vararg.arg] = tm.tup(*extra)
        for k in list(kwargs):
            if k in params or k in kwonly:
                if k in env:
                    self.err(node, 'argument %s given twice to %s' % (k, func.qual))
                env[k] = kwargs.pop(k)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p: d for p, d in zip(kwonly, a.kw_defaults) if d is not None})
        for p in params + kwonly:
            if p not in env:
                dv = None
                if p in defaults:
                    dv = self.ev_default(nf, func, defaults[p])
                if star is not None:
                    k = s(p)
                    has = self.isin(nf, k, star)
                    val = self.dict_item(star, k)
                    env[p] = ite(has, val, dv) if dv is not None else val
                    star = self.dict_del(star, k)
                elif dv is not None:
                    env[p] = dv
                else:
                    self.err(node, 'missing argument %s of %s' % (p, func.qual))
        if a.kwarg is not None:
            d = star if star is not None else mk('dict')
            for k in sorted(kwargs):
                d = model.dict_put(d, s(k), kwargs[k])
            env[a.kwarg.arg] = d
        elif kwargs:
            self.err(node, 'unexpected keyword %s for %s' % (sorted(kwargs), func.qual))

    def ev_default(self, nf, func, expr):
        fr = Frame(func, func.module, func.outer)
        self.cur.append(fr)
        try:
            return self.ev(fr, expr)
        finally:
            self.cur.pop()

    def call_method_func(self, fr, func, obj, args, kwargs, node):
        if func.kind == 'static':
            return self.call_func(fr, func, args, kwargs, node)
        return self.call_func(fr, func, [obj] + list(args), kwargs, node)

    def apply(self, fr, f, args, kwargs, node=None):
        if f.op == 'ite':
            c = f.args[0]
            st0 = fr.st
            out = []
            sts = []
            for cc, x in ((c, f.args[1]), (not_(c), f.args[2])):
                st1 = st0.copy()
                st1.live = and_(st0.live, cc)
                st1.base = st1.live
                fr.st = st1
                out.append(self.apply(fr, x, args, kwargs, node))
                sts.append(fr.st)
            fr.st = self.merge(fr, c, st0, sts[0], sts[1])
            return ite(c, out[0], out[1])
        if f is UNBOUND or f is NONE:
            return UNBOUND
        if f.op == 'func':
            func = self.func_of(f)
            if self.is_opaque_func(func):
                return self.opaque_func(fr, func, args, kwargs, node)
            return self.call_func(fr, func, args, kwargs, node)
        if f.op == 'closure':
            func, so = self.closure_of(f)
            if so is not None:
                args = [so] + list(args)
            return self.call_func(fr, func, args, kwargs, node)
        if f.op == 'lam' and len(args) == 1 and not kwargs:
            return tm.subst(f.args[1], {f.args[0]: args[0]})
        if f.op == 'cls':
            return self.construct(fr, f.args[0], args, kwargs, node)
        if f.op == 'ext':
            from .extcalls import ext_call
            return ext_call(self, fr, f.args[0], args, kwargs, node)
        if f.op == 'bound':
            return self.call_method(fr, f.args[0], f.args[1], args, kwargs, node)
        if f.op == 'superattr':
            sup, name = f.args
            cname, obj = sup.args[0], sup.args[1]
            c, mem = self.prog.cls(model.base_type(obj) if model.is_class(model.base_type(obj)) else cname).lookup(
                name, after=self.prog.cls(cname)) if self.prog.cls(cname) in \
                self.prog.cls(model.base_type(obj) if model.is_class(model.base_type(obj)) else cname).mro else (None,
                                                                                                              None)
            if isinstance(mem, Func):
                return self.call_method_func(fr, mem, obj, args, kwargs, node)
            return NONE
        if f.op == 'partial':
            base = f.args[0]
            pa = [x for x in f.args[1:] if x.op != 'kw']
            pk = {x.args[0]: x.args[1] for x in f.args[1:] if x.op == 'kw'}
            pk.update(kwargs)
            return self.apply(fr, base, pa + list(args), pk, node)
        if f.op == 'getter':
            r = args[0]
            if f.args[0] == 'attr':
                for p in f.args[1].split('.'):
                    r = self.getattr(fr, r, p, node)
                return r
            return self.getitem(fr, r, f.args[1], node)
        if f.op == 'partialdec':
            # decorator factory result applied to a function
            return args[0]
        if f.op == 'attr' and (f.args[0].op in ('dict', 'dictc', 'dictadd', 'dictupd', 'dictdel', 'nodedict', 'edgedict')
                               or model.typeof(f.args[0]).startswith(('dict', 'str', 'list'))):
            # a method of a dictionary or text, passed around
            return self.call_method(fr, f.args[0], f.args[1], args, kwargs, node)
        if f.op in ('nodeview', 'edgeview', 'adjview'):
            from .extcalls import graph_method
            r = graph_method(self, fr, f.args[0], {'nodeview': 'nodes', 'edgeview': 'edges',
                                                   'adjview': 'adjacency'}[f.op], args, kwargs, node)
            if r is not None:
                return r
        if f.op == 'attr' and f.args[1] == '__getitem__' and len(args) == 1 and not kwargs:
            return self.getitem(fr, f.args[0], args[0], node)
        if f.op == 'stale':
            return mk('call', 'cached', f.args[0], *[self.escape(fr, x) for x in args])
        if f.op == 'attr' or f.op == 'sym' or f.op == 'item':
            return self.opaque_apply(fr, f, args, kwargs, node)
        return self.opaque_apply(fr, f, args, kwargs, node)

    def opaque_apply(self, fr, f, args, kwargs, node):
        self.opaque_calls += 1
        return mk('call', 'apply', f, *self.opargs(fr, args, kwargs))

    def opargs(self, fr, args, kwargs):
        out = [self.escape(fr, x) for x in args]
        for k in sorted(x for x in kwargs if x != '**'):
            out.append(mk('kw', k, self.escape(fr, kwargs[k])))
        if '**' in kwargs:
            out.append(mk('dstar', self.escape(fr, kwargs['**'])))
        return out

    def escape(self, fr, t):
        """function values that leave the analysed code become lambda terms"""
        if t.op == 'closure':
            func, so = self.closure_of(t)
            return self.lam_of(fr, t, func, so)
        if t.op == 'func':
            func = self.func_of(t)
            if self.is_opaque_func(func):
                return mk('func', 0, func.name)
            return self.lam_of(fr, t, func, None)
        if not any(isinstance(a, T) for a in t.args):
            return t
        if not any(x.op in ('closure', 'func') for x in tm.nodes(t)):
            return t
        m = {x: self.escape(fr, x) for x in list(tm.nodes(t)) if x.op in ('closure', 'func')}
        return tm.subst(t, m)

    def lam_of(self, fr, t, func, so, argty='any'):
        a = func.node.args
        n = len(a.args) + len(a.posonlyargs) - (1 if so is not None else 0) - len(a.defaults)
        bv = tm.fresh(argty)
        if n == 1:
            args = [bv]
        else:
            args = [tm.item(bv, num(i)) for i in range(n)]
        if so is not None:
            args = [so] + args
        if len(self.stack) > 12 or any(f is func.node for f, _, _ in self.stack):
            return mk('func', 0, func.name)
        sub = Frame(func, func.module)
        sub.st.heap = dict(fr.st.heap) if fr is not None else {}
        se, sg = self.effects, self.guard
        self.effects, self.guard = [], TRUE
        try:
            v = self.call_func(sub, func, args, {})
            effs = self.effects
        finally:
            self.effects, self.guard = se, sg
        if effs:
            v = tm.tup(v, self.effset(effs))
        return mk('lam', bv, self.escape(fr, v))

    def lam1(self, fr, f, elty='any'):
        """one-argument function value as (bv, body)"""
        bv = tm.fresh(elty)
        body = self.apply(fr, f, [bv], {})
        return bv, body

    def is_opaque_func(self, func):
        if func.cls is not None:
            return False
        if func.qual in self.inline or func.name in self.inline:
            return False
        return func.name in OPAQUE_FUNCS or func.name in self.opaque

    def opaque_func(self, fr, func, args, kwargs, node):
        self.opaque_calls += 1
        ba = self.bound_args(fr, func, args, kwargs, node)
        r = mk('call', func.name, *[self.escape(fr, x) for x in ba])
        if func.name.startswith('apply_'):
            self.implicit_call(fr, r)
            self.emit(fr, mk('eff', r))
        return r

    def implicit_call(self, fr, r):
        if fr.tries:
            for names in fr.tries[-1:]:
                nm = '|'.join(sorted(names))
                self.raise_(fr, sorted(names)[0], mk('truthy', mk('call', 'raises', s(nm), r)))

    def bound_args(self, fr, func, args, kwargs, node, skip_self=False):
        """arguments in parameter order with defaults filled in"""
        nf = Frame(func, func.module, func.outer)
        if skip_self:
            args = [mk('sym', '%self', 'any')] + list(args)
        self.cur.append(nf)
        try:
            self.bind(nf, func, args, kwargs, node)
        finally:
            self.cur.pop()
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if skip_self:
            names = names[1:]
        out = [nf.st.env[n] for n in names]
        if a.vararg is not None:
            v = nf.st.env[a.vararg.arg]
            if v.op in ('tuple', 'list'):
                out += list(v.args)
            else:
                out.append(mk('star', v))
        if a.kwarg is not None:
            d = nf.st.env[a.kwarg.arg]
            if d.op != 'dict' or d.args:
                out.append(mk('dstar', d))
        return out

    def construct(self, fr, cname, args, kwargs, node):
        c = self.prog.cls(cname)
        _, init = c.lookup('__init__')
        if not isinstance(init, Func):
            return mk('new', cname, *self.opargs(fr, args, kwargs))
        a = init.node.args
        ba = self.bound_args(fr, init, args, kwargs, node, skip_self=True)
        names = [p.arg for p in (a.posonlyargs + a.args + a.kwonlyargs)][1:]
        named = []
        for i, v in enumerate(ba):
            v = self.escape(fr, v)
            if i < len(names):
                named.append(mk('kw', names[i], v))
            else:
                named.append(v)
        # defaults are part of the signature: a call that omits them equals one that spells them out
        obj = mk('new', cname, *named)
        if cname in self.inline_new and not any(f is init.node for f, _, _ in self.stack):
            self.fresh.add(obj)
            self.call_func(fr, init, [obj] + list(args), kwargs, node)
        return obj

    # ------------------------------------------------------------ methods
    def call_method(self, fr, obj, name, args, kwargs, node=None):
        if obj.op == 'ite':
            f = ite(obj.args[0], mk('bound', obj.args[1], name), mk('bound', obj.args[2], name))
            if obj.args[1] is UNBOUND or obj.args[2] is UNBOUND:
                pass
            return self.apply(fr, f, args, kwargs, node)
        if obj is UNBOUND:
            return UNBOUND
        if obj.op == 'super':
            return self.apply(fr, mk('superattr', obj, name), args, kwargs, node)
        if obj.op == 'mod' or obj.op == 'ext':
            return self.apply(fr, self.getattr(fr, obj, name, node), args, kwargs, node)
        if obj.op == 'cls':
            c, mem = self.member(obj.args[0], name)
            if isinstance(mem, Func):
                if mem.kind == 'class':
                    if name in OPAQUE_CLASSMETHODS and (mem.cls.name + '.' + name) not in self.inline:
                        ba = self.bound_args(fr, mem, args, kwargs, node, skip_self=True)
                        r = mk('mcall', obj, name, *[self.escape(fr, x) for x in ba])
                        self.implicit(fr, 'KeyError', mk('truthy', mk('call', 'raises', s('KeyError'), r)))
                        return r
                    return self.call_func(fr, mem, [obj] + list(args), kwargs, node)
                return self.call_func(fr, mem, args, kwargs, node)
            return mk('mcall', obj, name, *self.opargs(fr, args, kwargs))
        ty = model.base_type(obj)
        if model.is_class(ty):
            r = self.class_method(fr, obj, ty, name, args, kwargs, node)
            if r is not None:
                return r
        from .extcalls import ext_method
        return ext_method(self, fr, obj, name, args, kwargs, node)

    def class_method(self, fr, obj, ty, name, args, kwargs, node):
        # stored callables
        v = self.heap_get(fr, obj, name)
        if v is not None and v.op in ('closure', 'func', 'lam', 'ite', 'partial'):
            return self.apply(fr, v, args, kwargs, node)
        c, mem = self.member(ty, name)
        is_level, is_trans = ty in model.LEVELS, ty in model.TRANS
        forced = any(k + '.' + name in self.inline for k in model.mro(ty))
        if not forced:
            if is_level and name in LEVEL_VIEWS or is_trans and name in TRANS_VIEWS:
                return self.view(fr, obj, ty, name, args, node)
            if ty == 'LevelStructure' and name == '__getitem__':
                at = self.getattr(fr, obj, 'atom')
                r = mk('call', 'levels_at', at, self.escape(fr, args[0]))
                self.implicit(fr, 'KeyError', not_(mk('isin', args[0], obj)))
                return r
            if ty == 'TransitionStructure' and name == '__getitem__':
                at = self.getattr(fr, obj, 'atom')
                k = args[0]
                r = mk('call', 'transitions_at', at, self.escape(fr, k))
                self.implicit(fr, 'KeyError', not_(mk('isin', k, obj)))
                return r
            if ty == 'MultiTerm' and name == '__getitem__':
                return model.norm_item(model.norm_attr(obj, 'terms'), args[0])
            if ty == 'MultiTerm' and name == '__len__':
                return mk('call', 'len', model.norm_attr(obj, 'terms'))
            if name in EFFECT_METHODS and isinstance(mem, Func):
                ba = self.bound_args(fr, mem, args, kwargs, node, skip_self=True)
                r = mk('mcall', obj, name, *[self.escape(fr, x) for x in ba])
                self.opaque_calls += 1
                self.emit(fr, mk('eff', self.stamp(fr, r, name)))
                if name == 'populate_sublevels':
                    self.heap_set(fr, obj, '_sublevels', mk('call', 'populated', obj))
                elif name == 'populate_subtransitions':
                    self.heap_set(fr, obj, '_subtransitions', mk('call', 'populatedt', obj))
                if name == 'add_to_atom':
                    return NONE
                if name in ('add_level', 'add_transition') and not (ba and ba[0].op == 'tuple'):
                    return ba[0]
                return r
            if (name in VALUE_METHODS and mem.name not in self.inline if isinstance(mem, Func) else False) or \
                    isinstance(mem, Func) and any(k + '.' + name in self.opaque for k in model.mro(ty)):
                ba = self.bound_args(fr, mem, args, kwargs, node, skip_self=True)
                self.opaque_calls += 1
                return mk('mcall', obj, name, *[self.escape(fr, x) for x in ba])
        if isinstance(mem, Func):
            if getattr(mem, 'abstract', False) or self.overridden(ty, name):
                ba = self.bound_args(fr, mem, args, kwargs, node, skip_self=True)
                r = mk('mcall', obj, name, *[self.escape(fr, x) for x in ba])
                self.opaque_calls += 1
                if name in ('_assign_models',) or name in EFFECT_METHODS:
                    self.emit(fr, mk('eff', r))
                return r
            if self.recursing(mem, obj, args):
                ba = self.bound_args(fr, mem, args, kwargs, node, skip_self=True)
                r = mk('mcall', obj, name, *[self.escape(fr, x) for x in ba])
                if name not in VALUE_METHODS:
                    self.emit(fr, mk('eff', r))
                return r
            if mem.kind == 'class':
                return self.call_func(fr, mem, [mk('cls', ty)] + list(args), kwargs, node)
            return self.call_method_func(fr, mem, obj, args, kwargs, node)
        if isinstance(mem, tuple):
            return self.apply(fr, self.getattr(fr, obj, name, node), args, kwargs, node)
        return None

    BARRIERS = {'enforce_consistency', 'save', 'set_frequency', 'add_transition'}

    def stamp(self, fr, r, name):
        """calls whose outcome depends on everything written before carry the preceding effects"""
        if name not in self.BARRIERS:
            return r
        effs = list(self.effects)
        for (b, n), v in fr.st.heap.items():
            if b not in self.fresh and v is not model.norm_attr(b, n):
                effs.append((TRUE, mk('seteff', b, s(n), self.escape(fr, v))))
        return mk('stamp', r, self.effset(effs, fr))

    def view(self, fr, obj, ty, name, args, node):
        subs = mk('subs', obj)
        trans = ty in model.TRANS
        ety = model.elem_type(model.typeof(subs))
        if name in ('values', 'sublevels', 'subtransitions'):
            return subs
        if name in ('keys', '__iter__'):
            bv = tm.fresh(ety)
            return mk('compr', subs, bv, TRUE, self.sub_key(bv, trans))
        if name == 'items':
            bv = tm.fresh(ety)
            return mk('compr', subs, bv, TRUE, tm.tup(self.sub_key(bv, trans), bv))
        if name == '__len__':
            return mk('call', 'len', subs)
        if name == '__getitem__':
            k = args[0]
            self.implicit(fr, 'KeyError', not_(mk('isin', k, obj)))
            return mk('sub_at', obj, self.escape(fr, k))
        raise Unsupported(name)

    def sub_key(self, bv, trans):
        n = lambda x: model.norm_attr(model.norm_attr(x, 'term'), 'short_name')
        if trans:
            return tm.tup(n(model.norm_attr(bv, 'E_lower')), n(model.norm_attr(bv, 'E_upper')))
        return n(bv)

    # ------------------------------------------------------------ items
    def run_list(self, fr, x, node):
        from .extcalls import HANDLERS
        return HANDLERS['list'](self, fr, [x], {}, node)

    def frame_item(self, fr, b, k, node):
        """an entry of a pandas column or table by place (iloc), by label (loc, at) or by a mask"""
        if b.op == 'attr' and b.args[1] in ('iloc', 'iat', 'loc', 'at'):
            x, how = b.args
            ty = model.base_type(x)
            if ty == 'Series' and k.op != 'slice':
                if how in ('iloc', 'iat') or model.typeof(k) == 'Series':
                    return model.norm_item(x, k)
                return self.getitem(fr, x, k, node)
            if ty == 'DataFrame' and how in ('loc', 'at'):
                if k.op == 'tuple' and len(k.args) == 2 and model.is_str(k.args[1]):
                    row, col = k.args
                    if model.typeof(row) == 'Series':
                        return self.getitem(fr, self.getitem(fr, x, row, node), col, node)
                    if row.op == 'slice' and all(v is NONE for v in row.args):
                        return self.getitem(fr, x, col, node)
                    if model.typeof(row) in ('int', 'num', 'half'):
                        return self.getitem(fr, self.getitem(fr, x, col, node), row, node)
                if model.typeof(k) == 'Series':
                    return self.getitem(fr, x, k, node)
        if b.op == 'item' and b.args[0].op == 'attr' and b.args[0].args[1] == 'iloc' and model.is_str(k) and \
                model.base_type(b.args[0].args[0]) == 'DataFrame' and model.typeof(b.args[1]) in ('int', 'num'):
            # one column of the row at a place
            return model.norm_item(self.getitem(fr, b.args[0].args[0], k, node), b.args[1])
        if b.op == 'item' and model.base_type(b) == 'Series' and model.typeof(k) in ('int', 'num') and \
                (model.typeof(b.args[1]) == 'Series' or b.args[0].op == 'item' and
                 model.typeof(b.args[0].args[1]) == 'Series'):
            # what a mask leaves keeps the labels it had
            return model.norm_item(b, mk('call', 'labelled', k))
        return None

    def getitem(self, fr, b, k, node=None):
        r = self.frame_item(fr, b, k, node)
        if r is not None:
            return r
        if b.op == 'ite':
            return self.branch_expr(fr, b.args[0], lambda: self.getitem(fr, b.args[1], k, node),
                                    lambda: self.getitem(fr, b.args[2], k, node))
        if k.op == 'ite' and b.op in ('tuple', 'list', 'dict'):
            return self.branch_expr(fr, k.args[0], lambda: self.getitem(fr, b, k.args[1], node),
                                    lambda: self.getitem(fr, b, k.args[2], node))
        if b.op == 'match':
            from .extcalls import match_method
            r = match_method(self, fr, b, '__getitem__', [k], {})
            if r is not None:
                return r
        ty = model.base_type(b)
        if model.is_class(ty):
            r = self.class_method(fr, b, ty, '__getitem__', [k], {}, node)
            if r is not None:
                return r
        if b.op == 'arr':
            if k.op == 'tuple':
                r = b.args[0]
                for x in k.args:
                    r = model.norm_item(r, x)
                return r
            r = model.norm_item(b.args[0], k)
            if r.op in ('list', 'tuple', 'compr'):
                return mk('arr', r)
            return r
        if b.op == 'nodeview':
            # model.nodes[key] -> attribute dict of the node ; model.nodes[key]['level']
            return mk('nodedata', b.args[0], k)
        if b.op == 'nodedata':
            if k is s('level'):
                self.implicit(fr, 'KeyError', not_(mk('isin', b.args[1], mk('nodedict', b.args[0]))))
                return self.node_at(b.args[0], b.args[1])
        if b.op == 'edgeview':
            return edgedata(b.args[0], k)
        if b.op == 'edgedata':
            if k is s('transition'):
                return self.edge_at(b.args[0], b.args[1])
        if b.op == 'adjview':
            return mk('adj', b.args[0], k)
        if b.op == 'edgedat' and k is s('transition'):
            return b.args[0]
        if b.op == 'adj':
            return edgedata(b.args[0], tm.tup(b.args[1], k))
        if b.op == 'nodedict':
            self.implicit(fr, 'KeyError', not_(mk('isin', k, b)))
            return self.node_at(b.args[0], k)
        if b.op == 'edgedict':
            self.implicit(fr, 'KeyError', not_(mk('isin', k, b)))
            return self.edge_at(b.args[0], k)
        if b.op in ('dictdel', 'dictadd', 'dict', 'dictupd', 'dictc') or model.typeof(b).startswith('dict') or \
                (b.op == 'attr' and b.args[1] == 'aliases'):
            self.implicit(fr, 'KeyError', not_(self.isin(fr, k, b)))
            return self.dict_item(b, k)
        if k.op == 'slice' and b.op == 'rng' and False:
            pass
        return model.norm_item(b, k)

    def node_at(self, g, k):
        t = {'_levelsModel': 'EnergyLevel', '_hfModel': 'HFLevel', '_zModel': 'ZLevel'}
        ty = 'EnergyLevel'
        if g.op == 'attr':
            ty = t.get(g.args[1], 'EnergyLevel')
        return mk('call', 'node_at_' + ty, g, k)

    def edge_at(self, g, k):
        ty = 'Transition'
        if g.op == 'attr':
            ty = {'_hfModel': 'HFTransition', '_zModel': 'ZTransition'}.get(g.args[1], 'Transition')
        if k.op == 'tuple' and len(k.args) == 2 and k.args[0].uid > k.args[1].uid:
            # the graphs are undirected
            k = tm.tup(k.args[1], k.args[0])
        return mk('call', 'edge_at_' + ty, g, k)

    def dict_item(self, d, k):
        if d.op == 'dictdel':
            if d.args[1] is k:
                return UNBOUND
            if d.args[1].op in tm.CONST_OPS and k.op in tm.CONST_OPS:
                return self.dict_item(d.args[0], k)
        if d.op == 'dictadd':
            if d.args[1] is k:
                return d.args[2]
            e = tm.eq(d.args[1], k)
            if e is FALSE:
                return self.dict_item(d.args[0], k)
            return ite(e, d.args[2], self.dict_item(d.args[0], k))
        if d.op == 'dictupd':
            return ite(self.isin(None, k, d.args[1]), self.dict_item(d.args[1], k), self.dict_item(d.args[0], k))
        if d.op == 'ite':
            return ite(d.args[0], self.dict_item(d.args[1], k), self.dict_item(d.args[2], k))
        if d.op == 'dict':
            r = UNBOUND
            for i in range(0, len(d.args), 2):
                e = tm.eq(d.args[i], k)
                if e is TRUE:
                    r = d.args[i + 1]
                elif e is not FALSE:
                    r = ite(e, d.args[i + 1], r)
            return r
        if d.op == 'dictc':
            S, bv, cond, kv = d.args
            if kv.args[0] is bv:
                return tm.subst(kv.args[1], {bv: k})
            if kv.args[0].op == 'attr' and kv.args[0].args == (bv, 'name') and k.op == 'attr' and \
                    k.args[1] == 'name' and cond is TRUE and model.typeof(k.args[0]) == model.typeof(bv):
                return tm.subst(kv.args[1], {bv: k.args[0]})
            v = tm.subst(kv.args[1], {kv.args[0]: k})
            if not any(n is bv for n in tm.nodes(v)) and not any(n is bv for n in tm.nodes(k)):
                # the value depends on nothing but the key
                return v
            return mk('item', d, k)
        return model.norm_item(d, k)

    def dict_del(self, d, k):
        if d.op == 'dict':
            if all(x.op in tm.CONST_OPS for x in d.args[0::2]):
                out = []
                for i in range(0, len(d.args), 2):
                    if d.args[i] is not k:
                        out += [d.args[i], d.args[i + 1]]
                return mk('dict', *out)
        if d.op == 'dictadd' and d.args[1] is k:
            return self.dict_del(d.args[0], k)
        if d.op == 'dictadd' and tm.eq(d.args[1], k) is FALSE:
            return mk('dictadd', self.dict_del(d.args[0], k), d.args[1], d.args[2])
        if d.op == 'dictdel':
            ks = sorted([d.args[1], k], key=lambda x: x.uid)
            if d.args[1] is k:
                return d
            if ks[0] is k:
                return mk('dictdel', self.dict_del(d.args[0], k), d.args[1])
        return mk('dictdel', d, k)

    def isin(self, fr, k, c):
        if c.op == 'ite':
            return ite(c.args[0], self.isin(fr, k, c.args[1]), self.isin(fr, k, c.args[2]))
        if c.op in ('str', 'tuple', 'list', 'set') and len(c.args) != 0 and model.one_char(k):
            # one character among several: the order and the kind of container do not matter
            cs = list(c.args[0]) if c.op == 'str' else [x.args[0] if x.op == 'str' else '' for x in c.args]
            if len(cs) >= 4 and all(len(x) == 1 for x in cs):
                return mk('isin', k, s(''.join(sorted(set(cs)))))
        if c.op == 'dictdel':
            e = tm.eq(k, c.args[1])
            return and_(not_(e), self.isin(fr, k, c.args[0]))
        if c.op == 'dictadd':
            return or_(tm.eq(k, c.args[1]), self.isin(fr, k, c.args[0]))
        if c.op == 'dictupd':
            return or_(self.isin(fr, k, c.args[0]), self.isin(fr, k, c.args[1]))
        if c.op == 'dict':
            return or_(*[tm.eq(k, x) for x in c.args[0::2]]) if c.args else FALSE
        if c.op in ('tuple', 'list', 'set'):
            return or_(*[tm.eq(k, x) for x in c.args]) if c.args else FALSE
        if c.op == 'arr':
            return self.isin(fr, k, c.args[0])
        ty = model.typeof(c)
        if ty.startswith('tuple3'):
            return or_(*[tm.eq(k, model.norm_item(c, num(i))) for i in range(3)])
        if c.op == 'compr' and not model.is_str(c):
            S, bv, cond, e = c.args
            if e is bv and cond is TRUE:
                return self.isin(fr, k, S)
            return mk('any', S, bv, TRUE, and_(cond, tm.eq(k, e)))
        if c.op == 'nodekeys':
            return mk('isin', k, mk('nodedict', c.args[0]))
        if c.op == 'adj':
            return mk('isin', tm.tup(c.args[1], k), mk('edgeset', c.args[0]))
        if c.op == 'adjview':
            return mk('isin', k, mk('nodedict', c.args[0]))
        if c.op == 'edgeview':
            return mk('isin', k, mk('edgeset', c.args[0]))      # in either order, unlike in a dictionary
        if c.op == 'nodeview' or model.typeof(c) == 'Graph':
            return mk('isin', k, mk('nodedict', c if model.typeof(c) == 'Graph' else c.args[0]))
        if c.op == 'edgekeys':
            return mk('isin', k, mk('edgedict', c.args[0]))
        if c.op == 'dkeys':
            return self.isin(fr, k, c.args[0])
        if model.is_class(model.base_type(c)) and fr is not None:
            bt = model.base_type(c)
            _, mem = self.member(bt, '__contains__')
            if isinstance(mem, Func):
                return self.truth(self.class_method(fr, c, bt, '__contains__', [k], {}, None))
            _, mem = self.member(bt, '__iter__')
            if isinstance(mem, Func):
                S = self.seq(fr, c)
                if S is not c and S.op != 'mcall':
                    return self.isin(fr, k, S)
        return mk('isin', k, c)

    # ------------------------------------------------------------ sequences
    def seq(self, fr, t, node=None):
        """the sequence a value yields when iterated"""
        if t.op == 'ite':
            return ite(t.args[0], self.seq(fr, t.args[1]), self.seq(fr, t.args[2]))
        if t.op == 'arr':
            return t.args[0]
        if t.op == 'dict':
            return tm.lst(*t.args[0::2])
        if t.op == 'dictc':
            S, bv, cond, kv = t.args
            return mk('compr', S, bv, cond, kv.args[0])
        if t.op in ('tuple', 'list', 'set', 'compr', 'rng', 'subs', 'nodes', 'flat', 'listcat', 'sorted', 'product',
                    'edges', 'setc'):
            return t
        if t.op == 'dkeys':
            return self.seq(fr, t.args[0])
        if t.op == 'nodedict' or t.op == 'nodekeys':
            bv = tm.fresh('EnergyLevel')
            return mk('compr', mk('nodes', t.args[0]), bv, TRUE, model.norm_attr(bv, 'name'))
        if t.op == 'nodeview':
            bv = tm.fresh('EnergyLevel')
            return mk('compr', mk('nodes', t.args[0]), bv, TRUE, model.norm_attr(bv, 'name'))
        if t.op in ('edgedict', 'edgeview'):
            return mk('edgekeys', t.args[0])
        if t.op == 'adj':
            from . import extcalls
            return extcalls.view_method(self, fr, t, 'keys', [], {}, node)
        ty = model.base_type(t)
        if model.is_class(ty):
            r = self.class_method(fr, t, ty, '__iter__', [], {}, node)
            if r is not None and r is not t:
                return self.seq(fr, r) if r.op != 'mcall' else r
            if ty == 'MultiTerm':
                return model.norm_attr(t, 'terms')
        if ty.startswith('tuple3'):
            return tm.tup(*[model.norm_item(t, num(i)) for i in range(3)])
        return t

    def elty(self, S):
        if S.op == 'compr':
            return model.typeof(S.args[3])
        if S.op == 'rng':
            return 'int' if all(model.typeof(x) in ('int', 'nat') for x in S.args[:3]) else 'half'
        if S.op == 'edgekeys':
            return 'tuple2[str]'
        if S.op == 'sorted':
            return self.elty(S.args[0])
        if S.op == 'product':
            return 'tuple'
        return model.elem_type(model.typeof(S))

    def elements(self, S):
        """literal elements or None"""
        if S.op in ('tuple', 'list', 'set'):
            if any(x.op == 'star' for x in S.args):
                return None
            return list(S.args)
        if S.op == 'rng':
            st, en, sp = S.args[:3]
            if st.op == en.op == sp.op == 'num' and sp.args[0] != 0:
                n = -((st.args[0] - en.args[0]) // sp.args[0]) if False else None
                from math import ceil
                n = ceil((en.args[0] - st.args[0]) / sp.args[0])
                if n <= 16:
                    return [num(st.args[0] + i * sp.args[0]) for i in range(max(n, 0))]
        if S.op == 'str' and len(S.args[0]) <= 32:
            return [s(c) for c in S.args[0]]
        if S.op == 'compr':
            els = self.elements(S.args[0])
            if els is not None and S.args[2] is TRUE:
                return [tm.subst(S.args[3], {S.args[1]: e}) for e in els]
        if S.op == 'listcat':
            out = []
            for x in S.args:
                e = self.elements(x)
                if e is None:
                    return None
                out += e
            return out
        n = model.pieces(S)
        if n:
            return [model.norm_item(S, num(i)) for i in range(n)]
        if S.op in ('sym', 'attr', 'item', 'bv') or S.op == 'call' and S.args[0] in model.CALL_TYPES:
            n = 3 if model.typeof(S) == 'rows3' else model.tuple_size(model.typeof(S))
            return [model.norm_item(S, num(i)) for i in range(n)] if n else None
        if S.op == 'call':
            n = self.returned_size(S.args[0])
            return [model.norm_item(S, num(i)) for i in range(n)] if n else None
        if S.op == 'product':
            parts = [self.elements(x) for x in S.args]
            if all(p is not None for p in parts):
                import itertools
                r = [tm.tup(*p) for p in itertools.product(*parts)]
                return r if len(r) <= 64 else None
        return None

    def compr(self, S, bv, cond, elt):
        """list of elt over S"""
        if S.op == 'ite':
            return ite(S.args[0], self.compr(S.args[1], bv, cond, elt), self.compr(S.args[2], bv, cond, elt))
        els = self.elements(S)
        if els is not None:
            out = tm.lst()
            for e in els:
                m = {bv: e}
                c = tm.subst(cond, m)
                v = tm.subst(elt, m)
                if c is TRUE:
                    out = self.listcat(out, tm.lst(v))
                elif c is not FALSE:
                    out = self.listcat(out, ite(c, tm.lst(v), tm.lst()))
            return out
        return mk('compr', S, bv, cond, elt)

    def listcat(self, a, b):
        if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
            return tm.lst(*(a.args + b.args))
        if a.op in ('list', 'tuple') and not a.args:
            return b
        if b.op in ('list', 'tuple') and not b.args:
            return a
        xs = (a.args if a.op == 'listcat' else (a,)) + (b.args if b.op == 'listcat' else (b,))
        out = []
        for x in xs:
            if out and x.op == 'list' and out[-1].op == 'list':
                out[-1] = tm.lst(*(out[-1].args + x.args))
            else:
                out.append(x)
        return mk('listcat', *out) if len(out) > 1 else out[0]

    def transpose(self, S):
        if S.op == 'compr' and S.args[2] is TRUE and S.args[3] is S.args[1]:
            S = S.args[0]
        els = self.elements(S)
        if els is not None and els and all(self.elements(e) is not None for e in els):
            rows = [self.elements(e) for e in els]
            return tm.lst(*[tm.tup(*c) for c in zip(*rows)])
        if els is not None and els:
            return self.zip_(els)
        if model.typeof(S) == 'rows3':
            return self.zip_([model.norm_item(S, num(i)) for i in range(3)])
        return mk('call', 'transpose', S)

    def zip_(self, Ss):
        lits = [self.elements(S) for S in Ss]
        if all(l is not None for l in lits):
            return tm.lst(*[tm.tup(*c) for c in zip(*lits)])
        if any(S.op == 'ite' for S in Ss):
            i = [S.op == 'ite' for S in Ss].index(True)
            c = Ss[i].args[0]
            a, b = list(Ss), list(Ss)
            a[i], b[i] = Ss[i].args[1], Ss[i].args[2]
            return ite(c, self.zip_(a), self.zip_(b))
        # what was collected from the same elements of the same source runs in step
        if all(S.op == 'compr' and S.args[0] is Ss[0].args[0] for S in Ss) and Ss[0].args[2] is not TRUE:
            src, b0, c0 = Ss[0].args[:3]
            if all(tm.subst(S.args[2], {S.args[1]: b0}) is c0 for S in Ss):
                return mk('compr', src, b0, c0, tm.tup(*[tm.subst(S.args[3], {S.args[1]: b0}) for S in Ss]))
        # comprehensions over the same source run in step
        srcs = [(S.args[0] if S.op == 'compr' and S.args[2] is TRUE else S) for S in Ss]
        if all(x is srcs[0] for x in srcs):
            bv = tm.fresh(self.elty(srcs[0]))
            el = [tm.subst(S.args[3], {S.args[1]: bv}) if S.op == 'compr' and S.args[2] is TRUE else bv for S in Ss]
            return mk('compr', srcs[0], bv, TRUE, tm.tup(*el))
        rngs = [x for x in srcs if x.op == 'rng']
        if len(rngs) == len(srcs) and all(x.args[2] is rngs[0].args[2] and x.args[0] is rngs[0].args[0] for x in rngs):
            # same start and step: the shorter range bounds
            ends = [x.args[1] for x in rngs]
            if all(e.op == 'num' for e in ends):
                r = min(rngs, key=lambda x: x.args[1].args[0])
                bv = tm.fresh(self.elty(r))
                el = [tm.subst(S.args[3], {S.args[1]: bv}) if S.op == 'compr' else bv for S in Ss]
                return mk('compr', r, bv, TRUE, tm.tup(*el))
        i = tm.fresh('int')
        lead = None
        for S, src in zip(Ss, srcs):
            if src.op == 'rng' and src.args[0] is ZERO and src.args[2] is ONE:
                continue
            lead = lead or src
        el = [model.norm_item(S, i) for S in Ss]
        n = mk('call', 'len', lead if lead is not None else srcs[0])
        return mk('compr', mk('rng', ZERO, n, ONE, s('range')), i, TRUE, tm.tup(*el))

    def percent(self, fr, a, b, node=None):
        """'...%s...' % values"""
        import re
        if a.op != 'str':
            return None
        vals = list(b.args) if b.op == 'tuple' else [b]
        out = []
        for t in re.split(r'(%(?:[-+ #0]*[\d.]*[efgdi]|[sr%]))', a.args[0]):
            if t == '%%':
                out.append(s('%'))
            elif t in ('%d', '%i'):
                if not vals or model.typeof(vals[0]) not in ('int', 'nat'):
                    return None
                out.append(mk('strof', vals.pop(0)))
            elif t[:1] == '%' and t[-1:] in 'efg' and len(t) > 1:
                if not vals or '-' in t:
                    return None
                out.append(mk('fmt', vals.pop(0), s(t[1:])))
            elif t in ('%s', '%r'):
                if not vals:
                    return None
                out.append(self.shown(fr, vals.pop(0), t[1], node))
            elif '%' in t:
                return None
            elif t:
                out.append(s(t))
        return None if vals else self.concat(out) if out else s('')

    # ------------------------------------------------------------ arithmetic
    def arith(self, fr, op, a, b, node=None):
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == 'ite' and (x.args[1].op in ('arr', 'list', 'none', 'str') or
                                  x.args[2].op in ('arr', 'list', 'none', 'str')):
                p = self.arith(fr, op, x.args[1], y, node) if left else self.arith(fr, op, y, x.args[1], node)
                q = self.arith(fr, op, x.args[2], y, node) if left else self.arith(fr, op, y, x.args[2], node)
                return ite(x.args[0], p, q)
        if self.is_arr(a) or self.is_arr(b):
            return self.broadcast(fr, op, a, b, node)
        ta, tb = model.typeof(a), model.typeof(b)
        if op in ('add',):
            if ta == 'str' or tb == 'str':
                return self.concat([a, b])
            if ta.startswith('list') or tb.startswith('list') or a.op in ('list', 'compr', 'listcat', 'flat') or \
                    b.op in ('list', 'compr', 'listcat', 'flat'):
                return self.listcat(self.seq(fr, a), self.seq(fr, b))
            if a.op == 'tuple' or b.op == 'tuple':
                x, y = (self.elements(z) if z.op in ('tuple', 'call') else None for z in (a, b))
                if x is not None and y is not None:
                    return tm.tup(*(x + y))
            return tm.add(a, b)
        if op == 'sub':
            if a.op in ('set', 'setc') or ta.startswith('set'):
                return mk('call', 'setminus', a, b)
            return tm.sub(a, b)
        if op == 'mul':
            if a.op in ('list', 'tuple') and b.op == 'num' and b.args[0].denominator == 1:
                return mk(a.op, *(a.args * int(b.args[0])))
            if b.op in ('list', 'tuple') and a.op == 'num' and a.args[0].denominator == 1:
                return mk(b.op, *(b.args * int(a.args[0])))
            if ta == 'str' or tb == 'str':
                return mk('call', 'strrep', a, b)
            return tm.mul(a, b)
        if op == 'div':
            if model.is_path(a):
                return model.join_path(a, b)
            return tm.div(a, b)
        if op == 'floordiv':
            return mk('floorint', tm.div(a, b))
        if op == 'mod':
            if ta == 'str':
                r = self.percent(fr, a, b, node)
                return r if r is not None else mk('call', 'strmod', a, b)
            if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
                return num(a.args[0] % b.args[0])
            return tm.sub(a, tm.mul(b, mk('floorint', tm.div(a, b))))
        if op == 'pow':
            return tm.power(a, b)
        if op == 'bitand':
            if self.boolish(a) and self.boolish(b):
                return and_(self.truth(a), self.truth(b))
            return mk('call', 'bitand', a, b)
        if op == 'bitor':
            if self.boolish(a) and self.boolish(b):
                return or_(self.truth(a), self.truth(b))
            if a.op in ('dict', 'dictadd', 'dictupd') or ta.startswith('dict'):
                return self.dict_update(a, b)
            return mk('call', 'bitor', a, b)
        if op == 'bitxor':
            if self.boolish(a) and self.boolish(b):
                return not_(tm.eq(a, b))
            return mk('call', 'bitxor', a, b)
        if op == 'matmul':
            return mk('call', 'dot', a, b)
        return mk('call', op, a, b)

    def boolish(self, t):
        return tm.is_boolish(t) or model.typeof(t) == 'bool'

    def is_arr(self, t):
        return t.op == 'arr' or model.typeof(t).startswith('arr[')

    def arr_seq(self, t):
        return t.args[0] if t.op == 'arr' else t

    def broadcast(self, fr, op, a, b, node=None):
        if self.is_arr(a) and self.is_arr(b):
            A, B = self.arr_seq(a), self.arr_seq(b)
            z = self.zip_([A, B])
            els = self.elements(z)
            if els is not None:
                return mk('arr', tm.lst(*[self.arith(fr, op, e.args[0], e.args[1], node) for e in els]))
            S, bv, cond, e = z.args
            return mk('arr', mk('compr', S, bv, cond, self.arith(fr, op, e.args[0], e.args[1], node)))
        arr, x, left = (a, b, True) if self.is_arr(a) else (b, a, False)

        def f(e):
            e2 = mk('arr', e) if e.op in ('list', 'tuple') else e
            return self.arith(fr, op, e2, x, node) if left else self.arith(fr, op, x, e2, node)
        return mk('arr', self.map_seq(self.arr_seq(arr), f))

    def map_seq(self, S, f):
        els = self.elements(S)
        if els is not None:
            return tm.lst(*[f(e) for e in els])
        if S.op == 'compr':
            bv = tm.fresh(S.args[1].args[1])
            m = {S.args[1]: bv}
            return mk('compr', S.args[0], bv, tm.subst(S.args[2], m), f(tm.subst(S.args[3], m)))
        i = tm.fresh('int')
        return mk('compr', mk('rng', ZERO, mk('call', 'len', S), ONE, s('range')), i, TRUE, f(model.norm_item(S, i)))

    def concat(self, xs):
        out = []
        for x in xs:
            if x.op == 'concat':
                out += x.args
            elif x.op == 'ite':
                out.append(x)
            else:
                out.append(x)
        if all(x.op == 'str' for x in out):
            return s(''.join(x.args[0] for x in out))
        return mk('concat', *out)

    def strof(self, t):
        if t.op == 'str':
            return t
        if t.op == 'num' and t.args[0].denominator == 1:
            return s(str(int(t.args[0])))
        if t.op == 'ite':
            return ite(t.args[0], self.strof(t.args[1]), self.strof(t.args[2]))
        return mk('strof', t)

    def textof(self, fr, x, node=None):
        """str(x): the class's own __str__ where it has one"""
        if model.typeof(x) == 'str':
            return x
        ty = model.base_type(x)
        if model.is_class(ty):
            _, mem = self.member(ty, '__str__')
            if not isinstance(mem, Func):
                _, mem = self.member(ty, '__repr__')
            if isinstance(mem, Func) and not self.recursing(mem, x):
                return self.call_method_func(fr, mem, x, [], {}, node)
        return self.strof(x)

    def reprof(self, fr, x, node=None):
        """repr(x): the class's own __repr__ where it has one"""
        if x.op == 'ite':
            return ite(x.args[0], self.reprof(fr, x.args[1], node), self.reprof(fr, x.args[2], node))
        ty = model.base_type(x)
        if model.is_class(ty):
            _, mem = self.member(ty, '__repr__')
            if isinstance(mem, Func) and not self.recursing(mem, x):
                return self.call_method_func(fr, mem, x, [], {}, node)
        if x.op == 'str':
            return s(repr(x.args[0]))
        if x.op == 'num' and x.args[0].denominator == 1 or x.op in ('none', 'bool'):
            return self.strof(x)
        return mk('call', 'repr', x)

    def shown(self, fr, x, conversion, node=None):
        return self.reprof(fr, x, node) if conversion in ('r', 'a', ord('r'), ord('a')) else self.textof(fr, x, node)

    def dict_update(self, d, e):
        if e.op == 'dict':
            for i in range(0, len(e.args), 2):
                d = model.dict_put(d, e.args[i], e.args[i + 1])
            return d
        if e.op == 'ite':
            return ite(e.args[0], self.dict_update(d, e.args[1]), self.dict_update(d, e.args[2]))
        if d.op == 'dict' and not d.args:
            return e
        if e.op == 'dictadd':
            return model.dict_put(self.dict_update(d, e.args[0]), e.args[1], e.args[2])
        return mk('dictupd', d, e)

    # ------------------------------------------------------------ expressions
    def ev(self, fr, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.err(e, 'expression %s' % type(e).__name__)
        return m(fr, e)

    def e_Constant(self, fr, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, str):
            return s(v)
        if v is Ellipsis:
            return mk('atomc', '...')
        if isinstance(v, bytes):
            return mk('atomc', repr(v))
        return tm.num_literal(v)

    def e_Name(self, fr, e):
        return self.lookup(fr, e.id, e)

    def e_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v)
        return v

    def e_Attribute(self, fr, e):
        b = self.ev(fr, e.value)
        return self.getattr(fr, b, e.attr, e)

    def e_Subscript(self, fr, e):
        b = self.ev(fr, e.value)
        k = self.ev(fr, e.slice)
        return self.getitem(fr, b, k, e)

    def e_Slice(self, fr, e):
        f = lambda x: NONE if x is None else self.ev(fr, x)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                w = self.ev(fr, x.value)
                ls = self.spread(fr, w)
                if ls is None:
                    out.append(mk('star', self.seq(fr, w)))
                else:
                    out += ls
            else:
                out.append(self.ev(fr, x))
        return out

    def spread(self, fr, v):
        """the items of a sequence of known length, or None"""
        if v.op == 'ite':
            x, y = (self.spread(fr, z) if z is not UNBOUND else UNBOUND for z in v.args[1:])
            if x is UNBOUND and y is not None and y is not UNBOUND:
                x = [UNBOUND] * len(y)
            if y is UNBOUND and x is not None and x is not UNBOUND:
                y = [UNBOUND] * len(x)
            # one known: the other has as many
            if x is None and y and y is not UNBOUND and all(z.op == 'call' for z in leaves_of(v.args[1])):
                x = [self.item_n(fr, v.args[1], i, len(y)) for i in range(len(y))]
            if y is None and x and x is not UNBOUND and all(z.op == 'call' for z in leaves_of(v.args[2])):
                y = [self.item_n(fr, v.args[2], i, len(x)) for i in range(len(x))]
            if x is None or x is UNBOUND or len(x) != len(y):
                return None
            return [ite(v.args[0], p, q) for p, q in zip(x, y)]
        S = self.seq(fr, v)
        if model.typeof(S) == 'rows3':
            return [self.item_n(fr, v, i, 3) for i in range(3)]
        ls = self.elements(S)
        if ls is not None and v.op == 'arr':
            return [mk('arr', x) if x.op in ('list', 'tuple', 'compr') else x for x in ls]
        return ls

    def returned_size(self, name):
        """the number of items of what a function of the package always returns, or None"""
        if name in self.sizes:
            return self.sizes[name]
        from .rules import own_nodes
        sizes = set()
        for m in self.prog.modules.values():
            f = m.defs.get(name)
            if not isinstance(f, Func):
                continue
            for x in own_nodes(f.node):
                if isinstance(x, ast.Return):
                    sizes.add(len(x.value.elts) if isinstance(x.value, ast.Tuple) and
                              not any(isinstance(y, ast.Starred) for y in x.value.elts) else None)
        self.sizes[name] = sizes.pop() if len(sizes) == 1 else None
        return self.sizes[name]

    def e_Tuple(self, fr, e):
        xs = self.elts(fr, e.elts)
        if any(x.op == 'star' for x in xs):
            return self.catstar(xs)
        return tm.tup(*xs)

    def catstar(self, xs):
        r = tm.lst()
        for x in xs:
            r = self.listcat(r, x.args[0] if x.op == 'star' else tm.lst(x))
        return r

    def e_List(self, fr, e):
        xs = self.elts(fr, e.elts)
        if any(x.op == 'star' for x in xs):
            return self.catstar(xs)
        return tm.lst(*xs)

    def e_Set(self, fr, e):
        return mk('set', *sorted(set(self.elts(fr, e.elts)), key=lambda x: x.uid))

    def e_Dict(self, fr, e):
        d = mk('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.dict_update(d, self.ev(fr, v))
            else:
                kk = self.ev(fr, k)
                d = model.dict_put(d, kk, self.ev(fr, v))
        return d

    def e_IfExp(self, fr, e):
        c = self.truth(self.ev(fr, e.test))
        if c is TRUE:
            return self.ev(fr, e.body)
        if c is FALSE:
            return self.ev(fr, e.orelse)
        return self.branch_expr(fr, c, lambda: self.ev(fr, e.body), lambda: self.ev(fr, e.orelse))

    def branch_expr(self, fr, c, f, g):
        st0 = fr.st
        st1 = st0.copy()
        st1.live = and_(st0.live, c)
        st1.base = st1.live
        fr.st = st1
        a = f()
        st1 = fr.st
        st2 = st0.copy()
        st2.live = and_(st0.live, not_(c))
        st2.base = st2.live
        fr.st = st2
        b = g()
        st2 = fr.st
        fr.st = self.merge(fr, c, st0, st1, st2)
        return ite(c, a, b)

    def e_BoolOp(self, fr, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(fr, e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is TRUE:
                return go(i + 1) if isand else v
            if c is FALSE:
                return v if isand else go(i + 1)
            if isand:
                w = self.branch_expr(fr, c, lambda: go(i + 1), lambda: v)
            else:
                w = self.branch_expr(fr, c, lambda: v, lambda: go(i + 1))
            if self.boolish(v) and w.op == 'ite':
                a, b = w.args[1], w.args[2]
                if isand and b is v and self.boolish(a):
                    return and_(c, self.truth(a))
                if not isand and a is v and self.boolish(b):
                    return or_(c, self.truth(b))
            return w
        return go(0)

    def e_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            if self.is_arr(v):
                return self.broadcast(fr, 'mul', v, num(-1))
            if v.op == 'ite':
                return ite(v.args[0], tm.neg(v.args[1]), tm.neg(v.args[2]))
            return tm.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if self.boolish(v):
            return not_(self.truth(v))
        return mk('call', 'invert', v)

    OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
           ast.Pow: 'pow', ast.BitAnd: 'bitand', ast.BitOr: 'bitor', ast.BitXor: 'bitxor', ast.MatMult: 'matmul',
           ast.LShift: 'lshift', ast.RShift: 'rshift'}

    def e_BinOp(self, fr, e):
        a = self.ev(fr, e.left)
        b = self.ev(fr, e.right)
        return self.binop(fr, self.OPS[type(e.op)], a, b, e)

    DUNDER = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'div': '__truediv__'}

    def binop(self, fr, op, a, b, node):
        ty = model.base_type(a)
        if model.is_class(ty) and op in self.DUNDER:
            _, mem = self.member(ty, self.DUNDER[op])
            if isinstance(mem, Func):
                return self.call_method_func(fr, mem, a, [b], {}, node)
        return self.arith(fr, op, a, b, node)

    def e_Compare(self, fr, e):
        left = self.ev(fr, e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(fr, r)
            out.append(self.compare(fr, op, left, right, e))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*[self.truth(x) for x in out])

    def compare(self, fr, op, a, b, node):
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == 'ite' and any(z.op in ('none', 'str', 'cls', 'ext', 'tuple', 'list', 'ite') or
                                     model.is_class(model.base_type(z)) for z in x.args[1:]) and y.op != 'ite':
                p = self.compare(fr, op, x.args[1], y, node) if left else self.compare(fr, op, y, x.args[1], node)
                q = self.compare(fr, op, x.args[2], y, node) if left else self.compare(fr, op, y, x.args[2], node)
                return ite(x.args[0], p, q)
        if (self.is_arr(a) or self.is_arr(b)) and not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            arr, x, left = (a, b, True) if self.is_arr(a) else (b, a, False)
            if self.is_arr(x):
                return mk('call', 'arrcmp', s(type(op).__name__), a, b)
            return mk('arr', self.map_seq(self.arr_seq(arr), lambda t: self.compare(
                fr, op, t, x, node) if left else self.compare(fr, op, x, t, node)))
        if isinstance(op, ast.Lt):
            return tm.lt(a, b)
        if isinstance(op, ast.Gt):
            return tm.lt(b, a)
        if isinstance(op, ast.LtE):
            return tm.le(a, b)
        if isinstance(op, ast.GtE):
            return tm.le(b, a)
        if isinstance(op, ast.Is):
            return self.is_(fr, a, b)
        if isinstance(op, ast.IsNot):
            return not_(self.is_(fr, a, b))
        if isinstance(op, ast.In):
            return self.isin(fr, a, b)
        if isinstance(op, ast.NotIn):
            return not_(self.isin(fr, a, b))
        r = self.eq(fr, a, b, node)
        return r if isinstance(op, ast.Eq) else not_(self.truth(r))

    def is_(self, fr, a, b):
        t = self.type_test(a, b)
        if t is not None:
            return t
        if a.op == 'bool' and b.op == 'bool':
            return tm.is_(a, b)
        return tm.is_(a, b)

    def type_test(self, a, b):
        if b.op == 'typeof' and a.op != 'typeof':
            a, b = b, a
        if a.op == 'typeof':
            if b.op == 'typeof':
                x, y = a.args[0], b.args[0]
                cx, cy = model.py_class(x), model.py_class(y)
                if cx is not None and cy is not None and (cx in model.EXACT or not model.is_class(cx)) and \
                        (cy in model.EXACT or not model.is_class(cy)):
                    return TRUE if cx == cy else FALSE
                return mk('eq', *sorted((a, b), key=lambda t: t.uid))
            n = self.cls_name(b)
            if n is not None:
                return model.typeis(a.args[0], n)
        return None

    def cls_name(self, t):
        if t.op == 'cls':
            return t.args[0]
        if t.op == 'ext':
            return t.args[0].split('.')[-1]
        return None

    def eq(self, fr, a, b, node):
        t = self.type_test(a, b)
        if t is not None:
            return t
        ty = model.base_type(a)
        if ty == 'Series':
            return mk('call', 'rows_eq', a, b)
        if model.base_type(b) == 'Series':
            return mk('call', 'rows_eq', b, a)
        if model.is_class(ty):
            _, mem = self.member(ty, '__eq__')
            if isinstance(mem, Func) and (ty + '.__eq__') in self.inline and not self.recursing(mem, a):
                return self.call_method_func(fr, mem, a, [b], {}, node)
        if a.op in ('compr', 'list', 'tuple') and b.op in ('compr', 'list', 'tuple') and a.op != b.op and \
                'compr' not in (a.op, b.op):
            return FALSE
        return tm.eq(a, b)

    def e_JoinedStr(self, fr, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(s(v.value))
            else:
                x = self.ev(fr, v.value)
                if v.format_spec is not None and v.format_spec.values:
                    spec = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                    parts.append(mk('fmt', x, s(spec)))
                else:
                    parts.append(self.shown(fr, x, v.conversion, e))
        return self.concat(parts) if parts else s('')

    def e_FormattedValue(self, fr, e):
        return self.shown(fr, self.ev(fr, e.value), e.conversion, e)

    def e_Lambda(self, fr, e):
        return self.closure(Func(e, fr.module, None, '<lambda>'), fr)

    def e_Starred(self, fr, e):
        return mk('star', self.seq(fr, self.ev(fr, e.value)))

    def e_Yield(self, fr, e):
        v = self.ev(fr, e.value) if e.value is not None else NONE
        self.assign_name(fr, '%yield', self.listcat(fr.st.env['%yield'], tm.lst(v)))
        return NONE

    def e_YieldFrom(self, fr, e):
        v = self.seq(fr, self.ev(fr, e.value))
        self.assign_name(fr, '%yield', self.listcat(fr.st.env['%yield'], v))
        return NONE

    # comprehensions
    def e_ListComp(self, fr, e):
        return self.comp(fr, e.generators, lambda: self.ev(fr, e.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, fr, e):
        return mk('call', 'setof', self.comp(fr, e.generators, lambda: self.ev(fr, e.elt)))

    def e_DictComp(self, fr, e):
        r = self.comp(fr, e.generators, lambda: mk('kv', self.ev(fr, e.key), self.ev(fr, e.value)))
        return self.dict_of_kv(r)

    def dict_of_kv(self, r):
        """dict from a list node whose elements are kv nodes"""
        if r.op in ('list', 'tuple'):
            d = mk('dict')
            for x in r.args:
                d = model.dict_put(d, x.args[0], x.args[1])
            return d
        if r.op == 'ite':
            return ite(r.args[0], self.dict_of_kv(r.args[1]), self.dict_of_kv(r.args[2]))
        if r.op == 'compr':
            e = r.args[3]
            if e.op == 'tuple' and len(e.args) == 2:
                e = mk('kv', *e.args)
            if e.op == 'kv':
                return mk('dictc', r.args[0], r.args[1], r.args[2], e)
        if r.op == 'listcat':
            d = mk('dict')
            for x in r.args:
                d = self.dict_update(d, self.dict_of_kv(x))
            return d
        return mk('call', 'dictof', r)

    def comp(self, fr, gens, elt):
        g = gens[0]
        S = self.seq(fr, self.ev(fr, g.iter))
        return self.comp_over(fr, S, gens, elt)

    def comp_over(self, fr, S, gens, elt):
        g = gens[0]
        if S.op == 'ite':
            return self.branch_expr(fr, S.args[0], lambda: self.comp_over(fr, S.args[1], gens, elt),
                                    lambda: self.comp_over(fr, S.args[2], gens, elt))
        names = target_names(g.target)
        saved = {n: fr.st.env.get(n) for n in names}
        els = self.elements(S)
        try:
            if els is not None:
                out = tm.lst()
                for x in els:
                    self.assign(fr, g.target, x, force=True)
                    c = and_(*[self.truth(self.ev(fr, i)) for i in g.ifs])
                    if c is FALSE:
                        continue
                    if len(gens) == 1:
                        v = tm.lst(elt())
                    else:
                        v = self.comp(fr, gens[1:], elt)
                    out = self.listcat(out, v if c is TRUE else ite(c, v, tm.lst()))
                return out
            bv = tm.fresh(self.elty(S))
            # the element of a mapped sequence is the mapped element
            inner_S, bind, cond0 = S, bv, TRUE
            if S.op == 'compr':
                bv = tm.fresh(S.args[1].args[1])
                mm = {S.args[1]: bv}
                inner_S, cond0, bind = S.args[0], tm.subst(S.args[2], mm), tm.subst(S.args[3], mm)
            elif S.op == 'flat' and S.args[0].op == 'compr':
                nested = S.args[0]
                bv = tm.fresh(nested.args[1].args[1])
                mm = {nested.args[1]: bv}
                inner_S, cond0, bind = nested.args[0], tm.subst(nested.args[2], mm), tm.subst(nested.args[3], mm)
            elif S.op == 'product':
                return self.comp_product(fr, S, gens, elt)
            # effects and exceptions inside the element expression belong to each iteration
            live0, exc0, base0 = fr.st.live, fr.st.exc, fr.st.base
            fr.st.live = fr.st.base = TRUE
            fr.st.exc = []
            se, sg = self.effects, self.guard
            self.effects, self.guard = [], TRUE
            if S.op == 'flat' and bind is not bv:
                # iterating over concatenated sequences is a nested iteration
                c = cond0
                r = self.flat(inner_S, bv, c, self.comp_over(fr, self.seq(fr, bind), gens, elt))
                return self.end_comp(fr, (se, sg, live0, base0, exc0), inner_S, bv, c, r)
            self.assign(fr, g.target, bind, force=True)
            c = and_(cond0, *[self.truth(self.ev(fr, i)) for i in g.ifs])
            if len(gens) == 1:
                v = elt()
                r = mk('compr', inner_S, bv, c, v)
            else:
                v = self.comp(fr, gens[1:], elt)
                r = self.flat(inner_S, bv, c, v)
            return self.end_comp(fr, (se, sg, live0, base0, exc0), inner_S, bv, c, r)
        finally:
            for n, v in saved.items():
                if v is None:
                    fr.st.env.pop(n, None)
                else:
                    fr.st.env[n] = v

    def end_comp(self, fr, saved, S, bv, c, r):
        """what the element expressions did and raised happens once per iteration"""
        exc = fr.st.exc
        effs = self.effects
        self.effects, self.guard, fr.st.live, fr.st.base, fr.st.exc = saved
        if effs:
            self.emit(fr, mk('foreach', S, bv, ite(c, self.effset(effs, fr), mk('effset'))))
        for cc, name in exc:
            self.raise_(fr, name, mk('any', S, bv, TRUE, and_(c, cc)))
        return r

    def comp_product(self, fr, S, gens, elt):
        """comprehension over a cartesian product: nested comprehensions"""
        g = gens[0]
        parts = S.args

        def go(i, got):
            if i == len(parts):
                self.assign(fr, g.target, tm.tup(*got), force=True)
                c = and_(*[self.truth(self.ev(fr, x)) for x in g.ifs])
                if len(gens) == 1:
                    v = tm.lst(elt())
                else:
                    v = self.comp(fr, gens[1:], elt)
                return v if c is TRUE else ite(c, v, tm.lst())
            P = parts[i]
            els = self.elements(P)
            if els is not None:
                out = tm.lst()
                for x in els:
                    out = self.listcat(out, go(i + 1, got + [x]))
                return out
            bv = tm.fresh(self.elty(P))
            bind, src, c0 = bv, P, TRUE
            if P.op == 'compr':
                bv = tm.fresh(P.args[1].args[1])
                mm = {P.args[1]: bv}
                src, c0, bind = P.args[0], tm.subst(P.args[2], mm), tm.subst(P.args[3], mm)
            return self.flat(src, bv, c0, go(i + 1, got + [bind]))
        return go(0, [])

    def flat(self, S, bv, cond, v):
        """concatenation over S of the lists v"""
        if v.op in ('list', 'tuple') and len(v.args) == 1:
            return mk('compr', S, bv, cond, v.args[0])
        if v.op == 'ite' and v.args[2].op == 'list' and not v.args[2].args:
            return self.flat(S, bv, and_(cond, v.args[0]), v.args[1])
        if v.op == 'ite' and v.args[1].op == 'list' and not v.args[1].args:
            return self.flat(S, bv, and_(cond, not_(v.args[0])), v.args[2])
        return mk('flat', mk('compr', S, bv, cond, v))

    def e_Call(self, fr, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.super_(fr, e)
        fobj = None
        if isinstance(e.func, ast.Attribute):
            fobj = self.ev(fr, e.func.value)
            # container methods that mutate a variable
            r = self.mutator(fr, e, fobj)
            if r is not None:
                return r
        else:
            f = self.ev(fr, e.func)
        args = self.elts(fr, e.args)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                if v.op == 'dict' and all(x.op == 'str' for x in v.args[0::2]):
                    for i in range(0, len(v.args), 2):
                        kwargs[v.args[i].args[0]] = v.args[i + 1]
                else:
                    # literal keys layered over an opaque dict
                    base = v
                    lit = {}
                    while base.op == 'dictadd' and base.args[1].op == 'str':
                        lit.setdefault(base.args[1].args[0], base.args[2])
                        base = base.args[0]
                    if lit:
                        for kk, vv in lit.items():
                            kwargs[kk] = vv
                            base = self.dict_del(base, s(kk))
                    if '**' in kwargs:
                        base = self.dict_update(kwargs['**'], base)
                    kwargs['**'] = base
            else:
                kwargs[k.arg] = v
        self.written.pop(e, None)
        r = self.call_method(fr, fobj, e.func.attr, args, kwargs, e) if fobj is not None else \
            self.apply(fr, f, args, kwargs, e)
        w = self.written.pop(e, None)
        if w is not None:
            self.write_back(fr, e, w)
        return r

    def write_back(self, fr, e, w):
        """containers the called function was given and changed"""
        func, npos, final = w
        if any(isinstance(a, ast.Starred) for a in e.args):
            return
        ps = [p.arg for p in func.node.args.posonlyargs + func.node.args.args]
        off = npos - len(e.args)
        for p, v in final.items():
            x = None
            if p in ps and 0 <= ps.index(p) - off < len(e.args):
                x = e.args[ps.index(p) - off]
            for k in e.keywords:
                if k.arg == p:
                    x = k.value
            if isinstance(x, (ast.Name, ast.Attribute)):
                self.store(fr, x, v)

    def super_(self, fr, e):
        if e.args:
            c = self.ev(fr, e.args[0])
            if len(e.args) == 1:
                return mk('atomc', 'unbound super')
            return mk('super', c.args[0], self.ev(fr, e.args[1]))
        f = fr
        while f is not None and f.func.cls is None:
            f = f.outer
        if f is None:
            self.err(e, 'super() outside a class')
        first = f.func.node.args.args[0].arg
        return mk('super', f.func.cls.name, f.st.env[first])

    MUT = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'popitem', 'sort',
           'reverse', 'discard', 'appendleft'}

    def mutator(self, fr, e, obj):
        name = e.func.attr
        if name not in self.MUT:
            return None
        tgt = e.func.value
        if not isinstance(tgt, (ast.Name, ast.Attribute, ast.Subscript)):
            return None
        if model.is_class(model.base_type(obj)) or obj.op in ('ext', 'mod', 'cls', 'super'):
            return None
        if obj.op not in ('list', 'dict', 'set', 'compr', 'listcat', 'dictadd', 'dictc', 'dictdel', 'dictupd', 'acc',
                          'attr', 'sym', 'ite', 'setc', 'flat', 'item', 'call', 'setadd', 'bv', 'sorted', 'folded',
                          'mcall', 'nodes', 'edges', 'subs') and obj is not UNBOUND:
            return None
        if obj.op in ('attr', 'sym', 'item', 'call', 'mcall', 'bv'):
            ty = model.typeof(obj)
            if not (ty.startswith('dict') or ty.startswith('list') or name in ('append', 'extend', 'pop', 'update',
                                                                               'add', 'insert', 'setdefault', 'sort',
                                                                               'reverse', 'remove', 'discard',
                                                                               'popitem', 'appendleft')):
                return None
            if name not in ('append', 'extend') and \
                    not (ty.startswith('dict') or ty.startswith('list') or ty == 'any'):
                return None
        args = self.elts(fr, e.args)
        kw = {k.arg: self.ev(fr, k.value) for k in e.keywords if k.arg}
        ret = NONE

        def one(o):
            nonlocal ret
            if name == 'append':
                return self.listcat(o, tm.lst(args[0]))
            if name == 'extend':
                return self.listcat(o, self.seq(fr, args[0]))
            if name == 'insert' and args[0] is ZERO:
                return self.listcat(tm.lst(args[1]), o)
            if name == 'add':
                return mk('setadd', o, args[0])
            if name == 'update':
                r = o
                if args:
                    from .extcalls import as_dict
                    r = self.dict_update(r, as_dict(self, fr, args[0]))
                for k in sorted(kw):
                    r = model.dict_put(r, s(k), kw[k])
                return r
            if name == 'setdefault':
                has = self.isin(fr, args[0], o)
                ret = ite(has, self.dict_item(o, args[0]), args[1] if len(args) > 1 else NONE)
                return ite(has, o, model.dict_put(o, args[0], args[1] if len(args) > 1 else NONE))
            if name == 'pop' and args and (o.op in ('dict', 'dictadd', 'dictdel', 'dictupd', 'dictc') or
                                           model.typeof(o).startswith('dict')):
                has = self.isin(fr, args[0], o)
                if len(args) > 1:
                    ret = ite(has, self.dict_item(o, args[0]), args[1])
                else:
                    self.implicit(fr, 'KeyError', not_(has))
                    ret = self.dict_item(o, args[0])
                return self.dict_del(o, args[0])
            if name == 'pop' and o.op in ('list',) and (not args or args[0].op == 'num') and o.args:
                i = int(args[0].args[0]) if args else -1
                l = list(o.args)
                ret = l.pop(i)
                return tm.lst(*l)
            if name == 'clear':
                return mk('dict') if model.typeof(o).startswith('dict') or o.op.startswith('dict') else tm.lst()
            if name == 'sort':
                key = kw.get('key')
                return self.sorted_(fr, o, key, kw.get('reverse', FALSE))
            if name == 'reverse':
                return mk('call', 'reversed', o)
            ret = mk('mcall', o, name, *[self.escape(fr, a) for a in args])
            return mk('call', 'after_' + name, o, *[self.escape(fr, a) for a in args])

        if obj.op == 'ite' and name in ('pop', 'setdefault'):
            ra = []
            vs = []
            for x in obj.args[1:]:
                ret = NONE
                vs.append(one(x))
                ra.append(ret)
            new = ite(obj.args[0], vs[0], vs[1])
            ret = ite(obj.args[0], ra[0], ra[1])
        else:
            new = one(obj)
        self.store(fr, tgt, new)
        return ret

    def store(self, fr, tgt, v):
        """rebind the variable / attribute / slot a mutated container came from"""
        if isinstance(tgt, ast.Name):
            # a container of an enclosing scope mutated from a closure
            f = fr
            while f is not None and tgt.id not in f.st.env:
                f = f.outer
            if f is None or f is fr:
                self.assign_name(fr, tgt.id, v)
            else:
                self.outer_store(fr, f, tgt.id, v)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(fr, tgt.value)
            self.heap_set_any(fr, b, tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            self.assign(fr, tgt, v)

    def live_since(self, f):
        """the condition under which control is here, given that it is in the frame f"""
        live = TRUE
        for g in reversed(self.cur):
            if g is f:
                break
            live = and_(live, g.st.live)
        return live

    def outer_store(self, fr, f, name, v):
        live = self.live_since(f)
        if f.gate_env and f.st.live is not f.st.base:
            live = and_(live, f.st.live)
        f.st.env[name] = ite(live, v, f.st.env.get(name, UNBOUND))

    def heap_set_any(self, fr, b, name, v):
        if model.is_class(model.base_type(b)):
            _, mem = self.member(model.base_type(b), name)
            if isinstance(mem, tuple) and mem[0] == 'prop':
                # mutation of the object a property returns
                pass
        self.heap_set(fr, b, name, v)

    def sorted_(self, fr, S, key, reverse):
        S = self.seq(fr, S)
        if S.op == 'tuple':
            S = tm.lst(*S.args)
        if key is None or key is NONE:
            bv = tm.fresh(self.elty(S))
            lam = mk('lam', bv, bv)
        else:
            bv, body = self.lam1(fr, key, self.elty(S))
            lam = mk('lam', bv, body)
        rev = self.truth(reverse) if reverse is not None else FALSE
        if S.op == 'list' and len(S.args) == 2 and rev.op == 'bool':
            # two things put in order (those that compare equal keep theirs)
            k0, k1 = [tm.subst(lam.args[1], {bv: x}) for x in S.args]
            if all(model.is_num(k) or model.unopt(model.typeof(k)) == 'Quantity' for k in (k0, k1)):
                swap = tm.lt(k1, k0) if rev is FALSE else tm.lt(k0, k1)
                return tm.lst(ite(swap, S.args[1], S.args[0]), ite(swap, S.args[0], S.args[1]))
        return mk('sorted', S, lam, rev)

    # ------------------------------------------------------------ assignment
    def assign_name(self, fr, name, v, force=False):
        st = fr.st
        if st.live is FALSE and not force:
            return
        if name in fr.nonlocals:
            f = fr.outer
            while f is not None and (name not in f.st.env or name in f.nonlocals):
                f = f.outer
            if f is not None:
                return self.outer_store(fr, f, name, v)
        if fr.gate_env and not force and st.live is not st.base:
            old = st.env.get(name, UNBOUND)
            v = ite(st.live, v, old)
        st.env[name] = v

    def assign(self, fr, tgt, v, force=False):
        if isinstance(tgt, ast.Name):
            self.assign_name(fr, tgt.id, v, force)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(fr, tgt, v, force)
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(fr, tgt.value)
            self.setattr(fr, b, tgt.attr, v, tgt)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(fr, tgt.value)
            k = self.ev(fr, tgt.slice)
            self.setitem(fr, tgt, b, k, v)
        elif isinstance(tgt, ast.Starred):
            self.assign(fr, tgt.value, v, force)
        else:
            self.err(tgt, 'assignment target')

    def unpack(self, fr, tgt, v, force):
        n = len(tgt.elts)
        if v.op == 'ite' and any(isinstance(x, ast.Starred) for x in tgt.elts):
            k = [isinstance(x, ast.Starred) for x in tgt.elts].index(True)
            parts = self.star_parts(fr, v, k, n - k - 1)
        elif v.op == 'ite':
            # unpack componentwise
            parts = []
            for i in range(n):
                parts.append(self.item_n(fr, v, i, n))
        else:
            if any(isinstance(x, ast.Starred) for x in tgt.elts):
                k = [isinstance(x, ast.Starred) for x in tgt.elts].index(True)
                parts = self.star_parts(fr, v, k, n - k - 1)
            else:
                parts = [self.item_n(fr, v, i, n) for i in range(n)]
        for t, p in zip(tgt.elts, parts):
            self.assign(fr, t, p, force)

    def star_parts(self, fr, v, k, tail):
        """the k parts before a starred target, what it gets, and the parts after it"""
        if v.op == 'ite':
            return [ite(v.args[0], x, y) for x, y in zip(self.star_parts(fr, v.args[1], k, tail),
                                                         self.star_parts(fr, v.args[2], k, tail))]
        S = self.seq(fr, v)
        els = self.spread(fr, v)
        if els is None or len(els) < k + tail:
            return [model.norm_item(S, num(i)) for i in range(k)] + \
                [model.norm_item(S, mk('slice', num(k), num(-tail) if tail else NONE, NONE))] + \
                [model.norm_item(S, num(i - tail)) for i in range(tail)]
        return els[:k] + [tm.lst(*els[k:len(els) - tail])] + els[len(els) - tail:]

    def item_n(self, fr, v, i, n):
        if v.op == 'ite':
            return ite(v.args[0], self.item_n(fr, v.args[1], i, n), self.item_n(fr, v.args[2], i, n))
        if v is UNBOUND or v is NONE:
            return UNBOUND
        S = self.seq(fr, v)
        els = self.elements(S) if S.op in ('tuple', 'list', 'compr', 'rng', 'str', 'listcat') else None
        if els is not None and len(els) == n:
            x = els[i]
            if v.op == 'arr' and x.op in ('list', 'tuple', 'compr'):
                return mk('arr', x)
            return x
        if model.typeof(S) == 'rows3':
            return mk('arr', model.norm_item(S, num(i)))
        if S.op == 'mcall' and S.args[1] in ('rsplit', 'split'):
            self.implicit(fr, 'ValueError', not_(tm.eq(mk('call', 'len', S), num(n))))
        return model.norm_item(S, num(i))

    def setitem(self, fr, tgt, b, k, v):
        ty = model.base_type(b)
        if model.is_class(ty):
            _, mem = self.member(ty, '__setitem__')
            if isinstance(mem, Func):
                self.class_method(fr, b, ty, '__setitem__', [k, v], {}, tgt)
                return
        if b.op in ('ite',) and all(model.is_class(model.base_type(x)) for x in b.args[1:]):
            self.err(tgt, 'item assignment through a conditional')
        new = self.put(b, k, v)
        self.store(fr, tgt.value, new)

    def put(self, b, k, v):
        if b.op == 'ite':
            return ite(b.args[0], self.put(b.args[1], k, v), self.put(b.args[2], k, v))
        if b.op == 'list':
            i = model.const_int(k)
            if i is not None and -len(b.args) <= i < len(b.args):
                l = list(b.args)
                l[i] = v
                return tm.lst(*l)
        return model.dict_put(b, k, v)

    # ------------------------------------------------------------ statements
    def block(self, fr, stmts):
        for x in stmts:
            if fr.st.live is FALSE:
                return
            m = getattr(self, 's_' + type(x).__name__, None)
            if m is None:
                self.err(x, 'statement %s' % type(x).__name__)
            m(fr, x)

    def s_Pass(self, fr, x):
        pass

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, fr, x):
        for a in x.names:
            r = self.prog.resolve_import(('mod', a.name if a.asname else a.name.split('.')[0]))
            fr.st.env[a.asname or a.name.split('.')[0]] = self.as_value(r)

    def s_ImportFrom(self, fr, x):
        base = x.module or ''
        if x.level:
            parts = fr.module.name.split('.')
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (x.level - 1)] if x.level > 1 else parts
            base = '.'.join(parts + ([x.module] if x.module else []))
        for a in x.names:
            r = self.prog.resolve_import(('from', base, a.name))
            if r is None:
                self.err(x, 'cannot resolve import of %s' % a.name)
            fr.st.env[a.asname or a.name] = self.as_value(r)

    def s_Expr(self, fr, x):
        if isinstance(x.value, ast.Constant):
            return
        v = self.ev(fr, x.value)
        self.value_effect(fr, v)

    def value_effect(self, fr, v):
        """an opaque call evaluated for its effect"""
        if v.op == 'ite':
            return
        if v.op == 'subs':
            # a lazy view asked for only so that it exists
            self.emit(fr, mk('eff', mk('call', 'force', v)))
        if v.op == 'mcall':
            name = v.args[1]
            if name in extern.IGNORED or name in self.MUT or name in extern.EFFECTFUL or name in EFFECT_METHODS or \
                    name in VALUE_METHODS or name in LEVEL_VIEWS or name in TRANS_VIEWS:
                return
            if model.base_type(v.args[0]) in ('str', 'num', 'int', 'Quantity', 'half', 'halfnn'):
                return
            e = mk('eff', v)
            if not any(x is e for _, x in self.effects):
                self.emit(fr, e)

    def s_Assign(self, fr, x):
        v = self.ev(fr, x.value)
        for t in x.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, x):
        if x.value is not None:
            self.assign(fr, x.target, self.ev(fr, x.value))

    def s_AugAssign(self, fr, x):
        t = x.target
        load = _load(t)
        a = self.ev(fr, load)
        b = self.ev(fr, x.value)
        v = self.binop(fr, self.OPS[type(x.op)], a, b, x)
        self.assign(fr, t, v)

    def s_Return(self, fr, x):
        v = self.ev(fr, x.value) if x.value is not None else (fr.st.env.get('%yield', NONE) if fr.yields else NONE)
        if fr.yields:
            v = fr.st.env['%yield']
        fr.rets.append((fr.st.live, v))
        fr.st.live = FALSE

    def s_Raise(self, fr, x):
        name = 'Exception'
        if x.exc is not None:
            ex = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            name = ast.unparse(ex).split('.')[-1]
        fr.st.exc = fr.st.exc + [(fr.st.live, name)]
        fr.st.live = FALSE

    def s_Assert(self, fr, x):
        c = self.truth(self.ev(fr, x.test))
        self.raise_(fr, 'AssertionError', not_(c))

    def s_Delete(self, fr, x):
        for t in x.targets:
            if isinstance(t, ast.Name):
                fr.st.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                b = self.ev(fr, t.value)
                k = self.ev(fr, t.slice)
                ty = model.base_type(b)
                if model.is_class(ty):
                    _, mem = self.member(ty, '__delitem__')
                    if isinstance(mem, Func):
                        self.class_method(fr, b, ty, '__delitem__', [k], {}, t)
                        continue
                self.store(fr, t.value, self.dict_del(b, k))
            elif isinstance(t, ast.Attribute):
                b = self.ev(fr, t.value)
                self.heap_set(fr, b, t.attr, UNBOUND)

    def s_FunctionDef(self, fr, x):
        f = Func(x, fr.module, None, x.name, 'plain', fr)
        for d in x.decorator_list:
            f.decorators.append(d)
        v = self.closure(f, fr)
        if f.decorators:
            decs = f.decorators
            f.decorators = []
            for d in reversed(decs):
                dv = self.ev(fr, d)
                dn = dv.args[0] if dv.op == 'ext' else None
                if dv.op == 'partialdec' or extern.ALIASES.get(dn) in ('wraps', 'lru_cache'):
                    continue
                v = self.apply(fr, dv, [v], {}, d)
        self.assign_name(fr, x.name, v)

    def s_If(self, fr, x):
        c = self.truth(self.ev(fr, x.test))
        if c is TRUE:
            return self.block(fr, x.body)
        if c is FALSE:
            return self.block(fr, x.orelse)
        st0 = fr.st
        st1 = st0.copy()
        st1.live = and_(st0.live, c)
        st1.base = st1.live
        fr.st = st1
        self.block(fr, x.body)
        st1 = fr.st
        st2 = st0.copy()
        st2.live = and_(st0.live, not_(c))
        st2.base = st2.live
        fr.st = st2
        self.block(fr, x.orelse)
        st2 = fr.st
        fr.st = self.merge(fr, c, st0, st1, st2)

    def merge(self, fr, c, st0, st1, st2):
        n = St()
        n.base = st0.base
        e1, e2 = and_(st0.live, c), and_(st0.live, not_(c))
        if st1.live is e1 and st2.live is e2:
            n.live = st0.live
        elif st1.live is FALSE:
            n.live = st2.live
        elif st2.live is FALSE:
            n.live = st1.live
        else:
            n.live = or_(st1.live, st2.live)
        n0 = len(st0.exc)
        n.exc = st1.exc + [x for x in st2.exc[n0:] if x not in st1.exc[n0:]]
        if st1.live is FALSE and not fr.gate_env:
            n.env = st2.env
        elif st2.live is FALSE and not fr.gate_env:
            n.env = st1.env
        else:
            n.env = {}
            for k in list(st1.env) + [k for k in st2.env if k not in st1.env]:
                a, b = st1.env.get(k, UNBOUND), st2.env.get(k, UNBOUND)
                n.env[k] = a if a is b else ite(c, a, b)
        n.heap = {}
        for k in list(st1.heap) + [k for k in st2.heap if k not in st1.heap]:
            a, b = st1.heap.get(k), st2.heap.get(k)
            if a is b:
                n.heap[k] = a
                continue
            if a is None:
                a = self._orig(fr, k, st0)
            if b is None:
                b = self._orig(fr, k, st0)
            n.heap[k] = ite(c, a, b)
        return n

    def _orig(self, fr, k, st0):
        save = fr.st
        fr.st = st0
        try:
            v = self.heap_get(fr, *k)
        finally:
            fr.st = save
        return v if v is not None else model.norm_attr(*k)

    def s_With(self, fr, x):
        for it in x.items:
            v = self.ev(fr, it.context_expr)
            if it.optional_vars is not None:
                self.assign(fr, it.optional_vars, v)
        self.block(fr, x.body)

    def s_Try(self, fr, x):
        names = set()
        for h in x.handlers:
            names |= self.handler_names(h, fr)
        st0 = fr.st
        exc0 = st0.exc
        live0 = st0.live
        base0 = st0.base
        fr.st.exc = []
        fr.tries.append(names)
        fr.gate_env += 1
        fr.st.base = fr.st.live
        try:
            self.block(fr, x.body)
        finally:
            fr.tries.pop()
            fr.gate_env -= 1
        raised = fr.st.exc
        fr.st.exc = exc0
        if x.orelse:
            self.block(fr, x.orelse)
        for h in x.handlers:
            hn = self.handler_names(h, fr)
            caught = [c for c, e in raised if e in hn or hn & EXC_PARENTS.get(e, set()) or hn & {'Exception',
                                                                                                'BaseException'}]
            raised = [(c, e) for c, e in raised if c not in caught]
            if not caught:
                continue
            cond = or_(*caught)
            st_ok = fr.st
            ok_live = st_ok.live
            st_h = st_ok.copy()
            st_h.live = cond
            st_h.base = st_h.live
            if h.name:
                st_h.env[h.name] = mk('sym', h.name, 'any')
            fr.st = st_h
            fr.gate_env += 1
            self.block(fr, h.body)
            fr.gate_env -= 1
            st_h = fr.st
            m = self.merge_if(fr, cond, st_h, st_ok)
            m.base = base0
            if not (st_h.live is FALSE):
                m.live = live0 if (st_h.live is cond and ok_live is and_(live0, not_(cond))) else \
                    (or_(ok_live, st_h.live) if ok_live is not FALSE else st_h.live)
            else:
                m.live = ok_live
            fr.st = m
        fr.st.exc = fr.st.exc + raised
        fr.st.base = base0
        if x.finalbody:
            self.block(fr, x.finalbody)

    def merge_if(self, fr, c, a, b):
        n = b.copy()
        n.exc = b.exc + [x for x in a.exc if x not in b.exc]
        for k in set(a.env) | set(b.env):
            p, q = a.env.get(k, UNBOUND), b.env.get(k, UNBOUND)
            n.env[k] = p if p is q else ite(c, p, q)
        for k in set(a.heap) | set(b.heap):
            p, q = a.heap.get(k), b.heap.get(k)
            if p is None:
                p = model.norm_attr(*k)
            if q is None:
                q = model.norm_attr(*k)
            n.heap[k] = p if p is q else ite(c, p, q)
        return n

    def handler_names(self, h, fr=None):
        if h.type is None:
            return {'Exception'}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            nm = ast.unparse(t).split('.')[-1]
            if fr is not None and nm not in EXC_PARENTS and not nm.endswith(('Error', 'Exception', 'Warning')):
                # a name for one exception or several
                v = self.ev(fr, t)
                got = [y.args[-1] if y.op == 'ext' else None
                       for y in (v.args if v.op in ('tuple', 'list') else [v])]
                if got and all(isinstance(y, str) for y in got):
                    out |= {y.split('.')[-1] for y in got}
                    continue
                self.err(t, 'exceptions of an unknown kind')
            out.add(nm)
        return out

    def s_Break(self, fr, x):
        fr.loops[-1].brk.append(fr.st.live)
        fr.st.live = FALSE

    def s_Continue(self, fr, x):
        fr.loops[-1].cont.append(fr.st.live)
        fr.st.live = FALSE

    def s_For(self, fr, x):
        from .loops import exec_for
        S = self.seq(fr, self.ev(fr, x.iter), x)
        exec_for(self, fr, x.target, S, x.body, x.orelse, x)

    def s_While(self, fr, x):
        from .loops import exec_while
        exec_while(self, fr, x)

    def s_ClassDef(self, fr, x):
        self.err(x, 'nested class')

    # ------------------------------------------------------------ results
    def effset(self, effs, fr=None):
        out = []
        for c, e in effs:
            if c is FALSE:
                continue
            out.append(ite(c, e, mk('effset')) if c is not TRUE else e)
        return mk('effset', *out)

    def run(self, func, args, kwargs=None, decorated=True):
        """analyse one function on symbolic arguments -> Summary"""
        root = Frame(func, func.module)
        self.cur.append(root)
        try:
            r = self.call_func(root, func, args, kwargs or {}, skip_dec=not decorated)
        finally:
            self.cur.pop()
        st = root.st
        res = self.escape(root, r)
        for c, e in reversed(st.exc):
            res = ite(c, mk('raise', e), res)
        effs = list(self.effects)
        for (b, n), v in st.heap.items():
            if b in self.fresh:
                continue
            if v is model.norm_attr(b, n):
                continue
            effs.append((TRUE, mk('seteff', b, s(n), self.escape(root, v))))
        return Summary(res, self.effset(effs), st, self)


class Summary:
    def __init__(self, ret, effects, st, it):
        self.ret = ret
        self.effects = effects
        self.st = st
        self.it = it


# ---------------------------------------------------------------- syntax helpers
def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return []


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body if True else t
    return t


_an = {}


def assigned_names(fn):
    r = _an.get(id(fn))
    if r is None:
        r = set()
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for st in body:
            r |= body_names(st)
        _an[id(fn)] = r
    return r


_sn = {}


def stored_names(fn):
    """the names that statements of fn itself assign or define"""
    r = _sn.get(id(fn))
    if r is None:
        r, glob, todo = set(), set(), list(fn.body) if isinstance(fn.body, list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
                continue
            elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            todo += ast.iter_child_nodes(n)
        r = _sn[id(fn)] = r - glob
    return r


def unsteady_names(fn):
    """the names fn assigns in a loop, a try or a with, or deletes"""
    r = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While, ast.Try, ast.With, ast.Delete)):
            r |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
        elif isinstance(n, ast.NamedExpr):
            r.add(n.target.id)
    return r


def body_names(st):
    out = set()
    todo = [st]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef,)):
            out.add(n.name)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(n):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in Interp.MUT:
            b = n.func.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            out.add('%yield')
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        todo.extend(ast.iter_child_nodes(n))
    return out


def nonlocal_names(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Nonlocal):
                out |= set(n.names)
    return out


def rebound_names(st):
    return {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


_mp = {}


def mutated_params(fn):
    """parameters a function changes in place and never rebinds"""
    r = _mp.get(id(fn))
    if r is None:
        a = fn.args
        ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        r = set()
        if isinstance(fn.body, list):
            re = set()
            for st in fn.body:
                re |= rebound_names(st)
            r = ps & (assigned_names(fn) - re)
        _mp[id(fn)] = r = sorted(r)
        _keep.append(fn)
    return r


_keep = []


def captured_names(fn):
    """names of enclosing scopes a nested function changes"""
    a = fn.args
    ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    re = set()
    for st in fn.body if isinstance(fn.body, list) else [fn.body]:
        re |= rebound_names(st)
    nl = nonlocal_names(fn)
    return (assigned_names(fn) - (re - nl) - ps) | nl


def has_yield(fn):
    if isinstance(fn, ast.Lambda):
        return False
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def leaves_of(t):
    if t.op == 'ite':
        return leaves_of(t.args[1]) + leaves_of(t.args[2])
    return [t]
