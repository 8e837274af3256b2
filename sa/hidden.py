"""Nothing is shared or remembered behind the caller's back: mutable defaults, containers of classes and modules, caches."""
import ast
from . import model
from .loader import Func
from .rules import package, functions, own_nodes, at, dotted
from .executable import arg_list, enclosing, nodes_of

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'discard',
            'sort', 'reverse', 'appendleft', 'popleft', 'add_node', 'add_edge', 'remove_node', 'remove_edge',
            'add_nodes_from', 'add_edges_from', 'difference_update', 'intersection_update', '__setitem__',
            '__delitem__'}
MAKERS = {'list', 'dict', 'set', 'bytearray', 'collections.defaultdict', 'collections.OrderedDict', 'collections.deque',
          'collections.Counter', 'networkx.Graph', 'networkx.DiGraph', 'pandas.DataFrame', 'defaultdict',
          'OrderedDict', 'deque', 'Counter'}


def mutable(m, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and dotted(m, e.func) in MAKERS


def mutations(nodes, is_it):
    """constructs that change, in place, an object some expression denotes"""
    for n in nodes:
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for x in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    y = x
                    if isinstance(y, ast.Subscript):
                        while isinstance(y, ast.Subscript):
                            y = y.value
                        if is_it(y):
                            yield n
                    elif isinstance(n, ast.AugAssign) and is_it(y) and not isinstance(n.value, ast.Constant):
                        yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            y = n.func.value
            while isinstance(y, ast.Subscript):
                y = y.value
            if is_it(y):
                yield n


def name_is(x):
    return lambda e: isinstance(e, ast.Name) and e.id == x


def aliases(fn, name):
    """names of a function that only ever stand for the same object"""
    out = {name}
    for n in own_nodes(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in out:
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def rebound_first(fn, name):
    """whether the name is assigned a fresh object unconditionally before anything else uses it"""
    for st in fn.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            return True
        if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st)):
            return False
    return False


def rule_defaults(prog, rep):
    """no function changes, hands out or keeps the object it uses as a default argument"""
    for m in package(prog):
        for qual, fn, cls in functions(m):
            a = fn.args
            pos = a.posonlyargs + a.args
            pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for p, d in pairs:
                rep.site(m.name + '.' + qual)
                e = d
                if isinstance(d, ast.Name):
                    r = prog.resolve(m, d.id)
                    if isinstance(r, tuple) and r[0] == 'assign':
                        e = r[2]
                if not mutable(m, e) or rebound_first(fn, p.arg):
                    continue
                names = aliases(fn, p.arg)
                for x in names:
                    for n in mutations(nodes_of(fn), name_is(x)):
                        rep.violation(at(m, n), '%s changes its default argument %s: the next call sees it' % (
                            qual, p.arg), key='%s.%s.%s' % (m.name, qual, p.arg))
                for n in nodes_of(fn):
                    kept = None
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names and \
                            any(not isinstance(t, ast.Name) for t in n.targets):
                        kept = 'keeps'
                    elif isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in names:
                        kept = 'hands out'
                    if kept:
                        rep.violation(at(m, n), '%s %s its default argument %s, which all callers then share' % (
                            qual, kept, p.arg), key='%s.%s.%s' % (m.name, qual, p.arg))


def rule_class_containers(prog, rep):
    """no object changes a container that belongs to its class"""
    for m in package(prog):
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.ClassDef):
                continue
            c = prog.classes.get(node.name)
            if c is None or c.node is not node:
                continue
            shared = {}
            for st in node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and mutable(m, st.value):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if isinstance(t, ast.Name):
                            shared[t.id] = st
            fam = [k for k in prog.classes.values() if c in k.mro]
            for name, st in shared.items():
                rep.site(node.name)
                own = own_in_init(prog, c, name)
                for k in fam:
                    for f in [x for x in k.node.body if isinstance(x, ast.FunctionDef)]:
                        dec = {getattr(d, 'id', None) for d in f.decorator_list}
                        me = f.args.args[0].arg if f.args.args and 'staticmethod' not in dec else None

                        def is_it(e, me=me, name=name, dec=dec):
                            if not (isinstance(e, ast.Attribute) and e.attr == name):
                                return False
                            v = e.value
                            if isinstance(v, ast.Name) and v.id == me:
                                return not own or 'classmethod' in dec
                            if isinstance(v, ast.Name) and v.id in {x.name for x in fam}:
                                return True
                            return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'type'
                        for n in mutations(ast.walk(f), is_it):
                            rep.violation(at(k.module, n), '%s.%s changes %s, which all objects of %s share' % (
                                k.name, f.name, name, node.name), key='%s.%s' % (node.name, name))
                if own:
                    continue

                def foreign(e, name=name, fam=fam):
                    return isinstance(e, ast.Attribute) and e.attr == name and isinstance(e.value, ast.Attribute) \
                        and field_class(e.value.attr) in {x.name for x in fam}
                every = [(m2, n) for m2 in package(prog) for n in ast.walk(m2.tree)]
                if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and foreign(n) for _, n in every):
                    continue
                for m2 in package(prog):
                    for n in mutations(ast.walk(m2.tree), foreign):
                        rep.violation(at(m2, n), '%s is changed here, which all objects of %s share' % (
                            name, node.name), key='%s.%s' % (node.name, name))


def field_class(attr):
    """the one class of the objects kept under an attribute of that name, if there is one"""
    ts = {model.unopt(f[attr]) for f in model.FIELDS.values() if attr in f}
    return ts.pop() if len(ts) == 1 else None


def own_in_init(prog, c, name):
    """whether constructing an object of the class gives it its own attribute of that name"""
    for k in c.mro:
        f = k.members.get('__init__')
        if isinstance(f, Func):
            me = f.node.args.args[0].arg
            for st in f.node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and \
                                    x.attr == name:
                                return True
            if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'
                       for n in ast.walk(f.node)):
                return False
    return False


def module_containers(m):
    out = {}
    for st in m.tree.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and mutable(m, st.value):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Name):
                    out[t.id] = st
    return out


def rule_module_state(prog, rep):
    """no function keeps state in its module: none assigns a global or changes a container of the module, unless it only
    remembers its own results under all of its arguments"""
    for m in package(prog):
        mine = module_containers(m)
        for qual, fn, cls in functions(m):
            rep.site(m.name + '.' + qual)
            local = set()
            for f in enclosing(m, fn):
                local |= {a.arg for a in arg_list(f)}
            glob = {x for n in nodes_of(fn) if isinstance(n, ast.Global) for x in n.names}
            for n in nodes_of(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in glob:
                    local.add(n.id)
            for n in nodes_of(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                    rep.violation(at(m, n), '%s assigns the global %s' % (qual, n.id),
                                  key='%s.%s.%s' % (m.name, qual, n.id))

            def target(e):
                if isinstance(e, ast.Name) and e.id not in local:
                    r = prog.resolve(m, e.id)
                    if isinstance(r, tuple) and r[0] == 'assign' and mutable(r[1], r[2]):
                        return True
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id not in local:
                    r = prog.resolve(m, e.value.id)
                    if isinstance(r, tuple) and r[0] == 'mod':
                        return e.attr in module_containers(r[1])
                    return isinstance(r, Func)
                return False
            for n in mutations(nodes_of(fn), target):
                if isinstance(n, ast.Assign) and memo(fn, n):
                    continue
                rep.violation(at(m, n), '%s changes a container of the module: what one call leaves there the next '
                                        'one sees' % qual, key='%s.%s' % (m.name, qual))


def rule_closure_state(prog, rep):
    """no function handed out by another keeps state in the variables of its maker, unless it only remembers its own
    results under all of its arguments, which are plain values"""
    for m in package(prog):
        for qual, fn, cls in functions(m):
            inner = [n for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn]
            if not inner:
                continue
            out = {n.value.id for n in own_nodes(fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
            boxes = {t.id for n in nodes_of(fn) if isinstance(n, ast.Assign) and mutable(m, n.value)
                     for t in n.targets if isinstance(t, ast.Name)}
            for g in inner:
                rep.site(m.name + '.' + qual)
                if g.name not in out:
                    continue
                local = {a.arg for a in arg_list(g)} | {n.id for n in nodes_of(g) if isinstance(n, ast.Name) and
                                                        isinstance(n.ctx, ast.Store)}
                free = boxes - local
                for n in nodes_of(g):
                    if isinstance(n, ast.Nonlocal):
                        rep.violation(at(m, n), '%s keeps state between its calls' % qual, key='%s.%s' % (m.name, qual))
                for n in mutations(nodes_of(g), lambda e: isinstance(e, ast.Name) and e.id in free):
                    if isinstance(n, ast.Assign) and memo(g, n) and not decorates_method(prog, m, fn.name):
                        continue
                    rep.violation(at(m, n), '%s keeps state between its calls' % qual, key='%s.%s' % (m.name, qual))


def decorates_method(prog, m, name):
    for m2 in package(prog):
        for q, f, cls in functions(m2):
            if cls is not None and any(getattr(d, 'id', None) == name or
                                       isinstance(d, ast.Call) and getattr(d.func, 'id', None) == name
                                       for d in f.decorator_list):
                return True
    return False


def memo(fn, st):
    """`table[key] = value` where the key holds every argument of the function"""
    t = st.targets[0]
    if len(st.targets) != 1 or not isinstance(t, ast.Subscript):
        return False
    key = t.slice
    if isinstance(key, ast.Name):
        vals = [n.value for n in own_nodes(fn) if isinstance(n, ast.Assign) and
                any(isinstance(x, ast.Name) and x.id == key.id for x in n.targets)]
        if len(vals) == 1:
            key = vals[0]
    # the arguments themselves, not something computed from them
    have = {key.id} if isinstance(key, ast.Name) else (
        {x.id for x in key.elts if isinstance(x, ast.Name)} if isinstance(key, ast.Tuple) else set())
    args = {a.arg for a in arg_list(fn)}
    used = {n.id for n in nodes_of(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & args
    return used <= have and 'self' not in args and not reads_objects(fn, args)


# ------------------------------------------------------------------ caches
NUMERIC = {'to', 'magnitude', 'm', 'units', 'real', 'imag', 'shape', 'T', 'dot', 'conj', 'conjugate', 'upper', 'lower',
           'strip', 'split', 'replace', 'startswith', 'endswith', 'format', 'join', 'astype', 'copy', 'sum', 'size',
           'name'}
_domain = {}


def domain_attrs(prog):
    """attributes of levels, transitions, atoms, terms and their collections"""
    if id(prog) not in _domain:
        out = set()
        for c in prog.classes.values():
            if c.module.name.startswith('spec_'):
                continue
            out |= set(c.members)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
        _domain[id(prog)] = {x for x in out if not x.startswith('__')} - NUMERIC
    return _domain[id(prog)]


def reads_objects(fn, args, prog=None, m=None, depth=0):
    """an attribute of a domain object a function reads from one of its arguments, or None"""
    from . import loader
    prog = prog or loader.CURRENT
    dom = domain_attrs(prog)
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in dom:
            v = n.value
            while isinstance(v, (ast.Attribute, ast.Subscript)):
                v = v.value
            if isinstance(v, ast.Name) and v.id in args:
                return n
    if m is not None and depth < 3:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                r = prog.resolve(m, n.func.id)
                if isinstance(r, Func) and isinstance(r.node, ast.FunctionDef):
                    ps = [a.arg for a in r.node.args.posonlyargs + r.node.args.args]
                    given = {p for p, x in zip(ps, n.args) if isinstance(x, ast.Name) and x.id in args}
                    given |= {k.arg for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id in args}
                    if given:
                        x = reads_objects(r.node, given, prog, r.module, depth + 1)
                        if x is not None:
                            return x
    return None


def is_cache(m, d):
    e = d.func if isinstance(d, ast.Call) else d
    return dotted(m, e) in ('functools.lru_cache', 'functools.cache', 'functools.cached_property', 'lru_cache', 'cache',
                            'cached_property')


def cached_functions(prog):
    """(module, qualified name, function, class, site) of everything whose results are remembered"""
    for m in package(prog):
        for qual, fn, cls in functions(m):
            for d in fn.decorator_list:
                if is_cache(m, d):
                    yield m, qual, fn, cls, d
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Call) and is_cache(m, n.func) and len(n.args) == 1 or \
                    isinstance(n, ast.Call) and is_cache(m, n) and len(n.args) == 1 and \
                    isinstance(n.args[0], (ast.Name, ast.Lambda)):
                x = n.args[0]
                if isinstance(x, ast.Lambda):
                    yield m, '<lambda>', x, None, n
                elif isinstance(x, ast.Name):
                    r = prog.resolve(m, x.id)
                    if isinstance(r, Func):
                        yield r.module, x.id, r.node, None, n


def rule_caches(prog, rep):
    """only functions of plain values remember results: no method or property of an object that can change, no function
    that looks into one, none that reads state, has effects, or returns a container that somebody then changes"""
    for m, qual, fn, cls, site in cached_functions(prog):
        rep.site(m.name + '.' + qual)
        key = '%s.%s' % (m.name, qual)
        args = {a.arg for a in arg_list(fn)}
        static = any(getattr(d, 'id', None) == 'staticmethod' for d in getattr(fn, 'decorator_list', []))
        if cls is not None and not static:
            me = fn.args.args[0].arg if fn.args.args else None
            if any(isinstance(n, ast.Name) and n.id == me for n in own_nodes(fn)):
                rep.violation(at(m, site), '%s remembers what it returned for an object that can change since' % qual,
                              key=key)
                continue
        x = reads_objects(fn, args, prog, m)
        if x is not None:
            rep.violation(at(m, x), '%s remembers a result computed from .%s of an object that can change' % (
                qual, x.attr), key=key)
        body = list(own_nodes(fn))
        for n in body:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in args:
                r = prog.resolve(m, n.id)
                if isinstance(r, tuple) and r[0] == 'assign' and mutable(r[1], r[2]) and changed(prog, r[1], n.id):
                    rep.violation(at(m, n), '%s remembers a result that depends on %s, which changes' % (qual, n.id),
                                  key=key)
            if isinstance(n, ast.Global):
                rep.violation(at(m, n), '%s has effects its remembered calls leave out' % qual, key=key)
        rets = [n.value for n in body if isinstance(n, ast.Return)]
        if any(mutable(m, r) or isinstance(r, ast.Name) and any(
                isinstance(n, ast.Assign) and mutable(m, n.value) and
                any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets) for n in body) for r in rets if r):
            name = qual.split('.')[-1]
            for m2 in package(prog):
                for q2, f2, _ in functions(m2):
                    got = {t.id for n in own_nodes(f2) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and
                           (getattr(n.value.func, 'id', None) == name or getattr(n.value.func, 'attr', None) == name)
                           for t in n.targets if isinstance(t, ast.Name)}
                    for g in got:
                        for n in mutations(own_nodes(f2), name_is(g)):
                            rep.violation(at(m2, n), '%s changes the result %s remembers' % (q2, qual), key=key)


def changed(prog, m, name):
    for m2 in package(prog):
        for q, f, _ in functions(m2):
            if any(True for _ in mutations(nodes_of(f), name_is(name))):
                r = prog.resolve(m2, name)
                if isinstance(r, tuple) and r[0] == 'assign' and r[1] is m:
                    return True
    return False
