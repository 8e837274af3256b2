"""Rules over the syntax tree, the scopes and the call graph of the repository.

Each rule yields its obligations (what was looked at) and its violations (what is wrong, and where).
Nothing is executed.
"""
import ast
import builtins
import time
from .loader import Func, Cls, AnalysisError
from .oblig import Result

PKG = 'atomtoolkit'
DOMAIN = ('atomtoolkit.atom', 'atomtoolkit.atom_helpers', 'atomtoolkit.term')


class Report:
    def __init__(self):
        self.sites = 0
        self.functions = set()
        self.bad = []
        self.unknown = []

    def site(self, f=None):
        self.sites += 1
        if f is not None:
            self.functions.add(f)

    def violation(self, where, what, key=None):
        self.bad.append((where, what, key))

    def undecided(self, where, what):
        self.unknown.append((where, what))


def package(prog):
    return [m for n, m in sorted(prog.modules.items()) if n == PKG or n.startswith(PKG + '.')]


def functions(m):
    """every function of a module with its qualified name and the class it is a member of"""
    out = []

    def walk(body, pre, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + st.name, st, cls))
                walk(st.body, pre + st.name + '.', None)
            elif isinstance(st, ast.ClassDef):
                walk(st.body, pre + st.name + '.', st)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(st, f, None), list):
                        walk([x for x in getattr(st, f) if isinstance(x, ast.stmt)], pre, cls)
                for h in getattr(st, 'handlers', []):
                    walk(h.body, pre, cls)
    walk(m.tree.body, '', None)
    return out


def own_nodes(fn):
    """nodes of a function without those of functions nested in it"""
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(c)


def at(m, node):
    return '%s:%d' % (m.rel, getattr(node, 'lineno', 0))


# ------------------------------------------------------------------ what an atom holds can be written to a file
VIEW_METHODS = {'keys', 'values', 'items'}
UNPICKLABLE_CALLS = {'open', 'iter', 'map', 'filter', 'zip', 'reversed', 'enumerate', 'memoryview'}
UNPICKLABLE_EXT = {'threading.Lock', 'threading.RLock', 'weakref.ref', 'weakref.proxy', 'types.SimpleNamespace',
                   'types.MappingProxyType', 'weakref.WeakKeyDictionary', 'weakref.WeakValueDictionary',
                   'contextvars.ContextVar', 'threading.local', 'weakref.WeakSet'}
HOOKS = {'__getstate__', '__setstate__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__'}


def dotted(m, e):
    """the imported name an expression denotes, as far as imports tell"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    i = m.imports.get(e.id)
    head = e.id if i is None else (i[1] if i[0] == 'mod' else i[1] + '.' + i[2])
    return '.'.join([head] + parts[::-1])


def unwritable(m, fn, e, depth=0):
    """why the value of an expression cannot be pickled, or None"""
    if depth > 4 or e is None:
        return None
    if isinstance(e, ast.Lambda):
        return 'a lambda'
    if isinstance(e, ast.GeneratorExp):
        return 'a generator'
    if isinstance(e, ast.IfExp):
        return unwritable(m, fn, e.body, depth + 1) or unwritable(m, fn, e.orelse, depth + 1)
    if isinstance(e, ast.BoolOp):
        for x in e.values:
            r = unwritable(m, fn, x, depth + 1)
            if r:
                return r
        return None
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        for x in e.elts:
            r = unwritable(m, fn, x, depth + 1)
            if r:
                return r
        return None
    if isinstance(e, ast.Dict):
        for x in e.values:
            r = unwritable(m, fn, x, depth + 1)
            if r:
                return r
        return None
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return unwritable(m, fn, e.elt, depth + 1)
    if isinstance(e, ast.DictComp):
        return unwritable(m, fn, e.value, depth + 1)
    if isinstance(e, ast.NamedExpr):
        return unwritable(m, fn, e.value, depth + 1)
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name) and f.id in UNPICKLABLE_CALLS and f.id not in m.defs:
            return 'the result of %s()' % f.id
        if isinstance(f, ast.Attribute) and f.attr in VIEW_METHODS and not e.args and not e.keywords and \
                not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and
                     f.value.func.id == 'super'):
            return 'a view (%s())' % f.attr
        d = dotted(m, f)
        if d in UNPICKLABLE_EXT:
            return 'a %s' % d
        if d == 'functools.partial' or d == 'partial':
            for x in e.args:
                r = unwritable(m, fn, x, depth + 1)
                if r:
                    return r
        if d in ('collections.defaultdict', 'defaultdict') and e.args:
            return unwritable(m, fn, e.args[0], depth + 1)
        return None
    if isinstance(e, ast.Name) and fn is not None:
        for n in own_nodes(fn):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == e.id:
                return 'the local %s' % e.id
        for st in fn.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == e.id:
                return 'the local %s' % e.id
        vals = [n.value for n in own_nodes(fn) if isinstance(n, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(vals) == 1:
            return unwritable(m, fn, vals[0], depth + 1)
    return None


def rule_writable(prog, rep):
    """nothing an atom holds is a lambda, local function or class, generator, iterator, view, file, lock or weak
    reference, and no class of it changes what is written"""
    for m in package(prog):
        if m.name not in DOMAIN:
            continue
        for qual, fn, cls in functions(m):
            for n in own_nodes(fn):
                pairs = []
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                                len(t.elts) == len(n.value.elts):
                            pairs += list(zip(t.elts, n.value.elts))
                        else:
                            pairs.append((t, n.value))
                elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                    pairs.append((n.target, n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('add_node', 'add_edge', 'setdefault', 'append', 'update'):
                    base = n.func.value
                    if isinstance(base, ast.Attribute):
                        pairs += [(base, a) for a in n.args] + [(base, k.value) for k in n.keywords]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) == 3:
                    pairs.append((ast.Attribute(n.args[0], '?', ast.Store()), n.args[2]))
                for t, v in pairs:
                    x = t
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if not isinstance(x, ast.Attribute):
                        continue
                    rep.site(m.name + '.' + qual)
                    why = unwritable(m, fn, v)
                    if why:
                        rep.violation(at(m, n), '%s stores %s in .%s: an atom holding it cannot be saved' % (
                            qual, why, x.attr))
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                rep.site()
                names = {st.name: st for st in node.body if isinstance(st, ast.FunctionDef)}
                hooks = HOOKS & set(names)
                if hooks:
                    state_rule(m, node, names, hooks, rep)


def state_rule(m, node, names, hooks, rep):
    where = at(m, names[sorted(hooks)[0]])
    if hooks == {'__getstate__'}:
        fn = names['__getstate__']
        drops = [n for n in own_nodes(fn) if isinstance(n, ast.Delete) or
                 isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popitem',
                                                                                                 'clear') or
                 isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets) or
                 isinstance(n, ast.DictComp) or isinstance(n, ast.Dict) and n.keys]
        if drops:
            rep.violation(at(m, drops[0]), '%s.__getstate__ leaves out or replaces part of the object, and nothing '
                                           'restores it on loading' % node.name)
            return
    rep.undecided(where, '%s defines %s' % (node.name, ', '.join(sorted(hooks))))


# ------------------------------------------------------------------ one unit registry
def rule_one_registry(prog, rep):
    """the package builds exactly one unit registry"""
    found = []
    for n, m in sorted(prog.modules.items()):
        if n.startswith('spec_'):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call):
                rep.site()
                d = dotted(m, node.func)
                if d in ('pint.UnitRegistry', 'pint.registry.UnitRegistry', 'pint.LazyRegistry'):
                    found.append((m, node))
    if len(found) > 1:
        for m, node in found[1:] if found[0][0].name == PKG else found:
            rep.violation(at(m, node), 'a second unit registry: its quantities cannot be mixed with the others')
    elif not found:
        rep.undecided(PKG, 'no registry is built')


def properties():
    from . import executable as ex, hidden as hd
    return {
        'C18': [('writable', rule_writable)],
        'C31': [('names', ex.rule_names), ('imports', ex.rule_imports), ('attributes', ex.rule_attributes),
                ('members', ex.rule_members), ('calls', ex.rule_calls), ('protocols', ex.rule_protocols), ('assigned', ex.rule_assigned)],
        'C37': [('defaults', hd.rule_defaults), ('class_containers', hd.rule_class_containers),
                ('module_state', hd.rule_module_state), ('closure_state', hd.rule_closure_state), ('caches', hd.rule_caches)],
        'C36': [('one_registry', rule_one_registry)],
    }


def for_property(pid):
    return properties().get(pid, [])


def run_rule(prog, name, fn, budget=60):
    """-> one result for the rule, and one more per violation that carries a key of its own"""
    rep = Report()
    doc = ' '.join((fn.__doc__ or '').split())
    kind = 'syntax-tree, scope and call-graph rule'
    try:
        fn(prog, rep)
    except AnalysisError as e:
        return [Result(name, 'undecided', kind, str(e), text=doc)]
    except Exception as e:
        import os
        if os.environ.get('SA_DEBUG'):
            raise
        return [Result(name, 'undecided', kind, 'engine: %s: %s' % (type(e).__name__, e), text=doc)]
    fs = rep.functions
    out, plain = [], []
    for where, what, key in rep.bad:
        if key is None:
            plain.append((where, what))
        elif not any(r.name == name + ':' + key for r in out):
            r = Result(name + ':' + key, 'violated', kind, what, where=where, functions=fs, nodes=rep.sites, text=doc)
            out.append(r)
    if plain:
        r = Result(name, 'violated', kind, '\n    '.join('%s: %s' % b for b in plain[:8]), functions=fs,
                   nodes=rep.sites, text=doc)
        r.where = '; '.join(w for w, _ in plain[:8])
        out.append(r)
    if rep.unknown:
        out.append(Result(name, 'undecided', kind, '; '.join('%s: %s' % b for b in rep.unknown[:4]), functions=fs,
                          nodes=rep.sites, text=doc))
    elif not plain:
        out.append(Result(name, 'held', kind, functions=fs, nodes=rep.sites, text=doc))
    return out
