"""Every operation can run: names resolve, attributes exist, calls fit their targets, overrides fit their callers.

Works on the syntax tree, the scopes (symtable) and the class hierarchy.  Reports only what is certain to fail when
the construct is reached: whatever cannot be resolved is passed over, not guessed at.
"""
import ast
import builtins
import os
import symtable
import zlib
from .loader import Func, Cls, Module, TYPING_NAMES
from .rules import package, functions, own_nodes, at, dotted

MODULE_NAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__loader__',
                '__debug__', '__class__'}
OBJECT_ATTRS = set(dir(object)) | {'__dict__', '__weakref__', '__module__', '__name__', '__qualname__', '__mro__',
                                   '__bases__', '__annotations__', '__subclasses__', '__slots__'}


def universe(prog):
    """the modules looked at: the package and the species files"""
    return [m for n, m in sorted(prog.modules.items()) if not n.startswith('spec_')]


# ------------------------------------------------------------------ names
def exported(prog, m, seen=None):
    """names `from m import *` binds, or None when that is unknown"""
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    top = top_names(prog, m, seen)
    if top is None:
        return None
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in st.targets):
            try:
                return set(ast.literal_eval(st.value))
            except ValueError:
                return None
    return {n for n in top if not n.startswith('_')}


def top_names(prog, m, seen=None):
    """names bound at the top level of a module, or None when a star import of an unknown module hides some"""
    seen = seen or {m.name}
    out = set(MODULE_NAMES)
    table = symtable.symtable(m.source, m.path, 'exec')
    for s in table.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            out.add(s.get_name())
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    for b in m.stars:
        if b in prog.modules:
            e = exported(prog, prog.modules[b], seen)
            if e is None:
                return None
            out |= e
        elif b == 'typing':
            out |= TYPING_NAMES
        else:
            return None
    if m.is_pkg:
        for n in prog.modules:
            if n.startswith(m.name + '.'):
                out.add(n[len(m.name) + 1:].split('.')[0])
    return out


def first_uses(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.setdefault(n.id, []).append(n)
    return out


def rule_names(prog, rep):
    """every name that is read is bound: locally, in an enclosing scope, in the module, by an import or as a builtin"""
    for m in universe(prog):
        top = top_names(prog, m)
        if top is None:
            continue
        lazy = any(isinstance(st, ast.ImportFrom) and st.module == '__future__' and
                   any(a.name == 'annotations' for a in st.names) for st in m.tree.body)
        ann = annotation_names(m.tree) if lazy else set()
        uses = first_uses(m.tree)

        def walk(table):
            for s in table.get_symbols():
                n = s.get_name()
                if not s.is_referenced():
                    continue
                rep.site(m.name)
                if table.get_type() == 'module' and not (s.is_assigned() or s.is_imported() or s.is_namespace()) or \
                        table.get_type() != 'module' and s.is_global():
                    if n not in top and not hasattr(builtins, n):
                        nodes = [x for x in uses.get(n, []) if id(x) not in ann]
                        if nodes:
                            rep.violation(at(m, nodes[0]), 'the name %s is not defined here' % n,
                                          key='%s.%s' % (m.name, n))
            for c in table.get_children():
                walk(c)
        walk(symtable.symtable(m.source, m.path, 'exec'))


def annotation_names(tree):
    out = set()
    for n in ast.walk(tree):
        anns = []
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            anns = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]
                    if x is not None and x.annotation is not None]
            if n.returns is not None:
                anns.append(n.returns)
        elif isinstance(n, ast.AnnAssign):
            anns = [n.annotation]
        for e in anns:
            out |= {id(x) for x in ast.walk(e)}
    return out


def rule_imports(prog, rep):
    """every name imported from a module of the repository exists there, and so does every attribute read from one"""
    for m in universe(prog):
        guarded = {id(x) for t in ast.walk(m.tree) if isinstance(t, ast.Try) for st in t.body for x in ast.walk(st)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and id(n) not in guarded:
                base = absolute(m, n)
                if base in prog.modules:
                    bm = prog.modules[base]
                    top = top_names(prog, bm)
                    for a in n.names:
                        rep.site(m.name)
                        if a.name != '*' and top is not None and a.name not in top and \
                                base + '.' + a.name not in prog.modules:
                            rep.violation(at(m, n), '%s defines no %s' % (base, a.name), key='%s.%s' % (m.name, a.name))
                elif base.split('.')[0] not in ('atomtoolkit', 'species'):
                    lib = library_names() or set()
                    for a in n.names:
                        rep.site(m.name)
                        if lib and a.name != '*' and a.name not in lib:
                            rep.violation(at(m, n), 'no library defines %s.%s' % (base, a.name),
                                          key='%s.%s' % (m.name, a.name))
                else:
                    rep.violation(at(m, n), 'there is no module %s' % base, key='%s.%s' % (m.name, base))
        local = set()
        for _, fn, _ in functions(m):
            local |= {a.arg for a in arg_list(fn)}
            local |= {x.id for x in own_nodes(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.value.id not in local:
                r = prog.resolve(m, n.value.id)
                if isinstance(r, tuple) and r[0] == 'mod':
                    rep.site(m.name)
                    top = top_names(prog, r[1])
                    if top is not None and n.attr not in top and r[1].name + '.' + n.attr not in prog.modules:
                        rep.violation(at(m, n), '%s has no %s' % (r[1].name, n.attr), key='%s.%s' % (m.name, n.attr))


def absolute(m, n):
    base = n.module or ''
    if n.level:
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[:len(parts) - (n.level - 1)]
        base = '.'.join(parts + ([n.module] if n.module else []))
    return base


# ------------------------------------------------------------------ attributes
def arg_list(fn):
    a = fn.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x is not None]


def external_base(prog, c):
    """whether a class of the hierarchy has a base whose members are unknown"""
    for k in c.mro:
        for b in k.base_exprs:
            nm = ast.unparse(b).split('[')[0].split('.')[-1]
            if nm not in prog.classes and nm not in ('ABC', 'object', 'Generic', 'Protocol'):
                return True
        if '__getattr__' in k.members or '__getattribute__' in k.members:
            return True
    return False


def family(prog, c):
    """the class, its bases and every class that inherits from it"""
    return set(c.mro) | {k for k in prog.classes.values() if c in k.mro}


def attributes(prog, c):
    """names an instance of the class (or of one that inherits from it) can have"""
    out = set(OBJECT_ATTRS)
    for k in family(prog, c):
        out |= set(k.members)
        for st in k.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.add(st.target.id)
            if isinstance(st, (ast.ClassDef, ast.FunctionDef)):
                out.add(st.name)
            for n in ast.walk(st):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        return None
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    return None
    return out


def stored_elsewhere(prog):
    """attribute names some function stores in an object other than its own self"""
    out = set()
    for m in universe(prog):
        own = set()
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    own |= {id(n) for n in ast.walk(f)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id == 'self' and id(n) in own):
                out.add(n.attr)
    return out


def rule_attributes(prog, rep):
    """every attribute read from self or from a class exists in the class, one it inherits from or, for self, one that inherits from it"""
    other = stored_elsewhere(prog)
    for m in package(prog):
        class_reads(prog, m, rep)
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.ClassDef):
                continue
            c = prog.classes.get(node.name)
            if c is None or c.node is not node or external_base(prog, c):
                continue
            names = attributes(prog, c)
            if names is None:
                continue
            for fn in [st for st in node.body if isinstance(st, ast.FunctionDef)]:
                dec = {getattr(d, 'id', getattr(d, 'attr', None)) for d in fn.decorator_list}
                if 'staticmethod' in dec or not fn.args.args:
                    continue
                me = fn.args.args[0].arg
                if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store)
                       for x in ast.walk(fn)):
                    continue
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and \
                            isinstance(n.ctx, (ast.Load, ast.Del)):
                        rep.site('%s.%s' % (node.name, fn.name))
                        if n.attr not in names and n.attr not in other and 'classmethod' not in dec:
                            rep.violation(at(m, n), '%s.%s reads %s.%s, which no class of the family has' % (
                                node.name, fn.name, me, n.attr), key='%s.%s.%s' % (node.name, fn.name, n.attr))


def class_level(prog, c):
    """names an attribute read from the class object itself can have, or None if that is not known"""
    out = set(OBJECT_ATTRS) | set(dir(type)) | stored_elsewhere(prog)
    for k in c.mro:
        if k.node.keywords or k.node.decorator_list:
            return None
        out |= set(k.members)
        todo = list(k.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            todo += ast.iter_child_nodes(n)
    return out


def class_reads(prog, m, rep):
    """attributes read from a class named in the module, where no assignment in the module rebinds its name"""
    shadow = {x.arg for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in arg_list(f)} | \
             {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    have = {}
    for n in ast.walk(m.tree):
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load)):
            continue
        nm = n.value.id
        if nm in shadow or nm not in prog.classes or prog.resolve(m, nm) is not prog.classes[nm]:
            continue
        c = prog.classes[nm]
        if nm not in have:
            have[nm] = None if external_base(prog, c) else class_level(prog, c)
        rep.site('%s: class %s' % (m.name, nm))
        if have[nm] is not None and n.attr not in have[nm]:
            rep.violation(at(m, n), '%s.%s is read, but class %s has no such member' % (nm, n.attr, nm),
                          key='%s.%s.%s' % (m.name, nm, n.attr))


_LIB = None


def library_names():
    """attribute names that occur in the installed libraries the repository imports (a committed list)"""
    global _LIB
    if _LIB is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'library-names.z')
        if not os.path.exists(p):
            _LIB = False
        else:
            with open(p, 'rb') as f:
                _LIB = set(zlib.decompress(f.read()).decode().split('\n'))
    return _LIB


def rule_members(prog, rep):
    """every attribute read anywhere is a name that something in the repository or a library it uses defines"""
    lib = library_names()
    if not lib:
        rep.undecided('data', 'the list of library names is missing')
        return
    mine = set(OBJECT_ATTRS)
    for m in universe(prog):
        mine |= set(m.defs) | set(m.imports) | {n.split('.')[-1] for n in prog.modules}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                mine.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                mine.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                    len(n.args) == 3:
                if not isinstance(n.args[1], ast.Constant):
                    return
                mine.add(n.args[1].value)
            elif isinstance(n, ast.ClassDef):
                for st in n.body:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            mine.add(x.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                mine.add(n.id)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and dotted(m, n.func) in ('collections.namedtuple', 'namedtuple', 'type'):
                for a in n.args[1:]:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            mine |= set(x.value.replace(',', ' ').split())
    for m in universe(prog):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Del)):
                rep.site(m.name)
                if n.attr not in mine and n.attr not in lib:
                    rep.violation(at(m, n), 'nothing has an attribute %s' % n.attr, key='%s.%s' % (m.name, n.attr))


# ------------------------------------------------------------------ calls
PASSING = {'functools.wraps', 'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


def passes_through(prog, m, d):
    """whether a decorator leaves the signature of what it decorates alone"""
    e = d.func if isinstance(d, ast.Call) else d
    if isinstance(e, ast.Name) and e.id in ('property', 'abstractmethod', 'staticmethod', 'classmethod'):
        return True
    if isinstance(e, ast.Attribute) and e.attr in ('setter', 'getter', 'deleter'):
        return True
    if dotted(m, e) in PASSING or dotted(m, e) in ('lru_cache', 'cache', 'wraps'):
        return True
    if isinstance(e, ast.Name):
        r = prog.resolve(m, e.id)
        if isinstance(r, Func) and isinstance(r.node, ast.FunctionDef):
            inner = [st for st in r.node.body if isinstance(st, ast.FunctionDef)]
            if len(inner) == 1 and inner[0].args.vararg is not None and inner[0].args.kwarg is not None and \
                    any(isinstance(x, ast.Call) and dotted(r.module, x.func) in ('functools.wraps', 'wraps')
                        for x in inner[0].decorator_list):
                return True
    return False


def fits(fn, call, skip):
    """None if a call fits a function definition, else what is wrong; skip: leading parameters already bound"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if len(pos) < skip and a.vararg is None:
        return 'it takes no object of its own'
    free = pos[skip:]
    ndef = len(a.defaults)
    required = set(pos[:len(pos) - ndef][skip:]) if ndef else set(free)
    kwreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(free) and a.vararg is None:
        return 'it is given %d positional arguments and takes %d' % (n, len(free))
    bound = set(free[:n])
    dstar = False
    posonly = {x.arg for x in a.posonlyargs}
    allowed = (set(free) - posonly) | {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg is None:
            dstar = True
            if isinstance(k.value, ast.Dict):
                pass
            continue
        if k.arg not in allowed and a.kwarg is None:
            return 'it has no parameter %s' % k.arg
        if k.arg in bound and k.arg in allowed:
            return 'it is given %s twice' % k.arg
        bound.add(k.arg)
    if not star and not dstar:
        miss = sorted((required | kwreq) - bound)
        if miss:
            return 'its parameter %s is missing' % ', '.join(miss)
    return None


def check(prog, rep, m, qual, node, target, skip, label):
    """target: ast function with its module"""
    tm_, fn = target
    if not all(passes_through(prog, tm_, d) for d in fn.decorator_list):
        return
    rep.site(qual)
    why = fits(fn, node, skip)
    if why:
        rep.violation(at(m, node), '%s calls %s, but %s' % (qual, label, why), key='%s.%s' % (qual, label))


def method(prog, c, name, after=None):
    k, mem = c.lookup(name, after)
    if isinstance(mem, Func):
        return k, mem
    return None, None


def bound_skip(f):
    return 0 if f.kind == 'static' else 1


def instantiable(prog, c):
    return not missing_abstract(prog, c)


def missing_abstract(prog, c):
    out = []
    for name in {n for k in c.mro for n in k.members}:
        _, mem = c.lookup(name)
        fs = [mem] if isinstance(mem, Func) else ([x for x in mem[1:] if isinstance(x, Func)]
                                                  if isinstance(mem, tuple) and mem[0] == 'prop' else [])
        if fs and all(getattr(f, 'abstract', False) for f in fs):
            out.append(name)
    return sorted(out)


def is_abstract(prog, c):
    return any(ast.unparse(b).split('.')[-1] in ('ABC',) for k in c.mro for b in k.base_exprs) or \
        any(k.arg == 'metaclass' for x in c.mro for k in x.node.keywords)


def rule_calls(prog, rep):
    """every call of a function, class or method of the repository gives it arguments it takes, for every class the
    object can have"""
    for m in universe(prog):
        for qual, fn, cls, body in scopes(m):
            c = prog.classes.get(cls.name) if cls is not None else None
            if c is not None and c.node is not cls:
                c = None
            dec = {getattr(d, 'id', getattr(d, 'attr', None)) for d in getattr(fn, 'decorator_list', [])}
            me = fn.args.args[0].arg if c is not None and fn.args.args and 'staticmethod' not in dec else None
            local = set()
            if fn is not None:
                for f in enclosing(m, fn):
                    local |= {a.arg for a in arg_list(f)}
                    local |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    local |= {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and
                              x is not f}
                    local |= {(a.asname or a.name).split('.')[0] for x in ast.walk(f)
                              if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
            me_ok = me is not None and not any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store)
                                               for x in ast.walk(fn))
            for n in body:
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                if isinstance(f, ast.Name):
                    if f.id in local:
                        continue
                    r = prog.resolve(m, f.id)
                    target(prog, rep, m, qual, n, r, f.id)
                elif isinstance(f, ast.Attribute):
                    v = f.value
                    if isinstance(v, ast.Name) and v.id == me and me_ok:
                        if 'classmethod' in dec:
                            k, mem = method(prog, c, f.attr)
                            if mem is not None and mem.kind in ('static', 'class'):
                                check(prog, rep, m, qual, n, (mem.module, mem.node), bound_skip(mem),
                                      '%s.%s' % (k.name, f.attr))
                            continue
                        for k in sorted({x for x in prog.classes.values() if c in x.mro}, key=lambda x: x.name):
                            # the object may be of any class that inherits this method and can be instantiated
                            if fn.name in c.members and method(prog, k, fn.name)[0] not in (c, None) and not \
                                    is_super_called(k, c, fn.name):
                                continue
                            if is_abstract(prog, k) and missing_abstract(prog, k):
                                continue
                            if k is not c and not reached(prog, k, c, fn.name):
                                continue
                            kk, mem = method(prog, k, f.attr)
                            if mem is not None:
                                check(prog, rep, m, qual, n, (mem.module, mem.node), bound_skip(mem),
                                      '%s.%s' % (kk.name, f.attr))
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and \
                            c is not None and not v.args:
                        k, mem = method(prog, c, f.attr, c)
                        if mem is not None:
                            check(prog, rep, m, qual, n, (mem.module, mem.node), bound_skip(mem),
                                  '%s.%s' % (k.name, f.attr))
                        elif k is None and not external_base(prog, c) and f.attr not in OBJECT_ATTRS:
                            rep.violation(at(m, n), '%s calls super().%s, which no base class has' % (qual, f.attr),
                                          key='%s.super.%s' % (qual, f.attr))
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and \
                            len(v.args) == 1:
                        rep.violation(at(m, n), '%s calls %s on an unbound super object' % (qual, f.attr),
                                      key='%s.super.%s' % (qual, f.attr))
                    elif isinstance(v, ast.Name) and v.id not in local:
                        r = prog.resolve(m, v.id)
                        if isinstance(r, tuple) and r[0] == 'mod':
                            target(prog, rep, m, qual, n, prog.resolve(r[1], f.attr), '%s.%s' % (v.id, f.attr))
                        elif isinstance(r, Cls):
                            k, mem = method(prog, r, f.attr)
                            if mem is not None:
                                skip = 1 if mem.kind == 'class' else 0
                                check(prog, rep, m, qual, n, (mem.module, mem.node), skip,
                                      '%s.%s' % (k.name, f.attr))


def reached(prog, k, c, name, seen=()):
    """whether a method of c can run for an object of its subclass k: a private one only through a caller k has"""
    if not name.startswith('_') or name.endswith('__') or name in seen:
        return name not in seen
    inherited = {m for x in k.mro for m in x.members}
    for m in universe(prog):
        for qual, fn, cls, body in scopes(m):
            if not any(isinstance(n, ast.Attribute) and n.attr == name for n in body):
                continue
            x = prog.classes.get(cls.name) if cls is not None else None
            if x is None or x not in k.mro or fn is None or fn.name not in x.members:
                return True
            if fn.name in inherited and method(prog, k, fn.name)[0] not in (x, None) and not \
                    is_super_called(k, x, fn.name):
                continue
            if reached(prog, k, x, fn.name, seen + (name,)):
                return True
    return False


def is_super_called(k, c, name):
    """whether the version of a method in a class that inherits from c calls the one of c"""
    for x in k.mro:
        if x is c:
            return True
        mem = x.members.get(name)
        if isinstance(mem, Func):
            calls = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and
                        isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and
                        n.func.value.func.id == 'super' for n in ast.walk(mem.node))
            if not calls:
                return False
    return False


def target(prog, rep, m, qual, n, r, label):
    if isinstance(r, Func):
        check(prog, rep, m, qual, n, (r.module, r.node), 0, label)
    elif isinstance(r, Cls):
        if external_base(prog, r):
            return
        if '__new__' in {x for k in r.mro for x in k.members}:
            return
        if is_abstract(prog, r):
            miss = missing_abstract(prog, r)
            if miss:
                rep.violation(at(m, n), '%s makes a %s, which does not implement %s' % (qual, label, ', '.join(miss)),
                              key='%s.%s' % (qual, label))
                return
        k, mem = method(prog, r, '__init__')
        if mem is not None:
            check(prog, rep, m, qual, n, (mem.module, mem.node), 1, label)
        elif k is None and not r.node.decorator_list:
            rep.site(qual)
            if n.args or n.keywords:
                rep.violation(at(m, n), '%s gives arguments to %s, which takes none' % (qual, label),
                              key='%s.%s' % (qual, label))


_parents = {}


def enclosing(m, fn):
    """the function and the functions it is nested in"""
    if id(m) not in _parents:
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[id(c)] = n
        _parents[id(m)] = par
    par = _parents[id(m)]
    out = []
    x = fn
    while x is not None:
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            out.append(x)
        x = par.get(id(x))
    return out


def scopes(m):
    """(qualified name, function or None, class it is a member of, all nodes in it)"""
    for qual, fn, cls in functions(m):
        yield m.name + '.' + qual, fn, cls, nodes_of(fn)
    yield m.name, None, None, module_nodes(m.tree)


def nodes_of(fn):
    """nodes of a function, nested lambdas and comprehensions included, nested functions excluded"""
    todo = list(fn.body) + list(fn.args.defaults) + [x for x in fn.args.kw_defaults if x is not None]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def module_nodes(tree):
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.FunctionDef):
            todo += n.decorator_list
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


# ------------------------------------------------------------------ protocols
ARITY = {'__len__': 1, '__iter__': 1, '__next__': 1, '__str__': 1, '__repr__': 1, '__hash__': 1, '__bool__': 1,
         '__getitem__': 2, '__setitem__': 3, '__delitem__': 2, '__contains__': 2, '__eq__': 2, '__ne__': 2, '__lt__': 2,
         '__le__': 2, '__gt__': 2, '__ge__': 2, '__add__': 2, '__sub__': 2, '__mul__': 2, '__truediv__': 2,
         '__getattr__': 2, '__setattr__': 3, '__delattr__': 2, '__enter__': 1, '__exit__': 4, '__float__': 1,
         '__int__': 1, '__index__': 1, '__reversed__': 1, '__copy__': 1, '__deepcopy__': 2, '__missing__': 2,
         '__getstate__': 1, '__setstate__': 2, '__neg__': 1, '__abs__': 1, '__radd__': 2, '__rmul__': 2}


def rule_protocols(prog, rep):
    """the methods Python itself calls take what Python passes, and classes that are instantiated implement all they
    promise"""
    for m in package(prog):
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.ClassDef):
                continue
            for st in node.body:
                if isinstance(st, ast.FunctionDef) and st.name in ARITY:
                    rep.site('%s.%s' % (node.name, st.name))
                    if any(getattr(d, 'id', None) == 'staticmethod' for d in st.decorator_list):
                        continue
                    if not all(passes_through(prog, m, d) for d in st.decorator_list):
                        continue
                    want = ARITY[st.name]
                    a = st.args
                    pos = len(a.posonlyargs + a.args)
                    least = pos - len(a.defaults)
                    kw = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
                    if least > want or (pos < want and a.vararg is None) or kw:
                        rep.violation(at(m, st), '%s.%s takes %d arguments; Python passes %d' % (
                            node.name, st.name, pos, want), key='%s.%s' % (node.name, st.name))


# ------------------------------------------------------------------ locals are assigned before they are read
class Flow:
    """names a function may have bound at each point; reading a local none of whose assignments can have run fails"""

    def __init__(self, fn, rep_bad):
        self.fn = fn
        self.bad = rep_bad
        a = {x.arg for x in arg_list(fn)}
        self.locals = set()
        skip = set()
        for n in nodes_of(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(x.asname or x.name).split('.')[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
        for st in ast.walk(fn):
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st is not fn:
                self.locals.add(st.name)
            if isinstance(st, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in st.generators:
                    for n in ast.walk(g.target):
                        if isinstance(n, ast.Name):
                            skip.add(n.id)
            if isinstance(st, ast.Lambda):
                skip |= {x.arg for x in arg_list(st)}
            if isinstance(st, ast.FunctionDef) and st is not fn:
                for n in ast.walk(st):
                    if isinstance(n, ast.Nonlocal):
                        skip |= set(n.names)
        self.locals -= skip
        self.block(fn.body, set(a))

    def uses(self, e, have):
        """reads of an expression, with walrus bindings; nested functions run later and are passed over"""
        if e is None:
            return
        todo = [e]
        binds = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and \
                    n.id not in have and n.id not in binds:
                self.bad.append(n)
            todo += list(ast.iter_child_nodes(n))
        have |= binds

    def bind(self, t, have):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)
            elif isinstance(n, ast.Name):
                self.uses(n, have)

    def block(self, body, have):
        """-> names that may be bound after it, or None if control never gets there"""
        for st in body:
            if have is None:
                return None
            have = self.stmt(st, have)
        return have

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        return a if b is None else a | b

    def stmt(self, st, have):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.uses(d, have)
            return have | {st.name}
        if isinstance(st, ast.Assign):
            self.uses(st.value, have)
            for t in st.targets:
                self.bind(t, have)
            return have
        if isinstance(st, ast.AugAssign):
            self.uses(st.value, have)
            t = st.target
            if isinstance(t, ast.Name):
                if t.id in self.locals and t.id not in have:
                    self.bad.append(t)
                have.add(t.id)
            else:
                self.uses(t, have)
            return have
        if isinstance(st, ast.AnnAssign):
            self.uses(st.value, have)
            if st.value is not None:
                self.bind(st.target, have)
            return have
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.uses(c, have)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            self.out.append(set(have)) if hasattr(self, 'out') else None
            return None
        if isinstance(st, ast.If):
            self.uses(st.test, have)
            return self.join(self.block(st.body, set(have)), self.block(st.orelse, set(have)))
        if isinstance(st, (ast.While, ast.For)):
            if isinstance(st, ast.While):
                self.uses(st.test, have)
            else:
                self.uses(st.iter, have)
            keep = getattr(self, 'out', None)
            self.out = []
            n = len(self.bad)
            start = set(have)
            if isinstance(st, ast.For):
                self.bind(st.target, start)
            end = self.block(st.body, set(start))
            for x in self.out:
                end = self.join(end, x)
            # the second round knows what the first may have bound
            del self.bad[n:]
            self.out = []
            end = self.block(st.body, start | (end or set()))
            for x in self.out:
                end = self.join(end, x)
            if keep is None:
                del self.out
            else:
                self.out = keep
            after = self.join(set(have), end)
            if isinstance(st, ast.For):
                after = after | start
            return self.block(st.orelse, after) if st.orelse else after
        if isinstance(st, ast.Try):
            got = self.block(st.body, set(have))
            maybe = set(have)
            for x in st.body:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        maybe.add(n.id)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        maybe |= {(y.asname or y.name).split('.')[0] for y in n.names}
                    elif isinstance(n, ast.FunctionDef):
                        maybe.add(n.name)
            ends = []
            for h in st.handlers:
                s0 = set(maybe)
                if h.name:
                    s0.add(h.name)
                ends.append(self.block(h.body, s0))
            if got is not None and st.orelse:
                got = self.block(st.orelse, got)
            for e in ends:
                got = self.join(got, e)
            if st.finalbody:
                f = self.block(st.finalbody, maybe | (got or set()))
                return None if got is None else f
            return got
        if isinstance(st, ast.With):
            for i in st.items:
                self.uses(i.context_expr, have)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, have)
            return self.block(st.body, have)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return have | {(x.asname or x.name).split('.')[0] for x in st.names}
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    have.discard(t.id)
                else:
                    self.uses(t, have)
            return have
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.uses(c, have)
        if isinstance(st, ast.Match):
            end = set(have)
            for c in st.cases:
                s0 = set(have)
                for n in ast.walk(c.pattern):
                    for f in ('name', 'rest'):
                        if getattr(n, f, None):
                            s0.add(getattr(n, f))
                self.uses(c.guard, s0)
                end = self.join(end, self.block(c.body, s0))
            return end
        return have


def rule_assigned(prog, rep):
    """no local variable is read where none of its assignments can have run"""
    for m in universe(prog):
        for qual, fn, cls in functions(m):
            rep.site(m.name + '.' + qual)
            bad = []
            Flow(fn, bad)
            for n in bad:
                rep.violation(at(m, n), '%s reads %s before any assignment to it' % (qual, n.id),
                              key='%s.%s.%s' % (m.name, qual, n.id))
