"""Parse /repo's current source: modules, classes, functions, name resolution."""
import ast
import os
from . import model, aliases

PKG = 'atomtoolkit'


class AnalysisError(Exception):
    """the analysis cannot decide (unsupported construct, vanished anchor)"""


class Func:
    def __init__(self, node, module, cls=None, name=None, kind='plain', outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = kind          # plain | property | setter | static | class
        self.outer = outer        # enclosing Frame for closures
        self.decorators = []      # decorator expressions to be applied (not property-like)

    @property
    def qual(self):
        return ((self.cls.name + '.') if self.cls else (self.module.name + '.')) + self.name

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Cls:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_exprs = node.bases
        self.bases = []
        self.members = {}     # name -> Func | ('prop', getter Func, setter Func|None) | ('attr', expr)
        self.mro = [self]

    def lookup(self, name, after=None):
        seq = self.mro
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if name in c.members:
                return c, c.members[name]
        return None, None


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.defs = {}      # name -> Func | Cls | ('assign', expr)
        self.imports = {}   # name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self.tried = {}     # bindings of the body of a try statement whose handlers rebind them


PROP_LIKE = {'property', 'abstractmethod', 'staticmethod', 'classmethod', 'cached_property'}


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.funcs = 0
        self.optional = False   # read the code as if the optional imports were there
        for base in (PKG, 'species'):
            top = os.path.join(root, base)
            for d, dirs, files in sorted(os.walk(top)):
                dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', '__pycache__'))
                for f in sorted(files):
                    if f.endswith('.py') and not f.startswith('test_'):
                        self._load(os.path.join(d, f))
        self._link()

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        is_pkg = name.endswith('__init__')
        if is_pkg:
            name = name[:-len('.__init__')]
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        try:
            tree = aliases.expand(ast.parse(src, path))
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (rel, e))
        m = Module(name, path, rel, tree, is_pkg)
        m.source = src
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.defs[st.name] = self.make_func(st, m)
            elif isinstance(st, ast.ClassDef):
                m.defs[st.name] = self.make_class(st, m)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('mod', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)] if st.level > 1 else parts
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.defs[t.id] = ('assign', st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and \
                            len(t.elts) == len(st.value.elts):
                        for x, y in zip(t.elts, st.value.elts):
                            if isinstance(x, ast.Name):
                                m.defs[x.id] = ('assign', y)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.defs[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.If):
                test = ast.unparse(st.test)
                if 'TYPE_CHECKING' in test:
                    self._scan(m, st.body)
                elif '__name__' in test:
                    continue
                else:
                    self._scan(m, st.body)
                    self._scan(m, st.orelse)
            elif isinstance(st, ast.Try):
                # later handlers bind alternative providers of the same names; the last binding wins here,
                # both are external
                d0, i0 = dict(m.defs), dict(m.imports)
                self._scan(m, st.body)
                for k in m.defs:
                    if d0.get(k) is not m.defs[k]:
                        m.tried[k] = ('def', m.defs[k])
                for k in m.imports:
                    if i0.get(k) is not m.imports[k]:
                        m.tried[k] = ('imp', m.imports[k])
                for h in st.handlers:
                    self._scan(m, h.body)

    def make_func(self, node, m, cls=None):
        f = Func(node, m, cls)
        for d in node.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
            if nm == 'abstractmethod':
                f.abstract = True
            elif nm == 'staticmethod':
                f.kind = 'static'
            elif nm == 'classmethod':
                f.kind = 'class'
            elif nm == 'property':
                f.kind = 'property'
            elif nm == 'setter' and isinstance(d, ast.Attribute):
                f.kind = 'setter'
            elif nm in ('getter', 'deleter') and isinstance(d, ast.Attribute):
                f.kind = nm
            else:
                f.decorators.append(d)
        self.funcs += 1
        return f

    def make_class(self, node, m):
        c = Cls(node, m)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, m, c)
                if f.kind == 'property':
                    f.kind = 'plain'
                    c.members[st.name] = ('prop', f, None)
                elif f.kind == 'setter':
                    f.kind = 'plain'
                    old = c.members.get(st.name)
                    c.members[st.name] = ('prop', old[1] if isinstance(old, tuple) else None, f)
                elif any(_dec_name(d) == 'cached_property' for d in f.decorators):
                    c.members[st.name] = ('prop', f, None)
                else:
                    c.members[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and \
                                st.value.func.id == 'property':
                            a = st.value.args
                            g = c.members.get(a[0].id) if a and isinstance(a[0], ast.Name) else None
                            s_ = c.members.get(a[1].id) if len(a) > 1 and isinstance(a[1], ast.Name) else None
                            c.members[t.id] = ('prop', g, s_)
                        elif isinstance(st.value, ast.Name) and st.value.id in c.members:
                            c.members[t.id] = c.members[st.value.id]
                        else:
                            c.members[t.id] = ('attr', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.members[st.target.id] = ('attr', st.value)
        if c.name not in self.classes:
            self.classes[c.name] = c
        return c

    def _link(self):
        for c in self.classes.values():
            for b in c.base_exprs:
                nm = ast.unparse(b).split('[')[0].split('.')[-1]
                if nm in self.classes:
                    c.bases.append(self.classes[nm])
        for c in self.classes.values():
            c.mro = self._c3(c)
        model.MRO.clear()
        for c in self.classes.values():
            model.MRO[c.name] = [x.name for x in c.mro[1:]]

    def _c3(self, c):
        seqs = [self._c3(b) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                return out
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)

    def add_module(self, m):
        self.modules[m.name] = m
        self._scan(m, m.tree.body)
        m.funcs = {n: d for n, d in m.defs.items() if isinstance(d, Func)}

    def find_func(self, qual):
        head, _, name = qual.rpartition('.')
        c = self.classes.get(head)
        if c is not None:
            for k in c.mro:
                mem = k.members.get(name)
                if isinstance(mem, Func):
                    return mem
                if isinstance(mem, tuple) and mem[0] == 'prop':
                    return mem[1] or mem[2]
        m = self.modules.get(head)
        if m is not None and isinstance(m.defs.get(name), Func):
            return m.defs[name]
        return None

    # ------------------------------------------------------------ resolution
    def resolve(self, m, name, seen=None):
        """-> Func | Cls | ('assign', Module, expr) | ('ext', dotted) | ('mod', Module) | None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if self.optional and name in m.tried:
            k, d = m.tried[name]
            if k == 'imp':
                return self.resolve_import(d, seen)
            return ('assign', m, d[1]) if isinstance(d, tuple) else d
        d = m.defs.get(name)
        if d is not None:
            if isinstance(d, tuple):
                return ('assign', m, d[1])
            return d
        i = m.imports.get(name)
        if i is not None:
            return self.resolve_import(i, seen)
        sub = self.modules.get(m.name + '.' + name)
        if m.is_pkg and sub is not None:
            return ('mod', sub)
        for base in m.stars:
            bm = self.modules.get(base)
            if bm is not None:
                if name.startswith('_'):
                    continue
                r = self.resolve(bm, name, seen)
                if r is not None:
                    return r
            elif base in ('typing',):
                if name in TYPING_NAMES:
                    return ('ext', 'typing.' + name)
        return None

    def resolve_import(self, i, seen=None):
        if i[0] == 'mod':
            if i[1] in self.modules:
                return ('mod', self.modules[i[1]])
            return ('ext', i[1])
        _, base, nm = i
        bm = self.modules.get(base)
        if bm is not None:
            r = self.resolve(bm, nm, seen)
            if r is not None:
                return r
            sub = self.modules.get(base + '.' + nm)
            if sub is not None:
                return ('mod', sub)
            return None
        sub = self.modules.get(base + '.' + nm)
        if sub is not None:
            return ('mod', sub)
        return ('ext', base + '.' + nm)

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError('anchor vanished: class %s' % name)
        return c


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)


import typing as _t
TYPING_NAMES = set(_t.__all__)

CURRENT = None


def gives_value(fn):
    """does every way through the function evidently return something other than None?"""
    def solid(e):
        if isinstance(e, ast.Call):
            f = e.func
            while isinstance(f, ast.Attribute):
                f = f.value
            return isinstance(f, ast.Name) and f.id in ('np', 'numpy', 'sum', 'abs', 'float', 'int', 'str', 'len', 'list')
        if isinstance(e, ast.IfExp):
            return solid(e.body) and solid(e.orelse)
        return isinstance(e, (ast.BinOp, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.Compare, ast.ListComp,
                              ast.DictComp)) or isinstance(e, ast.Constant) and e.value is not None
    rets, todo = [], list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            rets.append(n.value)
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return bool(rets) and isinstance(fn.body[-1], (ast.Return, ast.Raise)) and all(
        r is not None and solid(r) for r in rets)


def load(root='/repo'):
    global CURRENT
    CURRENT = Program(root)
    from . import terms
    terms.NONNULL_CALLS.clear()
    for m in CURRENT.modules.values():
        for n, d in m.defs.items():
            if isinstance(d, Func) and isinstance(d.node, ast.FunctionDef) and gives_value(d.node):
                terms.NONNULL_CALLS.add(d.name)
    return CURRENT


def has_member(cls, name):
    c = CURRENT.classes.get(cls) if CURRENT else None
    if c is None:
        return False
    return c.lookup(name)[1] is not None
