"""How the functions a property covers use what they are handed.

Two data-flow rules over their syntax trees:
  once       an iterator that can be run through only once is not run through twice on one path, indexed or measured
  arguments  a function the property speaks about does not change a list, dict, set, table or array of its caller
Both follow values through local names and into repository functions they are passed to. Nothing is executed.
"""
import ast
from .loader import Func
from .oblig import Result
from .rules import dotted, at

LAZY = {'map', 'filter', 'zip', 'iter', 'enumerate', 'reversed'}
EATS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'max', 'min', 'any', 'all', 'dict', 'enumerate', 'zip', 'map',
        'filter', 'tqdm', 'reversed', 'Counter', 'deque'}
EATS_METHODS = {'join', 'extend', 'update', 'from_iterable', 'extendleft', 'fromkeys', 'chain', 'product', 'islice'}
CHANGES = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'setdefault', 'popitem', 'sort', 'reverse', 'discard',
           'appendleft', 'extendleft', 'update', 'add', 'fill'}
ITERATOR_ATTRS = {'__next__', '__iter__', 'close', 'send', 'throw', '__class__', 'set_description', 'update',
                  'set_postfix', 'refresh', 'write', 'total', 'n'}
PLAIN = {'float', 'int', 'str', 'bool', 'Quantity', 'pint.Quantity', 'Callable', 'complex'}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


class Usage:
    def __init__(self, prog):
        self.prog = prog
        self._eaten, self._changed = {}, {}

    # ------------------------------------------------------------ resolving calls
    def target(self, f, call):
        """(the repository function a call runs, whether its first parameter is bound already), or (None, False)"""
        e = call.func
        if isinstance(e, ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.FunctionDef) and n is not f.node and n.name == e.id:
                    return None, False
            try:
                r = self.prog.resolve(f.module, e.id)
            except Exception:
                return None, False
            return (r, False) if isinstance(r, Func) else (None, False)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.cls is not None:
            ps = f.node.args.args
            if ps and e.value.id == ps[0].arg and f.kind != 'static':
                _, mem = f.cls.lookup(e.attr)
                if isinstance(mem, Func):
                    return mem, mem.kind != 'static'
        return None, False

    def passed(self, f, call):
        """(repository function, its parameter, the expression passed for it) for each argument of a call"""
        g, bound = self.target(f, call)
        if g is None or any(isinstance(a, ast.Starred) for a in call.args):
            return []
        a = g.node.args
        ps = [p.arg for p in a.posonlyargs + a.args][1 if bound else 0:]
        out = [(g, p, x) for p, x in zip(ps, call.args)]
        names = set(ps) | {p.arg for p in a.kwonlyargs}
        return out + [(g, k.arg, k.value) for k in call.keywords if k.arg in names]

    # ------------------------------------------------------------ iterators
    def one_shot(self, f, e):
        if isinstance(e, ast.GeneratorExp):
            return True
        if not isinstance(e, ast.Call):
            return False
        d = dotted(f.module, e.func) or ''
        if isinstance(e.func, ast.Name) and e.func.id in LAZY:
            return e.func.id not in f.module.defs and len(e.args) > 0
        if d.startswith('itertools.') and not d.startswith(('itertools.tee', 'itertools.count', 'itertools.repeat',
                                                             'itertools.cycle')):
            return True
        g, _ = self.target(f, e)
        return g is not None and not g.decorators and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own(g.node))

    @staticmethod
    def own(fn):
        todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while todo:
            n = todo.pop()
            yield n
            todo += [c for c in ast.iter_child_nodes(n) if not isinstance(c, SCOPES)]

    def eaten(self, g, p, depth=0):
        """how often (0, 1 or 2 for more) the function can run through its parameter"""
        k = (id(g.node), p)
        if k not in self._eaten:
            self._eaten[k] = 0
            if depth < 5:
                w = Walk(self, g, p, {0}, depth)
                w.block(g.node.body)
                self._eaten[k] = w.most
        return self._eaten[k]

    def twice(self, f):
        """(where, name) of every iterator of f that is run through again after it was"""
        out = []
        names = {n.targets[0].id for n in self.own(f.node)
                 if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and
                 self.one_shot(f, n.value)}
        for x in sorted(names):
            w = Walk(self, f, x, {None}, 0)
            w.block(f.node.body)
            if w.bad is not None:
                out.append((w.bad, x))
        for n in self.own(f.node):
            if isinstance(n, ast.Call):
                for g, p, e in self.passed(f, n):
                    if self.one_shot(f, e) and self.eaten(g, p) > 1:
                        out.append((n, p))
        return out

    # ------------------------------------------------------------ arguments
    def shared(self, f, p):
        """whether a parameter can hold a container of the caller"""
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == p:
                ann = ast.unparse(x.annotation) if x.annotation is not None else ''
                parts = {y.strip() for y in ann.replace('|', ' or ').split(' or ')}
                return not (ann and all(y in PLAIN or y.split('[')[0] in self.prog.classes or y == 'None'
                                        for y in parts))
        return True

    def changed(self, f, depth=0):
        """{parameter: the place where f changes what the caller passed for it}"""
        if id(f.node) in self._changed:
            return self._changed[id(f.node)]
        out = self._changed[id(f.node)] = {}
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.cls is not None and f.kind != 'static' and params:
            params = params[1:]
        kw = a.kwarg.arg if a.kwarg else None
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.id, []).append(n)
        single = {}
        for n in self.own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    len(stores[n.targets[0].id]) == 1:
                single[n.targets[0].id] = n.value

        def root(e, seen=()):
            """(the parameter a container expression comes from, whether it is the caller's own object)"""
            if isinstance(e, ast.Name):
                if e.id in params and e.id not in stores:
                    return e.id, True
                if e.id == kw and e.id not in stores:
                    return kw, False
                if e.id in single and e.id not in seen:
                    return root(single[e.id], seen + (e.id,))
                return None
            if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
                r = root(e.value, seen)
                # an item of a table or array is a copy or a view as the library pleases: only dicts and lists are followed
                return (r[0], True) if r is not None and r[0] == kw else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'pop') and e.args:
                r = root(e.func.value, seen)
                return (r[0], True) if r is not None and r[0] == kw else None
            return None

        def note(e, node):
            r = root(e)
            if r is not None and r[1] and (r[0] == kw or self.shared(f, r[0])):
                out.setdefault(r[0], node)

        for n in self.own(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                if isinstance(b, ast.Attribute) and b.attr in ('loc', 'iloc', 'at', 'iat'):
                    b = b.value
                note(b, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in CHANGES or any(k.arg == 'inplace' and isinstance(k.value, ast.Constant) and
                                                 k.value.value is True for k in n.keywords):
                    note(n.func.value, n)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in params and \
                    all(isinstance(x, ast.Name) and any(x is y.target for y in self.own(f.node)
                                                        if isinstance(y, ast.AugAssign))
                        for x in stores.get(n.target.id, [])) and self.arrayed(f, n.target.id):
                out.setdefault(n.target.id, n)
            if isinstance(n, ast.Call) and depth < 5:
                for g, p, e in self.passed(f, n):
                    r = root(e)
                    if r is not None and r[1] and p in self.changed(g, depth + 1):
                        note(e, n)
        return out

    @staticmethod
    def arrayed(f, p):
        """whether a parameter is declared, or defaults to, something `+=` changes in place"""
        a = f.node.args
        ps = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in ps][len(ps) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in ps + a.kwonlyargs:
            if x.arg == p:
                ann = ast.unparse(x.annotation) if x.annotation is not None else ''
                if any(w in ann for w in ('array', 'List', 'list', 'Dict', 'dict', 'Set', 'DataFrame', 'Series')):
                    return True
                d = dflt.get(p)
                return isinstance(d, (ast.List, ast.Dict, ast.Set)) or (
                    isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in ('array', 'zeros', 'ones', 'asarray'))
        return False


class Walk:
    """run through the statements of f keeping, for each path, how often the iterator called x was run through
    (None: x holds no such iterator)"""

    def __init__(self, u, f, x, states, depth):
        self.u, self.f, self.x, self.s, self.depth = u, f, x, states, depth
        self.most, self.bad, self.loops = 0, None, []

    def eat(self, n, node):
        for _ in range(n):
            self.s = {None if k is None else min(k + 1, 2) for k in self.s}
            for k in self.s:
                if k is not None:
                    self.most = max(self.most, k)
                    if k > 1 and self.bad is None:
                        self.bad = node

    def is_x(self, e):
        return isinstance(e, ast.Name) and e.id == self.x and isinstance(e.ctx, ast.Load)

    def expr(self, e, times=1):
        if e is None or isinstance(e, SCOPES):
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, times)
            s, sure = self.s, self.certain(e.test)
            self.s = {k for k in s if k is None or sure is not False}
            self.expr(e.body, times)
            a, self.s = self.s, {k for k in s if k is None or sure is not True}
            self.expr(e.orelse, times)
            self.s = self.s | a
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for i, g in enumerate(e.generators):
                t = times if i == 0 else 2
                self.expr(g.iter, t)
                if self.is_x(g.iter):
                    self.eat(t, e)
                for c in g.ifs:
                    self.expr(c, 2)
            for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(c, 2)
            return
        if isinstance(e, ast.Call):
            for c in ast.iter_child_nodes(e):
                self.expr(c.value if isinstance(c, (ast.keyword, ast.Starred)) else c, times)
            n = 0
            if any(isinstance(a, ast.Starred) and self.is_x(a.value) for a in e.args):
                n = 1
            named = e.func.id if isinstance(e.func, ast.Name) else None
            if any(self.is_x(a) for a in e.args):
                if named in EATS and named not in self.f.module.defs:
                    n = 1
                elif isinstance(e.func, ast.Attribute) and e.func.attr in EATS_METHODS:
                    n = 1
                elif named == 'len':
                    n = 2
            for g, p, a in self.u.passed(self.f, e):
                if self.is_x(a):
                    n = max(n, self.u.eaten(g, p, self.depth + 1))
            self.eat(min(n * times, 2), e)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, times)
        if (isinstance(e, ast.Subscript) and self.is_x(e.value)) or (
                isinstance(e, ast.Attribute) and self.is_x(e.value) and e.attr not in ITERATOR_ATTRS):
            self.eat(2, e)      # an iterator has no items to index and no methods of a container

    def certain(self, test):
        """what a test says of x where x is an iterator: True, False, or None for unknown"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.certain(test.operand)
            return None if r is None else not r
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and len(test.args) == 2 and \
                test.func.id in ('isinstance', 'hasattr') and self.is_x(test.args[0]):
            if test.func.id == 'hasattr':
                return False if isinstance(test.args[1], ast.Constant) and test.args[1].value not in ITERATOR_ATTRS \
                    else None
            k = test.args[1]
            ks = k.elts if isinstance(k, ast.Tuple) else [k]
            if all(isinstance(y, ast.Name) and (y.id in ('list', 'tuple', 'dict', 'set', 'str') or
                                                y.id in self.u.prog.classes) for y in ks):
                return False
        return None

    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, SCOPES):
            return
        if isinstance(st, ast.Assign):
            self.expr(st.value)
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == self.x:
                    self.s = {0} if self.u.one_shot(self.f, st.value) else {None}
                elif any(isinstance(n, ast.Name) and n.id == self.x and isinstance(n.ctx, ast.Store)
                         for n in ast.walk(t)):
                    self.s = {None}
                elif isinstance(t, (ast.Tuple, ast.List)) and self.is_x(st.value):
                    self.eat(1, st)
            return
        if isinstance(st, ast.If):
            self.expr(st.test)
            s, sure = self.s, self.certain(st.test)
            self.s = {k for k in s if k is None or sure is not False}
            self.block(st.body)
            a, self.s = self.s, {k for k in s if k is None or sure is not True}
            self.block(st.orelse)
            self.s = self.s | a
            return
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                self.expr(st.iter)
                if self.is_x(st.iter):
                    leaves = any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(st))
                    if not leaves:
                        self.eat(1, st)
            else:
                self.expr(st.test)
            before = self.s
            broke, out = set(), set(before)
            self.loops.append(broke)
            for _ in range(2):
                self.block(st.body)
                out |= self.s
                if isinstance(st, ast.While):
                    self.expr(st.test)
            self.loops.pop()
            self.s = out
            self.block(st.orelse)
            self.s = self.s | broke
            return
        if isinstance(st, ast.Try):
            s = set(self.s)
            self.block(st.body)
            after = self.s
            self.block(st.orelse)
            done = self.s
            for h in st.handlers:
                self.s = s
                self.block(h.body)
                done = done | self.s
            self.s = done
            self.block(st.finalbody)
            return
        if isinstance(st, ast.With):
            for i in st.items:
                self.expr(i.context_expr)
            self.block(st.body)
            return
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.expr(c)
            if isinstance(st, ast.Return) and st.value is not None and self.is_x(st.value):
                self.eat(1, st)
            self.s = set()
            return
        if isinstance(st, ast.Break):
            if self.loops:
                self.loops[-1] |= self.s
            self.s = set()
            return
        if isinstance(st, ast.Continue):
            return
        for c in ast.iter_child_nodes(st):
            self.expr(c)


def members(prog):
    """every function and method of the package by the name the evidence gives it"""
    out = {}
    for n, m in prog.modules.items():
        if n.startswith('spec_'):
            continue
        for d in m.defs.values():
            if isinstance(d, Func):
                out[d.qual] = d
    for c in prog.classes.values():
        for mem in c.members.values():
            fs = [x for x in mem if isinstance(x, Func)] if isinstance(mem, tuple) else [mem]
            for f in fs:
                if isinstance(f, Func):
                    out.setdefault(f.qual, f)
    return out


def check(prog, spec, visited):
    """the two rules over the functions a property's obligations went through"""
    kind = 'data-flow rule over local names and calls'
    u = Usage(prog)
    have = members(prog)
    fs = [have[q] for q in sorted(visited) if q in have]
    called = set()
    for name, fn in spec.funcs.items():
        if name.startswith('observed_'):
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call):
                    called.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None))
    # a class that is called runs its initializer
    once, args = [], []
    for f in fs:
        for node, x in u.twice(f):
            once.append((at(f.module, node), '%s uses the iterator %s as a container, or again after it is used up' % (f.qual, x),
                         f.qual + '.' + x))
        if f.name in called or (f.name == '__init__' and f.cls is not None and f.cls.name in called):
            for p, node in u.changed(f).items():
                args.append((at(f.module, node), '%s changes what the caller passed as %s' % (f.qual, p),
                             f.qual + '.' + p))
    out = []
    for key, doc, bad in (('once', 'an iterator that can be run through only once is not run through again, indexed or measured', once),
                          ('arguments', 'what the caller passes is not changed behind their back', args)):
        if not bad:
            out.append(Result('usage_' + key, 'held', kind, functions={f.qual for f in fs}, nodes=len(fs), text=doc))
        for where, what, k in bad:
            out.append(Result('usage_%s:%s' % (key, k), 'violated', kind, what, where=where,
                              functions={f.qual for f in fs}, nodes=len(fs), text=doc))
    return out
