#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the package under analysis, to test that the checks stay quiet.

refactor.py list | refactor.py apply NAME DIR [FILE:FUNCTION ...]
Rewrites every site in DIR (a scratch copy of the repository, never /repo) where the rewrite NAME is known to be safe.
"""
import ast
import builtins
import copy
import os
import sys

PURE = {'len', 'abs', 'min', 'max', 'sum', 'int', 'float', 'str', 'list', 'tuple', 'sorted', 'isinstance', 'type',
        'range', 'zip', 'enumerate', 'any', 'all'}


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def assign(target, value):
    return ast.Assign([name(target, True)], value, lineno=0)


class Base(ast.NodeTransformer):
    """visits statements of functions; self.n makes fresh names"""
    only = None

    def __init__(self, only=None):
        self.only, self.k, self.fn, self.cls, self.sites, self.new = only, 0, None, None, 0, []

    def fresh(self, base='v'):
        self.k += 1
        return '_%s%d' % (base, self.k)

    def visit_ClassDef(self, node):
        old, self.cls = self.cls, node.name
        self.generic_visit(node)
        self.cls = old
        return node

    def visit_FunctionDef(self, node):
        outer = self.fn
        q = (self.cls + '.' if self.cls else '') + node.name
        if outer is None and self.only and q not in self.only:
            return node
        self.fn = node
        node = self.function(node) or node
        self.fn = outer
        return node

    def function(self, node):
        return self.generic_visit(node)

    def block(self, stmts):
        return stmts

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn is not None:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        return node


def local_names(fn):
    args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    out, bad = set(), set(args)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            bad |= {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
            if isinstance(n, ast.FunctionDef):
                bad.add(n.name)
        elif isinstance(n, ast.alias):
            bad.add((n.asname or n.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
    return out - bad


class rename_locals(Base):
    def function(self, node):
        loc = local_names(node)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_loc'
                self.sites += 1
        return node


class return_temp(Base):
    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = self.fresh('result')
                out += [assign(v, s.value), ast.Return(name(v))]
                self.sites += 1
            else:
                out.append(s)
        return out


def negate(t):
    inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
           ast.NotIn: ast.In}
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in inv:
        return ast.Compare(t.left, [inv[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class swap_if(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if self.fn is not None and node.orelse:
            node.test, node.body, node.orelse = negate(node.test), node.orelse, node.body
            self.sites += 1
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.fn is not None:
            node.test, node.body, node.orelse = negate(node.test), node.orelse, node.body
            self.sites += 1
        return node


class ternary_to_if(Base):
    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.IfExp):
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = v.body, v.orelse
                out.append(ast.If(v.test, [a], [b]))
                self.sites += 1
            else:
                out.append(s)
        return out


class if_to_ternary(Base):
    def block(self, stmts):
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If) and len(s.body) == 1:
                a = s.body[0]
                b = None
                if len(s.orelse) == 1:
                    b = s.orelse[0]
                elif not s.orelse and isinstance(a, ast.Return) and i + 1 < len(stmts):
                    b = stmts[i + 1]
                if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                    out.append(ast.Return(ast.IfExp(s.test, a.value, b.value)))
                    self.sites += 1
                    i += 1 if s.orelse else 2
                    continue
                if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and s.orelse and \
                        ast.dump(ast.Tuple(a.targets)) == ast.dump(ast.Tuple(b.targets)):
                    out.append(ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value), lineno=0))
                    self.sites += 1
                    i += 1
                    continue
            out.append(s)
            i += 1
        return out


class drop_else(Base):
    """if c: ...return / else: B  ->  if c: ...return; B"""

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out.append(s)
                out += rest
                self.sites += 1
            else:
                out.append(s)
        return out


class add_else(Base):
    def block(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and stmts[i + 1:]:
                s.orelse = self.block(stmts[i + 1:])
                self.sites += 1
                return stmts[:i + 1]
        return stmts


def comp_loop(self, target, comp, acc):
    """statements building acc from a comprehension"""
    if isinstance(comp, (ast.ListComp, ast.GeneratorExp)):
        inner = ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [comp.elt], []))
    else:
        inner = ast.Assign([ast.Subscript(name(acc), comp.key, ast.Store())], comp.value, lineno=0)
    body = [inner]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [], lineno=0)]
    return [assign(acc, ast.Dict([], []) if isinstance(comp, ast.DictComp) else ast.List([], ast.Load()))] + body


class comp_to_loop(Base):
    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, (ast.ListComp, ast.DictComp)):
                tg = names(ast.Tuple([g.target for g in v.generators]))
                acc = self.fresh('acc')
                comp = copy.deepcopy(v)
                m = {t: self.fresh(t) for t in tg}
                for n in ast.walk(comp):
                    if isinstance(n, ast.Name) and n.id in m:
                        n.id = m[n.id]
                out += comp_loop(self, None, comp, acc)
                s.value = name(acc)
                self.sites += 1
            out.append(s)
        return out


class sum_to_loop(Base):
    """r = sum(gen) -> accumulator loop; any/all -> flag loop (statement level, whole value)"""

    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id in ('sum', 'any', 'all') and len(v.args) == 1 \
                    and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
                g = copy.deepcopy(v.args[0])
                m = {t: self.fresh(t) for t in names(g.generators[0].target)}
                for n in ast.walk(g):
                    if isinstance(n, ast.Name) and n.id in m:
                        n.id = m[n.id]
                acc = self.fresh('total')
                kind = v.func.id
                if kind == 'sum':
                    body = [ast.AugAssign(name(acc, True), ast.Add(), g.elt)]
                    init = ast.Constant(0)
                else:
                    body = [ast.If(g.elt if kind == 'any' else negate(g.elt),
                                   [assign(acc, ast.Constant(kind == 'any')), ast.Break()], [])]
                    init = ast.Constant(kind == 'all')
                for c in reversed(g.generators[0].ifs):
                    body = [ast.If(c, body, [])]
                out += [assign(acc, init), ast.For(g.generators[0].target, g.generators[0].iter, body, [], lineno=0)]
                s.value = name(acc)
                self.sites += 1
            out.append(s)
        return out


class loop_to_comp(Base):
    """L = []; for x in it: L.append(e)  ->  L = [e for x in it]"""

    def block(self, stmts):
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if i + 1 < len(stmts) and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.List) and not s.value.elts and isinstance(stmts[i + 1], ast.For):
                f = stmts[i + 1]
                acc = s.targets[0].id
                body, ifs = f.body, []
                while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                    ifs.append(body[0].test)
                    body = body[0].body
                b = body[0]
                if len(body) == 1 and not f.orelse and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and \
                        isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'append' and \
                        isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == acc and \
                        acc not in names(b.value.args[0]):
                    out.append(assign(acc, ast.ListComp(b.value.args[0],
                                                        [ast.comprehension(f.target, f.iter, ifs, 0)])))
                    self.sites += 1
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class split_chain(Base):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn is not None and len(node.ops) > 1:
            mids = node.comparators[:-1]
            if all(isinstance(m, (ast.Name, ast.Constant, ast.Attribute)) for m in mids):
                left, parts = node.left, []
                for op, c in zip(node.ops, node.comparators):
                    parts.append(ast.Compare(copy.deepcopy(left), [op], [copy.deepcopy(c)]))
                    left = c
                self.sites += 1
                return ast.BoolOp(ast.And(), parts)
        return node


class fstring_format(Base):
    def visit_JoinedStr(self, node):
        if self.fn is None:
            return node
        text, args = '', []
        for v in node.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return node
                    spec = ':' + ''.join(x.value for x in v.format_spec.values)
                conv = '' if v.conversion == -1 else '!' + chr(v.conversion)
                text += '{' + conv + spec + '}'
                args.append(v.value)
        self.sites += 1
        return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()), args, [])


class fstring_plus(Base):
    def visit_JoinedStr(self, node):
        if self.fn is None:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(ast.Call(name('str'), [v.value], []))
            else:
                return node
        if not parts:
            return node
        out = parts[0]
        for p in parts[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        self.sites += 1
        return out


class commute_mult(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Mult):
            if not any(isinstance(x, (ast.List, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                       for x in (node.left, node.right)):
                node.left, node.right = node.right, node.left
                self.sites += 1
        return node


class commute_eq(Base):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn is not None and len(node.ops) == 1:
            flip = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                    ast.GtE: ast.LtE}
            if type(node.ops[0]) in flip:
                self.sites += 1
                return ast.Compare(node.comparators[0], [flip[type(node.ops[0])]()], [node.left])
        return node


class extract_return(Base):
    """return expr -> return _helper(free locals) with a new module-level function"""

    def block(self, stmts):
        bound = {a.arg for a in ast.walk(self.fn.args) if isinstance(a, ast.arg)} | \
            {n.id for n in ast.walk(self.fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.name for n in ast.walk(self.fn) if isinstance(n, ast.FunctionDef)} | \
            {(a.asname or a.name).split('.')[0] for n in ast.walk(self.fn)
             if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        if getattr(self, 'top', None) is None or self.fn is not self.top:
            return stmts
        for s in stmts:
            if isinstance(s, ast.Return) and s.value is not None and \
                    not isinstance(s.value, (ast.Name, ast.Constant)) and \
                    not any(isinstance(n, (ast.Await, ast.Yield)) or isinstance(n, ast.Name) and
                            n.id in ('super', '__class__', 'locals') for n in ast.walk(s.value)):
                inner = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                free = sorted((names(s.value, ast.Load) & bound) - inner)
                h = self.fresh('calc_' + self.fn.name.strip('_') + '_')
                self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(f) for f in free], None, [], [], None, []),
                                                [ast.Return(s.value)], [], lineno=0))
                s.value = ast.Call(name(h), [name(f) for f in free], [])
                self.sites += 1
        return stmts

    def function(self, node):
        old = getattr(self, 'top', None)
        if old is None:
            self.top = node
        self.generic_visit(node)
        if old is None:
            self.top = None
        return node


class extract_method(extract_return):
    """like extract_return, but as a method of the class"""

    def visit_ClassDef(self, node):
        self.pending = []
        self.incls = True
        super().visit_ClassDef(node)
        node.body += self.pending
        self.incls = False
        return node

    def block(self, stmts):
        if not getattr(self, 'incls', False) or not self.fn.args.args or self.fn.args.args[0].arg != 'self':
            return stmts
        before = len(self.new)
        stmts = super().block(stmts)
        made, self.new = self.new[before:], self.new[:before]
        for m in made:
            m.args.args = [ast.arg('self')] + [a for a in m.args.args if a.arg != 'self']
            self.pending.append(m)
        for s in stmts:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and \
                    s.value.func.id in {m.name for m in made}:
                s.value.args = [a for a in s.value.args if not (isinstance(a, ast.Name) and a.id == 'self')]
                s.value.func = ast.Attribute(name('self'), s.value.func.id, ast.Load())
        return stmts


class hoist_self(Base):
    """self.x read at least twice before anything is written -> one local read at the top (properties included)"""

    def function(self, node):
        if not node.args.args or node.args.args[0].arg != 'self' or node.name.startswith('__'):
            return node
        simple = all(isinstance(s, (ast.Return, ast.Assign, ast.Expr)) for s in node.body)
        if not simple or any(isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del))
                             for n in ast.walk(node)):
            return node
        count = {}
        last = node.body[-1]
        if not isinstance(last, ast.Return):
            return node
        for n in ast.walk(last):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                count[n.attr] = count.get(n.attr, 0) + 1
        for n in ast.walk(last):     # methods are left alone
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                count.pop(n.func.attr, None)
            if isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.comprehension)):
                return node
        for attr in [a for a, c in count.items() if c > 1]:
            v = self.fresh(attr)
            for n in ast.walk(last):
                for f, val in ast.iter_fields(n):
                    def rep(x):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' \
                                and x.attr == attr:
                            return name(v)
                        return x
                    if isinstance(val, list):
                        setattr(n, f, [rep(x) for x in val])
                    elif isinstance(val, ast.AST):
                        setattr(n, f, rep(val))
            node.body.insert(len(node.body) - 1, assign(v, ast.Attribute(name('self'), attr, ast.Load())))
            self.sites += 1
        return node


class items_to_keys(Base):
    """for k, v in d.items() -> for k in d.keys(): v = d[k] (d a plain name or attribute)"""

    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Attribute) and \
                node.iter.func.attr == 'items' and isinstance(node.target, ast.Tuple) and len(node.target.elts) == 2 and \
                isinstance(node.iter.func.value, (ast.Name, ast.Attribute)) and \
                all(isinstance(e, ast.Name) for e in node.target.elts):
            d = node.iter.func.value
            k, v = node.target.elts
            node.iter = ast.Call(ast.Attribute(copy.deepcopy(d), 'keys', ast.Load()), [], [])
            node.target = k
            node.body.insert(0, assign(v.id, ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
            self.sites += 1
        return node


class nest_and(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if self.fn is not None and not node.orelse and isinstance(node.test, ast.BoolOp) and \
                isinstance(node.test.op, ast.And):
            body = node.body
            for t in reversed(node.test.values):
                body = [ast.If(t, body, [])]
            self.sites += 1
            return body[0]
        return node


class de_morgan(Base):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def test(self, t):
        if isinstance(t, ast.BoolOp):
            self.sites += 1
            other = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(other, [negate(v) for v in t.values]))
        return t

    def visit_If(self, node):
        self.generic_visit(node)
        if self.fn is not None:
            node.test = self.test(node.test)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.fn is not None:
            node.test = self.test(node.test)
        return node


class guard_clause(Base):
    """a function ending in `if c: body` -> if not c: return; body"""

    def function(self, node):
        self.generic_visit(node)
        last = node.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                                                    for n in ast.walk(node)):
            node.body = node.body[:-1] + [ast.If(negate(last.test), [ast.Return(None)], [])] + last.body
            self.sites += 1
        return node


class loop_continue(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        last = node.body[-1]
        if self.fn is not None and isinstance(last, ast.If) and not last.orelse:
            node.body = node.body[:-1] + [ast.If(negate(last.test), [ast.Continue()], [])] + last.body
            self.sites += 1
        return node


class split_tuple(Base):
    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                    isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and \
                    all(isinstance(t, ast.Name) for t in s.targets[0].elts) and \
                    not ({t.id for t in s.targets[0].elts} & names(s.value)):
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    out.append(ast.Assign([t], v, lineno=0))
                self.sites += 1
            else:
                out.append(s)
        return out


class aug_expand(Base):
    def visit_AugAssign(self, node):
        if self.fn is not None and isinstance(node.target, ast.Name) and not isinstance(node.value, (ast.List, ast.ListComp)):
            if isinstance(node.op, ast.Add) and isinstance(node.value, ast.Call):
                return node
            self.sites += 1
            return ast.Assign([node.target], ast.BinOp(name(node.target.id), node.op, node.value), lineno=0)
        return node


class square_mult(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and \
                node.right.value == 2 and isinstance(node.left, (ast.Name, ast.Attribute)):
            self.sites += 1
            return ast.BinOp(node.left, ast.Mult(), copy.deepcopy(node.left))
        return node


class half_mult(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Div) and isinstance(node.right, ast.Constant) and \
                node.right.value in (2, 4):
            self.sites += 1
            return ast.BinOp(node.left, ast.Mult(), ast.Constant(1 / node.right.value))
        return node


class assert_raise(Base):
    def visit_Assert(self, node):
        self.sites += 1
        return ast.If(negate(node.test), [ast.Raise(ast.Call(name('AssertionError'), [node.msg] if node.msg else [], []),
                                                    None)], [])


class lambda_def(Base):
    """a lambda anywhere in a statement -> a def before it (when it does not use comprehension variables)"""

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                comp_vars = {n.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target)
                             if isinstance(n, ast.Name)}
                for n in ast.walk(s):
                    for f, val in ast.iter_fields(n):
                        vals = val if isinstance(val, list) else [val]
                        for i, x in enumerate(vals):
                            if isinstance(x, ast.keyword):
                                continue
                            if isinstance(x, ast.Lambda) and not (names(x) & comp_vars):
                                h = self.fresh('fn')
                                out.append(ast.FunctionDef(h, x.args, [ast.Return(x.body)], [], lineno=0))
                                if isinstance(val, list):
                                    val[i] = name(h)
                                else:
                                    setattr(n, f, name(h))
                                self.sites += 1
            out.append(s)
        return out


class module_constants(Base):
    """float literals of functions -> module constants"""

    def visit_Constant(self, node):
        if self.fn is not None and isinstance(node.value, float):
            h = '_C%s' % repr(node.value).replace('.', '_').replace('-', 'm').replace('+', 'p')
            if h not in {t.targets[0].id for t in self.new}:
                self.new.append(ast.Assign([name(h, True)], ast.Constant(node.value), lineno=0))
            self.sites += 1
            return name(h)
        return node

    def visit_arguments(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node


class in_to_or(Base):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn is not None and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(node.comparators[0], (ast.Tuple, ast.List, ast.Set)) and \
                isinstance(node.left, (ast.Name, ast.Attribute)) and node.comparators[0].elts:
            parts = [ast.Compare(copy.deepcopy(node.left), [ast.Eq()], [e]) for e in node.comparators[0].elts]
            self.sites += 1
            r = ast.BoolOp(ast.Or(), parts) if len(parts) > 1 else parts[0]
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return node


class while_loop(Base):
    """for x in range-free sequence -> index loop over list(...)"""

    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn is not None and not node.orelse and not any(isinstance(n, ast.Continue) for n in ast.walk(node)):
            i, seq = self.fresh('i'), self.fresh('seq')
            self.sites += 1
            return [assign(seq, ast.Call(name('list'), [node.iter], [])), assign(i, ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(seq)], [])]),
                              [ast.Assign([node.target], ast.Subscript(name(seq), name(i), ast.Load()), lineno=0)] +
                              node.body + [ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))], [])]
        return node


class index_loop(Base):
    """for x in seq -> for i in range(len(list(seq))): x = ..."""

    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn is not None and not node.orelse:
            i, seq = self.fresh('i'), self.fresh('seq')
            self.sites += 1
            return [assign(seq, ast.Call(name('list'), [node.iter], [])),
                    ast.For(name(i, True), ast.Call(name('range'), [ast.Call(name('len'), [name(seq)], [])], []),
                            [ast.Assign([node.target], ast.Subscript(name(seq), name(i), ast.Load()), lineno=0)] +
                            node.body, [], lineno=0)]
        return node


class args_to_locals(Base):
    """call arguments that are calls -> locals first (one call per statement, evaluated in order)"""

    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and \
                    isinstance(v.func, (ast.Name, ast.Attribute)) and \
                    (isinstance(v.func, ast.Name) or isinstance(v.func.value, (ast.Name, ast.Attribute))) and \
                    not any(isinstance(a, ast.Starred) for a in v.args):
                for i, a in enumerate(v.args):
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.JoinedStr)):
                        h = self.fresh('arg')
                        out.append(assign(h, a))
                        v.args[i] = name(h)
                        self.sites += 1
            out.append(s)
        return out


class binop_locals(Base):
    """return a OP b -> left = a; right = b; return left OP right"""

    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.BinOp):
                for f in ('left', 'right'):
                    a = getattr(v, f)
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        h = self.fresh(f)
                        out.append(assign(h, a))
                        setattr(v, f, name(h))
                        self.sites += 1
            out.append(s)
        return out


class keyword_dict(Base):
    """{**k} stays; dict literal assigned to a name -> item by item"""

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Dict) and \
                    s.value.keys and all(k is not None for k in s.value.keys) and \
                    s.targets[0].id not in names(s.value):
                t = s.targets[0].id
                out.append(assign(t, ast.Dict([], [])))
                for k, v in zip(s.value.keys, s.value.values):
                    out.append(ast.Assign([ast.Subscript(name(t), k, ast.Store())], v, lineno=0))
                self.sites += 1
            else:
                out.append(s)
        return out


class dead_stmt(Base):
    def function(self, node):
        self.generic_visit(node)
        at = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(at, assign('_unused', ast.Constant(0)))
        self.sites += 1
        return node


class try_else(Base):
    """try: S...; return x except -> value computed in try, returned in else"""

    def visit_Try(self, node):
        self.generic_visit(node)
        if self.fn is not None and not node.orelse and not node.finalbody and isinstance(node.body[-1], ast.Return) \
                and node.body[-1].value is not None:
            h = self.fresh('found')
            node.body[-1] = assign(h, node.body[-1].value)
            node.orelse = [ast.Return(name(h))]
            self.sites += 1
        return node


class isinstance_split(Base):
    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and node.func.id == 'isinstance' and \
                isinstance(node.args[1], ast.Tuple):
            self.sites += 1
            return ast.BoolOp(ast.Or(), [ast.Call(name('isinstance'), [copy.deepcopy(node.args[0]), c], [])
                                         for c in node.args[1].elts])
        return node


class list_call_comp(Base):
    """list(x) -> [v for v in x]; [f(v) for v in x] untouched"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and node.func.id == 'list' and len(node.args) == 1:
            v = self.fresh('e')
            self.sites += 1
            return ast.ListComp(name(v), [ast.comprehension(name(v, True), node.args[0], [], 0)])
        return node


class genexp_list(Base):
    """sum(gen) -> sum([list])"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and \
                node.func.id in ('sum', 'max', 'min', 'sorted', 'list', 'tuple', 'set'):
            for i, a in enumerate(node.args):
                if isinstance(a, ast.GeneratorExp):
                    node.args[i] = ast.ListComp(a.elt, a.generators)
                    self.sites += 1
        return node


class property_helper(Base):
    """whole body of a function -> inner function called once"""

    def function(self, node):
        if node.name in ('__init__',) or any(isinstance(n, (ast.Yield, ast.Nonlocal, ast.Global)) or
                                             isinstance(n, ast.Name) and n.id in ('super', '__class__')
                                             for n in ast.walk(node)):
            return node
        args = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in args
               for n in ast.walk(node)):
            return node
        h = self.fresh('inner')
        at = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        if not node.body[at:]:
            return node
        inner = ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), node.body[at:], [], lineno=0)
        node.body = node.body[:at] + [inner, ast.Return(ast.Call(name(h), [], []))]
        self.sites += 1
        return node


class reverse_add(Base):
    """a + b -> b + a for numeric-looking operands (products, numbers, differences)"""

    def numeric(self, x):
        if isinstance(x, ast.Constant):
            return isinstance(x.value, (int, float)) and not isinstance(x.value, bool)
        if isinstance(x, ast.BinOp):
            return isinstance(x.op, (ast.Mult, ast.Div, ast.Sub, ast.Pow)) and \
                not any(isinstance(y, (ast.List, ast.JoinedStr)) or isinstance(y, ast.Constant) and
                        isinstance(y.value, str) for y in ast.walk(x))
        return False

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Add) and self.numeric(node.left) or \
                isinstance(node.op, ast.Add) and self.numeric(node.right):
            if self.fn is not None and (self.numeric(node.left) and self.numeric(node.right)):
                node.left, node.right = node.right, node.left
                self.sites += 1
        return node


class max_conditional(Base):
    """a 2-argument max/min of simple operands -> conditional expression"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and node.func.id in ('max', 'min') and \
                len(node.args) == 2 and not node.keywords:
            a, b = node.args
            op = ast.GtE() if node.func.id == 'max' else ast.LtE()
            self.sites += 1
            return ast.IfExp(ast.Compare(copy.deepcopy(a), [op], [copy.deepcopy(b)]), a, b)
        return node


class get_to_in(Base):
    """d.get(k, default) -> d[k] if k in d else default (plain names)"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Attribute) and node.func.attr == 'get' and \
                len(node.args) == 2 and isinstance(node.func.value, ast.Name) and \
                node.func.value.id in ('kwargs', 'd') and isinstance(node.args[0], ast.Constant):
            d, k = node.func.value, node.args[0]
            self.sites += 1
            return ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)]),
                             ast.Subscript(copy.deepcopy(d), k, ast.Load()), node.args[1])
        return node


class kwargs_call(Base):
    """positional arguments of calls to functions / classes / own methods of the module -> keyword arguments"""

    def visit_Module(self, node):
        self.sigs, self.meth, dup = {}, {}, set()
        for c in node.body:
            if isinstance(c, ast.FunctionDef):
                self.sigs[c.name] = c.args
            elif isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        if f.name == '__init__':
                            self.sigs[c.name] = ast.arguments(f.args.posonlyargs, f.args.args[1:], f.args.vararg,
                                                              f.args.kwonlyargs, f.args.kw_defaults, f.args.kwarg,
                                                              f.args.defaults)
                        if f.name in self.meth or f.decorator_list:
                            dup.add(f.name)
                        self.meth[f.name] = ast.arguments([], f.args.args[1:], f.args.vararg, [], [], None, [])
        for d in dup:
            self.meth.pop(d, None)
        return self.generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is None or any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in
                                                                                       node.keywords):
            return node
        a = None
        if isinstance(node.func, ast.Name):
            a = self.sigs.get(node.func.id)
        elif isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and \
                node.func.value.id == 'self':
            a = self.meth.get(node.func.attr)
        if a is None or a.vararg or len(a.args) < len(node.args) or a.posonlyargs:
            return node
        n = len(node.args)
        node.keywords = [ast.keyword(p.arg, v) for p, v in zip(a.args, node.args)] + node.keywords
        node.args = []
        self.sites += n
        return node


class percent_format(Base):
    def visit_JoinedStr(self, node):
        if self.fn is None:
            return node
        text, args = '', []
        for v in node.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('%', '%%')
            elif v.format_spec is None and v.conversion == -1:
                text += '%s'
                args.append(v.value)
            else:
                return node
        self.sites += 1
        return ast.BinOp(ast.Constant(text), ast.Mod(), ast.Tuple(args, ast.Load()))


class join_format(Base):
    def visit_JoinedStr(self, node):
        if self.fn is None:
            return node
        out = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                out.append(v)
            elif v.format_spec is None and v.conversion == -1:
                out.append(ast.Call(name('str'), [v.value], []))
            else:
                return node
        self.sites += 1
        return ast.Call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), [ast.List(out, ast.Load())], [])


class drop_keys(Base):
    """k in d.keys(), list(d.keys()), for k in d.keys() -> without .keys()"""

    def strip(self, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'keys' and not x.args:
            self.sites += 1
            return x.func.value
        return x

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            node.comparators[0] = self.strip(node.comparators[0])
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.strip(node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.strip(node.iter)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and node.func.id in ('list', 'sorted', 'set', 'len'):
            node.args = [self.strip(a) for a in node.args]
        return node


class append_plus(Base):
    def visit_Expr(self, node):
        self.generic_visit(node)
        v = node.value
        if self.fn is not None and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'append' and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
            self.sites += 1
            return ast.AugAssign(name(v.func.value.id, True), ast.Add(), ast.List([v.args[0]], ast.Load()))
        return node


class super_explicit(Base):
    def visit_ClassDef(self, node):
        old = getattr(self, 'base', None)
        self.base = node.bases[0] if len(node.bases) == 1 and isinstance(node.bases[0], ast.Name) else None
        super().visit_ClassDef(node)
        self.base = old
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.fn is not None and getattr(self, 'base', None) is not None and isinstance(f, ast.Attribute) and \
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and \
                not f.value.args:
            f.value = copy.deepcopy(self.base)
            node.args.insert(0, name('self'))
            self.sites += 1
        return node


class method_order(Base):
    """plain methods move to the end of their class, in reverse order"""

    def visit_ClassDef(self, node):
        plain = [f for f in node.body if isinstance(f, ast.FunctionDef) and not f.decorator_list]
        later = {n.id for s in node.body if not isinstance(s, ast.FunctionDef) for n in ast.walk(s)
                 if isinstance(n, ast.Name)}
        plain = [f for f in plain if f.name not in later]
        if plain:
            node.body = [s for s in node.body if s not in plain] + plain[::-1]
            self.sites += len(plain)
        return node


class rename_private(Base):
    """private attributes and methods get other names, everywhere"""

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr.startswith('_') and not node.attr.endswith('__') and node.attr in PRIVATE:
            node.attr = '_own' + node.attr
            self.sites += 1
        return node

    def visit_FunctionDef(self, node):
        if node.name in PRIVATE and self.cls:
            node.name = '_own' + node.name
        return super().visit_FunctionDef(node)

    def visit_Assign(self, node):
        if self.fn is None and self.cls:
            for t in node.targets:
                if isinstance(t, ast.Name) and t.id in PRIVATE:
                    t.id = '_own' + t.id
        return self.generic_visit(node)


PRIVATE = set()


def find_private(root):
    for d, _, fs in os.walk(os.path.join(root, 'atomtoolkit')):
        for f in fs:
            if f.endswith('.py'):
                t = ast.parse(open(os.path.join(d, f)).read())
                for c in ast.walk(t):
                    if isinstance(c, ast.ClassDef):
                        for m in c.body:
                            if isinstance(m, ast.FunctionDef) and m.name.startswith('_') and not m.name.endswith('__'):
                                PRIVATE.add(m.name)
                    if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store) and c.attr.startswith('_') and \
                            isinstance(c.value, ast.Name) and c.value.id == 'self':
                        PRIVATE.add(c.attr)


class extract_tail(Base):
    """the statements after the first half of a function -> a helper function taking the live locals"""

    def visit_Module(self, node):
        self.generic_visit(node)
        return node

    def function(self, node):
        if self.__dict__.get('deep'):
            return node
        body = node.body
        at = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        k = at + (len(body) - at) // 2
        tail = body[k:]
        if len(body) - at < 2 or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) or
                                     isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals')
                                     for n in ast.walk(node)):
            return node
        if any(isinstance(n, ast.FunctionDef) for s in body for n in ast.walk(s)):
            return node
        for d in node.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == 'setter' or isinstance(d, ast.Call):
                return node
        bound = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)} | \
            {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {(a.asname or a.name).split('.')[0] for s in body for n in ast.walk(s)
             if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        before = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)} | \
            {n.id for s in body[:k] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {(a.asname or a.name).split('.')[0] for s in body[:k] for n in ast.walk(s)
             if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        comp = {n.id for s in body[:k] for c in ast.walk(s) if isinstance(c, ast.comprehension)
                for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        used = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)}
        sure = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)} | \
            {n.id for s in body[:k] if isinstance(s, ast.Assign) for n in ast.walk(ast.Tuple(s.targets))
             if isinstance(n, ast.Name)}
        free = sorted(used & before)
        if not set(free) <= sure - comp:
            return node
        h = self.fresh('rest_' + node.name.strip('_') + '_')
        self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(f) for f in free], None, [], [], None, []),
                                        tail, [], lineno=0))
        node.body = body[:k] + [ast.Return(ast.Call(name(h), [name(f) for f in free], []))]
        self.sites += 1
        return node


class extract_loop_body(Base):
    """for x in xs: body  ->  def step(x): body (body without break, continue, return and rebinding outer names)"""

    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.For) and not s.orelse and not any(
                    isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom))
                    for b in s.body for n in ast.walk(b)):
                stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and
                          isinstance(n.ctx, (ast.Store, ast.Del))}
                outside = {n.id for b in self.fn.body for n in ast.walk(b) if isinstance(n, ast.Name)
                           and not any(n is m for c in s.body for m in ast.walk(c))}
                tg = sorted(names(s.target))
                if not (stored & (outside | {a.arg for a in ast.walk(self.fn.args) if isinstance(a, ast.arg)})) and tg:
                    h = self.fresh('step')
                    out.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(t) for t in tg], None, [], [], None, []),
                                               s.body, [], lineno=0))
                    s.body = [ast.Expr(ast.Call(name(h), [name(t) for t in tg], []))]
                    self.sites += 1
            out.append(s)
        return out


class sqrt_power(Base):
    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Attribute) and node.func.attr == 'sqrt' and \
                len(node.args) == 1:
            self.sites += 1
            return ast.BinOp(node.args[0], ast.Pow(), ast.Constant(0.5))
        return node


class power_sqrt(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and \
                node.right.value == 0.5 and self.has_np:
            self.sites += 1
            return ast.Call(ast.Attribute(name('np'), 'sqrt', ast.Load()), [node.left], [])
        return node

    def visit_Module(self, node):
        self.has_np = any(isinstance(n, ast.alias) and n.asname == 'np' for n in ast.walk(node))
        return self.generic_visit(node)


class keys_walrus(Base):
    """a, b = pair unpacking in for targets -> indexing"""

    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in
                                                                             node.target.elts):
            v = self.fresh('pair')
            node.body = [assign(e.id, ast.Subscript(name(v), ast.Constant(i), ast.Load()))
                         for i, e in enumerate(node.target.elts) if e.id != '_'] + node.body
            node.target = name(v, True)
            self.sites += 1
        return node


class enumerate_range(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and \
                node.iter.func.id == 'enumerate' and len(node.iter.args) == 1 and isinstance(node.target, ast.Tuple):
            v = self.fresh('all')
            i, x = node.target.elts
            pre = assign(v, ast.Call(name('list'), [node.iter.args[0]], []))
            node.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(v)], [])], [])
            node.target = i
            node.body.insert(0, ast.Assign([x], ast.Subscript(name(v), name(i.id), ast.Load()), lineno=0))
            self.sites += 1
            return [pre, node]
        return node


class return_none(Base):
    """functions without value end in `return None`"""

    def function(self, node):
        self.generic_visit(node)
        if not isinstance(node.body[-1], (ast.Return, ast.Raise)) and not any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            node.body.append(ast.Return(ast.Constant(None)))
            self.sites += 1
        return node


class alias_self(Base):
    """this = self at the start of every method"""

    def function(self, node):
        if not node.args.args or node.args.args[0].arg != 'self' or any(
                isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in ast.walk(node)):
            return node
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id == 'self':
                n.id = 'this'
        at = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(at, assign('this', name('self')))
        self.sites += 1
        return node


class setdefault_if(Base):
    """x = a or b -> x = a; if not x: x = b"""

    def block(self, stmts):
        out = []
        for s in stmts:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Return) and isinstance(v, ast.BoolOp) and len(v.values) == 2:
                h = self.fresh('r')
                t = name(h) if isinstance(v.op, ast.And) else ast.UnaryOp(ast.Not(), name(h))
                out += [assign(h, v.values[0]), ast.If(t, [assign(h, v.values[1])], []), ast.Return(name(h))]
                self.sites += 1
            else:
                out.append(s)
        return out


def transforms():
    return {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, Base) and v is not Base}


def apply(nm, root, only=None, files=None):
    total = 0
    find_private(root)
    base = os.path.join(root, 'atomtoolkit')
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            if files and os.path.relpath(p, base) not in files:
                continue
            src = open(p).read()
            tree = ast.parse(src)
            t = transforms()[nm](only)
            tree = t.visit(tree)
            if t.sites:
                if t.new:
                    if nm == 'module_constants':
                        at = next(i for i, s in enumerate(tree.body) if not isinstance(s, (ast.Import, ast.ImportFrom))
                                  and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)))
                        tree.body[at:at] = t.new
                    else:
                        tree.body += t.new
                ast.fix_missing_locations(tree)
                open(p, 'w').write(ast.unparse(tree) + '\n')
                total += t.sites
    return total


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        print('\n'.join(transforms()))
    else:
        only = set(sys.argv[4:]) or None
        print(apply(sys.argv[2], sys.argv[3], only))
