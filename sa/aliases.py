"""Read `x = self.a.b; x[k] = v` as `self.a.b[k] = v`: a local name for a container that is changed through it."""
import ast
import copy

MUT = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'setdefault', 'popitem', 'sort',
       'reverse', 'discard', 'appendleft'}


def chain_root(e):
    n = 0
    while isinstance(e, ast.Attribute):
        e, n = e.value, n + 1
    return e.id if isinstance(e, ast.Name) and n else None


class Sub(ast.NodeTransformer):
    def __init__(self, name, chain, at):
        self.name, self.chain, self.at = name, chain, at

    def visit_Assign(self, n):
        if n is self.at:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.chain), n)
        return n


def stores(fn):
    out = {}
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out[p.arg] = out.get(p.arg, 0) + 1
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out[n.id] = out.get(n.id, 0) + 1
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            for p in n.args.args + n.args.kwonlyargs:
                out[p.arg] = out.get(p.arg, 0) + 2
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out[n.name] = out.get(n.name, 0) + 2
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                out[x] = out.get(x, 0) + 2
    return out


def mutated(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and \
                isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
    return out


def settled(fn):
    """the parameters of fn and the names its top-level statements assign"""
    a = fn.args
    out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
    for s in fn.body:
        if isinstance(s, ast.Assign):
            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return out


def regions(fn):
    """(plain assignment to a name, the statements that follow it in its block), for each in fn"""
    out = []
    for n in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(n, field, None)
            if isinstance(block, list):
                for i, s in enumerate(block):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        out.append((s, block[i + 1:]))
    return out


def split(fn):
    """give a name that several branches each assign for themselves a name of its own in each branch"""
    mut, st = mutated(fn), stores(fn)
    at = {}
    for s, rest in regions(fn):
        at.setdefault(s.targets[0].id, []).append((s, rest))
    for x, places in at.items():
        if x not in mut or len(places) < 2 or st.get(x) != len(places) or \
                not any(isinstance(s.value, ast.Name) for s, _ in places):
            continue
        used = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
        inside = [{id(n) for r in rest for n in ast.walk(r) if isinstance(n, ast.Name) and n.id == x}
                  for _, rest in places]
        if sum(map(len, inside)) != len(used) or set().union(*inside) != {id(n) for n in used}:
            continue
        for k, (s, rest) in enumerate(places):
            for n in [s.targets[0]] + [y for r in rest for y in ast.walk(r)]:
                if isinstance(n, ast.Name) and n.id == x:
                    n.id = '%s__%d' % (x, k)


def expand(tree):
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        if not mutated(fn):
            continue
        split(fn)
        mut = mutated(fn)
        st = stores(fn)
        have = settled(fn)
        for n in [x for x in ast.walk(fn) if isinstance(x, ast.Assign)]:
            if len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
                continue
            x = n.targets[0].id
            if st.get(x) != 1:
                continue
            root = chain_root(n.value)
            if root and x in mut and st.get(root, 0) <= 1 and root != x:
                Sub(x, n.value, n).visit(fn)
            elif isinstance(n.value, ast.Name) and n.value.id in have and st.get(n.value.id) == 1 and \
                    n.value.id != x and (x in mut or n.value.id in mut):
                Sub(x, n.value, n).visit(fn)
    return tree
