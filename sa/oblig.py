"""Obligations: an observation of the repository and the reference it must equal.

A specification file holds pairs of functions observed_<name>(args) / expected_<name>(args), and
optionally given_<name>(args) (a precondition).  None of them is ever executed: the observation is
turned into its value graph through the repository's source, the reference into the value graph of
the reference, and the two normal forms are compared.  A difference names the case (the conditions
under which the values differ), the two values, and the functions the observation went through.
"""
import ast
import os
import signal
import sys
import time
from fractions import Fraction
from . import terms as tm
from .terms import TRUE, mk, num, ite, UNBOUND
from . import canon as cn
from . import model
from . import regex
from .loader import AnalysisError, Func, Module
from .interp import Interp

OUT = mk('str', '<outside the stated domain>')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


SHOW = int(os.environ.get('SA_SHOW', '600'))


class Timeout(Exception):
    pass


class Result:
    def __init__(self, name, status, rule, detail='', where='', functions=(), nodes=0, calls=0, text=''):
        self.name = name
        self.status = status          # held | violated | undecided
        self.rule = rule
        self.detail = detail
        self.where = where
        self.functions = sorted(functions)
        self.nodes = nodes
        self.calls = calls
        self.text = text
        self.seconds = 0.0


def load_spec(prog, pid):
    path = os.path.join(HERE, 'specs', pid + '.py')
    if not os.path.exists(path):
        return None
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src)
    m = Module('spec_' + pid, path, 'specs/%s.py' % pid, tree, False)
    prog.add_module(m)
    return m


def options(fn):
    o = {'inline': [], 'opaque': [], 'inline_new': [], 'effects': False, 'values': True, 'say': '', 'only': ''}
    for d in fn.node.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'observe':
            for k in d.keywords:
                o[k.arg] = literal(fn.module, k.value)
    return o


def literal(module, e):
    if isinstance(e, ast.Name):
        for st in module.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == e.id:
                return literal(module, st.value)
    if isinstance(e, ast.BinOp):
        return literal(module, e.left) + literal(module, e.right)
    return ast.literal_eval(e)


def params(fn):
    out = []
    for p in fn.node.args.args:
        ty = 'any'
        if p.annotation is not None:
            ty = p.annotation.value if isinstance(p.annotation, ast.Constant) else ast.unparse(p.annotation)
        out.append((p.arg, ty))
    return out


def obligations(spec):
    for name, fn in spec.funcs.items():
        if name.startswith('observed_'):
            yield name[9:], fn


def strip(fn):
    fn.decorators = []
    return fn


def module_body(prog, name):
    """the top-level statements of a module, as a function without parameters"""
    m = prog.modules[name]
    node = ast.parse('def _module(): pass').body[0]
    node.body = [st for st in m.tree.body if not isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef,
                                                                 ast.ClassDef))] or node.body
    return Func(node, m)


# private names the value engine gives a meaning to
STORAGE = {'_levelsModel', '_hfModel', '_zModel', '_sublevels', '_subtransitions', '_A', '_level_Hz', '_model',
           '_submodel'}


def private(n):
    return n.startswith('_') and not n.endswith('__') and len(n) > 1


def vocabulary(prog):
    """the private names the repository uses"""
    if getattr(prog, 'private_names', None) is None:
        out = set()
        for m in prog.modules.values():
            if m.name.startswith('spec_'):
                continue
            for n in ast.walk(m.tree):
                for x in (getattr(n, 'attr', None), getattr(n, 'name', None), getattr(n, 'id', None)):
                    if isinstance(x, str) and private(x):
                        out.add(x)
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and private(n.value):
                    out.add(n.value)
        prog.private_names = out
    return prog.private_names


def unknown_names(prog, o, *fns):
    """private names a specification speaks of, or the engine relies on, that the repository does not have: a
    specification about them says nothing about a repository that keeps its state under other names"""
    used = set(STORAGE)
    for f in fns:
        if f is not None:
            used |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and private(n.attr)}
    for k in ('inline', 'opaque'):
        used |= {x.split('.')[-1] for x in o.get(k, []) if private(x.split('.')[-1])}
    return sorted(used - vocabulary(prog))


def run_one(prog, spec, name, fn, budget=60):
    r = run_pair(prog, spec, name, fn, budget)
    if r.status == 'violated':
        gone = unknown_names(prog, options(fn), fn, spec.funcs['expected_' + name], spec.funcs.get('given_' + name))
        if gone:
            return Result(name, 'undecided', r.rule, 'the repository does not have ' + ', '.join(gone), text=r.text)
    return r


def run_pair(prog, spec, name, fn, budget=60):
    o = options(fn)
    strip(fn)
    exp = strip(spec.funcs['expected_' + name])
    giv = spec.funcs.get('given_' + name)
    args = [mk('sym', n, t) for n, t in params(fn)]
    doc = ast.get_docstring(fn.node) or ''
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    t0 = time.time()
    it = None
    prog.optional = bool(o.get('optional'))
    try:
        common = dict(inline=o['inline'], opaque=o['opaque'], inline_new=o['inline_new'])
        if 'summary' in o:
            from .summary import Summary
            make = lambda **kw: Summary(prog, o['summary'], **kw)
        else:
            make = lambda **kw: Interp(prog, **kw)
        it = make(**common)
        so = it.run(fn if 'module_body' not in o else module_body(prog, o['module_body']), args)
        ie = make(opaque=o['opaque'], inline=o.get('ref_inline', []), inline_new=o.get('ref_new', []))
        se = ie.run(exp, args)
        g = TRUE
        if giv is not None:
            ig = Interp(prog)
            g = ig.truth(ig.run(strip(giv), args).ret)
        pairs = [('value', ite(g, so.ret, OUT), ite(g, se.ret, OUT))] if o['values'] else []
        if o['effects']:
            e0 = mk('effset')
            pairs.append(('effects', ite(g, so.effects, e0), ite(g, se.effects, e0)))
        try:
            bad = differences(pairs)
        except (Timeout, cn.Limit, RecursionError):
            bad = differences_in_part(pairs, args)
            if not bad:
                raise
        if bad and any(n.op == 'call' and n.args[0] == 'int' for _, a, b in pairs for t in (a, b) for n in tm.nodes(t)):
            bad = differences_by_sign(pairs, bad)
        n = sum(1 for _ in tm.nodes(so.ret))
        funcs = [f for f in it.visited if not f.startswith('spec_') and not f.startswith('observed_')]
        r = Result(name, 'violated' if bad else 'held', 'value-graph equality', functions=funcs, nodes=n,
                   calls=it.opaque_calls, text=doc)
        if bad:
            r.where = places(prog, it, funcs)
            un = unsettled_patterns([(a, b) for _, a, b in pairs])
            if un:
                r.status, r.detail = 'undecided', un
                return r
            lines = []
            for what, path, x, y in bad[:3]:
                case = ' and '.join(('' if v else 'not ') + tm.show(c) for c, v in path) or 'always'
                lines.append('%s differs when %s:\n      code:      %s\n      reference: %s' % (
                    what, case, tm.show(x)[:SHOW], tm.show(y)[:SHOW]))
                p, q = cn.explain(x, y)
                if p is not x:
                    lines.append('  innermost difference:\n      code:      %s\n      reference: %s' % (
                        tm.show(p)[:SHOW], tm.show(q)[:SHOW]))
            r.detail = '\n    '.join(lines)
        return r
    except Timeout:
        return Result(name, 'undecided', 'value-graph equality', 'budget of %d s exhausted' % budget, text=doc)
    except (AnalysisError, cn.Limit) as e:
        return Result(name, 'undecided', 'value-graph equality', str(e), text=doc)
    except RecursionError:
        return Result(name, 'undecided', 'value-graph equality', 'recursion limit', text=doc)
    except Exception as e:  # an engine gap: never an alarm
        if os.environ.get('SA_DEBUG'):
            raise
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        return Result(name, 'undecided', 'value-graph equality', 'engine: %s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), text=doc)
    finally:
        prog.optional = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def differences(pairs):
    return [(what, path, x, y) for what, a, b in pairs for path, x, y in cn.diff(a, b, limit=3)]


def differences_in_part(pairs, args):
    """where the whole domain is too much: the same comparison for numbers that are all positive or all negative.
    A difference there is one; agreement there decides nothing"""
    nums = [a for a in args if a.args[1] in ('half', 'int')]
    for sign in (1, -1):
        if not nums:
            break
        part = {}
        for a in nums:
            ty, least = {'half': ('halfnn', Fraction(1, 2)), 'int': ('nat', 1)}[a.args[1]]
            part[a] = tm.mul(num(sign), tm.add(mk('sym', a.args[0], ty), num(least)))
        cn._memo.clear()
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            bad = differences([(what, tm.subst(a, part), tm.subst(b, part)) for what, a, b in pairs])
            if bad:
                return bad
        except (Timeout, cn.Limit, RecursionError):
            pass
    return []


def differences_by_sign(pairs, bad):
    """the same comparison, with int(x) read as the floor or the ceiling of x"""
    cn.SPLIT_INT[0] = True
    cn._memo.clear()
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    signal.setitimer(signal.ITIMER_REAL, min(left, 15))
    try:
        return differences(pairs)
    except (Timeout, cn.Limit, RecursionError):
        return bad
    finally:
        cn.SPLIT_INT[0] = False
        cn._memo.clear()


def unsettled_patterns(pairs):
    """two different regular expressions may describe one language: a difference counts only when a string tells
    every pattern of the code from every pattern of the reference"""
    def pats(t):
        return {n.args[0] for n in tm.nodes(t) if n.op == 'str' and n.args[0].startswith('regex:')}
    code = set().union(*[pats(a) for a, _ in pairs])
    ref = set().union(*[pats(b) for _, b in pairs])
    p, q = code - ref, ref - code
    if not p and not q:
        return None
    for x in p or [None]:
        for y in q or [None]:
            if x is None or y is None or not regex.separates(regex.SOURCE[x[6:]], regex.SOURCE[y[6:]]):
                return 'the pattern %s is not comparable with %s' % (x, y)
    return None


def _alarm(*_):
    raise Timeout()


def places(prog, it, funcs):
    out = []
    for q in funcs:
        f = prog.find_func(q)
        if f is not None:
            out.append('%s:%d %s' % (f.module.rel, f.node.lineno, q))
    return '; '.join(sorted(out)[:8])
