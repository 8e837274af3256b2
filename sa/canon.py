"""Normal form of value-graph nodes.

canon(t) is an ordered decision tree: internal nodes are ('ite', atom, yes, no) over atomic
conditions in a fixed order, leaves are ite-free nodes whose numeric parts are normalised
rational functions.  Two nodes denote the same value (over the modelled operations) when their
normal forms are the same interned node.  Infeasible branches are dropped with a small theory:
linear bounds (half-integer lattice for angular-momentum quantum numbers), substring
implication, class hierarchy, mutual exclusion of equalities with distinct constants.
"""
from fractions import Fraction
from itertools import permutations
from math import gcd, floor
from . import terms as tm
from .terms import T, mk, num, TRUE, FALSE, NONE, UNBOUND
from . import model

F1 = Fraction(1)


class Limit(Exception):
    pass


# ------------------------------------------------------------------ polynomials
def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_atom(t):
    return {((t.uid, 1),): F1}


def p_add(a, b, k=F1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _red_mono(m):
    """reduce special atoms in a monomial; returns list of (mono, coeff)"""
    coeff = F1
    out = []
    extra = []
    for u, e in m:
        t = tm.by_uid(u)
        if t.op == 'imag':
            e %= 4
            if e >= 2:
                coeff = -coeff
                e -= 2
        elif t.op == 'sgn':
            e %= 2
        elif t.op == 'root':
            q = t.args[0]
            if e >= q:
                k, e = divmod(e, q)
                rad = to_rat(t.args[1])
                for _ in range(k):
                    extra.append(rad)
        if e:
            out.append((u, e))
    return tuple(out), coeff, extra


def p_mul(a, b):
    r = {}
    pend = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m, c = m2, c1 * c2
            elif not m2:
                m, c = m1, c1 * c2
            else:
                d = dict(m1)
                for u, e in m2:
                    d[u] = d.get(u, 0) + e
                m = tuple(sorted(d.items()))
                m, k, extra = _red_mono(m)
                c = c1 * c2 * k
                if extra:
                    pend.append((m, c, extra))
                    continue
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    for m, c, extra in pend:
        p = {m: c}
        for (n, d) in extra:
            if d != {(): F1}:
                # radicand is polynomial by construction
                raise Limit('root with fractional radicand')
            p = p_mul(p, n)
        r = p_add(r, p)
    if len(r) > 4000:
        raise Limit('polynomial too large')
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_key(p):
    return tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), mc[0])))


# ------------------------------------------------------------------ rationals
def to_rat(t):
    if t.op == 'num':
        return p_const(t.args[0]), p_const(1)
    if t.op == 'rat':
        return dict(t.args[0]), dict(t.args[1])
    if t.op == 'bool':
        return p_const(1 if t.args[0] else 0), p_const(1)
    return p_atom(t), p_const(1)


_sym_names = {}


def _sympy_cancel(n, d):
    import sympy
    syms = {}

    def conv(p):
        e = []
        for m, c in p.items():
            f = sympy.Rational(c.numerator, c.denominator)
            for u, ex in m:
                x = syms.get(u)
                if x is None:
                    x = syms[u] = sympy.Symbol('x%d' % u)
                f = f * x ** ex
            e.append(f)
        return sympy.Add(*e)

    en, ed = conv(n), conv(d)
    gens = [syms[u] for u in sorted(syms)]
    pn, pd = sympy.Poly(en, *gens, domain='QQ'), sympy.Poly(ed, *gens, domain='QQ')
    g = sympy.gcd(pn, pd)
    if g.is_ground:
        return n, d
    qn, qd = sympy.quo(pn, g), sympy.quo(pd, g)
    us = sorted(syms)

    def back(p):
        r = {}
        for mon, c in p.terms():
            c = Fraction(int(c.p), int(c.q))
            m = tuple((u, int(e)) for u, e in zip(us, mon) if e)
            if c:
                r[m] = c
        return r

    return back(qn), back(qd)


_rat_memo = {}


def mk_rat(n, d):
    """normalised leaf node for n/d (d not identically zero)"""
    if not n:
        return tm.ZERO
    key = (p_key(n), p_key(d))
    r = _rat_memo.get(key)
    if r is not None:
        return r
    if not d:
        r = mk('divzero', mk_rat(n, p_const(1)))
        _rat_memo[key] = r
        return r
    if len(d) == 1:
        (m, c), = d.items()
        # rationalise: roots, signs and the imaginary unit do not stay in denominators
        for u, e in m:
            t = tm.by_uid(u)
            if t.op in ('imag', 'sgn') or t.op == 'root':
                q = {'imag': 4, 'sgn': 2}.get(t.op) or t.args[0]
                f = {((u, q - e),): F1}
                r = mk_rat(p_mul(n, f), p_mul(d, f))
                _rat_memo[key] = r
                return r
        n = {k: v / c for k, v in n.items()}
        dm = dict(m)
        # cancel common monomial factor
        for u in list(dm):
            k = min([dm[u]] + [dict(mm).get(u, 0) for mm in n])
            if k:
                dm[u] -= k
                n2 = {}
                for mm, v in n.items():
                    x = dict(mm)
                    x[u] -= k
                    n2[tuple(sorted((a, b) for a, b in x.items() if b))] = v
                n = n2
        d = {tuple(sorted((a, b) for a, b in dm.items() if b)): F1}
    else:
        common = None
        for m in d:
            x = dict(m)
            common = x if common is None else {u: min(e, x[u]) for u, e in common.items() if u in x}
        for u, e in sorted((common or {}).items()):
            t = tm.by_uid(u)
            if t.op in ('imag', 'sgn', 'root'):
                # a common factor of the denominator is rationalised like a single one
                q = {'imag': 4, 'sgn': 2}.get(t.op) or t.args[0]
                f = {((u, q - e),): F1}
                r = mk_rat(p_mul(n, f), p_mul(d, f))
                _rat_memo[key] = r
                return r
        n, d = _sympy_cancel(n, d)
        lead = p_key(d)[-1][1]
        n = {k: v / lead for k, v in n.items()}
        d = {k: v / lead for k, v in d.items()}
    kd = p_key(d)
    kn = p_key(n)
    if kd == (((), F1),):
        if not n:
            r = tm.ZERO
        elif len(n) == 1:
            (m, c), = n.items()
            if not m:
                r = num(c)
            elif c == 1 and len(m) == 1 and m[0][1] == 1:
                r = tm.by_uid(m[0][0])
            else:
                r = mk('rat', kn, kd)
        else:
            r = mk('rat', kn, kd)
    else:
        r = mk('rat', kn, kd)
    _rat_memo[key] = r
    return r


def l_add(ts):
    n, d = {}, p_const(1)
    for t in ts:
        a, b = to_rat(t)
        if b == d:
            n = p_add(n, a)
        else:
            n = p_add(p_mul(n, b), p_mul(a, d))
            d = p_mul(d, b)
    return mk_rat(n, d)


def l_mul(ts):
    n, d = p_const(1), p_const(1)
    for t in ts:
        a, b = to_rat(t)
        n = p_mul(n, a)
        d = p_mul(d, b)
    return mk_rat(n, d)


def _int_root_factor(c, q):
    """c>0 rational -> (outside rational, inside integer) with c = outside^q * inside"""
    n = c.numerator * c.denominator ** (q - 1)
    out = Fraction(1, c.denominator)
    inside = 1
    p = 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out *= p ** (e // q)
            inside *= p ** (e % q)
        p += 1
    inside *= n
    return out, inside


def _factor_poly(p):
    """-> (const, [(poly, exp)]) squarefree irreducible factorisation over Q"""
    if not p:
        return Fraction(0), []
    if len(p) == 1:
        (m, c), = p.items()
        return c, [({((u, 1),): F1}, e) for u, e in m]
    import sympy
    us = sorted({u for m in p for u, _ in m})
    xs = [sympy.Symbol('x%d' % u) for u in us]
    e = []
    for m, c in p.items():
        f = sympy.Rational(c.numerator, c.denominator)
        for u, ex in m:
            f = f * xs[us.index(u)] ** ex
        e.append(f)
    c, fs = sympy.factor_list(sympy.Poly(sympy.Add(*e), *xs, domain='QQ'))
    const = Fraction(int(sympy.Rational(c).p), int(sympy.Rational(c).q))
    out = []
    for f, ex in fs:
        pf = {}
        for mon, cc in f.terms():
            pf[tuple((u, int(k)) for u, k in zip(us, mon) if k)] = Fraction(int(cc.p), int(cc.q))
        lead = p_key(pf)[-1][1]
        const *= lead ** ex
        pf = {k: v / lead for k, v in pf.items()}
        out.append((pf, int(ex)))
    return const, out


def l_pow(b, e):
    """leaf power; returns a leaf"""
    if e.op == 'num':
        ev = e.args[0]
        if ev.denominator == 1:
            k = int(ev)
            if abs(k) > 40:
                return mk('powl', b, e)
            n, d = to_rat(b)
            if k >= 0:
                return mk_rat(p_pow(n, k), p_pow(d, k))
            if not n:
                return mk('divzero', tm.ONE)
            return mk_rat(p_pow(d, -k), p_pow(n, -k))
        q = ev.denominator
        if q in (2, 3, 4):
            r = l_root(b, q)
            return l_pow(r, num(ev.numerator))
        return mk('powl', b, e)
    if b.op == 'num' and b.args[0] == -1:
        return l_sgn(e)
    return mk('powl', b, e)


def l_sgn(e):
    n, d = to_rat(e)
    if d != p_const(1):
        return mk('powl', num(-1), e)
    c = n.get((), Fraction(0))
    n = {m: v for m, v in n.items() if m}
    # drop even-integer multiples of integer-valued monomials is unsound for half-integers: only reduce
    # multiples of 4 on half-integer lattice monomials (4*j is even) and the constant mod 2
    m2 = {}
    for m, v in n.items():
        if model.lattice_mono([tm.by_uid(u) for u, _ in m]) == 2 and len(m) == 1 and m[0][1] == 1 and v.denominator == 1:
            v = v % 4
            if v == 3:
                v = Fraction(-1)
        if v:
            m2[m] = v
    n = m2
    c = c % 2
    if not n:
        if c.denominator == 1:
            return num(1 if c == 0 else -1)
        return mk('powl', num(-1), num(c))
    k = p_key(n)
    if k[0][1] < 0:
        n = {m: -v for m, v in n.items()}
        c = (-c) % 2
    flip = F1
    if c >= 1:
        c -= 1
        flip = -F1
    if c:
        n[()] = c
    at = mk('sgn', mk_rat(n, p_const(1)))
    return mk_rat({((at.uid, 1),): flip}, p_const(1))


def l_root(b, q):
    n, d = to_rat(b)
    if d != p_const(1):
        return l_mul([l_root(mk_rat(n, p_const(1)), q), l_pow(l_root(mk_rat(d, p_const(1)), q), num(-1))])
    c, fs = _factor_poly(n)
    if c == 0:
        return tm.ZERO
    out = []
    if c < 0:
        if q == 2:
            # move the sign into the first multi-term factor (root of a-b), or out as i
            for i, (f, e) in enumerate(fs):
                if e % 2 and len(f) > 1:
                    fs[i] = ({m: -v for m, v in f.items()}, e)
                    c = -c
                    break
        if c < 0:
            return mk('powl', b, num(Fraction(1, q)))
    o, ins = _int_root_factor(c, q)
    out.append(num(o))
    if ins != 1:
        p = 2
        x = ins
        while x > 1:
            while x % p == 0:
                out.append(mk('root', q, num(p)))
                x //= p
            p += 1
    for f, e in fs:
        k, r = divmod(e, q)
        leaf = mk_rat(f, p_const(1))
        if k:
            if leaf.op != 'rat' and q == 2 and k % 2 and not model.nonneg(leaf):
                # sqrt(x^2) = |x| : kept opaque unless x is known nonnegative
                out.append(mk('absl', leaf))
                k -= 1
            out.append(l_pow(leaf, num(k)))
        if r:
            out.append(l_pow(mk('root', q, leaf), num(r)))
    return l_mul(out)


# ------------------------------------------------------------------ theory context
class Ctx:
    __slots__ = ('facts', 'lin', '_dec')

    def __init__(self, facts=(), lin=()):
        self.facts = dict(facts)
        self.lin = tuple(lin)
        self._dec = {}

    def assume(self, atom, val):
        f = dict(self.facts)
        f[atom] = val
        lin = self.lin
        c = lin_of(atom, val)
        if c is not None:
            lin = lin + tuple(c)
        return Ctx(f, lin)

    def decide(self, atom):
        v = self.facts.get(atom)
        if v is not None:
            return v
        if atom in self._dec:
            return self._dec[atom]
        r = self._decide(atom)
        self._dec[atom] = r
        return r

    def _decide(self, atom):
        if atom.op in ('le', 'ltb'):
            vars_ = set(m for m, _ in atom.args[0])
            rel = self._related(vars_)
            cs = [c for c in self.lin if rel & set(c[0])]
            cs = cs + nonneg_constraints(rel)
            for val in (True, False):
                neg = lin_of(atom, not val)
                if infeasible(cs + list(neg)):
                    return val
            return None
        for a, v in self.facts.items():
            r = implied(a, v, atom)
            if r is not None:
                return r
        return None

    def _related(self, vs):
        vs = set(vs)
        ch = True
        while ch:
            ch = False
            for c in self.lin:
                k = set(c[0])
                if k & vs and not k <= vs:
                    vs |= k
                    ch = True
        return vs


def lin_of(atom, val):
    """constraints sum(coef*mono) <= / < b as (coeffs dict, bound, strict)"""
    if atom.op not in ('le', 'ltb'):
        return None
    p, b = atom.args
    d = dict(p)
    strict = atom.op == 'ltb'
    if val:
        return [(d, b, strict)]
    if not strict:
        lat = model.lattice_poly(d)
        if lat:
            # the values are multiples of 1/lat: above b means at least the next one
            nxt = Fraction(floor(b * lat) + 1, lat)
            return [({m: -c for m, c in d.items()}, -nxt, False)]
    return [({m: -c for m, c in d.items()}, -b, not strict)]


def nonneg_constraints(monos):
    out = []
    for m in monos:
        if len(m) == 1 and m[0][1] == 1 and model.nonneg(tm.by_uid(m[0][0])):
            out.append(({m: Fraction(-1)}, Fraction(0), False))
        elif all(e % 2 == 0 for _, e in m):
            out.append(({m: Fraction(-1)}, Fraction(0), False))
        out += floor_constraints(m)
    return out


def floor_constraints(m):
    """floor(q) <= q < floor(q) + 1, for an atom that is the floor of a polynomial"""
    if len(m) != 1 or m[0][1] != 1:
        return []
    t = tm.by_uid(m[0][0])
    if t.op != 'floorint':
        return []
    q = t.args[0]
    if q.op == 'rat':
        if q.args[1] != (((), Fraction(1)),):
            return []
        q = dict(q.args[0])
    else:
        q = p_atom(q)
    c = q.pop((), Fraction(0))
    lo = {k: -v for k, v in q.items()}
    lo[m] = lo.get(m, 0) + 1
    hi = {k: -v for k, v in lo.items()}
    lat = model.lattice_poly(q)
    up = (Fraction(1) - c, True)
    if lat:
        from math import lcm
        up = (1 - Fraction(1, lcm(lat, c.denominator)) - c, False)
    return [(lo, c, False), (hi,) + up]


_inf_memo = {}


def infeasible(cs):
    key = frozenset((p_key(c[0]), c[1], c[2]) for c in cs)
    r = _inf_memo.get(key)
    if r is None:
        r = _inf_memo[key] = _fm(list(key))
    return r


def _fm(cs):
    cs = [(dict(p), b, st) for p, b, st in cs]
    while True:
        for p, b, st in cs:
            if not p and (b < 0 or (b == 0 and st)):
                return True
        cs = [c for c in cs if c[0]]
        if not cs:
            return False
        vs = {}
        for p, _, _ in cs:
            for m, c in p.items():
                a = vs.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], m))
        pos = [c for c in cs if c[0].get(v, 0) > 0]
        neg = [c for c in cs if c[0].get(v, 0) < 0]
        rest = [c for c in cs if not c[0].get(v)]
        if len(pos) * len(neg) > 400:
            return False
        for p in pos:
            for n in neg:
                kp, kn = -n[0][v], p[0][v]
                q = {}
                for m, c in p[0].items():
                    q[m] = q.get(m, 0) + kp * c
                for m, c in n[0].items():
                    q[m] = q.get(m, 0) + kn * c
                q = {m: c for m, c in q.items() if c}
                rest.append((q, kp * p[1] + kn * n[1], p[2] or n[2]))
        seen = set()
        cs = []
        for p, b, st in rest:
            k = (p_key(p), b, st)
            if k not in seen:
                seen.add(k)
                cs.append((p, b, st))


def implied(a, v, atom):
    """does (a is v) decide atom? """
    if atom.op == 'isin' and a.op == 'isin' and a.args[1] is atom.args[1]:
        x, y = a.args[0], atom.args[0]
        if x.op == 'str' and y.op == 'str' and atom.args[1].op != 'dict' and model.is_str(atom.args[1]):
            if v and y.args[0] in x.args[0]:
                return True
            if not v and x.args[0] in y.args[0]:
                return False
    if atom.op == 'eq' and a.op == 'eq' and v:
        for i in (0, 1):
            for j in (0, 1):
                if a.args[i] is atom.args[j]:
                    c1, c2 = a.args[1 - i], atom.args[1 - j]
                    if c1.op in tm.CONST_OPS and c2.op in tm.CONST_OPS and c1 is not c2:
                        return False
    if a.op == 'isnone' and v:
        x = a.args[0]
        if atom.op in ('isinst', 'truthy', 'typeis') and atom.args[0] is x:
            return False
        if atom.op == 'eq' and x in atom.args:
            o = atom.args[1] if atom.args[0] is x else atom.args[0]
            if o.op in ('str', 'num', 'tuple', 'list'):
                return False
    if atom.op == 'isnone':
        x = atom.args[0]
        if v and a.op in ('isinst', 'truthy', 'typeis') and a.args[0] is x:
            return False
        if v and a.op == 'eq' and x in a.args:
            o = a.args[1] if a.args[0] is x else a.args[0]
            if o.op in ('str', 'num', 'tuple', 'list', 'cls'):
                return False
    if a.op in ('isinst', 'typeis') and atom.op in ('isinst', 'typeis') and a.args[0] is atom.args[0]:
        return model.class_implies(a.op, a.args[1], v, atom.op, atom.args[1])
    if a.op == 'is' and atom.op == 'is' and v and False:
        return None
    return None


TOP = Ctx()


# ------------------------------------------------------------------ decision trees
def atom_key(a):
    if a.op in ('le', 'ltb'):
        return (1, a.args[0], a.args[1], 0 if a.op == 'ltb' else 1)
    return (0, a.uid)


def prune(t, ctx, memo=None):
    if t.op != 'ite':
        return t
    a = t.args[0]
    v = ctx.decide(a)
    if v is True:
        return prune(t.args[1], ctx)
    if v is False:
        return prune(t.args[2], ctx)
    x = prune(t.args[1], ctx.assume(a, True))
    y = prune(t.args[2], ctx.assume(a, False))
    return raw_ite(a, x, y, ctx)


def raw_ite(a, x, y, ctx=TOP):
    if x is y:
        return x
    if y.op == 'ite' or x.op == 'ite':
        # the test is redundant if one side already equals the other where the test holds
        if y.op == 'ite' and prune(y, ctx.assume(a, True)) is x:
            return y
        if x.op == 'ite' and prune(x, ctx.assume(a, False)) is y:
            return x
    return mk('ite', a, x, y)


_budget = [0]
BUDGET = 400000


def apply(fn, trees, ctx=TOP):
    _budget[0] += 1
    if _budget[0] > BUDGET:
        raise Limit('case analysis too large')
    best = None
    for t in trees:
        if t.op == 'ite':
            a = t.args[0]
            if best is None or atom_key(a) < atom_key(best):
                best = a
    if best is None:
        r = fn(*trees)
        if r.op == 'ite':
            r = prune(r, ctx)
        return r
    v = ctx.decide(best)
    if v is not None:
        return apply(fn, [_restrict(t, best, v) for t in trees], ctx)
    c1 = ctx.assume(best, True)
    c0 = ctx.assume(best, False)
    x = apply(fn, [_restrict(t, best, True) for t in trees], c1)
    y = apply(fn, [_restrict(t, best, False) for t in trees], c0)
    return merge(best, x, y, ctx)


def _restrict(t, a, v):
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


def merge(a, x, y, ctx):
    """tree for (x if a else y) keeping the atom order"""
    if x is y:
        return x
    ka = atom_key(a)
    low = None
    for t in (x, y):
        if t.op == 'ite' and (low is None or atom_key(t.args[0]) < atom_key(low)):
            low = t.args[0]
    if low is None or ka < atom_key(low):
        return raw_ite(a, x, y, ctx)
    if low is a:
        return merge(a, _restrict(x, a, True), _restrict(y, a, False), ctx)
    _budget[0] += 1
    if _budget[0] > BUDGET:
        raise Limit('case analysis too large')
    v = ctx.decide(low)
    if v is not None:
        return merge(a, _restrict(x, low, v), _restrict(y, low, v), ctx)
    c1, c0 = ctx.assume(low, True), ctx.assume(low, False)

    def side(c, val):
        d = c.decide(a)
        xx, yy = _restrict(x, low, val), _restrict(y, low, val)
        if d is True:
            return prune(xx, c)
        if d is False:
            return prune(yy, c)
        return merge(a, prune(xx, c.assume(a, True)), prune(yy, c.assume(a, False)), c)

    p = side(c1, True)
    q = side(c0, False)
    return merge_top(low, p, q, ctx)


def merge_top(a, x, y, ctx):
    return raw_ite(a, x, y, ctx)


# ------------------------------------------------------------------ atoms
def b_tree(atom):
    return mk('ite', atom, TRUE, FALSE)


def b_not(t):
    return apply(lambda x: FALSE if x is TRUE else TRUE, [t])


def b_and(*ts):
    return apply(lambda *xs: TRUE if all(x is TRUE for x in xs) else FALSE, list(ts))


def b_or(*ts):
    return apply(lambda *xs: TRUE if any(x is TRUE for x in xs) else FALSE, list(ts))


def linear_atom(p, strict):
    """tree for p < 0 (strict) or p <= 0, p polynomial"""
    p = drop_positive(p)
    c = p.get((), Fraction(0))
    d = {m: v for m, v in p.items() if m}
    if not d:
        return TRUE if (c < 0 or (c == 0 and not strict)) else FALSE
    # multi-term or nonlinear: positive common factors are dropped
    const, fs = None, None
    if len(d) == 1 and c == 0:
        (m, v), = d.items()
        # sign of a monomial: drop even powers and known-positive atoms for the strict test
        # (kept conservative: only when a single atom remains)
        rest = [(u, e) for u, e in m if not model.positive(tm.by_uid(u))]
        if len(rest) != len(m) and rest:
            d = {tuple(rest): v}
        elif not rest:
            return TRUE if v < 0 else FALSE
    fl = [x for m in d for x in floor_constraints(m)]
    if fl:
        if infeasible(fl + [(d, -c, strict)]):
            return FALSE
        if infeasible(fl + [({m: -v for m, v in d.items()}, c, not strict)]):
            return TRUE
    lead = p_key(d)[0][1]
    k = abs(lead)
    # primitive integer-like direction
    den = 1
    for v in d.values():
        den = den * v.denominator // gcd(den, v.denominator)
    g = 0
    for v in d.values():
        g = gcd(g, int(v * den))
    scale = Fraction(den, g)
    d = {m: v * scale for m, v in d.items()}
    b = -c * scale  # d < b or d <= b
    flip = False
    if p_key(d)[0][1] < 0:
        d = {m: -v for m, v in d.items()}
        b = -b
        flip = True  # now: d > b or d >= b
    lat = model.lattice_poly(d)
    if lat:
        # values of d are multiples of 1/lat
        x = b * lat
        if not flip:
            lim = floor(x) if not (strict and x == floor(x)) else floor(x) - 1
            return b_tree(mk('le', p_key(d), Fraction(lim, lat)))
        # d > b  == not d <= b ; d >= b == not d <= b - step (if b on lattice)
        lim = floor(x) if not (not strict and x == floor(x)) else floor(x) - 1
        return b_not(b_tree(mk('le', p_key(d), Fraction(lim, lat))))
    op = 'ltb' if strict else 'le'
    if not flip:
        return b_tree(mk(op, p_key(d), b))
    # d > b -> not (d <= b);  d >= b -> not (d < b)
    return b_not(b_tree(mk('le' if strict else 'ltb', p_key(d), b)))


def drop_positive(p):
    """divide by positive atoms (units, roots, pi) common to every monomial"""
    ms = [dict(m) for m in p]
    keys = set(ms[0]) if ms else set()
    for m in ms[1:]:
        keys &= set(m)
    for u in keys:
        t = tm.by_uid(u)
        if model.positive(t):
            k = min(m[u] for m in ms)
            r = {}
            for m, c in p.items():
                x = dict(m)
                x[u] -= k
                r[tuple(sorted((a, b) for a, b in x.items() if b))] = c
            return drop_positive(r)
    return p


def a_lt(a, b):
    """leafs a < b"""
    n, d = to_rat(l_add([b, l_mul([num(-1), a])]))  # 0 < n/d
    if d != p_const(1):
        if len(d) == 1 and all(model.positive(tm.by_uid(u)) or e % 2 == 0 for m in d for u, e in m):
            pass
        else:
            # sign of a quotient is the sign of the product
            n = p_mul(n, d)
    neg = {m: -c for m, c in n.items()}
    return linear_atom(neg, True)


def a_eq0(leaf):
    n, d = to_rat(leaf)
    c, fs = _factor_poly(n)
    if c == 0:
        return TRUE
    out = []
    for f, e in fs:
        if len(f) == 1:
            (m, _), = f.items()
            t = tm.by_uid(m[0][0])
            if t.op in ('sgn', 'root_pos', 'imag', 'unit') or model.positive(t):
                continue
            if t.op == 'root':
                out.append(a_eq0(t.args[1]))
                continue
        neg = {m: -v for m, v in f.items()}
        out.append(b_and(linear_atom(f, False), linear_atom(neg, False)))
    if not out:
        return FALSE
    return b_or(*out)


NUMERIC_OPS = {'num', 'rat', 'sgn', 'root', 'imag', 'powl', 'absl', 'sum', 'unit', 'pi'}


def numericish(t):
    if t.op in NUMERIC_OPS:
        return True
    return model.is_num(t)


def a_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return FALSE
    if a.op in ('bool',) and b.op not in ('bool', 'num') or b.op in ('bool',) and a.op not in ('bool', 'num'):
        c, o = (a, b) if a.op == 'bool' else (b, a)
        if model.typeof(o) == 'bool':
            x = a_truthy(o)
            return x if c is TRUE else b_not(x)
    elif (numericish(a) or numericish(b)) and a.op not in ('str', 'none', 'tuple', 'list') and b.op not in (
            'str', 'none', 'tuple', 'list'):
        return a_eq0(l_add([a, l_mul([num(-1), b])]))
    if a.op in ('tuple', 'list') and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        return b_and(*[a_eq(x, y) for x, y in zip(a.args, b.args)]) if a.args else TRUE
    if a.op == 'none' or b.op == 'none':
        o = b if a.op == 'none' else a
        return b_tree_c(tm.isnone(o))
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and (numericish(y) or model.py_class(y) == 'function'):
            return FALSE
        if x.op == 'str' and x.args[0] and y.op == 'item' and y.args[1].op == 'slice' and \
                model.typeof(y.args[0]) == 'str':
            # comparing a head or tail of the right length
            lo, hi, st = y.args[1].args
            n = len(x.args[0])
            if st is NONE and hi is NONE and lo is num(-n):
                return canon(mk('truthy', mk('mcall', y.args[0], 'endswith', x)))
            if st is NONE and lo in (NONE, tm.ZERO) and hi is num(n):
                return canon(mk('truthy', mk('mcall', y.args[0], 'startswith', x)))
        if x.op == 'str' and not x.args[0] and model.typeof(y) == 'str':
            # the string without characters
            return canon(tm.eq(mk('call', 'len', y), tm.ZERO))
    r = tm.eq(a, b)
    if r.op == 'bool':
        return r
    return b_tree(r)


def a_is(x, y):
    if x is not y and 'new' not in (x.op, y.op) and model.base_type(x) in model.LEVELS and \
            model.base_type(y) in model.LEVELS:
        # levels of one atom are told apart by their names
        return a_eq(canon(model.norm_attr(x, 'name')), canon(model.norm_attr(y, 'name')))
    for a, b in ((x, y), (y, x)):
        if a.op == 'str':
            if numericish(b):
                return FALSE
            if not a.args[0] and model.typeof(b) == 'str':
                # there is one empty string
                return a_eq(x, y)
    return _bt(tm.is_(x, y))


def b_tree_c(c):
    return _bt(c)


def a_truthy(a):
    if a.op == 'bool':
        return a
    if a.op == 'none':
        return FALSE
    if a.op == 'num':
        return FALSE if a.args[0] == 0 else TRUE
    if a.op == 'str':
        return TRUE if a.args[0] else FALSE
    if a.op in ('tuple', 'list', 'dict', 'set'):
        return TRUE if a.args else FALSE
    if a.op in ('new', 'closure', 'cls', 'lam'):
        return TRUE
    if tm.is_boolish(a):
        return b_tree(a)
    if numericish(a):
        return b_not(a_eq0(a))
    if model.typeof(a) == 'str' or model.typeof(a).startswith(('dict[', 'list[')):
        # a container is true when it is not empty
        return canon(tm.not_(tm.eq(mk('call', 'len', a), tm.ZERO)))
    return b_tree(mk('truthy', a))


def a_isin(x, c):
    if c.op in ('tuple', 'list', 'set'):
        return b_or(*[a_eq(x, y) for y in c.args]) if c.args else FALSE
    if c.op == 'dict':
        return b_or(*[a_eq(x, c.args[i]) for i in range(0, len(c.args), 2)]) if c.args else FALSE
    if c.op == 'str' and x.op == 'str':
        return TRUE if x.args[0] in c.args[0] else FALSE
    if c.op == 'mcall' and c.args[1] == 'keys' and len(c.args) == 2:
        c = c.args[0]
    if c.op == 'edgeset' and x.op == 'tuple' and len(x.args) == 2 and x.args[0].uid > x.args[1].uid:
        x = tm.tup(x.args[1], x.args[0])        # the graphs are undirected
    if c.op == 'strof' and x.op == 'str' and model.is_num(c.args[0]) and set(x.args[0]) - set('0123456789.e+-jainf()'):
        return FALSE        # the text of a number
    return b_tree(mk('isin', x, c))


# ------------------------------------------------------------------ angular-momentum functions
def lin(*pairs):
    return l_add([l_mul([num(c), t]) for c, t in pairs])


_w_memo = {}


def w3j(args):
    j1, j2, j3, m1, m2, m3 = args
    key = ('3', args)
    if key in _w_memo:
        return _w_memo[key]
    total = l_add([m1, m2, m3])
    res = None
    for idx in range(3):
        m = (m1, m2, m3)[idx]
        if m.op == 'num':
            # 3j vanishes unless m1+m2+m3 = 0
            others = [x for i, x in enumerate((m1, m2, m3)) if i != idx]
            ms = [m1, m2, m3]
            ms[idx] = l_mul([num(-1), l_add(others)])
            jj = (j1, j2, j3)[idx]
            if ms[idx] is m:
                continue
            if jj.op == 'num' and abs(m.args[0]) > jj.args[0]:
                res = tm.ZERO
                break
            c = a_eq0(total)
            x = _w3j_canon((j1, j2, j3) + tuple(ms))
            res = apply(lambda cc, xx: xx if cc is TRUE else tm.ZERO, [c, x])
            break
    if res is None:
        if total.op == 'num' and total.args[0] == 0:
            # m-sum holds identically; a numeric j also bounds its m
            res = _w3j_canon(args)
            for jj, m in ((j1, m1), (j2, m2), (j3, m3)):
                if jj.op == 'num' and m.op != 'num' and jj.args[0].denominator == 1 and jj.args[0] <= 4:
                    k = int(jj.args[0])
                    c = b_or(*[a_eq0(l_add([m, num(q)])) for q in range(-k, k + 1)])
                    res = apply(lambda cc, xx: xx if cc is TRUE else tm.ZERO, [c, res])
                    break
        else:
            res = _w3j_canon(args)
    _w_memo[key] = res
    return res


def _w3j_canon(args):
    js, ms = args[:3], args[3:]
    best = None
    for p in permutations(range(3)):
        odd = p in ((0, 2, 1), (1, 0, 2), (2, 1, 0))
        for flip in (0, 1):
            j = tuple(js[i] for i in p)
            m = tuple((l_mul([num(-1), ms[i]]) if flip else ms[i]) for i in p)
            key = tuple(x.uid for x in j + m)
            sg = odd ^ bool(flip)
            if best is None or key < best[0]:
                best = (key, j + m, {sg})
            elif key == best[0]:
                best[2].add(sg)
    node = mk('call', 'wigner3j', *best[1])
    if best[2] == {True, False}:
        # invariant under a sign-changing symmetry: both signs possible representations
        return node
    if best[2] == {True}:
        return l_mul([l_sgn(l_add(list(js))), node])
    return node


def w6j(args):
    top, bot = args[:3], args[3:]
    best = None
    for p in permutations(range(3)):
        t = [top[i] for i in p]
        b = [bot[i] for i in p]
        for sw in ((), (0, 1), (0, 2), (1, 2)):
            tt, bb = list(t), list(b)
            for i in sw:
                tt[i], bb[i] = bb[i], tt[i]
            key = tuple(x.uid for x in tt + bb)
            if best is None or key < best[0]:
                best = (key, tt + bb)
    return mk('call', 'wigner6j', *best[1])


def w9j(args):
    rows = [args[0:3], args[3:6], args[6:9]]
    best = None
    odds = ((0, 2, 1), (1, 0, 2), (2, 1, 0))
    for tr in (0, 1):
        r = [list(x) for x in (zip(*rows) if tr else rows)]
        for p in permutations(range(3)):
            for q in permutations(range(3)):
                x = [r[i][j] for i in p for j in q]
                sg = (p in odds) ^ (q in odds)
                key = tuple(t.uid for t in x)
                if best is None or key < best[0]:
                    best = (key, x, {sg})
                elif key == best[0]:
                    best[2].add(sg)
    node = mk('call', 'wigner9j', *best[1])
    if best[2] == {True}:
        return l_mul([l_sgn(l_add(list(args))), node])
    return node


WIGNER = {'wigner3j': (6, w3j), 'wigner6j': (6, w6j), 'wigner9j': (9, w9j)}

# ------------------------------------------------------------------ canon proper
_memo = {}
BINDERS = {'compr', 'sum', 'any', 'dictc', 'argmin', 'argmax', 'minof', 'maxof', 'first', 'foreach', 'fold', 'lam',
           'sorted', 'setc', 'while'}


SPLIT_INT = [False]       # int(x) of a half-integer read as its floor or ceiling, by the sign


def canon(t):
    r = _memo.get(t)
    if r is None:
        r = _canon(t)
        _memo[t] = r
    return r


def cases(t):
    """canon tree of a condition"""
    return truth(t)


def truth(t):
    c = canon(t)
    return apply(a_truthy, [c])


def is_leaf(t):
    return t.op != 'ite'


def strip_units(t):
    return t


def _canon(t):
    op, a = t.op, t.args
    if op in ('num', 'str', 'none', 'bool', 'sym', 'bv', 'acc', 'unbound', 'unit', 'cls', 'imag', 'atomc', 'func',
              'self', 'ext', 'rat', 'le', 'ltb', 'pi', 'closure', 'eff0'):
        if op in ('le', 'ltb'):
            return b_tree(t)
        return t
    if op == 'ite':
        c = truth(a[0])
        x, y = canon(a[1]), canon(a[2])
        return apply(lambda c_, x_, y_: x_ if c_ is TRUE else y_, [c, x, y])
    if op == 'not':
        return b_not(truth(a[0]))
    if op == 'and':
        return b_and(*[truth(x) for x in a])
    if op == 'lt':
        return apply(a_lt, [canon(a[0]), canon(a[1])])
    if op == 'eq':
        return apply(a_eq, [canon(a[0]), canon(a[1])])
    if op == 'is':
        return apply(a_is, [canon(a[0]), canon(a[1])])
    if op == 'isnone':
        return apply(lambda x: FALSE if model.never_none(x) else
                     _bt(tm.isnone(x)) if not numericish(x) or x.op in ('attr', 'sym', 'item') else FALSE,
                     [canon(a[0])])
    if op == 'truthy':
        return truth(a[0])
    if op == 'isin':
        return apply(a_isin, [canon(a[0]), canon(a[1])])
    if op == 'isinst':
        return apply(lambda x: _bt(model.isinst(x, a[1])), [canon(a[0])])
    if op == 'typeis':
        return apply(lambda x: _bt(model.typeis(x, a[1])), [canon(a[0])])
    if op == 'hasattr':
        return apply(lambda x: _bt(model.hasattr_(x, a[1])), [canon(a[0])])
    if op == 'add':
        return apply(lambda *xs: l_add(xs), [canon(x) for x in a])
    if op == 'mul':
        return apply(lambda *xs: l_mul(xs), [canon(x) for x in a])
    if op == 'pow':
        return apply(l_pow, [canon(a[0]), canon(a[1])])
    if op == 'to':
        return canon(a[0])
    if op == 'attr':
        return apply(lambda x: _again(model.norm_attr(x, a[1]), 'attr'), [canon(a[0])])
    if op == 'item':
        return apply(lambda x, k: _again(model.norm_item(x, k), 'item'), [canon(a[0]), canon(a[1])])
    if op in BINDERS:
        return canon_binder(t)
    if op == 'folded':
        k = a[2]
        return apply(lambda S_, *ini: mk('folded', S_, a[1], k, *(list(ini) + [canon(x) for x in a[3 + k:]])),
                     [canon(a[0])] + [canon(x) for x in a[3:3 + k]])
    if op == 'flat':
        return apply(lambda x: x.args[0] if x.op in ('list', 'tuple') and len(x.args) == 1 else mk('flat', x),
                     [canon(a[0])])
    if op == 'call' and a[0] in WIGNER and len(a) == 1 + WIGNER[a[0]][0]:
        return apply(lambda *xs: WIGNER[a[0]][1](tuple(xs)), [canon(x) for x in a[1:]])
    if op == 'concat':
        return apply(lambda *xs: l_concat(xs), [canon(x) for x in a])
    if op == 'strof':
        return apply(lambda x: x if model.is_str(x) or model.is_path(x) else mk('strof', x), [canon(a[0])])
    if op == 'set':
        return apply(lambda *xs: mk('set', *sorted(set(xs), key=lambda x: x.uid)), [canon(x) for x in a]) if a else t
    if op == 'dictadd':
        return apply(lambda d, k, v: model.dict_put(d, k, v), [canon(x) for x in a])
    if op == 'call' and a[0] == 'int' and len(a) == 2:
        def trunc(x):
            if x.op == 'num':
                return num(int(x.args[0]))
            L = model.lattice_leaf(x)
            if L is None or L == 1 or not SPLIT_INT[0]:
                return x if L == 1 else mk('call', 'int', x)
            fl = mk('floorint', x)
            return canon(mk('ite', mk('and', mk('lt', x, tm.ZERO), mk('lt', fl, x)), tm.add(fl, tm.ONE), fl))
        return apply(trunc, [canon(a[1])])
    if op == 'floorint':
        return apply(lambda x: num(floor(x.args[0])) if x.op == 'num' else
                     (x if model.lattice_leaf(x) == 1 else mk('floorint', x)), [canon(a[0])])
    if op == 'rng':
        return apply(lambda *xs: model.norm_range(*xs), [canon(x) for x in a])
    if op in ('effset', 'effs'):
        return canon_effset(t)
    # generic operator: distribute over cases of all node arguments
    idx = [i for i, x in enumerate(a) if isinstance(x, T)]
    if not idx:
        return t

    def re(*xs):
        aa = list(a)
        for i, x in zip(idx, xs):
            aa[i] = x
        return model.norm_generic(op, tuple(aa))

    return apply(re, [canon(a[i]) for i in idx])


def _again(r, op):
    """a rewritten leaf may need its own normal form (e.g. an attribute of a constructor value)"""
    if r.op in ('add', 'mul', 'pow', 'ite', 'not', 'and', 'lt', 'eq', 'isin', 'sum', 'compr'):
        return canon(r)
    return r


def _bt(c):
    if c.op == 'bool':
        return c
    if c.op == 'not':
        return b_not(_bt(c.args[0]))
    if c.op == 'and':
        return b_and(*[_bt(x) for x in c.args])
    if c.op == 'ite':
        return canon(c)
    return b_tree(c)


def l_concat(xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y.op == 'strof':
                z = y.args[0]
                if z.op == 'num' and z.args[0].denominator == 1:
                    y = tm.s(str(int(z.args[0])))
            if y.op == 'str' and out and out[-1].op == 'str':
                out[-1] = tm.s(out[-1].args[0] + y.args[0])
            elif y.op == 'str' and y.args[0] == '':
                continue
            else:
                out.append(y)
    if not out:
        return tm.s('')
    if len(out) == 1:
        return out[0] if model.is_str(out[0]) else mk('concat', *out)
    return mk('concat', *out)


# ------------------------------------------------------------------ binders
_depth = {}


def depth(t):
    """binder nesting depth"""
    r = _depth.get(t)
    if r is not None:
        return r
    r = 0
    if t.op in ('rat', 'le', 'ltb'):
        polys = t.args if t.op == 'rat' else t.args[:1]
        for p in polys:
            for m, _ in p:
                for u, _e in m:
                    r = max(r, depth(tm.by_uid(u)))
    else:
        for a in t.args:
            if isinstance(a, T):
                r = max(r, depth(a))
    if t.op in BINDERS or t.op == 'folded':
        r += 1
    _depth[t] = r
    return r


def rename_bv(bv, bodies):
    """canonical bound variable for a binder whose bodies (trees) are given"""
    h = max([depth(b) for b in bodies] + [0]) + 1
    nb = mk('bv', 'c%d' % h, bv.args[1])
    return nb


def invariant_atoms(tree, bvs):
    out = []
    seen = set()
    st = [tree]
    while st:
        x = st.pop()
        if x in seen or x.op != 'ite':
            continue
        seen.add(x)
        if not any(tm.contains(x.args[0], b) for b in bvs) and not atom_has(x.args[0], bvs):
            out.append(x.args[0])
        st.append(x.args[1])
        st.append(x.args[2])
    return out


def atom_has(atom, bvs):
    if atom.op in ('le', 'ltb'):
        for m, _ in atom.args[0]:
            for u, _e in m:
                if any(has_sym(tm.by_uid(u), b) for b in bvs):
                    return True
        return False
    return any(has_sym(atom, b) for b in bvs)


_hs = {}


def leaf_syms(t):
    """free symbols, also inside rational leaves"""
    r = _hs.get(t)
    if r is not None:
        return r
    if t.op in ('sym', 'bv', 'acc', 'self'):
        r = frozenset([t])
    elif t.op == 'rat':
        r = frozenset()
        for p in t.args:
            for m, _ in p:
                for u, _e in m:
                    r |= leaf_syms(tm.by_uid(u))
    elif t.op in ('le', 'ltb'):
        r = frozenset()
        for m, _ in t.args[0]:
            for u, _e in m:
                r |= leaf_syms(tm.by_uid(u))
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r |= leaf_syms(a)
    _hs[t] = r
    return r


def has_sym(t, x):
    return x in leaf_syms(t)


_sub_memo = {}


def csubst(t, m):
    """substitute leaf symbols in a canonical tree and re-normalise"""
    key = (t, tuple(sorted(((k.uid, v.uid) for k, v in m.items()))))
    r = _sub_memo.get(key)
    if r is not None:
        return r
    syms = leaf_syms(t)
    if not any(k in syms for k in m):
        r = t
    else:
        r = canon(desc(t, m, {}))
    _sub_memo[key] = r
    return r


def desc(t, m, memo):
    """turn a canonical tree back into a raw node, substituting"""
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    syms = leaf_syms(t)
    if not any(k in syms for k in m):
        r = t
    elif t.op == 'rat':
        def poly(p):
            return tm.add(*[tm.mul(num(c), *[tm.power(desc(tm.by_uid(u), m, memo), num(e)) for u, e in mono])
                            for mono, c in p]) if p else tm.ZERO
        r = tm.div(poly(t.args[0]), poly(t.args[1]))
    elif t.op in ('le', 'ltb'):
        p = tm.add(*[tm.mul(num(c), *[tm.power(desc(tm.by_uid(u), m, memo), num(e)) for u, e in mono])
                     for mono, c in t.args[0]])
        b = num(t.args[1])
        r = tm.lt(p, b) if t.op == 'ltb' else tm.le(p, b)
    elif t.op == 'sgn':
        r = mk('pow', num(-1), desc(t.args[0], m, memo))
    elif t.op == 'root':
        r = mk('pow', desc(t.args[1], m, memo), num(Fraction(1, t.args[0])))
    elif t.op == 'powl':
        r = mk('pow', desc(t.args[0], m, memo), desc(t.args[1], m, memo))
    elif t.op == 'absl':
        x = desc(t.args[0], m, memo)
        r = tm.ite(tm.lt(x, tm.ZERO), tm.neg(x), x)
    else:
        new = tuple(desc(a, m, memo) if isinstance(a, T) else a for a in t.args)
        r = tm.rebuild(t.op, new)
    memo[t] = r
    return r


def hoist(tree, bvs, build):
    """split loop-invariant tests out of a binder body"""
    inv = invariant_atoms(tree, bvs)
    if not inv:
        return build(tree)
    a = min(inv, key=atom_key)
    x = hoist(assume_tree(tree, a, True), bvs, build)
    y = hoist(assume_tree(tree, a, False), bvs, build)
    return merge(a, x, y, TOP)


def assume_tree(tree, a, v):
    return prune(tree, Ctx().assume(a, v))


def split_source(t):
    """a binder over the positions of a conditional sequence, one case per condition: the body then reads only the
    sequence of its own case"""
    S, bv = t.args[:2]
    n = S.args[1] if S.op == 'rng' else None
    if n is None or n.op != 'call' or n.args[0] != 'len':
        return None
    if n.args[1].op != 'ite':
        X = n.args[1]
        if S.args[0] is not tm.ZERO or S.args[2] is not tm.ONE or any(isinstance(e, T) and e is bv for e in t.args[2:]):
            return None
        nb = tm.fresh(model.elem_type(model.typeof(X)))
        rest = [tm.subst(e, {tm.item(X, bv): nb}) if isinstance(e, T) else e for e in t.args[2:]]
        if any(isinstance(e, T) and bv in tm.free_syms(e) for e in rest):
            return None
        if not any(isinstance(e, T) and nb in tm.free_syms(e) for e in rest):
            return None
        return mk(t.op, X, nb, *rest)
    c, x, y = n.args[1].args
    out = []
    for X, v in ((x, TRUE), (y, FALSE)):
        rest = [tm.subst(e, {c: v}) if isinstance(e, T) else e for e in t.args[1:]]
        out.append(mk(t.op, mk('rng', S.args[0], mk('call', 'len', X), *S.args[2:]), *rest))
    return tm.ite(c, *out)


def canon_binder(t):
    op, a = t.op, t.args
    if op not in ('lam', 'sorted', 'while') and isinstance(a[0], T) and a[0].op == 'rng':
        r = split_source(t)
        if r is not None:
            return canon(r)
    if op == 'lam':
        # ('lam', bv, body)
        bv, body = a
        b = canon(body)
        nb = rename_bv(bv, [b])
        b2 = csubst(b, {bv: nb})
        return mk('lam', nb, b2)
    if op == 'sorted':
        # ('sorted', S, keylam, reverse)
        return apply(lambda S, k, r: mk('sorted', mk('list', *S.args) if S.op == 'tuple' else S, k, r), [canon(a[0]), canon(a[1]), canon(a[2])])
    if op in ('compr', 'sum', 'any', 'setc', 'minof', 'maxof'):
        # (op, S, bv, cond, elt)
        S, bv, cond, elt = a
        return apply(lambda S_: _c_map(op, S_, bv, cond, elt), [canon(S)])
    if op == 'dictc':
        S, bv, cond, kv = a
        return apply(lambda S_: _c_map('dictc', S_, bv, cond, kv), [canon(S)])
    if op in ('argmin', 'argmax'):
        S, bv, cond, kv = a
        return apply(lambda S_: _c_arg(op, S_, bv, cond, kv), [canon(S)])
    if op == 'first':
        S, bv, cond, val, dflt = a
        return apply(lambda S_, d_: _c_first(S_, bv, cond, val, d_), [canon(S), canon(dflt)])
    if op == 'foreach':
        S, bv, body = a
        return apply(lambda S_: _c_foreach(S_, bv, body), [canon(S)])
    if op == 'fold':
        return _c_fold(t)
    if op == 'while':
        return mk('while', *[canon(x) if isinstance(x, T) else x for x in a])
    raise Limit('binder ' + op)


def seq_elems(S):
    """elements of a literal sequence leaf or None"""
    if S.op in ('tuple', 'list', 'set'):
        return list(S.args)
    if S.op == 'dict':
        return list(S.args[0::2])
    if S.op == 'rangec':
        start, count, step = S.args
        if count.op == 'num' and count.args[0] <= 16:
            return [l_add([start, l_mul([num(i), step])]) for i in range(int(count.args[0]))]
    if S.op == 'str':
        return [tm.s(c) for c in S.args[0]] if len(S.args[0]) <= 32 else None
    return None


def norm_source(S, bv):
    """-> (source leaf, replacement for bv, new bv) : ranges iterate over 0..count-1"""
    if S.op == 'rangec':
        start, count, step = S.args
        if not (start is tm.ZERO and step is tm.ONE):
            nb = tm.fresh('int')
            return mk('rangec', tm.ZERO, count, tm.ONE), tm.add(start, tm.mul(step, nb)), nb
        if bv.args[1] != 'int':
            nb = tm.fresh('int')
            return S, nb, nb
    if S.op == 'rangeo':
        ty = model.elem_type(model.typeof(S))
        if bv.args[1] != ty:
            nb = tm.fresh(ty)
            return S, nb, nb
    return S, None, bv


def fuse(S, bv, cond, elt):
    """push iteration through comprehension sources; returns list of binders [(S,bv)], cond, elt"""
    if S.op == 'compr' and S.args[3] is not None:
        S2, bv2, c2, e2 = S.args
        nb = tm.fresh(bv2.args[1])
        m2 = {bv2: nb}
        c2 = desc(c2, m2, {})
        e2 = desc(e2, m2, {})
        m = {bv: e2}
        return fuse(S2, nb, tm.and_(c2, tm.subst(cond, m)), tm.subst(elt, m))
    return S, bv, cond, elt


def shared_facts(S, bv):
    """the components of one level's term all have that level's J"""
    if S.op == 'attr' and S.args[1] == 'terms' and model.base_type(S.args[0]) == 'MultiTerm':
        return {tm.attr(bv, 'J'): model.norm_attr(S.args[0], 'J')}
    return None


def positions(S, bv, bodies):
    """visiting the positions of a sequence only to read the sequence there is visiting its elements"""
    if S.op == 'attr' and S.args[1] in ('_sublevels', '_subtransitions'):
        # the names in such a table lead to its entries
        X = S
    elif not (S.op == 'rangec' and S.args[0] is tm.ZERO and S.args[2] is tm.ONE and S.args[1].op == 'call' and
              S.args[1].args[0] == 'len'):
        return None
    else:
        X = S.args[1].args[1]
    if has_sym(X, bv):
        return None
    bodies = [canon(x) for x in bodies]
    if not any(has_sym(x, bv) for x in bodies):
        return None
    Y = mk('subs', X.args[0]) if X is S else X
    nb = tm.fresh(model.elem_type(model.typeof(Y)))
    m = {tm.item(X, bv): nb}
    out = [desc_nodes(x, m, {}) for x in bodies]
    if any(has_sym(x, bv) for x in out):
        return None
    return Y, nb, out


def range_facts(S, bv):
    """0 <= i < count, for i counting over a range"""
    if not (S.op == 'rangec' and S.args[0] is tm.ZERO and S.args[2] is tm.ONE):
        return None
    i = ((bv.uid, 1),)
    lin = [({i: -F1}, Fraction(0), False)]
    n, d = to_rat(S.args[1])
    if d == p_const(1):
        up = {m: -c for m, c in n.items() if m}
        up[i] = up.get(i, 0) + F1
        lin.append((up, n.get((), Fraction(0)) - 1, False))
    return Ctx((), lin)


def elt_of(cond, elt):
    return tm.ite(cond, elt, tm.ZERO)


def first_few(S, bv, body):
    """how many leading indices of a range are told apart from all the others by the body of a sum"""
    if S.op != 'rangec' or S.args[0] is not tm.ZERO or S.args[2] is not tm.ONE or S.args[1].op == 'num':
        return 0
    atoms = []
    todo = [body]
    while todo:
        t = todo.pop()
        if t.op == 'ite':
            if has_sym(t.args[0], bv) and t.args[0] not in atoms:
                atoms.append(t.args[0])
            todo += t.args[1:]
    for a in atoms[:4]:
        for k in (1, 2, 3):
            nb = tm.fresh('int')
            t = csubst(mk('ite', a, TRUE, FALSE), {bv: tm.add(nb, num(k))})
            f = range_facts(mk('rangec', tm.ZERO, S.args[1], tm.ONE), nb)
            if f is not None:
                t = prune(t, f)
            if t is TRUE or t is FALSE:
                return k
    return 0


def _c_map(op, S, bv, cond, elt):
    S, bv, cond, elt = fuse(S, bv, cond, elt)
    sf = shared_facts(S, bv)
    if sf:
        cond, elt = tm.subst(cond, sf), tm.subst(elt, sf)
    els = seq_elems(S)
    if els is not None and op != 'setc':
        vals = []
        for e in els:
            c = tm.subst(cond, {bv: e})
            v = tm.subst(elt, {bv: e})
            vals.append((c, v))
        if op == 'sum':
            return canon(tm.add(*[tm.ite(c, v, tm.ZERO) for c, v in vals]) if vals else tm.ZERO)
        if op == 'any':
            return canon(tm.or_(*[tm.and_(c, mk('truthy', v)) for c, v in vals]) if vals else FALSE)
        if op in ('minof', 'maxof') and vals and all(c is TRUE for c, v in vals):
            r = vals[0][1]
            for _, v in vals[1:]:
                r = tm.ite(tm.lt(v, r) if op == 'minof' else tm.lt(r, v), v, r)
            return canon(r)
        if op == 'dictc':
            # later keys overwrite earlier ones; distinct literal keys assumed canonicalised by dict_put
            r = mk('dict')
            out = canon(r)
            for c, v in vals:
                ct = truth(c)
                k_, v_ = canon(v.args[0]), canon(v.args[1])
                out = apply(lambda d, cc, kk, vv: model.dict_put(d, kk, vv) if cc is TRUE else d,
                            [out, ct, k_, v_])
            return out
        if op == 'compr':
            out = canon(tm.lst())
            for c, v in vals:
                out = apply(lambda l, cc, vv: tm.lst(*(l.args + ((vv,) if cc is TRUE else ()))),
                            [out, truth(c), canon(v)])
            return out
    if op == 'sum' and S.op == 'rangec' and S.args[2] is tm.ONE and S.args[0].op != 'num' and \
            l_add([l_mul([num(2), S.args[0]]), S.args[1]]) is tm.ONE:
        # from -n to n: the middle, and the pairs on both sides of it
        nb = tm.fresh('int')

        def at(i):
            return tm.ite(tm.subst(cond, {bv: i}), tm.subst(elt, {bv: i}), tm.ZERO)
        i = tm.add(tm.ONE, nb)
        return canon(tm.add(at(tm.ZERO), mk('sum', mk('rangec', tm.ZERO, l_mul([num(-1), S.args[0]]), tm.ONE), nb, TRUE,
                                            tm.add(at(i), at(tm.neg(i))))))
    S, rep, nbv = norm_source(S, bv)
    if rep is not None:
        cond, elt = tm.subst(cond, {bv: rep}), tm.subst(elt, {bv: rep})
        bv = nbv
    d = positions(S, bv, [cond, elt])
    if d is not None:
        return _c_map(op, d[0], d[1], *d[2])
    if S.op == 'product' and op in ('compr', 'sum', 'any', 'dictc'):
        bvs = [tm.fresh(model.elem_type(model.typeof(x))) for x in S.args]
        r = mk('compr', S.args[-1], bvs[-1], TRUE, tm.tup(*bvs))
        for x, b in zip(reversed(S.args[:-1]), reversed(bvs[:-1])):
            r = mk('flat', mk('compr', x, b, TRUE, r))
        return canon(mk(op, r, bv, cond, elt))
    if S.op == 'flat' and op == 'dictc':
        return apply(lambda x: mk('dictc', *x.args) if x.op == 'compr' else mk('call', 'dictof', x),
                     [canon(mk('compr', S, bv, cond, elt))])
    if S.op == 'flat' and op in ('compr', 'sum', 'any') and S.args[0].op == 'compr' and \
            S.args[0].args[3].op in ('compr', 'flat', 'product'):
        # iterating over nested sequences is a nested iteration
        S1, a, c1, inner = S.args[0].args
        na = tm.fresh(a.args[1])
        m1 = {a: na}
        c1 = desc(c1, m1, {})
        inner = desc(inner, m1, {})
        r = mk(op, inner, bv, cond, elt)
        if op == 'compr':
            return canon(mk('flat', mk('compr', S1, na, c1, r)))
        return canon(mk(op, S1, na, c1, r))
    SKIP = mk('skip')
    c = truth(cond)
    if op == 'sum':
        body = apply(lambda cc, e: e if cc is TRUE else tm.ZERO, [c, canon(elt)])
    elif op == 'any':
        body = apply(lambda cc, e: TRUE if (cc is TRUE and e is TRUE) else FALSE, [c, truth(elt)])
    else:
        body = apply(lambda cc, e: e if cc is TRUE else SKIP, [c, canon(elt)])

    inside = range_facts(S, bv)
    if inside is not None:
        body = prune(body, inside)
    if op == 'sum' and body.op == 'ite':
        k = first_few(S, bv, body)
        if k:
            # the first terms are of another kind than the rest
            i = num(k)
            rest = mk('rangec', tm.ZERO, tm.sub(S.args[1], i), tm.ONE)
            nb = tm.fresh('int')
            return canon(tm.add(*[tm.ite(tm.lt(num(j), S.args[1]), csubst(body, {bv: num(j)}), tm.ZERO)
                                  for j in range(k)],
                                mk('sum', rest, nb, TRUE, tm.subst(elt_of(cond, elt), {bv: tm.add(nb, i)}))))

    def build(tree):
        if op == 'sum' and tree is tm.ZERO:
            return tm.ZERO
        if op == 'any' and tree is FALSE:
            return FALSE
        if tree is SKIP:
            return {'compr': tm.lst(), 'dictc': mk('dict'), 'setc': mk('set')}.get(op, mk('empty', tm.s(op)))
        nb = rename_bv(bv, [tree])
        b2 = csubst(tree, {bv: nb})
        if op == 'any':
            return b_tree(mk('any', S, nb, TRUE, b2))
        if op == 'sum':
            return _sum_linear(S, nb, b2)
        # split back into condition / element for the list-like binders
        cc = apply(lambda x: FALSE if x is SKIP else TRUE, [b2])
        ee = drop_skip(b2, SKIP)
        if op == 'compr' and cc is TRUE and ee is nb:
            return S
        if op == 'compr' and cc is TRUE and S.op == 'rangec':
            r = affine_range(S, nb, ee)
            if r is not None:
                return r
            r = index_nested(S, nb, ee)
            if r is not None:
                return r
        return mk(op, S, nb, cc, ee)

    return hoist(body, [bv], build)


def affine_range(S, nb, ee):
    """[a + b*i for i in range(n)] is a counted range (b a number other than 0)"""
    if ee.op != 'rat' or ee.args[1] != p_key(p_const(1)):
        return None
    rest, b = {}, None
    for m, c in ee.args[0]:
        if m == ((nb.uid, 1),):
            b = c
        elif any(has_sym(tm.by_uid(u), nb) for u, _ in m):
            return None
        else:
            rest[m] = c
    if b is None:
        return None
    return mk('rangec', mk_rat(rest, p_const(1)), S.args[1], num(b))


def rect(Z):
    """(r1, a, r2, b, e) for the elements e of a rectangular nest of two counted ranges"""
    if Z.op == 'flat' and Z.args[0].op == 'compr':
        r1, a, c1, inner = Z.args[0].args
        if inner.op == 'rangec' and r1.op == 'rangec' and c1 is TRUE and not has_sym(inner, a):
            b = tm.fresh('int')
            return r1, a, mk('rangec', tm.ZERO, inner.args[1], tm.ONE), b, tm.add(inner.args[0], tm.mul(b, inner.args[2]))
        if inner.op == 'compr' and r1.op == 'rangec' and c1 is TRUE and inner.args[0].op == 'rangec' and \
                inner.args[2] is TRUE and not has_sym(inner.args[0], a):
            return r1, a, inner.args[0], inner.args[1], inner.args[3]
    return None


def index_nested(S, nb, ee):
    """[f(Z[i]) for i in range(len(Z))] where Z is a rectangular nest: the nest of f(element)"""
    found = {}

    def walk(t):
        if t.op == 'item' and t.args[1] is nb and t.args[0].op == 'flat' and not has_sym(t.args[0], nb):
            found[t] = rect(t.args[0])
            return
        for x in children(t):
            if has_sym(x, nb):
                walk(x)
    walk(ee)
    if not found or any(v is None for v in found.values()):
        return None
    r1, _, r2, _, _ = next(iter(found.values()))
    if any(v[0] is not r1 or v[2] is not r2 for v in found.values()):
        return None
    if l_mul([r1.args[1], r2.args[1]]) is not S.args[1]:
        return None
    na, n2 = tm.fresh('int'), tm.fresh('int')
    m = {}
    for z, (_, a, _, b, e) in found.items():
        m[z] = desc(e, {a: na, b: n2}, {})
    body = canon(desc_nodes(ee, m, {}))
    if has_sym(body, nb):
        return None
    return canon(mk('flat', mk('compr', r1, na, TRUE, mk('compr', r2, n2, TRUE, body))))


def drop_skip(t, SKIP):
    if t.op != 'ite':
        return t
    x, y = drop_skip(t.args[1], SKIP), drop_skip(t.args[2], SKIP)
    if x is SKIP:
        return y
    if y is SKIP:
        return x
    if x is y:
        return x
    return mk('ite', t.args[0], x, y)


def _sum_linear(S, nb, b2):
    """pull constant factors out of a sum over an opaque source, and split additive terms"""
    if b2.op == 'ite':
        # sum of cases: common factor extraction across leaves
        leaves = []

        def walk(t):
            if t.op == 'ite':
                walk(t.args[1]), walk(t.args[2])
            else:
                leaves.append(t)
        walk(b2)
        f = None
        for l in leaves:
            n, d = to_rat(l)
            if not n:
                continue
            g = _inv_factor(n, d, nb)
            if f is None:
                f = g
            elif f is not g:
                f = tm.ONE
        if f is not None and f is not tm.ONE:
            inner = apply(lambda x: l_mul([x, l_pow(f, num(-1))]), [b2])
            return l_mul([f, mk('sum', S, nb, TRUE, inner)])
        return mk('sum', S, nb, TRUE, b2)
    n, d = to_rat(b2)
    out = []
    # group numerator monomials by their invariant part
    groups = {}
    dn_inv = _inv_factor(p_const(1), d, nb)
    n_d, d_d = to_rat(l_mul([mk_rat(p_const(1), d), l_pow(dn_inv, num(-1))]))
    for m, c in n.items():
        inv = tuple((u, e) for u, e in m if not has_sym(tm.by_uid(u), nb))
        var = tuple((u, e) for u, e in m if has_sym(tm.by_uid(u), nb))
        groups.setdefault(inv, {})[var] = c
    # regroup: same variable part -> combine invariants
    byvar = {}
    for inv, vs in groups.items():
        for var, c in vs.items():
            p = byvar.setdefault(var, {})
            p[inv] = p.get(inv, 0) + c
    for var, invp in sorted(byvar.items()):
        if not var and d_d == p_const(1) and n_d == p_const(1):
            cnt = model.seq_len(S)
            out.append(l_mul([mk_rat(invp, p_const(1)), cnt]))
        else:
            body = mk_rat(p_mul({var: F1}, n_d), d_d)
            out.append(l_mul([mk_rat(invp, p_const(1)), mk('sum', S, nb, TRUE, body)]))
    return l_mul([dn_inv, l_add(out)])


def _inv_factor(n, d, nb):
    """invariant monomial factor of n/d as a leaf"""
    def common(p):
        ms = [dict(m) for m in p]
        if not ms:
            return {}
        keys = set(ms[0])
        for m in ms[1:]:
            keys &= set(m)
        return {u: min(m[u] for m in ms) for u in keys if not has_sym(tm.by_uid(u), nb)}

    def allinv(p):
        return all(not has_sym(tm.by_uid(u), nb) for m in p for u, _ in m)
    fn = common(n)
    fs = [l_pow(tm.by_uid(u), num(e)) for u, e in fn.items()]
    if allinv(d):
        fs.append(mk_rat(p_const(1), d))
    else:
        fd = common(d)
        fs += [l_pow(tm.by_uid(u), num(-e)) for u, e in fd.items()]
    if len(n) == 1:
        fs.append(num(list(n.values())[0]))
    return l_mul(fs) if fs else tm.ONE


def _c_arg(op, S, bv, cond, kv):
    S, bv, cond, elt = fuse(S, bv, cond, kv)
    S, rep, nbv = norm_source(S, bv)
    if rep is not None:
        cond, elt = tm.subst(cond, {bv: rep}), tm.subst(elt, {bv: rep})
        bv = nbv
    c, e = truth(cond), canon(elt)
    if e.op == 'kv':
        # the extreme position of a sequence is the position of its extreme element
        d = positions(S, bv, [c, e.args[0]])
        if d is not None:
            pos = mk('posof', d[0], canon(mk(op, d[0], d[1], d[2][0], mk('kv', d[2][1], d[1]))))
            return canon(desc_nodes(e.args[1], {bv: pos}, {}))
    nb = rename_bv(bv, [c, e])
    m = {bv: nb}
    c2, e2 = csubst(c, m), csubst(e, m)
    if e2.op != 'kv':
        return mk(op, S, nb, c2, e2)
    # the selected element, and the value as a function of it
    sel = mk(op, S, nb, c2, mk('kv', e2.args[0], nb))
    if e2.args[1] is nb:
        return sel
    return csubst(e2.args[1], {nb: sel})


def _c_first(S, bv, cond, val, dflt):
    S, bv, cond, val = fuse(S, bv, cond, val)
    els = seq_elems(S)
    if els is not None:
        r = dflt
        for e in reversed(els):
            r = tm.ite(tm.subst(cond, {bv: e}), tm.subst(val, {bv: e}), r)
        return canon(r)
    S, rep, nbv = norm_source(S, bv)
    if rep is not None:
        cond, val = tm.subst(cond, {bv: rep}), tm.subst(val, {bv: rep})
        bv = nbv
    d = positions(S, bv, [cond, val])
    if d is not None:
        return _c_first(d[0], d[1], d[2][0], d[2][1], dflt)
    c, v = truth(cond), canon(val)
    if not has_sym(v, bv):
        # value does not depend on which element matched
        return apply(lambda a_, v_: v_ if a_ is TRUE else dflt, [canon(mk('any', S, bv, TRUE, c)), v])
    nb = rename_bv(bv, [c, v])
    m = {bv: nb}
    return mk('first', S, nb, csubst(c, m), csubst(v, m), dflt)


def _c_foreach(S, bv, body):
    """one effect tree per element; literal sources are unrolled by the interpreter"""
    S, bv, _c, body = fuse(S, bv, TRUE, body) if S.op != 'compr' else _fuse_fe(S, bv, body)
    S, rep, nbv = norm_source(S, bv)
    if rep is not None:
        body = tm.subst(body, {bv: rep})
        bv = nbv
    d = positions(S, bv, [body])
    if d is not None:
        return _c_foreach(d[0], d[1], d[2][0])
    if S.op == 'product':
        bvs = [tm.fresh(model.elem_type(model.typeof(x))) for x in S.args]
        r = tm.subst(body, {bv: tm.tup(*bvs)})
        for x, b in zip(reversed(S.args), reversed(bvs)):
            r = mk('effset', mk('foreach', x, b, r))
        return canon(r)
    if S.op == 'flat' and S.args[0].op == 'compr':
        S1, a_, c1, inner = S.args[0].args
        na = tm.fresh(a_.args[1])
        m1 = {a_: na}
        c1, inner = desc(c1, m1, {}), desc(inner, m1, {})
        return canon(mk('effset', mk('foreach', S1, na, tm.ite(c1, mk('effset', mk('foreach', inner, bv, body)),
                                                             mk('effset')))))
    b = canon(body)
    EFF0 = mk('effs')

    def build(tree):
        if tree is EFF0:
            return EFF0
        nb = rename_bv(bv, [tree])
        return mk('effs', mk('foreach', S, nb, csubst(tree, {bv: nb})))

    return hoist(b, [bv], build)


def _fuse_fe(S, bv, body):
    S2, nb, c, e = fuse(S, bv, TRUE, bv)
    return S2, nb, TRUE, tm.ite(c, tm.subst(body, {bv: e}), mk('effset'))


def _c_fold(t):
    # ('fold', S, bv, idx, k, acc..., init..., next...) all T except idx,k
    S, bv, idx, k = t.args[:4]
    accs = t.args[4:4 + k]
    inits = t.args[4 + k:4 + 2 * k]
    nexts = t.args[4 + 2 * k:4 + 3 * k]
    # keep only the accumulators the result depends on
    need = [idx]
    ch = True
    while ch:
        ch = False
        for i in list(need):
            for j in range(k):
                if j not in need and accs[j] in tm.free_syms(nexts[i]):
                    need.append(j)
                    ch = True
    need = [idx] + [j for j in range(k) if j in need and j != idx]

    def build(S_, *ini):
        els = seq_elems(S_)
        bv2 = bv
        nx = [nexts[j] for j in need]
        S2, rep, nbv = norm_source(S_, bv)
        if rep is not None:
            nx = [tm.subst(x, {bv: rep}) for x in nx]
            bv2 = nbv
        d = positions(S2, bv2, nx)
        if d is not None:
            S2, bv2, nx = d
        m = {accs[j]: mk('bv', 'a%d' % i, 'any') for i, j in enumerate(need)}
        nx = [canon(tm.subst(x, m)) for x in nx]
        nb = rename_bv(bv2, nx)
        nx = [csubst(x, {bv2: nb}) for x in nx]
        return mk('folded', S2, nb, len(ini), *(list(ini) + nx))
    return apply(build, [canon(S)] + [canon(inits[j]) for j in need])


# ------------------------------------------------------------------ effects
def canon_effset(t):
    """('effset', e1, e2, ...) -> tree whose leaves are ('effs', sorted effects)"""
    res = mk('effs')
    for e in t.args:
        c = canon(e)  # an effect node: ite(guard, eff, effset()) or eff
        res = apply(_eff_union, [res, c])
    return res


def _eff_union(x, y):
    def parts(z):
        if z.op == 'effs':
            return set(z.args)
        return {z}
    return mk('effs', *sorted(parts(x) | parts(y), key=lambda u: u.uid))


def same(a, b):
    return canon(a) is canon(b)


def constrain(f, c, ctx=TOP):
    """f wherever c holds, in the form that depends only on f restricted to c (generalised cofactor)"""
    if c is TRUE or f.op != 'ite' and c.op != 'ite':
        return f
    best = None
    for t in (f, c):
        if t.op == 'ite' and (best is None or atom_key(t.args[0]) < atom_key(best)):
            best = t.args[0]
    h1, h0 = ctx.assume(best, True), ctx.assume(best, False)
    c1, c0 = prune(_restrict(c, best, True), h1), prune(_restrict(c, best, False), h0)
    f1, f0 = prune(_restrict(f, best, True), h1), prune(_restrict(f, best, False), h0)
    if c1 is FALSE:
        return constrain(f0, c0, h0)
    if c0 is FALSE:
        return constrain(f1, c1, h1)
    return raw_ite(best, constrain(f1, c1, h1), constrain(f0, c0, h0), ctx)


def children(t):
    if t.op == 'rat' or t.op in ('le', 'ltb'):
        for p in (t.args if t.op == 'rat' else t.args[:1]):
            for m, _ in p:
                for u, _e in m:
                    yield tm.by_uid(u)
        return
    for a in t.args:
        if isinstance(a, T):
            yield a


def assume_none(tree, atom):
    """rewrite a canonical tree knowing that no element of a source satisfies a condition"""
    S, ab, _, cond = atom.args
    m = {}
    seen = set()
    todo = [tree]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('sum', 'any', 'compr', 'dictc') and t.args[0] is S and t is not atom:
            nb = t.args[1]
            ok = b_not(csubst(cond, {ab: nb}))
            cc = t.args[2] if t.args[2] is TRUE else constrain(t.args[2], ok)
            n = mk(t.op, S, nb, cc, constrain(t.args[3], ok))
            if n is not t:
                m[t] = n
        if t.op == 'folded' and t.args[0] is S:
            nb, k = t.args[1], t.args[2]
            ok = b_not(csubst(cond, {ab: nb}))
            n = mk('folded', *(t.args[:3 + k] + tuple(constrain(x, ok) for x in t.args[3 + k:])))
            if n is not t:
                m[t] = n
        todo.extend(children(t))
    if not m:
        return tree
    return canon(desc_nodes(tree, m, {}))


def counted(atom):
    """the sequence whose length alone a comparison is about"""
    if atom.op in ('le', 'ltb'):
        gens = {u for m, _ in atom.args[0] for u, _e in m}
        if len(gens) == 1:
            g = tm.by_uid(gens.pop())
            if g.op == 'call' and g.args[0] == 'len' and len(g.args) == 2:
                return g
    return None


def empty_len(n):
    c = canon(tm.le(n, tm.ZERO))
    return c.args[0] if c.op == 'ite' else c


def assume_empty(tree, n):
    """rewrite a canonical tree knowing that a sequence is empty (n is its length)"""
    X = n.args[1]

    def empty(S):
        return S is X or S.op == 'subs' and X.op == 'attr' and X.args[1] in ('_sublevels', '_subtransitions') and \
            X.args[0] is S.args[0] or S.op == 'rangec' and S.args[1] is n or S.op in ('compr', 'sorted') and \
            empty(S.args[0])
    m = {}
    seen = set()
    todo = [tree]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('sum', 'any', 'compr', 'dictc', 'setc') and empty(t.args[0]):
            m[t] = {'sum': tm.ZERO, 'any': FALSE, 'compr': tm.lst(), 'dictc': mk('dict'), 'setc': mk('set')}[t.op]
        elif t.op == 'effs' and any(x.op == 'foreach' and empty(x.args[0]) for x in t.args):
            m[t] = mk('effs', *[x for x in t.args if not (x.op == 'foreach' and empty(x.args[0]))])
        todo.extend(children(t))
    if not m:
        return tree
    return canon(desc_nodes(tree, m, {}))


def desc_nodes(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    ch = list(children(t))
    if not ch or all(desc_nodes(x, m, memo) is x for x in ch):
        r = t
    else:
        d = {x: desc_nodes(x, m, memo) for x in ch}
        # rebuild through the raw operators
        if t.op == 'rat':
            def poly(p):
                return tm.add(*[tm.mul(num(c), *[tm.power(d[tm.by_uid(u)], num(e)) for u, e in mono])
                                for mono, c in p]) if p else tm.ZERO
            r = tm.div(poly(t.args[0]), poly(t.args[1]))
        elif t.op in ('le', 'ltb'):
            p = tm.add(*[tm.mul(num(c), *[tm.power(d[tm.by_uid(u)], num(e)) for u, e in mono])
                         for mono, c in t.args[0]])
            b = num(t.args[1])
            r = tm.lt(p, b) if t.op == 'ltb' else tm.le(p, b)
        elif t.op == 'sgn':
            r = mk('pow', num(-1), d[t.args[0]])
        elif t.op == 'root':
            r = mk('pow', d[t.args[1]], num(Fraction(1, t.args[0])))
        elif t.op == 'powl':
            r = mk('pow', d[t.args[0]], d[t.args[1]])
        elif t.op == 'absl':
            x = d[t.args[0]]
            r = tm.ite(tm.lt(x, tm.ZERO), tm.neg(x), x)
        else:
            r = tm.rebuild(t.op, tuple(d[a] if isinstance(a, T) else a for a in t.args))
    memo[t] = r
    return r


def same_on_boundary(x, y, path):
    """do two leaves agree where the path leaves only the boundary p = b between two cases"""
    m = {}
    for c, v in path:
        if c.op == 'le' and v:
            if c.args[1] == 0 and len(c.args[0]) == 1 and c.args[0][0][1] > 0 and len(c.args[0][0][0]) == 1:
                # something never negative is at most zero
                g = tm.by_uid(c.args[0][0][0][0][0])
                if model.nonneg(g):
                    m[g] = tm.ZERO
            for c2, v2 in path:
                if c2.op == 'ltb' and not v2 and c2.args[0] == c.args[0] and c2.args[1] == c.args[1]:
                    g = boundary(c.args[0], c.args[1])
                    if g is not None:
                        m[g[0]] = g[1]
    if not m or len(m) > 4:
        return False
    try:
        # one after the other: the values hold together
        for g, val in m.items():
            x, y = canon(desc_nodes(x, {g: val}, {})), canon(desc_nodes(y, {g: val}, {}))
            if x is y:
                return True
        return False
    except Limit:
        return False


def boundary(p, b):
    """(generator, its value) where the polynomial p is b"""
    lin = [(mono[0][0], c) for mono, c in p if len(mono) == 1 and mono[0][1] == 1]
    for u, c in sorted(lin, reverse=True):
        g = tm.by_uid(u)
        rest = [(mono, k) for mono, k in p if mono != ((u, 1),)]
        if any(g in set(tm.nodes(tm.by_uid(w))) for mono, _ in rest for w, _ in mono):
            continue
        r = tm.add(*[tm.mul(num(k), *[tm.power(tm.by_uid(w), num(e)) for w, e in mono]) for mono, k in rest]) \
            if rest else tm.ZERO
        return g, tm.div(tm.sub(num(b), r), num(c))
    return None


def diff(a, b, limit=6):
    """(case description, leaf a, leaf b) for the cases where two normal forms differ"""
    ca, cb = canon(a), canon(b)
    out = []

    def walk(x, y, ctx, path):
        if len(out) >= limit:
            return
        if x is y:
            return
        best = None
        for t in (x, y):
            if t.op == 'ite' and (best is None or atom_key(t.args[0]) < atom_key(best)):
                best = t.args[0]
        if best is None:
            if not same_on_boundary(x, y, path):
                out.append((path, x, y))
            return
        v = ctx.decide(best)
        if v is not None:
            return walk(_restrict(x, best, v), _restrict(y, best, v), ctx, path)
        for val in (True, False):
            x2, y2 = _restrict(x, best, val), _restrict(y, best, val)
            if not val and best.op == 'any' and x2 is not y2:
                x2, y2 = assume_none(x2, best), assume_none(y2, best)
            n = counted(best) if x2 is not y2 else None
            if n is not None and ctx.assume(best, val).decide(empty_len(n)):
                x2, y2 = assume_empty(x2, n), assume_empty(y2, n)
            walk(x2, y2, ctx.assume(best, val), path + [(best, val)])

    walk(ca, cb, TOP, [])
    return out


def explain(x, y, n=0):
    """descend to the innermost place where two normal forms differ"""
    if x is y or n > 60:
        return x, y
    if x.op == 'rat' and y.op == 'rat':
        for px, py in zip(x.args, y.args):
            if px != py:
                dx, dy = dict(px), dict(py)
                ax = {u for m in dx for u, _ in m} - {u for m in dy for u, _ in m}
                ay = {u for m in dy for u, _ in m} - {u for m in dx for u, _ in m}
                if len(ax) == 1 and len(ay) == 1:
                    p, q = tm.by_uid(ax.pop()), tm.by_uid(ay.pop())
                    if p.op == q.op:
                        return explain(p, q, n + 1)
        return x, y
    if x.op != y.op or len(x.args) != len(y.args):
        return x, y
    bad = [(p, q) for p, q in zip(x.args, y.args) if p is not q and p != q]
    if len(bad) >= 1 and all(isinstance(p, T) and isinstance(q, T) for p, q in bad):
        if len(bad) == 1 or x.op in ('ite', 'tuple', 'list', 'effs', 'sum', 'compr', 'foreach', 'call', 'new'):
            return explain(bad[0][0], bad[0][1], n + 1)
    return x, y
