"""Loops: unrolled over literal sequences, otherwise summarised by binders."""
from . import terms as tm
from .terms import T, mk, num, s, TRUE, FALSE, NONE, ZERO, ONE, UNBOUND, ite, and_, or_, not_
from . import model
from .interp import Loop, body_names, target_names, rebound_names, Unsupported
from .extcalls import bind_of, sum_node, over


def exec_for(it, fr, target, S, body, orelse, node):
    if S.op == 'ite':
        c = S.args[0]

        def case(i):
            # in the case of this sequence, names that depend on the same condition have one value
            for n, v in list(fr.st.env.items()):
                while isinstance(v, T) and v.op == 'ite' and v.args[0] is c:
                    v = fr.st.env[n] = v.args[i]
            exec_for(it, fr, target, S.args[i], body, orelse, node)
        it.branch_expr(fr, c, lambda: case(1), lambda: case(2))
        return
    els = it.elements(S)
    if els is not None and len(els) <= 64:
        return unroll(it, fr, target, els, body, orelse)
    if S.op == 'listcat':
        # a literal prefix / suffix around symbolic parts: run the parts one after the other
        if not has_break(body) and not has_return(body):
            for p in S.args:
                exec_for(it, fr, target, p, body, [], node)
            it.block(fr, orelse)
            return
    symbolic(it, fr, target, S, body, orelse, node)


def has_break(body):
    import ast
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            if isinstance(n, (ast.For, ast.While)):
                todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def has_return(body):
    import ast
    return any(isinstance(n, (ast.Return,)) for b in body for n in ast.walk(b))


def unroll(it, fr, target, els, body, orelse):
    live0, base0 = fr.st.live, fr.st.base
    fr.gate_env += 1
    brk_all = []
    try:
        for e in els:
            if fr.st.live is FALSE:
                break
            lp = Loop()
            fr.loops.append(lp)
            start = fr.st.live
            nexc, nret = len(fr.st.exc), len(fr.rets)
            it.assign(fr, target, e, force=start is base0)
            it.block(fr, body)
            fr.loops.pop()
            gone = list(lp.brk) + [c for c, _ in fr.st.exc[nexc:]] + [c for c, _ in fr.rets[nret:]]
            fr.st.live = and_(start, not_(or_(*gone))) if gone else start
            brk_all += lp.brk
    finally:
        fr.gate_env -= 1
    if orelse:
        it.block(fr, orelse)
    if brk_all:
        fr.st.live = or_(fr.st.live, *brk_all)
        if not any(True for c, _ in fr.rets) and fr.st.exc == []:
            fr.st.live = live0
    fr.st.base = base0


class Sources:
    """nested iteration (cartesian products and flattened sequences) as a list of binders"""

    def __init__(self):
        self.levels = []      # (src, bv, cond)
        self.bind = None


def sources(it, fr, S):
    r = Sources()

    def go(S_):
        if S_.op == 'product':
            got = []
            for P in S_.args:
                got.append(go(P))
            return tm.tup(*got)
        if S_.op == 'flat':
            c = S_.args[0]
            bv = tm.fresh(c.args[1].args[1])
            m = {c.args[1]: bv}
            r.levels.append([c.args[0], bv, tm.subst(c.args[2], m)])
            return go(it.seq(fr, tm.subst(c.args[3], m)))
        bv, src, c0, e = bind_of(it, S_)
        r.levels.append([src, bv, c0])
        return e
    r.bind = go(S)
    return r


def wrap_sum(lv, e):
    for src, bv, c in reversed(lv):
        e = sum_node(src, bv, c, e)
    return e


def wrap_any(lv, cond):
    for src, bv, c in reversed(lv):
        cond = mk('any', src, bv, TRUE, and_(c, cond))
    return cond


def wrap_list(it, lv, v):
    for src, bv, c in reversed(lv):
        v = it.flat(src, bv, c, v)
    return v


def wrap_foreach(lv, eff):
    for src, bv, c in reversed(lv):
        eff = mk('foreach', src, bv, eff if c is TRUE else ite(c, eff, mk('effset')))
    return eff


def symbolic(it, fr, target, S, body, orelse, node, late=(), types={}):
    st = fr.st
    src = sources(it, fr, S)
    lv = src.levels
    bvs = [b for _, b, _ in lv]
    names = set()
    for x in body:
        names |= body_names(x)
    tnames = set(target_names(target))
    rebound = set()
    for x in body:
        rebound |= rebound_names(x)
    names |= called_closures(it, fr, body, rebound)
    # `obj[key] = value` on a repository object calls its method: the name keeps its value
    names = {n for n in names if n in rebound or n not in st.env or not model.is_class(model.base_type(st.env[n]))}
    carried = sorted(n for n in names if n in st.env and n not in tnames and st.env[n] is not UNBOUND)
    # which heap cells and which variables of other active functions does the body write?  a trial run on a copy
    heap_keys, outer, own = trial(it, fr, target, src.bind, body)
    carried = sorted(set(carried) | {n for n in own if n not in tnames})
    names |= set(carried)
    inv_keys = [k for k in heap_keys if not (tm.free_syms(k[0]) & set(bvs)) and k[0].op != 'new']
    var_keys = [k for k in heap_keys if k not in inv_keys]
    saved_env, saved_heap = dict(st.env), dict(st.heap)
    live0, base0 = st.live, st.base
    accs = {}
    for n in carried:
        accs[n] = mk('acc', 'a%s' % len(accs) + tm.fresh().args[0], types.get(n) or acc_type(saved_env[n]))
        st.env[n] = accs[n]
    # names first assigned inside the loop that survive from one iteration to the next
    for n in late:
        accs[n] = mk('acc', 'b%s' % len(accs) + tm.fresh().args[0], 'any')
        st.env[n] = accs[n]
    oaccs = {}
    outer_before = {(g, n): g.st.env[n] for g, n in outer}
    for g, n in outer:
        init = under(g.st.env[n], it.live_since(g))
        oaccs[g, n] = (mk('acc', 'o%s' % len(oaccs) + tm.fresh().args[0], acc_type(init)), init)
    for (g, n), (a, _) in oaccs.items():
        g.st.env[n] = a
    haccs = {}
    for k in inv_keys:
        init = it.getattr_raw(fr, *k)
        haccs[k] = (mk('acc', 'h%s' % len(haccs) + tm.fresh().args[0], model.typeof(init)), init)
    for k, (a, _) in haccs.items():
        st.heap[k] = a
    # one symbolic iteration
    se, sg = it.effects, it.guard
    it.effects, it.guard = [], TRUE
    st.live = st.base = TRUE
    sexc = st.exc
    st.exc = []
    nret = len(fr.rets)
    lp = Loop()
    fr.loops.append(lp)
    fr.gate_env += 1
    try:
        it.assign(fr, target, src.bind, force=True)
        it.block(fr, body)
    finally:
        fr.loops.pop()
        fr.gate_env -= 1
    st = fr.st
    exc = st.exc
    rets = fr.rets[nret:]
    del fr.rets[nret:]
    effs = it.effects
    it.effects, it.guard = se, sg
    end_env, end_heap = dict(st.env), dict(st.heap)
    end_outer = {(g, n): g.st.env.get(n, UNBOUND) for g, n in oaccs}
    for (g, n), v in outer_before.items():
        g.st.env[n] = v
    st.live, st.base, st.exc = live0, base0, sexc
    # values written to per-element objects are effects of the iteration
    for k in var_keys:
        v = end_heap.get(k)
        if v is not None and k[0] not in it.fresh and v is not model.norm_attr(*k):
            effs.append((TRUE, mk('seteff', k[0], s(k[1]), it.escape(fr, v))))
    if not late:
        acc0 = set(accs.values()) | {a for a, _ in haccs.values()} | {a for a, _ in oaccs.values()}
        keep = {n for n in names - tnames - set(carried) if n != '%yield' and end_env.get(n) is not None
                and saved_env.get(n, UNBOUND) is UNBOUND and outer_env(fr, n) is None
                and tm.free_syms(end_env[n]) & acc0}
        if keep:
            st.env, st.heap = dict(saved_env), dict(saved_heap)
            st.live, st.base, st.exc = live0, base0, sexc
            return symbolic(it, fr, target, S, body, orelse, node, keep, types)
    known = held_types(carried, saved_env, end_env, accs) if not types else {}
    if known:
        st.env, st.heap = dict(saved_env), dict(saved_heap)
        st.live, st.base, st.exc = live0, base0, sexc
        return symbolic(it, fr, target, S, body, orelse, node, late, known)
    for n in late:
        carried.append(n)
        saved_env[n] = UNBOUND
    allacc = set(accs.values()) | {a for a, _ in haccs.values()} | {a for a, _ in oaccs.values()}
    stop = or_(*lp.brk) if lp.brk else FALSE
    retc = or_(*[c for c, _ in rets]) if rets else FALSE
    excc = or_(*[c for c, _ in exc]) if exc else FALSE
    leave = or_(stop, retc, excc)
    # ---- effects
    if effs:
        e = it.effset(effs, fr)
        if tm.free_syms(e) & allacc:
            e = mk('carried', e)
        if leave is not FALSE:
            e = mk('until', leave, e) if not any(c is TRUE for c in (leave,)) else e
        it.emit(fr, wrap_foreach(lv, e))
    st.env, st.heap = dict(end_env), {k: v for k, v in end_heap.items() if k not in var_keys}
    for k in var_keys:
        if k in saved_heap:
            st.heap[k] = saved_heap[k]
    # ---- variables
    finals = {}
    inits = {}
    for n in carried:
        finals[accs[n]] = end_env.get(n, UNBOUND)
        inits[accs[n]] = saved_env[n]
    for k, (a, init) in haccs.items():
        finals[a] = end_heap.get(k, a)
        inits[a] = init
    for k, (a, init) in oaccs.items():
        finals[a] = end_outer[k]
        inits[a] = init
    # after the loop the function has not been left: only `break` cuts the accumulation short
    res = classify(it, fr, lv, finals, inits, allacc, leave if stop is not FALSE else FALSE)
    for n in carried:
        st.env[n] = res[accs[n]]
    for k, (a, init) in haccs.items():
        v = res[a]
        if v is init and k not in saved_heap:
            st.heap.pop(k, None)
        else:
            st.heap[k] = v
    for (g, n), (a, init) in oaccs.items():
        if res[a] is not init:
            it.outer_store(fr, g, n, res[a])
    one = lv[0] if len(lv) == 1 else None
    for n in sorted((names | tnames) - set(carried)):
        v = end_env.get(n)
        if v is None:
            continue
        old = saved_env.get(n, UNBOUND)
        if v is UNBOUND:
            st.env[n] = old
        elif tm.free_syms(v) & allacc:
            st.env[n] = mk('call', 'lastof', v, old)
        elif leave is not FALSE and one is not None and not (tm.free_syms(leave) & allacc):
            st.env[n] = mk('first', one[0], one[1], and_(one[2], leave), v,
                           last_of(it, lv, v, TRUE, old) if not (tm.free_syms(v) & set(bvs)) else
                           mk('call', 'nolast'))
        else:
            st.env[n] = last_of(it, lv, v, TRUE, old)
    # ---- leaving the function from inside the loop
    for conds, what in ((rets, 'ret'), (exc, 'exc')):
        if not conds:
            continue
        if tm.free_syms(leave) & allacc or (one is None and len(conds) > 1):
            raise Unsupported('%s:%s: exit from a loop that depends on carried state' % (
                fr.module.rel, getattr(node, 'lineno', '?')))
    if rets:
        any_leave = wrap_any(lv, leave)
        if one is not None:
            v = UNBOUND
            for c, x in reversed(rets):
                v = ite(c, x, v) if v is not UNBOUND else x
            # effective only when the return is what ends the loop
            val = mk('first', one[0], one[1], and_(one[2], leave), v, UNBOUND) \
                if tm.free_syms(v) & set(bvs) else v
            isret = wrap_any(lv, retc) if leave is retc else \
                mk('truthy', mk('first', one[0], one[1], and_(one[2], leave), retc, FALSE))
        else:
            c, v = rets[0]
            isret = wrap_any(lv, c)
            val = v
            if tm.free_syms(v) & set(bvs):
                val = model.norm_item(wrap_list(it, lv, ite(c, tm.lst(v), tm.lst())), ZERO)
        fr.rets.append((and_(st.live, isret), val))
        st.live = and_(st.live, not_(isret))
    for c, e in exc:
        it.raise_(fr, e, wrap_any(lv, c))
    if orelse:
        if stop is FALSE:
            it.block(fr, orelse)
        else:
            found = wrap_any(lv, stop)
            it.branch_expr(fr, found, lambda: NONE, lambda: it.block(fr, orelse))


def held_types(carried, inits, finals, accs):
    """the class of objects a variable that starts out as None comes to hold"""
    out = {}
    for n in carried:
        if inits[n] is not NONE or finals.get(n) is None:
            continue
        tys = {model.typeof(v) for _, v in leaves(finals[n]) if v is not NONE and v is not accs[n]}
        if len(tys) == 1 and model.is_class(model.base_type(next(v for _, v in leaves(finals[n])
                                                                 if v is not NONE and v is not accs[n]))):
            ty = tys.pop()
            out[n] = ty if ty.startswith('opt[') else 'opt[%s]' % ty
    return out


def called_closures(it, fr, body, rebound):
    """variables of this function that the nested functions it mentions change"""
    import ast
    from .interp import captured_names, nonlocal_names
    out, seen, todo = set(), set(), list(body)
    while todo:
        for n in ast.walk(todo.pop()):
            if not isinstance(n, ast.Name) or n.id in seen:
                continue
            seen.add(n.id)
            v = fr.st.env.get(n.id)
            if v is not None and v.op == 'closure':
                f, _ = it.closure_of(v)
                if f.outer is fr:
                    out |= captured_names(f.node)
                    rebound |= nonlocal_names(f.node)
                    todo += f.node.body if isinstance(f.node.body, list) else [f.node.body]
    return {n for n in out if n in fr.st.env}


def outer_env(fr, n):
    f = fr.outer
    while f is not None:
        if n in f.st.env:
            return f.st.env[n]
        f = f.outer
    return None


def acc_type(v):
    ty = model.typeof(v)
    if v is NONE:
        return 'any'
    if v.op in ('list', 'compr', 'listcat'):
        return 'list[any]' if not v.args else ty
    if v.op in ('num',) or ty in ('int', 'half', 'halfnn'):
        return 'num'
    return ty


def trial(it, fr, target, bind, body):
    """the heap cells and the variables of other active functions that one iteration may write"""
    st0 = fr.st
    others = [(f, dict(f.st.env)) for f in frames(it, fr)]
    fr.st = st0.copy()
    fr.st.live = fr.st.base = TRUE
    fr.st.exc = []
    before = dict(fr.st.heap)
    se, sg, sr, sf = it.effects, it.guard, len(fr.rets), set(it.fresh)
    it.effects, it.guard = [], TRUE
    fr.loops.append(Loop())
    fr.gate_env += 1
    outer = own = []
    try:
        it.assign(fr, target, bind, force=True)
        it.block(fr, body)
        keys = [k for k, v in fr.st.heap.items() if before.get(k) is not v]
        own = [n for n, v in st0.env.items() if v is not UNBOUND and fr.st.env.get(n, UNBOUND) is not v]
        outer = [(f, n) for f, env in others for n, v in env.items()
                 if v is not UNBOUND and f.st.env.get(n, UNBOUND) is not v]
    finally:
        fr.loops.pop()
        fr.gate_env -= 1
        it.effects, it.guard = se, sg
        del fr.rets[sr:]
        fr.st = st0
        for f, env in others:
            f.st.env = env
    return [k for k in keys if k[0] not in it.fresh or k[0] in sf], outer, own


def frames(it, fr):
    """the other functions a call from here may change variables of: the enclosing ones and the active ones"""
    out = []
    for f in [fr] + it.cur[::-1]:
        while f is not None:
            if f is not fr and not any(f is g for g in out):
                out.append(f)
            f = f.outer
    return out


def leaves(t, cond=TRUE):
    if t.op == 'ite':
        yield from leaves(t.args[1], and_(cond, t.args[0]))
        yield from leaves(t.args[2], and_(cond, not_(t.args[0])))
    else:
        yield cond, t


def map_leaves(t, f):
    if t.op == 'ite':
        return ite(t.args[0], map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)


def conds_of(t):
    if t.op == 'ite':
        yield t.args[0]
        yield from conds_of(t.args[1])
        yield from conds_of(t.args[2])


def classify(it, fr, lv, finals, inits, allacc, leave):
    bvs = set(b for _, b, _ in lv)
    res = {}
    todo = [a for a in finals]
    for a in list(todo):
        v = finals[a]
        if v is a:
            res[a] = inits[a]
            todo.remove(a)
    # accumulators that never change are their initial values
    sub0 = {a: inits[a] for a in res}
    if sub0:
        for a in todo:
            finals[a] = tm.subst(finals[a], sub0)
        allacc = allacc - set(sub0)
    for a in list(todo):
        r = one_acc(it, fr, lv, a, finals[a], inits[a], allacc, leave, bvs)
        if r is not None:
            res[a] = r
            todo.remove(a)
    if todo and len(lv) == 1 and leave is FALSE:
        r = arg_extreme(it, lv, {a: finals[a] for a in todo}, inits, allacc)
        if r:
            for a, v in r.items():
                res[a] = v
                todo.remove(a)
    if todo:
        order = sorted(todo, key=lambda a: a.uid)
        if len(lv) == 1:
            S, bv, c = lv[0]
            nx = [ite(c, finals[a], a) for a in order]
            for i, a in enumerate(order):
                if leave is FALSE:
                    res[a] = mk('fold', S, bv, i, len(order), *(order + [inits[x] for x in order] + nx))
                else:
                    res[a] = mk('call', 'foldbrk', mk('fold', S, bv, i, len(order), *(
                        order + [inits[x] for x in order] + nx)), mk('lam', bv, leave))
        else:
            for a in order:
                res[a] = mk('call', 'foldn', a, finals[a], *[x for l in lv for x in l])
    return res


def last_of(it, lv, v, cond, init):
    if v is init:
        return init
    bvs = set(b for _, b, _ in lv)
    if not (tm.free_syms(v) & bvs):
        c = wrap_any(lv, cond)
        return ite(c, v, init)
    if len(lv) == 1:
        S, bv, c = lv[0]
        return mk('last', S, bv, and_(c, cond), v, init)
    return mk('call', 'lastof', v, init)


def one_acc(it, fr, lv, a, v, init, allacc, leave, bvs):
    fs = lambda t: tm.free_syms(t) & allacc
    cs = list(conds_of(v))
    if leave is FALSE and not any(fs(c) for c in cs):
        ls = list(leaves(v))
        # sum
        def term(x):
            if x is a:
                return ZERO
            if x.op == 'add' and list(x.args).count(a) == 1:
                rest = tm.add(*[y for y in x.args if y is not a])
                if not fs(rest):
                    return rest
            return None
        if all(term(x) is not None for _, x in ls):
            e = map_leaves(v, term)
            tot = wrap_sum(lv, e)
            if it.is_arr(init) or it.is_arr(e):
                return it.arith(fr, 'add', init, tot)
            return tm.add(init, tot)

        # product
        # lists
        def tail(x):
            if x is a:
                return tm.lst()
            if x.op == 'listcat' and x.args[0] is a:
                rest = tm.lst()
                for p in x.args[1:]:
                    rest = it.listcat(rest, p)
                if not fs(rest):
                    return rest
            return None
        if all(tail(x) is not None for _, x in ls):
            return it.listcat(it.seq(fr, init), wrap_list(it, lv, map_leaves(v, tail)))

        # dictionaries
        def items_of(d):
            """the key/value pairs of a dict expression, as a sequence"""
            if d.op == 'dict':
                return tm.lst(*[mk('kv', d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)])
            if d.op == 'dictc':
                return mk('compr', *d.args)
            if d.op == 'call' and d.args[0] == 'dictof':
                return d.args[1]
            if d.op == 'ite':
                x, y = items_of(d.args[1]), items_of(d.args[2])
                return ite(d.args[0], x, y) if x is not None and y is not None else None
            if d.op == 'dictupd':
                x, y = items_of(d.args[0]), items_of(d.args[1])
                return it.listcat(x, y) if x is not None and y is not None else None
            if d.op == 'dictadd':
                x = items_of(d.args[0])
                return it.listcat(x, tm.lst(mk('kv', d.args[1], d.args[2]))) if x is not None else None
            return None

        def puts(x):
            out = tm.lst()
            while x is not a:
                if x.op == 'dictadd':
                    more = tm.lst(mk('kv', x.args[1], x.args[2]))
                elif x.op == 'dictupd':
                    more = items_of(x.args[1])
                else:
                    return None
                if more is None or fs(more):
                    return None
                out = it.listcat(more, out)
                x = x.args[0]
            return out
        if all(puts(x) is not None for _, x in ls):
            d = it.dict_of_kv(wrap_list(it, lv, map_leaves(v, puts)))
            return it.dict_update(init, d)

        def sadd(x):
            out = []
            while x.op == 'setadd':
                out.append(x.args[1])
                x = x.args[0]
            return tm.lst(*reversed(out)) if x is a and not any(fs(o) for o in out) else None
        if all(sadd(x) is not None for _, x in ls):
            new = wrap_list(it, lv, map_leaves(v, sadd))
            if init.op == 'set' and not init.args:
                return mk('call', 'setof', new)
            return mk('call', 'setof', it.listcat(tm.lst(*init.args), new)) if init.op == 'set' else None
        # overwritten on some iterations
        if all(x is a or not fs(x) for _, x in ls):
            upd = or_(*[c for c, x in ls if x is not a])
            vals = [x for _, x in ls if x is not a]
            if all(x is vals[0] for x in vals):
                return last_of(it, lv, vals[0], upd, init)
            val = map_leaves(v, lambda x: UNBOUND if x is a else x)
            return last_of(it, lv, val, upd, init)
        # running product
        def fac(x):
            if x is a:
                return ONE
            if x.op == 'mul' and list(x.args).count(a) == 1:
                rest = tm.mul(*[y for y in x.args if y is not a])
                if not fs(rest):
                    return rest
            return None
        if len(lv) == 1 and all(fac(x) is not None for _, x in ls):
            S, bv, c = lv[0]
            return tm.mul(init, mk('call', 'prodof', mk('compr', S, bv, c, map_leaves(v, fac))))
    # boolean flags
    if leave is FALSE and (tm.is_boolish(init)):
        # v = a or e  /  a and e
        tv = tm.subst(v, {a: TRUE})
        fv = tm.subst(v, {a: FALSE})
        if not fs(tv) and not fs(fv):
            if tv is TRUE:
                return or_(it.truth(init), wrap_any(lv, it.truth(fv)))
            if fv is FALSE:
                return and_(it.truth(init), not_(wrap_any(lv, not_(it.truth(tv)))))
    # search loops: the value when the loop is left early
    if leave is not FALSE and not fs(leave) and len(lv) == 1:
        S, bv, c = lv[0]
        # nothing changes on iterations that go on
        go = under(v, not_(leave))
        if go is a:
            out = under(v, leave)
            if not fs(out):
                return mk('first', S, bv, and_(c, leave), out, init)
            if out is a:
                return init
    # running extremum of each group
    if leave is FALSE and len(lv) == 1 and init.op == 'dict' and not init.args:
        r = running_groups(it, lv[0], a, v, fs)
        if r is not None:
            return r
    # running extremum
    if leave is FALSE and len(lv) == 1:
        for which in ('min', 'max'):
            r = running(lv[0], a, v, init, fs, which)
            if r is not None:
                return r
    return None


def under(t, c):
    """t under the assumption c (syntactic)"""
    if t.op != 'ite':
        return t
    k = t.args[0]
    parts = c.args if c.op == 'and' else (c,)
    if k in parts or and_(c, k) is c:
        return under(t.args[1], c)
    if not_(k) in parts or and_(c, k) is FALSE:
        return under(t.args[2], c)
    # a disjunction assumed false
    return ite(k, under(t.args[1], c), under(t.args[2], c))


def running_groups(it, l, a, v, fs):
    """if k not in d or x < d[k]: d[k] = x   :   the least x of each k"""
    S, bv, c = l
    adds = [y for _, y in leaves(v) if y is not a]
    if not adds or any(y.op != 'dictadd' or y.args[0] is not a for y in adds):
        return None
    k = adds[0].args[1]
    if fs(k) or any(y.args[1] is not k for y in adds):
        return None
    there = it.isin(None, k, a)
    new, old = tm.subst(v, {there: FALSE}), tm.subst(v, {there: TRUE})
    if new.op != 'dictadd' or new.args[0] is not a or fs(new.args[2]):
        return None
    x = new.args[2]
    held = model.norm_item(a, k)
    put = mk('dictadd', a, k, x)
    for which, tests in (('min', (tm.lt(x, held), tm.le(x, held))), ('max', (tm.lt(held, x), tm.le(held, x)))):
        if any(old is ite(t, put, a) for t in tests) or \
                any(old is mk('dictadd', a, k, ite(t, x, held)) for t in tests):
            b2 = tm.fresh(bv.args[1])
            same = tm.eq(tm.subst(k, {bv: b2}), k)
            best = mk(which + 'of', S, b2, and_(tm.subst(c, {bv: b2}), same), tm.subst(x, {bv: b2}))
            return mk('dictc', S, bv, c, mk('kv', k, best))
    return None


def running(l, a, v, init, fs, which):
    S, bv, c = l
    if v.op != 'ite':
        return None
    t, x, y = v.args
    if y is not a:
        if x is a:
            t, x, y = not_(t), y, x
        else:
            return None
    if fs(x):
        return None
    want = tm.lt(x, a) if which == 'min' else tm.lt(a, x)
    if t is want or t is (tm.le(x, a) if which == 'min' else tm.le(a, x)):
        m = mk(which + 'of', S, bv, c, x)
        best = tm.lt(m, init) if which == 'min' else tm.lt(init, m)
        return ite(and_(mk('any', S, bv, TRUE, c), best), m, init)
    return None


def arg_extreme(it, lv, finals, inits, allacc):
    """loops that keep the first element with the smallest / largest key (None-initialised)"""
    S, bv, c = lv[0]
    lead = None
    for a, v in finals.items():
        if inits[a] is not NONE:
            continue
        for which in ('min', 'max'):
            # value of the update once something is held
            held = tm.subst(v, {tm.isnone(a): FALSE})
            first = under_isnone(v, a)
            if held.op != 'ite' or tm.free_syms(first) & allacc:
                continue
            t, x, y = held.args
            if y is not a:
                t, x, y = not_(t), y, x
            if y is not a or x is not first:
                continue
            key = None
            strict = t
            for op in ('lt',):
                if strict.op == 'lt':
                    p, q = strict.args if which == 'min' else reversed(strict.args)
                    if not tm.free_syms(p) & allacc and (q is tm.subst_exact(p, first, a) or
                                                         looked_up(it, S, bv, tm.subst(q, {a: first})) is p):
                        key = p
            if key is not None:
                lead = (a, which, t, key, first)
                break
        if lead:
            break
    if not lead:
        return None
    a, which, t, key, first = lead
    m = mk('arg' + which, S, bv, c, mk('kv', key, first))
    some = mk('any', S, bv, TRUE, c)
    out = {a: m}     # (nothing at all over an empty source)
    for b, v in finals.items():
        if b is a:
            continue
        w = tm.subst(v, {tm.isnone(a): FALSE})
        if w.op != 'ite' or w.args[2] is not b or w.args[0] is not t or tm.free_syms(w.args[1]) & allacc:
            return None
        i = inits[b]
        guard = (lambda x: x) if i is NONE or i is UNBOUND else (lambda x: ite(some, x, i))
        out[b] = guard(tm.subst_exact(w.args[1], first, m) if first is not w.args[1] else m)
        if tm.free_syms(out[b]) & {bv}:
            out[b] = guard(mk('arg' + which, S, bv, c, mk('kv', key, w.args[1])))
    return out


def looked_up(it, S, bv, t):
    """the node a graph has under the name of one of its nodes is that node"""
    if S.op != 'nodes':
        return t
    at = it.node_at(S.args[0], model.norm_attr(bv, 'name'))
    return tm.subst_exact(t, at, bv)


def under_isnone(v, a):
    return tm.subst(v, {tm.isnone(a): TRUE})


def broken_off(node):
    """while True: A; if c: break; B   ==   A; while not c: B; A"""
    import ast
    if not (isinstance(node.test, ast.Constant) and node.test.value) or node.orelse:
        return None
    at = [i for i, x in enumerate(node.body) if isinstance(x, ast.If) and has_break([x])]
    if len(at) != 1 or has_break(node.body[:at[0]] + node.body[at[0] + 1:]):
        return None
    for x in node.body:
        for n in ast.walk(x):
            if isinstance(n, ast.Continue):
                return None
    i = at[0]
    x = node.body[i]
    if len(x.body) == 1 and isinstance(x.body[0], ast.Break) and not has_break(x.orelse):
        test, rest = ast.UnaryOp(ast.Not(), x.test), x.orelse
    elif len(x.orelse) == 1 and isinstance(x.orelse[0], ast.Break) and not has_break(x.body):
        test, rest = x.test, x.body
    else:
        return None
    pre = node.body[:i]
    body = rest + node.body[i + 1:] + pre
    if not body:
        return None
    w = ast.fix_missing_locations(ast.copy_location(ast.While(ast.copy_location(test, x), body, []), node))
    return pre, w


def exec_while(it, fr, node):
    """counter loops become ranges; anything else is kept as an uninterpreted while node"""
    st = fr.st
    b = broken_off(node)
    if b is not None:
        it.block(fr, b[0])
        exec_while(it, fr, b[1])
        return
    names = set()
    for x in node.body:
        names |= body_names(x)
    carried = sorted(n for n in names if n in st.env)
    # literal unrolling while the test is decided
    for _ in range(64):
        t = it.truth(it.ev(fr, node.test))
        if t is FALSE:
            it.block(fr, node.orelse)
            return
        if t is not TRUE:
            break
        lp = Loop()
        fr.loops.append(lp)
        start, base0 = fr.st.live, fr.st.base
        fr.gate_env += 1
        nexc, nret = len(fr.st.exc), len(fr.rets)
        try:
            it.block(fr, node.body)
        finally:
            fr.gate_env -= 1
            fr.loops.pop()
        gone = list(lp.brk) + [c for c, _ in fr.st.exc[nexc:]] + [c for c, _ in fr.rets[nret:]]
        if gone and not any(c is start for c in gone):
            raise Unsupported('%s:%s: while loop with a conditional exit' % (fr.module.rel, node.lineno))
        if gone:
            if lp.brk:
                fr.st.live = start
            return
        fr.st.live = start
    if counter_while(it, fr, node) or limit_while(it, fr, node):
        return
    raise Unsupported('%s:%s: while loop' % (fr.module.rel, node.lineno))


def limit_while(it, fr, node):
    """the state after `while c: x = f(x)` is the limit of repeating  x := f(x) if c else x  for ever"""
    if has_break(node.body) or has_return(node.body):
        return False
    st = fr.st
    names = set()
    for x in node.body:
        names |= body_names(x)
    rebound = set()
    for x in node.body:
        rebound |= rebound_names(x)
    names |= called_closures(it, fr, node.body, rebound)
    names = {n for n in names if n in rebound or n not in st.env or not model.is_class(model.base_type(st.env[n]))}
    carried = sorted(n for n in names if n in st.env and st.env[n] is not UNBOUND)
    if any(n not in carried for n in names):
        return False
    nothing = __import__('ast').Name(id='%none', ctx=__import__('ast').Store())
    keys, outer, own = trial(it, fr, nothing, NONE, node.body)
    if outer or any(n not in carried for n in own):
        return False
    saved_env, saved_heap = dict(st.env), dict(st.heap)
    live0, base0, sexc = st.live, st.base, st.exc
    accs, inits = {}, {}
    for n in carried:
        a = mk('acc', 'w%s' % len(accs) + tm.fresh().args[0], acc_type(saved_env[n]))
        accs[('n', n)], inits[a] = a, saved_env[n]
    for k in keys:
        init = it.getattr_raw(fr, *k)
        a = mk('acc', 'w%s' % len(accs) + tm.fresh().args[0], acc_type(init))
        accs[('h', k)], inits[a] = a, init
    for (w, k), a in accs.items():
        if w == 'n':
            st.env[k] = a
        else:
            st.heap[k] = a
    se, sg, nret = it.effects, it.guard, len(fr.rets)
    it.effects, it.guard = [], TRUE
    st.live = st.base = TRUE
    st.exc = []
    fr.loops.append(Loop())
    fr.gate_env += 1
    try:
        test = it.truth(it.ev(fr, node.test))
        it.block(fr, node.body)
    finally:
        fr.loops.pop()
        fr.gate_env -= 1
    st = fr.st
    plain = not it.effects and not st.exc and len(fr.rets) == nret
    end_env, end_heap = dict(st.env), dict(st.heap)
    it.effects, it.guard = se, sg
    del fr.rets[nret:]
    st.env, st.heap = saved_env, saved_heap
    st.live, st.base, st.exc = live0, base0, sexc
    if not plain:
        return False
    nexts = {}
    for (w, k), a in accs.items():
        v = end_env.get(k, UNBOUND) if w == 'n' else end_heap.get(k, a)
        nexts[a] = ite(test, v, a)
    order = [a for a in accs.values() if nexts[a] is not a]
    sub0 = {a: inits[a] for a in accs.values() if nexts[a] is a}
    S, bv = mk('call', 'forever'), tm.fresh('int')
    nx = [tm.subst(nexts[a], sub0) for a in order]
    for (w, k), a in accs.items():
        if a in sub0:
            continue
        v = mk('fold', S, bv, order.index(a), len(order), *(order + [inits[x] for x in order] + nx))
        if w == 'n':
            st.env[k] = v
        else:
            st.heap[k] = v
    it.block(fr, node.orelse)
    return True


def counter_while(it, fr, node):
    """i = a; while i < n: body; i += 1   ==   for i in range(a, n): body"""
    import ast
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and
            isinstance(t.left, ast.Name)):
        return False
    i = t.left.id
    last = node.body[-1]
    step = None
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and \
            last.target.id == i:
        step = it.ev(fr, last.value)
    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and \
            last.targets[0].id == i and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and \
            isinstance(last.value.left, ast.Name) and last.value.left.id == i:
        step = it.ev(fr, last.value.right)
    if step is None or step.op != 'num' or step.args[0] <= 0:
        return False
    body = node.body[:-1]
    for x in body:
        if i in body_names(x):
            return False
        for n in ast.walk(x):
            if isinstance(n, ast.Continue):
                return False
    names = set()
    for x in body:
        names |= rebound_names(x)
    for n in ast.walk(t.comparators[0]):
        if isinstance(n, ast.Name) and n.id in names:
            return False
    a = fr.st.env.get(i)
    n = limit = it.ev(fr, t.comparators[0])
    if isinstance(t.ops[0], ast.LtE):
        n = tm.add(n, ONE) if model.typeof(n) == 'int' else tm.add(n, num(step.args[0] / 2))
    after = None
    if used_after(fr, node, i):
        if has_break(body) or has_return(body) or step is not ONE or \
                not model.typeof(a) == model.typeof(n) == 'int':
            return False
        after = tm.ite(tm.lt(a, n), n, a)
    tgt = ast.Name(id=i, ctx=ast.Store())
    S = over(n, lambda n_: mk('rng', a, n_, step, s('range' if model.typeof(a) == 'int' and
                                                    step.args[0].denominator == 1 else 'arange')))
    exec_for(it, fr, tgt, S, body, node.orelse, node)
    if after is not None:
        fr.st.env[i] = after
    if it.ev(fr, t.comparators[0]) is not limit:
        raise Unsupported('%s:%s: while loop whose bound changes' % (fr.module.rel, node.lineno))
    return True


def used_after(fr, node, name):
    """is the variable read outside the loop, further down or around it"""
    import ast
    inside = set(map(id, ast.walk(node)))
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in inside and
               (fr.loops or n.lineno >= node.lineno) for n in ast.walk(fr.func.node))
