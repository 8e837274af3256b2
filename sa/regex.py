"""Regular expressions of the source: a canonical form, the places of their groups in it, and strings that tell two apart.

A pattern is taken apart into its matching part (the same for every way of capturing) and the place of each group in it.
`[0-9]` and `\\d`, `(?:x)` and `x`, named and numbered groups, `x{1,}` and `x+` come out the same."""
import re
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        from re import _parser as sp, _constants as sc
    except ImportError:     # pragma: no cover
        import sre_parse as sp
        import sre_constants as sc

DIGITS = (sc.RANGE, (48, 57))


def charset(items):
    out = set()
    for op, av in items:
        if (op, av) == DIGITS:
            out.add('d')
        elif op is sc.LITERAL:
            out.add('c%d' % av)
        elif op is sc.RANGE:
            out.add('r%d-%d' % av)
        elif op is sc.CATEGORY:
            out.add('d' if av is sc.CATEGORY_DIGIT else str(av))
        elif op is sc.NEGATE:
            out.add('^')
        else:
            out.add('%s%r' % (op, av))
    return out


def flat(seq, path, groups, kinds):
    """canonical text of a sequence; groups gets the place of every group"""
    out = []

    def put(op, av):
        here = path + (len(out),)
        if op is sc.SUBPATTERN:
            g, add, sub, p = av
            if add or sub:
                raise ValueError('flags inside')
            start = len(out)
            for o, a in p:
                put(o, a)
            if g is not None:
                groups[g] = (path, start, len(out))
                if len(p) == 1 and p[0][0] is sc.IN:
                    kinds[repr(groups[g])] = charset(p[0][1])
        elif op is sc.LITERAL:
            out.append('c%d' % av)
        elif op is sc.NOT_LITERAL:
            out.append('[^,c%d]' % av)
        elif op is sc.ANY:
            out.append('.')
        elif op is sc.IN:
            cs = sorted(charset(av))
            out.append(cs[0] if len(cs) == 1 and cs[0][0] == 'c' and cs[0][1:].isdigit() else '[' + ','.join(cs) + ']')
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            if (lo, hi) == (1, 1):
                for o, a in p:
                    put(o, a)
                return
            body = flat(p, here, groups, kinds)
            out.append('%s{%s,%s}%s' % ('(' + body + ')', lo, 'inf' if hi is sc.MAXREPEAT else hi,
                                        '' if op is sc.MAX_REPEAT else '?'))
        elif op is sc.BRANCH:
            out.append('(' + '|'.join(flat(p, here + (i,), groups, kinds) for i, p in enumerate(av[1])) + ')')
        elif op is sc.AT:
            out.append(str(av))
        else:
            raise ValueError('%s' % op)
    for o, a in seq:
        put(o, a)
    return ''.join(out)


_forms = {}
KINDS = {}          # (canonical text, place) -> the characters of a group of one character
SOURCE = {}         # canonical text -> one pattern with that form


def form(pattern):
    """-> (canonical text, [place of group 1, place of group 2, ...], {name: number}) or None"""
    if pattern not in _forms:
        try:
            tree = sp.parse(pattern)
            groups, kinds = {}, {}
            text = flat(tree, (), groups, kinds)
            for k, v in kinds.items():
                KINDS[text, k] = v
            n = tree.state.groups - 1
            _forms[pattern] = (text, [repr(groups[i + 1]) for i in range(n)], dict(tree.state.groupdict))
            SOURCE.setdefault(text, pattern)
        except (ValueError, re.error, KeyError, OverflowError):
            _forms[pattern] = None
    return _forms[pattern]


def samples(tree, limit=400):
    """strings of the language of a pattern: every branch, every repetition once less and once more"""
    outs = ['']
    for op, av in tree:
        if op is sc.LITERAL:
            opts = [chr(av)]
        elif op is sc.NOT_LITERAL:
            opts = ['x' if av != 120 else 'y']
        elif op is sc.ANY:
            opts = ['1', 'P', '/', ' ']
        elif op is sc.IN:
            opts = []
            for o, a in av:
                if o is sc.LITERAL:
                    opts.append(chr(a))
                elif o is sc.RANGE:
                    opts += [chr(a[0]), chr(a[1])]
                elif o is sc.CATEGORY:
                    opts += ['0', '7'] if a is sc.CATEGORY_DIGIT else ['a', ' ', '5']
            opts = opts[:6] or ['x']
            if any(o is sc.NEGATE for o, _ in av):
                opts = [c for c in 'x1P ]/(' if c not in opts][:3]
        elif op is sc.SUBPATTERN:
            opts = samples(av[3], 60)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            base = samples(p, 12)
            opts = []
            for k in range(lo, min(lo + 2, lo + 2 if hi is sc.MAXREPEAT else hi) + 1):
                if k == 0:
                    opts.append('')
                else:
                    opts += [x * k for x in base] + ([base[0] + base[-1] + base[0] * (k - 2)] if k > 1 else [])
        elif op is sc.BRANCH:
            opts = [x for p in av[1] for x in samples(p, 20)]
        else:
            opts = ['']
        outs = [a + b for a in outs for b in opts]
        if len(outs) > limit:
            step = len(outs) / limit
            outs = [outs[int(i * step)] for i in range(limit)]
    return list(dict.fromkeys(outs))


def separates(p, q):
    """a string on which two patterns find something different, or None"""
    try:
        rp, rq = re.compile(p), re.compile(q)
        base = samples(sp.parse(p)) + samples(sp.parse(q))
    except (re.error, ValueError, OverflowError):
        return None
    some = base[::max(1, len(base) // 40)]
    tries = base + [a + b for a in some for b in some] + ['x' + a + 'y' for a in some] + \
        ['1' + a for a in some] + [a + '2' for a in some] + [a + '*' for a in some] + \
        [a[:i] + a[i + 1:] for a in some for i in range(min(len(a), 12))]
    for t in dict.fromkeys(tries):
        if [m.span() for m in rp.finditer(t)] != [m.span() for m in rq.finditer(t)]:
            return t
    return None


def letters(cap):
    """(upper, lower): the letters one captured character may be, or None when it is not known to be a letter"""
    m, place = cap.args[1:3]
    b = m.args[0] if m.op == 'item' else None
    text = b.args[1].args[0][6:] if b is not None and b.op == 'call' and b.args[0] == 're.findall' else None
    cs = KINDS.get((text, place.args[0]))
    if not cs or not cs <= {'r65-90', 'r97-122'}:
        return None
    return 'r65-90' in cs, 'r97-122' in cs
