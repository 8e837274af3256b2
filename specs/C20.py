@observe(inline_new=['Term'])
def observed_names(conf: 'str', term: 'str', j: 'str', f: 'str', m: 'str'):
    """names: configuration, term and J; with F= for a hyperfine term; with F= and mF= for a Zeeman term. Short names:
    term and J, F= alone, mF= alone. A star in the term symbol means odd parity"""
    from atomtoolkit.term import Term
    a = Term(conf, term, j)
    b = Term(conf, term, j, F=f)
    c = Term(conf, term, j, F=f, mF=m)
    return (a.name, a.term_name, a.short_name, b.name, b.term_name, b.short_name, c.name, c.term_name, c.short_name,
            a.parity, c.J, c.F, c.mF, c.J_frac, c.F_frac, c.mF_frac, a.percentage)


def expected_names(conf, term, j, f, m):
    from atomtoolkit.util import frac_to_float, float_to_frac
    J, F, M = frac_to_float(j), frac_to_float(f), frac_to_float(m)
    base = term + float_to_frac(J)
    hf = base + ' F=' + float_to_frac(F)
    z = hf + ' mF=' + float_to_frac(M)
    return (conf + ' ' + base, base, base, conf + ' ' + hf, hf, 'F=' + float_to_frac(F),
            conf + ' ' + z, z, 'mF=' + float_to_frac(M),
            -1 if '*' in term else 1, J, F, M, float_to_frac(J), float_to_frac(F), float_to_frac(M), 100)


@observe(inline_new=['Term'])
def observed_quantum_numbers(conf: 'str', term: 'str', j: 'str'):
    """the quantum numbers are those read from the configuration and the term symbol, unless they are given"""
    from atomtoolkit.term import Term
    a = Term(conf, term, j)
    b = Term(conf, term, j, quantum_nums=(1, 2, 3, 4, 5, 6, 7, 8, 9))
    return (a.quantum_nums, a.lc, a.sc, a.lo, a.so, a.jc, a.jo, a.l, a.s, a.k, a.coupling,
            b.lc, b.sc, b.lo, b.so, b.jc, b.jo, b.l, b.s, b.k)


def expected_quantum_numbers(conf, term, j):
    from atomtoolkit.util import get_quantum_nums, get_term_coupling
    q = get_quantum_nums(conf, term)
    return (q, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], get_term_coupling(term), 1, 2, 3, 4, 5, 6, 7, 8, 9)


@observe(inline_new=['Term'])
def observed_given_numbers(conf: 'str', term: 'str', j: 'halfnn', q: 'opt[num]', r: 'opt[num]', v: 'opt[num]', p: 'num'):
    """quantum numbers that are given are kept even where some of them are missing or zero; so is the percentage"""
    from atomtoolkit.term import Term
    b = Term(conf, term, j, percentage=p, quantum_nums=(q, r, None, None, 0, None, v, q, None))
    return (b.quantum_nums, b.lc, b.sc, b.lo, b.so, b.jc, b.jo, b.l, b.s, b.k, b.percentage, b.J, b.F, b.mF, b.conf,
            b.term)


def expected_given_numbers(conf, term, j, q, r, v, p):
    return ((q, r, None, None, 0, None, v, q, None), q, r, None, None, 0, None, v, q, None, p, j, None, None, conf, term)


@observe(inline_new=['Term'])
def observed_numeric(conf: 'str', term: 'str', j: 'halfnn', f: 'halfnn', m: 'half'):
    """J, F and mF may be given as numbers, zero included, and name the term in the same way"""
    from atomtoolkit.term import Term
    c = Term(conf, term, j, F=f, mF=m)
    return c.name, c.short_name, c.J, c.F, c.mF


def expected_numeric(conf, term, j, f, m):
    from atomtoolkit.util import float_to_frac
    short = 'mF=' + float_to_frac(m)
    return conf + ' ' + term + float_to_frac(j) + ' F=' + float_to_frac(f) + ' ' + short, short, j, f, m


@observe(inline=['Term.__eq__'])
def observed_equality(a: 'Term', b: 'Term'):
    """two terms are equal when configuration, term symbol, quantum numbers, J, F and mF all are"""
    return a == b


def expected_equality(a, b):
    return (a.conf == b.conf and a.term == b.term and a.quantum_nums == b.quantum_nums and a.J == b.J and
            a.F == b.F and a.mF == b.mF)


@observe(inline=['Term.make_term_copy'])
def observed_copy(t: 'Term', f: 'halfnn', m: 'half'):
    """a copy keeps everything and takes the given F and mF; a hyperfine term keeps its own F"""
    return t.make_term_copy(F=f, mF=m), t.make_term_copy(F=f), t.make_term_copy(mF=m)


def expected_copy(t, f, m):
    from atomtoolkit.term import Term

    def one(F, mF):
        return Term(t.conf, t.term, t.J, F=F if t.F is None else t.F, mF=mF, percentage=t.percentage,
                    quantum_nums=t.quantum_nums)
    return one(f, m), one(f, None), one(None, m)
