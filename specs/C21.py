@observe(inline_new=['MultiTerm'])
def observed_order(a: 'Term', b: 'Term', c: 'Term'):
    """a mixture lists its terms by decreasing percentage"""
    from atomtoolkit.term import MultiTerm
    m = MultiTerm(a, b, c)
    return m.terms


def expected_order(a, b, c):
    return sorted([a, b, c], key=lambda t: t.percentage, reverse=True)


@observe(inline=['MultiTerm.__getattribute__', 'MultiTerm.__getitem__', 'MultiTerm.__len__'])
def observed_leading(m: 'MultiTerm', i: 'int'):
    """every quantum number and name asked of a mixture is that of its leading term"""
    return (m.conf, m.term, m.percentage, m.parity, m.J, m.F, m.mF, m.J_frac, m.F_frac, m.mF_frac, m.term_name,
            m.short_name, m.name, m.coupling, m.quantum_nums, m.lc, m.sc, m.lo, m.so, m.jc, m.jo, m.l, m.s, m.k,
            m[i], len(m))


def expected_leading(m, i):
    t = m.terms[0]
    return (t.conf, t.term, t.percentage, t.parity, t.J, t.F, t.mF, t.J_frac, t.F_frac, t.mF_frac, t.term_name,
            t.short_name, t.name, t.coupling, t.quantum_nums, t.lc, t.sc, t.lo, t.so, t.jc, t.jo, t.l, t.s, t.k,
            m.terms[i], len(m.terms))


@observe(inline=['MultiTerm.make_term_copy'])
def observed_copies(m: 'MultiTerm', f: 'halfnn', g: 'half'):
    """copying a mixture copies every one of its terms"""
    return m.make_term_copy(F=f, mF=g)


def expected_copies(m, f, g):
    from atomtoolkit.term import MultiTerm
    return MultiTerm(*[t.make_term_copy(f, g) for t in m.terms])


@observe(inline=['MultiTerm.__eq__'])
def observed_equality(m: 'MultiTerm', n: 'MultiTerm', t: 'Term'):
    """two mixtures are equal when their terms are, one by one; a mixture equals a term when its leading term does"""
    return m == n, m == t


def expected_equality(m, n, t):
    return (len(m.terms) == len(n.terms) and all(m.terms[i] == n.terms[i] for i in range(len(m.terms)))), \
        m.terms[0] == t


@observe(inline=['MultiTerm.__str__', 'MultiTerm.full_name'])
def observed_text(m: 'MultiTerm'):
    """the text forms name the leading term and its percentage"""
    return str(m), m.full_name


def expected_text(m):
    t = m.terms[0]
    return str(t) + ' (' + str(t.percentage) + ')', t.name + ' (' + str(t.percentage) + '%)'


@observe(inline=['MultiTerm.__getattribute__'])
def observed_passthrough(m: 'MultiTerm'):
    """each of the term's own attributes is looked up on the leading term and not on the mixture"""
    from atomtoolkit.term import MultiTerm
    return [MultiTerm.__getattribute__(m, n) for n in (
        'conf', 'term', 'percentage', 'parity', 'J', 'F', 'mF', 'J_frac', 'F_frac', 'mF_frac', 'term_name',
        'short_name', 'name', 'coupling', 'quantum_nums', 'lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')]


def expected_passthrough(m):
    t = m.terms[0]
    return [getattr(t, n) for n in (
        'conf', 'term', 'percentage', 'parity', 'J', 'F', 'mF', 'J_frac', 'F_frac', 'mF_frac', 'term_name',
        'short_name', 'name', 'coupling', 'quantum_nums', 'lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')]
