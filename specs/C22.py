@observe(inline=['get_term_coupling'])
def observed_coupling(term: 'str'):
    """square brackets: LK when the symbol starts with a letter of the angular momentum alphabet, JK otherwise;
    otherwise round brackets: JJ; otherwise more than one character: LS; otherwise unknown"""
    from atomtoolkit.util import get_term_coupling
    return get_term_coupling(term)


def given_coupling(term):
    return len(term) > 0


def expected_coupling(term):
    if '[' in term:
        return 'LK' if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ' else 'JK'
    if '(' in term:
        return 'JJ'
    return 'LS' if len(term) > 1 else 'unknown'


@observe(inline=['get_quantum_nums', 'get_term_coupling'])
def observed_layout(conf: 'str', term: 'str'):
    """the nine quantum numbers are always (lc, sc, lo, so, jc, jo, l, s, k); each coupling scheme fills its own and leaves
    the rest None"""
    from atomtoolkit.util import get_quantum_nums
    return get_quantum_nums(conf, term)


def given_layout(conf, term):
    return len(term) > 0


def expected_layout(conf, term):
    from atomtoolkit.util import parse_LS_term, parse_JK_term, parse_JJ_term, parse_LK_term
    if '[' in term:
        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':
            lc, sc, lo, so, l, k = parse_LK_term(conf, term)
            return lc, sc, lo, so, None, None, l, None, k
        lc, sc, lo, so, jc, k = parse_JK_term(conf, term)
        return lc, sc, lo, so, jc, None, None, None, k
    if '(' in term:
        lc, sc, lo, so, jc, jo = parse_JJ_term(conf, term)
        return lc, sc, lo, so, jc, jo, None, None, None
    if len(term) > 1:
        l, s = parse_LS_term(term)
        return None, None, None, None, None, None, l, s, None
    return None, None, None, None, None, None, None, None, None


@observe(inline=['term_to_LS', 'get_term_coupling'])
def observed_to_ls(conf: 'str', term: 'str', j: 'halfnn'):
    """a term is re-expressed in LS terms by the recoupling of its own scheme, with its own quantum numbers; an LS term is
    itself at 100 percent"""
    from atomtoolkit.util import term_to_LS
    return term_to_LS(conf, term, j)


def given_to_ls(conf, term, j):
    return len(term) > 1


def expected_to_ls(conf, term, j):
    from atomtoolkit.util import get_quantum_nums, readable_JK_to_LS, readable_JJ_to_LS, readable_LK_to_LS
    lc, sc, lo, so, jc, jo, l, s, k = get_quantum_nums(conf, term)
    if '[' in term:
        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':
            return readable_LK_to_LS(J=j, L=l, K=k, sc=sc, so=so)
        return readable_JK_to_LS(J=j, Jc=jc, K=k, lc=lc, sc=sc, lo=lo, so=so)
    if '(' in term:
        return readable_JJ_to_LS(J=j, Jc=jc, Jo=jo, lc=lc, sc=sc, lo=lo, so=so)
    return [(term, 100)]
