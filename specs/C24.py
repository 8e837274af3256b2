@observe(inline=['JJ_to_LS'])
def observed_jj(J: 'halfnn', Jc: 'halfnn', Jo: 'halfnn', lc: 'int', sc: 'halfnn', lo: 'int', so: 'halfnn'):
    """jj to LS: rows are every (L, S) of the triangle ranges, amplitude the 9j symbol times the root of the four
    multiplicities"""
    from atomtoolkit.transition_strengths import JJ_to_LS
    a = JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)
    return list(a[0]), list(a[1]), list(a[2])


def given_jj(J, Jc, Jo, lc, sc, lo, so):
    return lc >= 0 and lo >= 0


def expected_jj(J, Jc, Jo, lc, sc, lo, so):
    from atomtoolkit.wigner import wigner9j
    import numpy as np
    Ls = list(np.arange(abs(lc - lo), lc + lo + 1))
    Ss = list(np.arange(abs(sc - so), sc + so + 1))
    pairs = [(L, S) for L in Ls for S in Ss]
    return [p[0] for p in pairs], [p[1] for p in pairs], \
        [((2 * Jc + 1) * (2 * Jo + 1) * (2 * L + 1) * (2 * S + 1)) ** 0.5 * wigner9j(lc, sc, Jc, lo, so, Jo, L, S, J)
         for L, S in pairs]


@observe(inline=['JK_to_LS'])
def observed_jk(J: 'halfnn', Jc: 'halfnn', K: 'halfnn', lc: 'int', sc: 'halfnn', lo: 'int', so: 'halfnn'):
    """jK to LS: rows are every (L, S) of the triangle ranges, amplitude two 6j symbols, the root of the four
    multiplicities and the phase (-1)^(-lc-lo-2sc-so-K-L-J)"""
    from atomtoolkit.transition_strengths import JK_to_LS
    a = JK_to_LS(J, Jc, K, lc, sc, lo, so)
    return list(a[0]), list(a[1]), list(a[2])


def given_jk(J, Jc, K, lc, sc, lo, so):
    return lc >= 0 and lo >= 0


def expected_jk(J, Jc, K, lc, sc, lo, so):
    from atomtoolkit.wigner import wigner6j
    import numpy as np
    Ls = list(np.arange(abs(lc - lo), lc + lo + 1))
    Ss = list(np.arange(abs(sc - so), sc + so + 1))
    pairs = [(L, S) for L in Ls for S in Ss]
    return [p[0] for p in pairs], [p[1] for p in pairs], \
        [(-1) ** (-lc - lo - 2 * sc - so - K - L - J) *
         ((2 * Jc + 1) * (2 * L + 1) * (2 * K + 1) * (2 * S + 1)) ** 0.5 *
         wigner6j(sc, lc, Jc, lo, K, L) * wigner6j(L, sc, K, so, J, S) for L, S in pairs]


@observe(inline=['LK_to_LS'])
def observed_lk(J: 'halfnn', L: 'int', K: 'halfnn', sc: 'halfnn', so: 'halfnn'):
    """LK to LS: the given L with every S of the triangle range, amplitude a 6j symbol and the root of the two
    multiplicities"""
    from atomtoolkit.transition_strengths import LK_to_LS
    a = LK_to_LS(J, L, K, sc, so)
    return list(a[0]), list(a[1]), list(a[2])


def given_lk(J, L, K, sc, so):
    return L >= 0


def expected_lk(J, L, K, sc, so):
    from atomtoolkit.wigner import wigner6j
    import numpy as np
    Ss = list(np.arange(abs(sc - so), sc + so + 1))
    return [L for S in Ss], Ss, [((2 * K + 1) * (2 * S + 1)) ** 0.5 * wigner6j(L, sc, K, so, J, S) for S in Ss]


@observe(inline=['_sets_to_list', 'readable_JJ_to_LS'])
def observed_readable_jj(J: 'halfnn', Jc: 'halfnn', Jo: 'halfnn', lc: 'int', sc: 'halfnn', lo: 'int', so: 'halfnn'):
    """readable form: multiplicity and letter of every component that is present, with its weight in percent rounded to
    two digits"""
    from atomtoolkit.util import readable_JJ_to_LS
    return readable_JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)


def expected_readable_jj(J, Jc, Jo, lc, sc, lo, so):
    from atomtoolkit.transition_strengths import JJ_to_LS
    from atomtoolkit.util import l_to_let
    sets = list(zip(*[list(a) for a in JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)]))
    if len(sets) == 0:
        raise ValueError("no components")
    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * a ** 2, 2)) for l, s, a in sets if a != 0]


@observe(inline=['_sets_to_list', 'readable_JK_to_LS'])
def observed_readable_jk(J: 'halfnn', Jc: 'halfnn', K: 'halfnn', lc: 'int', sc: 'halfnn', lo: 'int', so: 'halfnn'):
    """readable form: multiplicity and letter of every component that is present, with its weight in percent rounded to
    two digits"""
    from atomtoolkit.util import readable_JK_to_LS
    return readable_JK_to_LS(J, Jc, K, lc, sc, lo, so)


def expected_readable_jk(J, Jc, K, lc, sc, lo, so):
    from atomtoolkit.transition_strengths import JK_to_LS
    from atomtoolkit.util import l_to_let
    sets = list(zip(*[list(a) for a in JK_to_LS(J, Jc, K, lc, sc, lo, so)]))
    if len(sets) == 0:
        raise ValueError("no components")
    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * a ** 2, 2)) for l, s, a in sets if a != 0]


@observe(inline=['_sets_to_list', 'readable_LK_to_LS'])
def observed_readable_lk(J: 'halfnn', L: 'halfnn', K: 'halfnn', sc: 'halfnn', so: 'halfnn'):
    """readable form: multiplicity and letter of every component that is present, with its weight in percent rounded to
    two digits"""
    from atomtoolkit.util import readable_LK_to_LS
    return readable_LK_to_LS(J, L, K, sc, so)


def expected_readable_lk(J, L, K, sc, so):
    from atomtoolkit.transition_strengths import LK_to_LS
    from atomtoolkit.util import l_to_let
    sets = list(zip(*[list(a) for a in LK_to_LS(J, L, K, sc, so)]))
    if len(sets) == 0:
        raise ValueError("no components")
    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * a ** 2, 2)) for l, s, a in sets if a != 0]
