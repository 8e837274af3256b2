@observe(inline=['EnergyLevel.compute_gJ'])
def observed_gJ(level: 'EnergyLevel'):
    """the estimated gJ is the percentage-weighted mean of the Lande factors of the pure-LS components"""
    return level.compute_gJ()


def given_gJ(level):
    return len(level.term.terms) > 0


def expected_gJ(level):
    from atomtoolkit.transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
    import numpy as np
    J = level.term.J
    if J == 0:
        return 0
    for t in level.term.terms:
        if t.coupling == 'LS' or t.coupling == 'LK':
            continue
        if t.coupling == 'JJ' and not (t.jc is None or t.jo is None or t.lc is None or t.sc is None
                                       or t.lo is None or t.so is None):
            continue
        if t.coupling == 'JK' and not (t.jc is None or t.k is None or t.lc is None or t.sc is None
                                       or t.lo is None or t.so is None):
            continue
        return 0
    total = 0
    for t in level.term.terms:
        if t.coupling == 'LS':
            rows = np.array([[t.l], [t.s], [1.0]])
        elif t.coupling == 'JJ':
            rows = JJ_to_LS(J, t.jc, t.jo, t.lc, t.sc, t.lo, t.so)
        elif t.coupling == 'JK':
            rows = JK_to_LS(J, t.jc, t.k, t.lc, t.sc, t.lo, t.so)
        else:
            rows = LK_to_LS(J, t.l, t.k, t.sc, t.so)
        L, S, w = rows
        total += t.percentage * sum(w ** 2 * (1 + 1.0023 * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1))))
    return total / sum(t.percentage for t in level.term.terms)


@observe(inline_new=['EnergyLevel'], opaque=['EnergyLevel.compute_gJ'])
def observed_lande_choice(term: 'MultiTerm', energy: 'Quantity', g: 'num'):
    """a given lande factor (zero included) is kept; only an absent one is estimated"""
    from atomtoolkit.atom import EnergyLevel
    return EnergyLevel(term, energy, lande=g).lande, EnergyLevel(term, energy, 0.0).lande


def expected_lande_choice(term, energy, g):
    return g, 0.0
