@observe(inline=['HFTransition.compute_linewidth'])
def observed_hyperfine_strength(t: 'HFTransition'):
    """relative strength (2F+1)(2F'+1){J' F' I; F J k}^2, k=1 for E1/M1 and 2 for E2; linewidth = parent's A times it"""
    return t.compute_linewidth()


def expected_hyperfine_strength(t):
    from atomtoolkit.wigner import wigner6j
    if t.parent is None or t.parent.A is None:
        return None, 1.0
    I = t.E_1.atom.I
    J1, J2 = t.E_1.term.J, t.E_2.term.J
    F1, F2 = t.E_1.term.F, t.E_2.term.F
    p = t.parent.allowed_types
    w = 0
    if p[0] or p[1]:
        w = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J1, F1, I, F2, J2, 1) ** 2
    elif p[2]:
        w = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J1, F1, I, F2, J2, 2) ** 2
    return t.parent.A * w, w


@observe(inline=['ZTransition.compute_linewidth'])
def observed_zeeman_strength(t: 'ZTransition'):
    """relative strength = sum over polarizations of squared 3j symbols of rank 1 (E1/M1) or 2 (E2)"""
    return t.compute_linewidth()


def expected_zeeman_strength(t):
    from atomtoolkit.wigner import wigner3j
    if t.parent is None or t.parent.A is None:
        return None, 1.0
    F1, F2 = t.E_1.term.F, t.E_2.term.F
    m1, m2 = t.E_1.term.mF, t.E_2.term.mF
    p = t.parent.allowed_types
    w = 0
    if p[0] or p[1]:
        for q in (-1, 0, 1):
            w += wigner3j(F1, 1, F2, -m1, q, m2) ** 2
    elif p[2]:
        for q in (-2, -1, 0, 1, 2):
            w += wigner3j(F1, 2, F2, -m1, q, m2) ** 2
    return t.parent.A * w, w


@observe(inline=['BaseTransition.compute_linewidth'])
def observed_manifold_linewidth(t: 'Transition'):
    """a transition between manifolds keeps the A it was given, expressed in Hz, with relative strength 1"""
    return t.compute_linewidth()


def expected_manifold_linewidth(t):
    from atomtoolkit import Hz
    if t._A is None:
        return None, 1.0
    return t._A.to(Hz), 1.0


@observe(inline_new=['HFTransition', 'ZTransition', 'Transition'], opaque=['compute_linewidth', 'transition_allowed'])
def observed_strength_is_stored(a: 'EnergyLevel', b: 'EnergyLevel', A: 'Quantity'):
    """a new transition carries the linewidth and relative strength computed for it"""
    from atomtoolkit.atom import Transition
    t = Transition(a, b, A=A)
    u = Transition(a, b)
    return t.A, t.rel_strength, u.A, u.rel_strength


def expected_strength_is_stored(a, b, A):
    from atomtoolkit import Hz
    return A.to(Hz), 1.0, None, 1.0
