@observe(inline=['Transition.transition_allowed'])
def observed_manifold_rules(t: 'Transition'):
    """E1: |dJ|<=1<=J+J', parity changes; M1: same with equal parity; E2: |dJ|<=2<=J+J', equal parity, not within
    one manifold"""
    a = t.transition_allowed()
    return bool(a[0]), bool(a[1]), bool(a[2])


def expected_manifold_rules(t):
    a, b = t.E_1.term, t.E_2.term
    d = a.J - b.J
    dipole = -1 <= d <= 1 and a.J + b.J >= 1
    quad = -2 <= d <= 2 and a.J + b.J >= 2
    return (dipole and a.parity != b.parity, dipole and a.parity == b.parity,
            quad and a.parity == b.parity and t.E_1 is not t.E_2)


@observe()
def observed_hyperfine_rules(t: 'HFTransition'):
    """a hyperfine component is allowed where its parent is and the recoupling coefficient does not vanish"""
    a = t.transition_allowed()
    return bool(a[0]), bool(a[1]), bool(a[2])


def given_hyperfine_rules(t):
    return t.parent is not None


def expected_hyperfine_rules(t):
    from atomtoolkit.wigner import wigner6j
    I = t.E_1.atom.I
    J1, J2 = t.E_1.term.J, t.E_2.term.J
    F1, F2 = t.E_1.term.F, t.E_2.term.F
    p = t.parent.allowed_types
    d = wigner6j(J1, J2, 1, F2, F1, I) != 0
    q = wigner6j(J1, J2, 2, F2, F1, I) != 0
    return d and bool(p[0]), d and bool(p[1]), q and bool(p[2])


@observe()
def observed_zeeman_rules(t: 'ZTransition'):
    """a Zeeman component is allowed where its parent is and a polarization component couples the two mF"""
    a = t.transition_allowed()
    return bool(a[0]), bool(a[1]), bool(a[2])


def expected_zeeman_rules(t):
    from atomtoolkit.wigner import wigner3j
    F1, F2 = t.E_1.term.F, t.E_2.term.F
    m1, m2 = t.E_1.term.mF, t.E_2.term.mF
    p = t.parent.allowed_types
    d = wigner3j(F2, 1, F1, -m2, m2 - m1, m1) != 0 and -1 <= m2 - m1 <= 1
    q = wigner3j(F2, 2, F1, -m2, m2 - m1, m1) != 0 and -2 <= m2 - m1 <= 2
    return d and bool(p[0]), d and bool(p[1]), q and bool(p[2])
