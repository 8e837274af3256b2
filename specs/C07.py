@observe(inline_new=['EnergyLevel'])
def observed_level_construction(term: 'MultiTerm', e: 'Quantity', a: 'Quantity', b: 'Quantity', c: 'Quantity'):
    """a level keeps the energy and the hyperfine coefficients it was given, whatever unit they came in"""
    from atomtoolkit.atom import EnergyLevel
    x = EnergyLevel(term, e, lande=1, hfA=a, hfB=b, hfC=c)
    return x.level_Hz, x.level, x.hfA_Hz, x.hfB_Hz, x.hfC_Hz, x.hfA, x.hfB, x.hfC


def expected_level_construction(term, e, a, b, c):
    from atomtoolkit import Hz
    return (e.to(Hz).magnitude, e.to(Hz), a.to(Hz).magnitude, b.to(Hz).magnitude, c.to(Hz).magnitude,
            a.to(Hz), b.to(Hz), c.to(Hz))


@observe(inline_new=['EnergyLevel'])
def observed_level_defaults(term: 'MultiTerm', e: 'Quantity'):
    """hyperfine coefficients that are not given are zero"""
    from atomtoolkit.atom import EnergyLevel
    x = EnergyLevel(term, e, lande=1)
    return x.hfA_Hz, x.hfB_Hz, x.hfC_Hz


def expected_level_defaults(term, e):
    return 0, 0, 0


@observe(effects=True)
def observed_level_assignment(x: 'EnergyLevel', e: 'Quantity'):
    """assigning a level energy in any unit stores that energy"""
    x.level = e
    return x.level_Hz, x.level, x.shift_Hz


def expected_level_assignment(x, e):
    from atomtoolkit import Hz
    x._level_Hz = e.to(Hz).magnitude
    return e.to(Hz).magnitude, e.to(Hz), e.to(Hz).magnitude


@observe(effects=True)
def observed_hyperfine_assignment(x: 'EnergyLevel', a: 'Quantity', b: 'Quantity', c: 'Quantity'):
    """assigning the hyperfine coefficients in any unit stores them, each in its own place"""
    x.hfA = a
    x.hfB = b
    x.hfC = c
    return x.hfA_Hz, x.hfB_Hz, x.hfC_Hz, x.hfA, x.hfB, x.hfC


def expected_hyperfine_assignment(x, a, b, c):
    from atomtoolkit import Hz
    x.hfA_Hz = a.to(Hz).magnitude
    x.hfB_Hz = b.to(Hz).magnitude
    x.hfC_Hz = c.to(Hz).magnitude
    return x.hfA_Hz, x.hfB_Hz, x.hfC_Hz, a.to(Hz), b.to(Hz), c.to(Hz)


@observe(inline_new=['Atom'])
def observed_field_construction(b: 'Quantity', i: 'str'):
    """an atom keeps the magnetic field it was given, whatever unit it came in, and reads the spin as a number"""
    from atomtoolkit.atom import Atom
    x = Atom('X', I=i, B=b)
    return x.B_gauss, x.B, x.I


def expected_field_construction(b, i):
    from atomtoolkit import ureg
    from atomtoolkit.util import frac_to_float
    return b.to(ureg.gauss).magnitude, b.to(ureg.gauss), frac_to_float(i)


@observe(effects=True)
def observed_field_assignment(x: 'Atom', b: 'Quantity'):
    """assigning the field in any unit stores that field"""
    x.B = b
    return x.B_gauss, x.B


def expected_field_assignment(x, b):
    from atomtoolkit import ureg
    x.B_gauss = b.to(ureg.gauss).magnitude
    return x.B_gauss, b.to(ureg.gauss)


@observe(inline_new=['Transition'])
def observed_transition_construction(p: 'EnergyLevel', q: 'EnergyLevel', a: 'Quantity', f: 'Quantity'):
    """a transition keeps its A coefficient and its imposed frequency, whatever unit they came in"""
    from atomtoolkit.atom import Transition
    t = Transition(p, q, A=a, freq=f)
    return t.A, t.set_freq, t.rel_strength


def expected_transition_construction(p, q, a, f):
    from atomtoolkit import Hz
    return a.to(Hz), f, 1


@observe(inline=['BaseTransition.compute_linewidth'])
def observed_unknown_linewidth(t: 'Transition'):
    """a transition without an A coefficient has none"""
    return t.compute_linewidth()


def expected_unknown_linewidth(t):
    from atomtoolkit import Hz
    if t._A is None:
        return None, 1
    return t._A.to(Hz), 1
