from atomtoolkit.atom import HFLevel, ZLevel


@observe(inline_new=['HFLevel'])
def observed_gF(term: 'MultiTerm', parent: 'EnergyLevel'):
    """gF of a hyperfine level from the manifold's gJ (zero for F = 0)"""
    return HFLevel(term=term, parent=parent).gF


def expected_gF(term, parent):
    F = term.F
    J = term.J
    I = parent.atom.I
    if F == 0:
        return 0
    return parent.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))


@observe(inline_new=['ZLevel'])
def observed_gF_zeeman(term: 'MultiTerm', parent: 'HFLevel'):
    """a Zeeman level carries the gF of its hyperfine level and no quadratic shift"""
    z = ZLevel(term=term, parent=parent)
    return z.gF, z.quadratic_zeeman


def expected_gF_zeeman(term, parent):
    F = term.F
    J = term.J
    I = parent.atom.I
    if F == 0:
        return 0, 0
    return parent.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1)), 0


@observe(inline=['HFLevel.shift_Hz'])
def observed_zeeman_shift(level: 'ZLevel'):
    """Zeeman shift = gF mF muB B + quadratic coefficient B^2, muB = 1.39962449361 MHz/G"""
    return level.shift_Hz


def expected_zeeman_shift(level):
    B = level.atom.B_gauss
    return level.gF * level.term.mF * 1.39962449361e6 * B + level.quadratic_zeeman * B ** 2


@observe(inline=['Atom.B'])
def observed_field_units(atom: 'Atom', b: 'Quantity'):
    """the field is stored in gauss and read back as the same quantity"""
    atom.B = b
    return atom.B, atom.B_gauss


def expected_field_units(atom, b):
    from atomtoolkit import G
    return b, b.to(G).magnitude
