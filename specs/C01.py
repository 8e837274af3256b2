@observe(inline=['HFLevel.level_Hz'])
def observed_hyperfine_energy(level: 'HFLevel'):
    """energy of a hyperfine sublevel = energy of its parent + its own shift, read when asked"""
    return level.level_Hz


def expected_hyperfine_energy(level):
    return level.parent.level_Hz + level.shift_Hz


@observe(inline=['HFLevel.level_Hz'])
def observed_zeeman_energy(level: 'ZLevel'):
    """energy of a Zeeman sublevel = energy of its hyperfine level + its own shift"""
    return level.level_Hz


def expected_zeeman_energy(level):
    return level.manifold.level_Hz + level.parent.shift_Hz + level.shift_Hz


@observe(inline=['HFLevel.level', 'HFLevel.level_Hz'])
def observed_hyperfine_quantity(level: 'HFLevel'):
    """the energy as a quantity agrees with the energy in Hz"""
    return level.level


def expected_hyperfine_quantity(level):
    from atomtoolkit import Hz
    return (level.parent.level_Hz + level.shift_Hz) * Hz


@observe(inline=['HFLevel.level', 'HFLevel.level_Hz'])
def observed_zeeman_quantity(level: 'ZLevel'):
    """the energy as a quantity agrees with the energy in Hz"""
    return level.level


def expected_zeeman_quantity(level):
    from atomtoolkit import Hz
    return (level.manifold.level_Hz + level.parent.shift_Hz + level.shift_Hz) * Hz


@observe(inline=['BaseLevel.level', 'EnergyLevel.level', 'BaseLevel.shift'])
def observed_manifold_quantity(level: 'EnergyLevel'):
    """a manifold's energy and shift as quantities are the stored energy in Hz"""
    return level.level, level.shift, level.shift_Hz


def expected_manifold_quantity(level):
    from atomtoolkit import Hz
    return level.level_Hz * Hz, level.level_Hz * Hz, level.level_Hz


@observe(inline=['BaseLevel.shift'])
def observed_shift_quantity(h: 'HFLevel', z: 'ZLevel'):
    """the shift as a quantity agrees with the shift in Hz"""
    return h.shift, z.shift


def expected_shift_quantity(h, z):
    from atomtoolkit import Hz
    return h.shift_Hz * Hz, z.shift_Hz * Hz


@observe(inline=['HFLevel.level_Hz', 'HFLevel.shift_Hz'])
def observed_follow_parent(level: 'ZLevel', e: 'num', b: 'num', a: 'num'):
    """moving the manifold, the field or the A coefficient moves the sublevel at once"""
    before = level.level_Hz
    level.parent.parent.level_Hz = e
    moved = level.level_Hz - before
    level.atom.B_gauss = b
    level.parent.parent.hfA_Hz = a
    return moved, level.parent.level_Hz


def expected_follow_parent(level, e, b, a):
    m = level.parent.parent
    e0 = m.level_Hz
    m.level_Hz = e
    m.hfA_Hz = a
    return e - e0, e + level.parent.compute_hf_shift()


@observe(inline=['HFLevel.level_Hz', 'HFLevel.shift_Hz'])
def observed_zeeman_follows_field(level: 'ZLevel', b: 'num'):
    """changing the atom's field changes the Zeeman shift at once"""
    level.atom.B_gauss = b
    return level.shift_Hz


def expected_zeeman_follows_field(level, b):
    from atomtoolkit import mu_B, Hz, G
    return level.gF * level.term.mF * mu_B.to(Hz / G).magnitude * b + level.quadratic_zeeman * b ** 2
