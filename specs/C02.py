@observe(inline=['HFLevel.level', 'HFLevel.level_Hz'], effects=True)
def observed_set_hyperfine(level: 'HFLevel', q: 'Quantity'):
    """setting a hyperfine level's energy moves its manifold by the difference and reads back"""
    level.level = q
    return level.level, level.parent.level


def expected_set_hyperfine(level, q):
    from atomtoolkit import Hz
    p = level.parent
    before = p.level_Hz
    p.level_Hz = q.to(Hz).magnitude - level.shift_Hz
    return q, q - level.shift_Hz * Hz


@observe(inline=['HFLevel.level', 'HFLevel.level_Hz'], effects=True)
def observed_set_zeeman(level: 'ZLevel', q: 'Quantity'):
    """setting a Zeeman level's energy moves its manifold by the difference and reads back"""
    level.level = q
    return level.level


def expected_set_zeeman(level, q):
    from atomtoolkit import Hz
    level.parent.parent.level_Hz = q.to(Hz).magnitude - level.shift_Hz - level.parent.shift_Hz
    return q


@observe(inline=['BaseLevel.level', 'EnergyLevel.level'], effects=True)
def observed_set_manifold(level: 'EnergyLevel', q: 'Quantity'):
    """setting a manifold's energy stores it in Hz"""
    level.level = q
    return level.level, level.level_Hz


def expected_set_manifold(level, q):
    from atomtoolkit import Hz
    level.level_Hz = q.to(Hz).magnitude
    return q, q.to(Hz).magnitude
