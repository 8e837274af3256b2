@observe(effects=True, inline=['EnergyLevel.populate_sublevels'])
def observed_hyperfine_sublevels(level: 'EnergyLevel'):
    """a manifold gets one hyperfine level for every F from |J-I| to J+I in unit steps, under its F label"""
    level.populate_sublevels()


def given_hyperfine_sublevels(level):
    return level.atom is not None


def expected_hyperfine_sublevels(level):
    import numpy as np
    from atomtoolkit.atom import HFLevel
    from atomtoolkit import util
    J = level.term.J
    I = level.atom.I
    for f in np.arange(abs(J - I), J + I + 1):
        level['F=' + util.float_to_frac(f)] = HFLevel(term=level.term.make_term_copy(F=f), parent=level)


@observe(effects=True, inline=['HFLevel.populate_sublevels'])
def observed_zeeman_sublevels(level: 'HFLevel'):
    """a hyperfine level gets one Zeeman level for every mF from -F to F in unit steps, under its mF label"""
    level.populate_sublevels()


def expected_zeeman_sublevels(level):
    import numpy as np
    from atomtoolkit.atom import ZLevel
    from atomtoolkit import util
    F = level.term.F
    for m in np.arange(-F, F + 1):
        level['mF=' + util.float_to_frac(m)] = ZLevel(term=level.term.make_term_copy(mF=m), parent=level)


@observe(effects=True, inline=['ZLevel.populate_sublevels'])
def observed_zeeman_leaves(level: 'ZLevel'):
    """a Zeeman level has no sublevels"""
    return level.populate_sublevels()


def expected_zeeman_leaves(level):
    return None
