@observe(inline=['BaseTransition.freq_Hz', 'BaseTransition.freq', 'BaseTransition.wl'])
def observed_frequency(t: 'Transition'):
    """frequency = |difference of the two level energies|, as a number and as a quantity"""
    return t.freq_Hz, t.freq


def expected_frequency(t):
    from atomtoolkit import Hz
    return abs(t.E_1.level_Hz - t.E_2.level_Hz), abs(t.E_1.level_Hz - t.E_2.level_Hz) * Hz


@observe(inline=['BaseTransition.freq_Hz', 'BaseTransition.freq', 'BaseTransition.wl'])
def observed_sub_frequency(t: 'HFTransition', z: 'ZTransition'):
    """the same for transitions between sublevels"""
    return t.freq_Hz, t.freq, z.freq_Hz, z.freq


def expected_sub_frequency(t, z):
    from atomtoolkit import Hz
    a = abs(t.E_1.level_Hz - t.E_2.level_Hz)
    b = abs(z.E_1.level_Hz - z.E_2.level_Hz)
    return a, a * Hz, b, b * Hz


@observe(inline=['BaseTransition.wl'])
def observed_wavelength(t: 'Transition', z: 'ZTransition'):
    """the wavelength is the frequency expressed in nanometres"""
    return t.wl, z.wl


def expected_wavelength(t, z):
    from atomtoolkit import ureg
    return t.freq.to(ureg.nanometer), z.freq.to(ureg.nanometer)


@observe(inline_new=['Transition', 'HFTransition', 'ZTransition'])
def observed_upper_lower(a: 'EnergyLevel', b: 'EnergyLevel'):
    """the upper level of a new transition is the one with the higher energy (the first on a tie)"""
    from atomtoolkit.atom import Transition
    t = Transition(a, b)
    return t.E_1, t.E_2, t.E_upper, t.E_lower, t.atom


def expected_upper_lower(a, b):
    if b.level_Hz > a.level_Hz:
        return a, b, b, a, a.atom
    return a, b, a, b, a.atom


@observe(inline_new=['Transition', 'HFTransition', 'ZTransition'])
def observed_sub_upper_lower(a: 'HFLevel', b: 'HFLevel', c: 'ZLevel', d: 'ZLevel', p: 'Transition', q: 'HFTransition'):
    """the same for transitions between sublevels"""
    from atomtoolkit.atom import HFTransition, ZTransition
    t = HFTransition(a, b, parent=p)
    z = ZTransition(c, d, parent=q)
    return (t.E_1, t.E_2, t.E_upper, t.E_lower), (z.E_1, z.E_2, z.E_upper, z.E_lower)


def expected_sub_upper_lower(a, b, c, d, p, q):
    x = (a, b, b, a) if b.level_Hz > a.level_Hz else (a, b, a, b)
    y = (c, d, d, c) if d.level_Hz > c.level_Hz else (c, d, c, d)
    return x, y
