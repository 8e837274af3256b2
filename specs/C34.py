@observe(inline_new=['LightField'])
def observed_accepts(k: 'any', i: 'num', pol: 'any'):
    """exactly the polarizations of length one (to one part in a million) are accepted"""
    from atomtoolkit.environment import LightField
    try:
        LightField(k, i, pol)
    except AssertionError:
        return False
    return True


def expected_accepts(k, i, pol):
    import numpy as np
    n = np.linalg.norm(pol)
    return n > 1 - 1e-6 and n < 1 + 1e-6


@observe(inline_new=['LightField'])
def observed_keeps(k: 'any', i: 'num', pol: 'any'):
    """a light field keeps the wave vector, the intensity and the polarization it was given"""
    from atomtoolkit.environment import LightField
    f = LightField(k, i, pol)
    return f.k, f.intensity, f.pol


def given_keeps(k, i, pol):
    import numpy as np
    return np.linalg.norm(pol) == 1


def expected_keeps(k, i, pol):
    return k, i, pol


@observe(inline_new=['LightField'])
def observed_default(k: 'any', i: 'num'):
    """unless told otherwise the light is polarised along z"""
    from atomtoolkit.environment import LightField
    return LightField(k, i).pol


def expected_default(k, i):
    import numpy as np
    return np.array([0, 0, 1])


@observe()
def observed_electric(f: 'LightField'):
    """the electric field is sqrt(2 I / (c epsilon_0)) along the polarization"""
    return f.E()


def expected_electric(f):
    import numpy as np
    from atomtoolkit import ureg
    return np.sqrt(2 * f.intensity / (ureg.speed_of_light * ureg.vacuum_permittivity)) * f.pol


@observe()
def observed_magnetic(f: 'LightField'):
    """the magnetic field is the wave vector crossed with the electric field, divided by c"""
    return f.B()


def expected_magnetic(f):
    import numpy as np
    from atomtoolkit import ureg
    return np.cross(f.k, f.E()) / ureg.speed_of_light


@observe()
def observed_beam(b: 'GaussianBeam', z: 'num'):
    """a Gaussian beam widens as w0 sqrt(1 + z^2/zr^2), its wavefronts have the radius z + zr^2/z, and its phase lags by
    arctan(z/zr)"""
    return b.w(z), b.radius_at(z), b.phase_at(z)


def given_beam(b, z):
    return z != 0


def expected_beam(b, z):
    import numpy as np
    return b.w0 * np.sqrt(1 + z ** 2 / b.zr ** 2), z + b.zr ** 2 / z, np.arctan(z / b.zr)
