@observe(inline=['lorentzian', 'gaussian'])
def observed_profiles(x: 'num', x0: 'num', w: 'num', a: 'num'):
    """a Lorentzian of FWHM w and peak a; a Gaussian of standard deviation w and peak a; peak 1 unless given"""
    from atomtoolkit.render.lineshapes import lorentzian, gaussian
    return lorentzian(x, x0, w, a), lorentzian(x, x0, w), gaussian(x, x0, w, a), gaussian(x, x0, w)


def expected_profiles(x, x0, w, a):
    import numpy as np
    lor = w ** 2 / (4 * (x - x0) ** 2 + w ** 2)
    gau = np.exp(-(x - x0) ** 2 / (2 * w ** 2))
    return a * lor, lor, a * gau, gau


@observe(inline=['voigt'])
def observed_voigt(x: 'num', x0: 'num', s: 'num', g: 'num', a: 'num'):
    """the Voigt profile is centred on x0 and scales with the amplitude"""
    from atomtoolkit.render.lineshapes import voigt
    return voigt(x, x0, s, g, a), voigt(x, x0, s, g)


def expected_voigt(x, x0, s, g, a):
    from scipy.special import voigt_profile
    return a * voigt_profile(x - x0, s, g), voigt_profile(x - x0, s, g)


@observe(inline=['mod_lorentzian', 'lorentzian'])
def observed_modulated(x: 'num', x0: 'num', g: 'num', a: 'num', d: 'num', n: 'int', f: 'num'):
    """a modulated Lorentzian is a carrier of weight J0^2 and pairs of sidebands of weight Ji^2 at i times the modulation
    frequency on both sides, up to the given order"""
    from atomtoolkit.render.lineshapes import mod_lorentzian
    return mod_lorentzian(x, x0, g, a, depth=d, num_sidebands=n, mod_freq_GHz=f)


def given_modulated(x, x0, g, a, d, n, f):
    return n >= 0


def expected_modulated(x, x0, g, a, d, n, f):
    from scipy.special import jv

    def lor(y):
        return g ** 2 / (4 * (x - y) ** 2 + g ** 2)
    return a * jv(0, d) ** 2 * lor(x0) + a * sum(jv(i, d) ** 2 * (lor(x0 + i * f) + lor(x0 - i * f))
                                                 for i in range(1, n + 1))


@observe(inline_new=['LorentzianLineShape'], inline=['LorentzianLineShape.shape_func', 'LorentzianLineShape.width_func',
                                                     'lorentzian'])
def observed_lorentzian_shape(x: 'num', x0: 'num', g: 'num', a: 'num', A: 'num', p: 'num'):
    """a Lorentzian lineshape adds the natural width to its own and takes the amplitude it is given"""
    from atomtoolkit.render.lineshapes import LorentzianLineShape
    s = LorentzianLineShape(g)
    return (s.fwhm, s.shape_func(x, x0), s.shape_func(x, x0, ampl=a), s.shape_func(x, x0, A_coeff=A),
            s.shape_func(x, x0, ampl=a, A_coeff=A), s.width_func(), s.width_func(p), s.width_func(p, A_coeff=A),
            s.width_func(ampl=a, A_coeff=A))


def expected_lorentzian_shape(x, x0, g, a, A, p):
    def lor(w):
        return w ** 2 / (4 * (x - x0) ** 2 + w ** 2)
    return g, lor(g), a * lor(g), lor(g + A), a * lor(g + A), 20 * g, p * g, p * (g + A), 20 * (g + A)


@observe(inline_new=['GaussianLineShape'], inline=['GaussianLineShape.shape_func', 'GaussianLineShape.width_func',
                                                   'gaussian'])
def observed_gaussian_shape(x: 'num', x0: 'num', s: 'num', a: 'num', p: 'num'):
    """a Gaussian lineshape has FWHM 2.355 sigma and takes the amplitude it is given"""
    from atomtoolkit.render.lineshapes import GaussianLineShape
    g = GaussianLineShape(s)
    return g.fwhm, g.shape_func(x, x0), g.shape_func(x, x0, ampl=a), g.width_func(), g.width_func(p)


def expected_gaussian_shape(x, x0, s, a, p):
    import numpy as np
    y = np.exp(-(x - x0) ** 2 / (2 * s ** 2))
    return 2.355 * s, y, a * y, 20 * s, p * s


@observe(inline_new=['ModLorentzianLineShape'], inline=['ModLorentzianLineShape.shape_func',
                                                        'ModLorentzianLineShape.width_func', 'lorentzian'])
def observed_modulated_shape(x: 'num', x0: 'num', g: 'num', d: 'num', f: 'num', n: 'int', a: 'num', A: 'num', p: 'num'):
    """a modulated Lorentzian lineshape is the modulated Lorentzian of its own width plus the natural one (in units of
    2 pi MHz); its reach is the last sideband plus the padded width"""
    from atomtoolkit.render.lineshapes import ModLorentzianLineShape
    s = ModLorentzianLineShape(g, d, f, n)
    return (s.shape_func(x, x0), s.shape_func(x, x0, ampl=a, A_coeff=A), s.width_func(p), s.width_func(A_coeff=A))


def given_modulated_shape(x, x0, g, d, f, n, a, A, p):
    return n >= 0


def expected_modulated_shape(x, x0, g, d, f, n, a, A, p):
    from scipy.special import jv
    import numpy as np

    def lor(y, w):
        return w ** 2 / (4 * (x - y) ** 2 + w ** 2)

    def mod(w, q):
        return q * jv(0, d) ** 2 * lor(x0, w) + q * sum(jv(i, d) ** 2 * (lor(x0 + i * f, w) + lor(x0 - i * f, w))
                                                        for i in range(1, n + 1))
    w = g + A / (1e6 * 2 * np.pi)
    return mod(g, 1), mod(w, a), f * n + p * g, f * n + 20 * w


@observe(inline=['LineShape.compute', 'LorentzianLineShape.width_func'], opaque=['LorentzianLineShape.shape_func'])
def observed_sampling(s: 'LorentzianLineShape', x0: 'num', n: 'int', a: 'num'):
    """a lineshape is sampled on an even grid reaching its width to both sides of the centre"""
    return s.compute(x0, n, ampl=a), s.compute(x0), s.compute(x0, padding=a)


def expected_sampling(s, x0, n, a):
    import numpy as np
    w, v = 20 * s.gamma, a * s.gamma
    xs = np.linspace(x0 - w, x0 + w, n)
    ys = np.linspace(x0 - w, x0 + w, 1000)
    zs = np.linspace(x0 - v, x0 + v, 1000)
    return ((xs, s.shape_func(xs, x0, ampl=a)), (ys, s.shape_func(ys, x0)),
            (zs, s.shape_func(zs, x0, padding=a)))


@observe(inline_new=['ModLorentzianLineShape'])
def observed_sideband_count(g: 'num', d: 'num', f: 'num', m: 'int'):
    """the number of sidebands defaults to the smallest n with (depth/2)^n <= 0.01 n!; a given one is kept"""
    from atomtoolkit.render.lineshapes import ModLorentzianLineShape
    return ModLorentzianLineShape(g, d, f).num_sidebands, ModLorentzianLineShape(g, d, f, m).num_sidebands


def expected_sideband_count(g, d, f, m):
    import math
    n = 0
    while (d / 2) ** n > math.factorial(n) / 100:
        n += 1
    return n, m


@observe(inline=['mod_lorentzian'])
def observed_default_sidebands(x: 'num', x0: 'num', g: 'num', a: 'num', d: 'num', f: 'num'):
    """the modulated Lorentzian without a number of sidebands uses the default one"""
    from atomtoolkit.render.lineshapes import mod_lorentzian
    return mod_lorentzian(x, x0, g, a, depth=d, mod_freq_GHz=f)


def expected_default_sidebands(x, x0, g, a, d, f):
    from atomtoolkit.render.lineshapes import mod_lorentzian, ModLorentzianLineShape
    return mod_lorentzian(x, x0, g, a, depth=d, num_sidebands=ModLorentzianLineShape(g, d, f).num_sidebands,
                          mod_freq_GHz=f)


@observe(inline=['ThermalLineShape.shape_func', 'lorentzian', 'gaussian', 'voigt'])
def observed_thermal(s: 'ThermalLineShape', x: 'num', x0: 'num', a: 'num'):
    """a thermal line is a Lorentzian where its natural width is more than 25 times the thermal one, a Gaussian
    where the thermal one is more than 25 times the natural, and a Voigt profile between the two"""
    return s.shape_func(x, x0, ampl=a), s.shape_func(x, x0)


def expected_thermal(s, x, x0, a):
    from atomtoolkit.render.lineshapes import lorentzian, gaussian, voigt
    w = s.sigma * x0
    if s.gamma > 25 * w:
        return lorentzian(x, x0, s.gamma, a), lorentzian(x, x0, s.gamma, 1)
    if w > 25 * s.gamma:
        return gaussian(x, x0, w, a), gaussian(x, x0, w, 1)
    return voigt(x, x0, w, s.gamma, a), voigt(x, x0, w, s.gamma, 1)


@observe(inline=['ThermalGaussianLineShape.shape_func', 'gaussian'])
def observed_thermal_gaussian(s: 'ThermalGaussianLineShape', x: 'num', x0: 'num', a: 'num'):
    """a thermal Gaussian line has the thermal width at the centre x0"""
    return s.shape_func(x, x0, ampl=a), s.shape_func(x, x0)


def expected_thermal_gaussian(s, x, x0, a):
    from atomtoolkit.render.lineshapes import gaussian
    return gaussian(x, x0, s.sigma * x0, a), gaussian(x, x0, s.sigma * x0, 1)


@observe(inline_new=['ThermalLineShape', 'ThermalGaussianLineShape'])
def observed_doppler(T: 'Quantity', m: 'Quantity', g: 'num'):
    """the thermal width is the Doppler standard deviation sqrt(kT/mc^2) relative to the centre, and its fwhm 2.355 times
    that"""
    from atomtoolkit.render.lineshapes import ThermalLineShape, ThermalGaussianLineShape
    s, t = ThermalLineShape(T, m, g), ThermalGaussianLineShape(T, m)
    return s.sigma, s.fwhm, s.gamma, t.sigma, t.fwhm


def expected_doppler(T, m, g):
    from atomtoolkit import ureg, c
    w = ((ureg.k * T / (m * c ** 2)) ** 0.5).to('').magnitude
    return w, 2.355 * w, g, w, 2.355 * w


@observe(inline=['LineShape.compute', 'ThermalLineShape.width_func', 'ThermalGaussianLineShape.width_func'],
         opaque=['ThermalLineShape.shape_func', 'ThermalGaussianLineShape.shape_func'])
def observed_thermal_sampling(s: 'ThermalLineShape', t: 'ThermalGaussianLineShape', x0: 'num', n: 'int'):
    """a thermal line is sampled on an even grid reaching 20 of its widths at the centre to both sides"""
    return s.compute(x0, n)[0], t.compute(x0, n)[0]


def expected_thermal_sampling(s, t, x0, n):
    import numpy as np
    return (np.linspace(x0 - 20 * s.sigma * x0, x0 + 20 * s.sigma * x0, n),
            np.linspace(x0 - 20 * t.sigma * x0, x0 + 20 * t.sigma * x0, n))
