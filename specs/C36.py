@observe()
def observed_units():
    """the exported units and constants are what their names say"""
    import atomtoolkit as a
    return (a.Hz, a.kHz, a.MHz, a.GHz, a.THz, a.G, a.c, a.mu_B, a.Q_(1, 'Hz'))


def expected_units():
    from atomtoolkit import ureg
    Hz = ureg.hertz
    return (Hz, 1000 * Hz, 10 ** 6 * Hz, 10 ** 9 * Hz, 10 ** 12 * Hz, ureg.gauss, ureg.speed_of_light,
            1399624.49361 * Hz / ureg.gauss, Hz)


@observe(effects=True, module_body='atomtoolkit')
def observed_registry():
    """one registry is used everywhere, for stored files too, and wavenumbers are frequencies divided by c in it"""


def expected_registry():
    import pint
    import pint_pandas
    ureg = pint.UnitRegistry()
    pint.set_application_registry(ureg)
    pint_pandas.PintType.ureg = ureg
    ctx = pint.Context('spectroscopy')
    ctx.add_transformation('[wavenumber]', '[frequency]', lambda u, x: x * u.speed_of_light)
    ctx.add_transformation('[frequency]', '[wavenumber]', lambda u, x: x / u.speed_of_light)
    ureg.enable_contexts('spectroscopy')
