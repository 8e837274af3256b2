@observe(inline=['wigner3j', 'wigner6j', 'wigner9j'])
def observed_symbols(a: 'half', b: 'half', c: 'half', d: 'half', e: 'half', f: 'half', g: 'half', h: 'half', i: 'half'):
    """each Wigner function evaluates its own symbol with its arguments in order, and is 0 where sympy refuses"""
    from atomtoolkit.wigner import wigner3j, wigner6j, wigner9j
    return wigner3j(a, b, c, d, e, f), wigner6j(a, b, c, d, e, f), wigner9j(a, b, c, d, e, f, g, h, i)


def expected_symbols(a, b, c, d, e, f, g, h, i):
    from sympy.physics.wigner import wigner_3j, wigner_6j, wigner_9j
    try:
        x = float(wigner_3j(a, b, c, d, e, f))
    except ValueError:
        x = 0
    try:
        y = float(wigner_6j(a, b, c, d, e, f))
    except ValueError:
        y = 0
    try:
        z = float(wigner_9j(a, b, c, d, e, f, g, h, i))
    except ValueError:
        z = 0
    return x, y, z


@observe(inline=['wigner3j', 'wigner6j', 'wigner9j'], optional=True)
def observed_py3nj(a: 'half', b: 'half', c: 'half', d: 'half', e: 'half', f: 'half', g: 'half', h: 'half', i: 'half'):
    """with py3nj installed, each takes its arguments doubled and is 0 where py3nj refuses"""
    from atomtoolkit.wigner import wigner3j, wigner6j, wigner9j
    return wigner3j(a, b, c, d, e, f), wigner6j(a, b, c, d, e, f), wigner9j(a, b, c, d, e, f, g, h, i)


def expected_py3nj(a, b, c, d, e, f, g, h, i):
    from py3nj import wigner3j, wigner6j, wigner9j
    try:
        x = wigner3j(int(2 * a), int(2 * b), int(2 * c), int(2 * d), int(2 * e), int(2 * f))
    except (ValueError, IndexError):
        x = 0
    try:
        y = wigner6j(int(2 * a), int(2 * b), int(2 * c), int(2 * d), int(2 * e), int(2 * f))
    except (ValueError, IndexError):
        y = 0
    try:
        z = wigner9j(int(2 * a), int(2 * b), int(2 * c), int(2 * d), int(2 * e), int(2 * f), int(2 * g), int(2 * h),
                     int(2 * i))
    except (ValueError, IndexError):
        z = 0
    return x, y, z
