@observe(inline=['tkq_transition_strength', 'tkq_mel'])
def observed_tensor(i: 'halfnn', k: 'int', q: 'int', j0: 'halfnn', f0: 'halfnn', m0: 'half', j1: 'halfnn', f1: 'halfnn',
                    m1: 'half'):
    """one spherical component: 6j in (J0, J1, k; F1, F0, I), 3j in (F1, k, F0; -M1, q, M0), the roots of 2F+1 of both
    levels; its strength is the square"""
    from atomtoolkit.transition_strengths import tkq_transition_strength, tkq_mel
    return tkq_mel(i, k, q, j0, f0, m0, j1, f1, m1), tkq_transition_strength(i, k, q, j0, f0, m0, j1, f1, m1)


def expected_tensor(i, k, q, j0, f0, m0, j1, f1, m1):
    from atomtoolkit.wigner import wigner3j, wigner6j
    a = ((2 * f0 + 1) * (2 * f1 + 1)) ** 0.5 * wigner6j(j0, j1, k, f1, f0, i) * wigner3j(f1, k, f0, -m1, q, m0)
    return a, a ** 2


@observe(inline=['E1_transition_strength_avg', 'M1_transition_strength_avg', 'E2_transition_strength_avg'])
def observed_average(i: 'halfnn', j0: 'halfnn', f0: 'halfnn', m0: 'half', j1: 'halfnn', f1: 'halfnn', m1: 'half'):
    """unpolarised light: a dipole line averages its three components, M1 like E1; a quadrupole line weights its five
    components 3/29, 9/58, 14/29, 9/58, 3/29"""
    from atomtoolkit.transition_strengths import (E1_transition_strength_avg, M1_transition_strength_avg,
                                                  E2_transition_strength_avg)
    return (E1_transition_strength_avg(i, j0, f0, m0, j1, f1, m1), M1_transition_strength_avg(i, j0, f0, m0, j1, f1, m1),
            E2_transition_strength_avg(i, j0, f0, m0, j1, f1, m1))


def expected_average(i, j0, f0, m0, j1, f1, m1):
    from atomtoolkit.transition_strengths import tkq_transition_strength
    d = [tkq_transition_strength(i, 1, q, j0, f0, m0, j1, f1, m1) for q in (-1, 0, 1)]
    c = [tkq_transition_strength(i, 2, q, j0, f0, m0, j1, f1, m1) for q in (-2, -1, 0, 1, 2)]
    e1 = (d[0] + d[1] + d[2]) / 3
    e2 = 3 * c[0] / 29 + 9 * c[1] / 58 + 14 * c[2] / 29 + 9 * c[3] / 58 + 3 * c[4] / 29
    return e1, e1, e2


@observe(inline=['E1_mel_geom', 'M1_mel_geom', 'E1_transition_strength_geom', 'M1_transition_strength_geom'])
def observed_dipole(x: 'num', y: 'num', z: 'num', i: 'halfnn', j0: 'halfnn', f0: 'halfnn', m0: 'half', j1: 'halfnn',
                    f1: 'halfnn', m1: 'half'):
    """polarised light on a dipole line: the polarization is normalised, circular components weigh (ex -+ i ey)/sqrt 2 in the
    amplitude, half of ex^2+ey^2 in the strength, the axial one ez and ez^2; M1 like E1"""
    from atomtoolkit.transition_strengths import (E1_mel_geom, M1_mel_geom, E1_transition_strength_geom,
                                                  M1_transition_strength_geom)
    import numpy as np
    e = np.array([x, y, z])
    return (E1_mel_geom(e, i, j0, f0, m0, j1, f1, m1), M1_mel_geom(e, i, j0, f0, m0, j1, f1, m1),
            E1_transition_strength_geom(e, i, j0, f0, m0, j1, f1, m1),
            M1_transition_strength_geom(e, i, j0, f0, m0, j1, f1, m1))


def given_dipole(x, y, z, i, j0, f0, m0, j1, f1, m1):
    return x * x + y * y + z * z > 0


def expected_dipole(x, y, z, i, j0, f0, m0, j1, f1, m1):
    from atomtoolkit.transition_strengths import tkq_transition_strength, tkq_mel
    n2 = x * x + y * y + z * z
    n = n2 ** 0.5
    a = [tkq_mel(i, 1, q, j0, f0, m0, j1, f1, m1) for q in (-1, 0, 1)]
    s = [tkq_transition_strength(i, 1, q, j0, f0, m0, j1, f1, m1) for q in (-1, 0, 1)]
    mel = (a[0] * (x + 1j * y) / 2 ** 0.5 + a[1] * z + a[2] * (x - 1j * y) / 2 ** 0.5) / n
    st = ((s[0] + s[2]) * (x * x + y * y) / 2 + s[1] * z * z) / n2
    return mel, mel, st, st


@observe(inline=['E2_mel_geom', 'E2_transition_strength_geom'])
def observed_quadrupole(x: 'num', y: 'num', z: 'num', kx: 'num', ky: 'num', kz: 'num', i: 'halfnn', j0: 'halfnn',
                        f0: 'halfnn', m0: 'half', j1: 'halfnn', f1: 'halfnn', m1: 'half'):
    """polarised light on a quadrupole line: polarization and wave vector are normalised; the five components weigh like the
    spherical components of the symmetric product of the two vectors, in amplitude, and their squared moduli in strength"""
    from atomtoolkit.transition_strengths import E2_mel_geom, E2_transition_strength_geom
    import numpy as np
    e, k = np.array([x, y, z]), np.array([kx, ky, kz])
    return E2_mel_geom(e, k, i, j0, f0, m0, j1, f1, m1), E2_transition_strength_geom(e, k, i, j0, f0, m0, j1, f1, m1)


def given_quadrupole(x, y, z, kx, ky, kz, i, j0, f0, m0, j1, f1, m1):
    return x * x + y * y + z * z > 0 and kx * kx + ky * ky + kz * kz > 0


def expected_quadrupole(x, y, z, kx, ky, kz, i, j0, f0, m0, j1, f1, m1):
    from atomtoolkit.transition_strengths import tkq_transition_strength, tkq_mel
    a = [tkq_mel(i, 2, q, j0, f0, m0, j1, f1, m1) for q in (-2, -1, 0, 1, 2)]
    s = [tkq_transition_strength(i, 2, q, j0, f0, m0, j1, f1, m1) for q in (-2, -1, 0, 1, 2)]
    n2 = (x * x + y * y + z * z) * (kx * kx + ky * ky + kz * kz)
    n = (x * x + y * y + z * z) ** 0.5 * (kx * kx + ky * ky + kz * kz) ** 0.5
    xx, xy, xz, yz = kx * x - ky * y, kx * y + ky * x, kx * z + kz * x, ky * z + kz * y
    zz = (2 * kz * z - kx * x - ky * y) * (2 / 3) ** 0.5
    mel = a[0] * (xx - 1j * xy) + a[1] * (-xz + 1j * yz) + a[2] * zz + a[3] * (xz + 1j * yz) + a[4] * (xx + 1j * xy)
    st = (s[0] + s[4]) * (xx * xx + xy * xy) + (s[1] + s[3]) * (xz * xz + yz * yz) + s[2] * zz * zz
    return mel / n, st / n2
