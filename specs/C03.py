from atomtoolkit.atom import HFLevel


@observe(inline=['HFLevel.shift_Hz'])
def observed_shift(level: 'HFLevel'):
    """hyperfine shift of a sublevel from the A, B, C coefficients of its manifold"""
    return level.shift_Hz


def expected_shift(level):
    I = level.atom.I
    J = level.manifold.term.J
    F = level.term.F
    A = level.manifold.hfA_Hz
    B = level.manifold.hfB_Hz
    C = level.manifold.hfC_Hz
    K = F * (F + 1) - I * (I + 1) - J * (J + 1)
    e = A * K / 2
    if I >= 1 and J >= 1:
        e = e + B * (3 * K * (K + 1) / 4 - I * (I + 1) * J * (J + 1)) / (2 * I * (2 * I - 1) * J * (2 * J - 1))
    if I >= 1.5 and J >= 1.5:
        e = e + C * (5 * K ** 2 * (K / 4 + 1)
                     + K * (I * (I + 1) + J * (J + 1) + 3 - 3 * I * (I + 1) * J * (J + 1))
                     - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
    return e
