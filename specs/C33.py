def ion(mass, spin, table, add_with_atom, clock, repump, dipole, octupole):
    """what the file of one isotope has to do: the NIST levels of the ion, the measured A coefficients, the hyperfine
    coefficients of this isotope, then the measured frequencies and the two transitions the tables lack"""
    import pathlib
    from atomtoolkit import IO, Q_
    root = pathlib.Path(__file__).parents[1]
    levels = IO.load_NIST_data('Yb II')
    rates = IO.load_transition_data(root.joinpath('resources/Yb_II_Oscillator_Strengths.csv'), columns={
        'conf_l': 'LConfiguration', 'conf_u': 'UConfiguration', 'term_l': 'LTerm', 'term_u': 'UTerm',
        'j_l': 'LJ', 'j_u': 'UJ', 'A': 'A DREAM'}).dropna(subset=['A'])
    hf = root.joinpath(table) if table is not None else None
    a = IO.generate_full_from_dataframe(levels, name=mass + 'Yb II', I=spin, num_levels=300, B=Q_(0.0, 'G'), hf_csv=hf,
                                        transitions_df=rates, allowed=(True, False, False))
    a.transitions[('4f14.5d 2D3/2', '4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2')].set_frequency(Q_(repump, 'THz'))
    a.transitions[('4f14.6s 2S1/2', '4f14.6p 2P*1/2')].set_frequency(Q_(dipole, 'THz'))
    new_line(a, '4f14.6s 2S1/2', '4f14.5d 2D5/2', Q_(22, 'Hz'), add_with_atom, clock)
    new_line(a, '4f13.(2F*).6s2 2F*7/2', '4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2', Q_(50, 'kHz'), add_with_atom, octupole)
    return a


def new_line(a, low, up, A, add_with_atom, freq):
    from atomtoolkit import Q_
    from atomtoolkit.atom import Transition
    if add_with_atom:
        t = a.add_transition((a.levels[low], a.levels[up]), A=A)
    else:
        t = Transition(a.levels[low], a.levels[up], A=A)
        t.add_to_atom(a)
    if freq is not None:
        t.set_frequency(Q_(freq, 'THz'))


@observe(effects=True, opaque=['load_NIST_data', 'load_transition_data', 'generate_full_from_dataframe'],
         module_body='species.Yb_II_171')
def observed_yb171():
    """171Yb+ has nuclear spin 1/2, its own hyperfine table and line frequencies, and the quadratic clock shifts"""


def expected_yb171():
    a = ion('171', 1 / 2, 'resources/171Yb_Hyperfine.csv', True, 729.476090, 320.567693, 811.294110, None)
    a.levels['4f14.6s 2S1/2']['F=0']['mF=0'].quadratic_zeeman = -155.305
    a.levels['4f14.6s 2S1/2']['F=1']['mF=0'].quadratic_zeeman = 155.305


@observe(effects=True, opaque=['load_NIST_data', 'load_transition_data', 'generate_full_from_dataframe'],
         module_body='species.Yb_II_173')
def observed_yb173():
    """173Yb+ has nuclear spin 5/2, its own hyperfine table and line frequencies"""


def expected_yb173():
    ion('173', 5 / 2, 'resources/173Yb_Hyperfine.csv', False, 729.476090, 320.570339, 811.292506, None)


@observe(effects=True, opaque=['load_NIST_data', 'load_transition_data', 'generate_full_from_dataframe'],
         module_body='species.Yb_II_174')
def observed_yb174():
    """174Yb+ has no nuclear spin and no hyperfine table, and its own line frequencies"""


def expected_yb174():
    ion('174', 0, None, False, 729.475280, 320.571752, 811.291801, 394.423900)
