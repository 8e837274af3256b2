@observe(inline=['EnergyLevel.from_dataframe'])
def observed_level(df: 'DataFrame', i: 'int'):
    """a row gives the level with the terms of the row, its energy and its Lande g-factor, which may be missing"""
    from atomtoolkit.atom import EnergyLevel
    return EnergyLevel.from_dataframe(df, i)


def expected_level(df, i):
    import pandas as pd
    from atomtoolkit.atom import EnergyLevel
    from atomtoolkit.term import MultiTerm
    g = df['Lande'][i]
    if pd.isna(g):
        g = None
    return EnergyLevel(MultiTerm.from_dataframe(df, i), df['Level (cm-1)'][i], lande=g)


@observe(inline=['MultiTerm.from_dataframe'])
def observed_terms(df: 'DataFrame', i: 'int'):
    """every configuration column of the row that has a configuration gives one term, with the term and the percentage
    of its own column and the J of the row"""
    from atomtoolkit.term import MultiTerm
    return MultiTerm.from_dataframe(df, i)


def expected_terms(df, i):
    from atomtoolkit.term import MultiTerm, Term
    confs = [c for c in df.columns if 'Configuration' in c]
    terms = [c for c in df.columns if 'Term' in c]
    pcts = [c for c in df.columns if 'Percentage' in c]
    found = []
    for j, c in enumerate(confs):
        if isinstance(df[c][i], str):
            found.append(Term(df[c][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
    return MultiTerm(*found)


@observe(inline=['Term.from_dataframe'])
def observed_term(df: 'DataFrame', i: 'int'):
    """a single term has the leading configuration, term, J and percentage of its row"""
    from atomtoolkit.term import Term
    return Term.from_dataframe(df, i)


def expected_term(df, i):
    from atomtoolkit.term import Term
    return Term(df['Configuration'][i], df['Term'][i], df['J'][i], None, None, df['Percentage'][i])


@observe(inline=['EnergyLevel.from_dataframe', 'MultiTerm.from_dataframe', 'Term.from_dataframe'])
def observed_first(df: 'DataFrame'):
    """without a row number the first row is meant"""
    from atomtoolkit.atom import EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    return (EnergyLevel.from_dataframe(df) == EnergyLevel.from_dataframe(df, 0),
            MultiTerm.from_dataframe(df) == MultiTerm.from_dataframe(df, 0),
            Term.from_dataframe(df) == Term.from_dataframe(df, 0))


def expected_first(df):
    return True, True, True


@observe(inline=['load_transition_data'])
def observed_transitions(path: 'str', cols: 'dict[str,str]'):
    """a table of transitions keeps the columns asked for under their standard names; the A coefficients are in MHz"""
    from atomtoolkit.IO import load_transition_data
    return load_transition_data(path, cols)


def expected_transitions(path, cols):
    import pandas as pd
    raw = pd.read_csv(path)
    names = ['conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u']
    table = pd.DataFrame(data={n: raw[cols[n]] for n in names})
    freq = A = None
    if 'freq' in cols:
        freq = raw[cols['freq']]
    elif 'frequency' in cols:
        freq = raw[cols['frequency']]
    if 'A' in cols:
        A = raw[cols['A']].astype('pint[MHz]')
    elif 'A_coeff' in cols:
        A = raw[cols['A_coeff']].astype('pint[MHz]')
    table['freq'] = freq
    table['A'] = A
    return table


@observe(inline=['load_level_data'])
def observed_levels(path: 'str', cols: 'dict[str,str]'):
    """a table of levels keeps the columns asked for; the energies are plain numbers in cm-1, stripped of any marks that
    are no part of the number, and are given in Hz as well"""
    from atomtoolkit.IO import load_level_data
    return load_level_data(path, cols)


def given_levels(path, cols):
    return 'Level (cm-1)' in cols


def expected_levels(path, cols):
    import pandas as pd
    raw = pd.read_csv(path)
    table = pd.DataFrame(data={k: raw[cols[k]] for k in cols})
    try:
        table['Level (cm-1)'] = table['Level (cm-1)'].astype(float)
    except ValueError:
        table['Level (cm-1)'] = table['Level (cm-1)'].str.replace(r'[^\d\.]+', '', regex=True)
        table['Level (cm-1)'] = table['Level (cm-1)'].astype(float)
    table['Level (cm-1)'] = table['Level (cm-1)'].astype('pint[cm**-1]')
    table['Level (Hz)'] = table['Level (cm-1)'].pint.to('Hz')
    return table


@observe(effects=True, inline=['load_transition_data'])
def observed_given_columns(path: 'str'):
    """naming the columns of a table of transitions leaves the caller's names as they are"""
    from atomtoolkit.IO import load_transition_data
    cols = {'conf_l': 'a', 'term_l': 'b', 'j_l': 'c', 'conf_u': 'd', 'term_u': 'e', 'j_u': 'f', 'frequency': 'g',
            'A_coeff': 'h'}
    load_transition_data(path, cols)
    return cols


def expected_given_columns(path):
    return {'conf_l': 'a', 'term_l': 'b', 'j_l': 'c', 'conf_u': 'd', 'term_u': 'e', 'j_u': 'f', 'frequency': 'g',
            'A_coeff': 'h'}
