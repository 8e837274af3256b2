def address(species, ordered):
    return ('https://physics.nist.gov/cgi-bin/ASD/energy1.pl?de=0&spectrum=' + species.replace(' ', '+') +
            '&units=0&format=2&output=0&page_size=15&multiplet_ordered=' + ('on' if ordered else '0') +
            '&conf_out=on&term_out=on&level_out=on&unc_out=on&j_out=on&lande_out=on&perc_out=on&temp=' +
            '&submit=Retrieve+Data')


@observe(effects=True, values=False, inline=['load_NIST_data', '_load_NIST_data'], summary=['pandas.read_csv'])
def observed_query(species: 'str', ordered: 'bool'):
    """one query is made, for the species asked for, its words joined by a plus, all columns, wavenumbers as units, in the
    order asked for; nothing is saved unasked"""
    from atomtoolkit.IO import load_NIST_data
    load_NIST_data(species, ordered)


def expected_query(species, ordered):
    import pandas as pd
    pd.read_csv(address(species, ordered), index_col=False)


@observe(effects=True, values=False, inline=['load_NIST_data', '_load_NIST_data'], summary=['pandas.read_csv'])
def observed_default(species: 'str'):
    """unless asked otherwise the query is in order of energy"""
    from atomtoolkit.IO import load_NIST_data
    load_NIST_data(species)


def expected_default(species):
    import pandas as pd
    pd.read_csv(address(species, False), index_col=False)


@observe(effects=True, values=False, inline=['load_NIST_data', '_load_NIST_data'], summary=['pandas.read_csv'])
def observed_saved(species: 'str', ordered: 'bool', path: 'str'):
    """a table saved under a name goes to that file, which ends in .csv"""
    from atomtoolkit.IO import load_NIST_data
    load_NIST_data(species, ordered, path)


def given_saved(species, ordered, path):
    return path != ''


def expected_saved(species, ordered, path):
    import pandas as pd
    df = pd.read_csv(address(species, ordered), index_col=False)
    df.to_csv(path if path.endswith('.csv') else path + '.csv')


@observe(effects=True, values=False, inline=['load_NIST_data', '_load_NIST_data'], summary=['pandas.read_csv'])
def observed_named(species: 'str', ordered: 'bool', asked: 'bool'):
    """a table saved without a name is named after the species; it is saved only if that is asked for"""
    from atomtoolkit.IO import load_NIST_data
    load_NIST_data(species, ordered, save=asked)


def expected_named(species, ordered, asked):
    import pandas as pd
    df = pd.read_csv(address(species, ordered), index_col=False)
    if asked:
        df.to_csv(species + '_level_data.csv')
