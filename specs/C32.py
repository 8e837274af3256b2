@observe(effects=True, inline=['Atom.populate_transitions'])
def observed_allowed(atom: 'Atom', allowed: 'tuple3[bool]'):
    """every pair of levels whose J differ by 0, 1 or (for E2) 2 and that is not joined yet gets a transition if one of
    the requested types is allowed between them; the trial transition of any other pair is taken out again"""
    atom.populate_transitions(allowed)


def expected_allowed(atom, allowed):
    import numpy as np
    from atomtoolkit.atom import Transition
    deltas = (0, 1)
    if allowed[2]:
        deltas = (0, 1, 2)
    grid = [j for j in np.arange(0, 21, 0.5)]
    for d in deltas:
        for i in range(42 - (2 * d + 1)):
            for x in [l for l in atom.levels.values() if l.term.J == grid[i]]:
                for y in [l for l in atom.levels.values() if l.term.J == grid[i] + d]:
                    if atom._levelsModel.has_edge(x.name, y.name):
                        continue
                    t = Transition(x, y)
                    ok = t.allowed_types
                    if (ok[0] and allowed[0]) or (ok[1] and allowed[1]) or (ok[2] and allowed[2]):
                        atom.add_transition(t)
                    else:
                        atom._levelsModel.remove_edge(x.name, y.name)


@observe(effects=True, inline=['Atom.populate_transitions'])
def observed_default(atom: 'Atom'):
    """all three types are requested unless told otherwise"""
    atom.populate_transitions()


def expected_default(atom):
    import numpy as np
    from atomtoolkit.atom import Transition
    grid = [j for j in np.arange(0, 21, 0.5)]
    for d in (0, 1, 2):
        for i in range(42 - (2 * d + 1)):
            for x in [l for l in atom.levels.values() if l.term.J == grid[i]]:
                for y in [l for l in atom.levels.values() if l.term.J == grid[i] + d]:
                    if not atom._levelsModel.has_edge(x.name, y.name):
                        t = Transition(x, y)
                        if any(t.allowed_types):
                            atom.add_transition(t)
                        else:
                            atom._levelsModel.remove_edge(x.name, y.name)


@observe(effects=True, inline=['Atom.populate_internal_transitions'])
def observed_internal(atom: 'Atom'):
    """every level gets the transition from itself to itself"""
    atom.populate_internal_transitions()


def expected_internal(atom):
    from atomtoolkit.atom import Transition
    for x in atom.levels.values():
        Transition(x, x).add_to_atom(atom)


@observe(effects=True, inline=['Atom.populate_transitions_df'])
def observed_table(atom: 'Atom', table: 'DataFrame'):
    """every row whose two levels the atom has becomes the transition between them, with the frequency and the A
    coefficient of the row; other rows are skipped"""
    atom.populate_transitions_df(table)


def expected_table(atom, table):
    from atomtoolkit import util
    from atomtoolkit.atom import Transition
    for i, row in table.iterrows():
        low = f"{row['conf_l']} {row['term_l']}" + util.float_to_frac(float(row['j_l']))
        up = f"{row['conf_u']} {row['term_u']}" + util.float_to_frac(float(row['j_u']))
        try:
            x = atom.levels[low]
            y = atom.levels[up]
            atom.add_transition(Transition(x, y, freq=row['freq'], A=row['A']))
        except KeyError:
            continue


@observe(effects=True, inline=['generate_full_from_dataframe'])
def observed_generate(df: 'DataFrame', name: 'str', I: 'halfnn', table: 'any', path: 'str'):
    """an atom generated from tables has the levels of the first, the hyperfine coefficients of the file if there is
    one, the transitions of the table (or all allowed ones) and the internal transitions of every level"""
    from atomtoolkit.IO import generate_full_from_dataframe
    return generate_full_from_dataframe(df, name, I, transitions_df=table, hf_csv=path)


def expected_generate(df, name, I, table, path):
    from atomtoolkit.IO import apply_hf_csv
    from atomtoolkit.atom import Atom
    a = Atom.from_dataframe(df, name, I, transitions_df=table, hf_csv=path)
    try:
        apply_hf_csv(a, path)
    except (FileNotFoundError, TypeError):
        pass
    if table is None:
        a.populate_transitions(transitions_df=table, hf_csv=path)
    else:
        a.populate_transitions_df(table, transitions_df=table, hf_csv=path)
    a.populate_internal_transitions()
    return a


@observe(effects=True, inline=['generate_full_from_dataframe'])
def observed_generate_plain(df: 'DataFrame', name: 'str'):
    """without any table of transitions the electric dipole transitions are generated, for a spinless nucleus"""
    from atomtoolkit.IO import generate_full_from_dataframe
    return generate_full_from_dataframe(df, name)


def expected_generate_plain(df, name):
    from atomtoolkit.atom import Atom
    a = Atom.from_dataframe(df, name, 0.0)
    a.populate_transitions((True, False, False))
    a.populate_internal_transitions()
    return a


@observe(effects=True, inline=['generate_full_from_dataframe'])
def observed_generate_types(df: 'DataFrame', name: 'str', I: 'halfnn', allowed: 'tuple3[bool]', n: 'int',
                            b: 'Quantity'):
    """the requested transition types, number of levels and field reach the generation"""
    from atomtoolkit.IO import generate_full_from_dataframe
    return generate_full_from_dataframe(df, name, I, allowed=allowed, num_levels=n, B=b)


def expected_generate_types(df, name, I, allowed, n, b):
    from atomtoolkit.atom import Atom
    a = Atom.from_dataframe(df, name, I, num_levels=n, B=b, allowed=allowed)
    a.populate_transitions(allowed=allowed, num_levels=n, B=b)
    a.populate_internal_transitions()
    return a


@observe(effects=True, inline=['Atom.from_dataframe'])
def observed_load(df: 'DataFrame', name: 'str', I: 'halfnn', n: 'opt[int]', b: 'Quantity'):
    """an atom read from a table has one level per row, for the first rows asked for; rows that give none are skipped"""
    from atomtoolkit.atom import Atom
    return Atom.from_dataframe(df, name, I, n, b)


def expected_load(df, name, I, n, b):
    from atomtoolkit.atom import Atom, EnergyLevel
    a = Atom(name, I, b)
    if n is None:
        n = len(df)
    for i in range(n):
        try:
            a.add_level(EnergyLevel.from_dataframe(df, i))
        except KeyError:
            pass
    return a
