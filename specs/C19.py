@observe(effects=True)
def observed_write(atom: 'Atom', path: 'str', default: 'Quantity'):
    """one row per level: its name and its three coefficients, a zero A written as the given default"""
    from atomtoolkit.IO import generate_hf_csv
    generate_hf_csv(atom, path, False, default)


def expected_write(atom, path, default):
    import csv
    from atomtoolkit import Q_
    rows = []
    for l in atom.levels.values():
        A = l.hfA
        if A == Q_(0.0, 'GHz'):
            A = default
        rows.append([l.name, A, l.hfB, l.hfC])
    with open(path, 'w', newline='', encoding='utf-8') as f:
        csv.writer(f).writerows(rows)


@observe(effects=True)
def observed_template(atom: 'Atom'):
    """the blank template has one row of zeros per level, and the file is named after the atom"""
    from atomtoolkit.IO import generate_hf_csv
    generate_hf_csv(atom, blank=True)


def expected_template(atom):
    import csv
    from atomtoolkit import Q_
    zero = Q_(0.0, 'GHz')
    with open(atom.name + '_Hyperfine.csv', 'w', newline='', encoding='utf-8') as f:
        csv.writer(f).writerows([[n, zero, zero, zero] for n in [l.name for l in atom.levels.values()]])


@observe(effects=True)
def observed_default(atom: 'Atom', path: 'str'):
    """unless a default is given, a zero A is written as it is"""
    from atomtoolkit.IO import generate_hf_csv
    generate_hf_csv(atom, path)


def expected_default(atom, path):
    import csv
    from atomtoolkit import Q_
    with open(path, 'w', newline='', encoding='utf-8') as f:
        csv.writer(f).writerows([
            [l.name, (l.hfA if l.hfA != Q_(0, 'GHz') else Q_(0, 'GHz')), l.hfB, l.hfC] for l in atom.levels.values()])


@observe(effects=True, inline=['apply_hf_csv'])
def observed_read(atom: 'Atom', path: 'str'):
    """reading sets, row by row, the three coefficients of the level the row names; rows of unknown levels are skipped"""
    from atomtoolkit.IO import apply_hf_csv
    apply_hf_csv(atom, path)


def expected_read(atom, path):
    import csv
    from atomtoolkit import Q_
    with open(path, newline='', encoding='utf-8') as f:
        for row in csv.reader(f):
            name, A, B, C = row
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            level.hfA = Q_(A)
            level.hfB = Q_(B)
            level.hfC = Q_(C)
