@observe(effects=True, inline=['Atom.save'])
def observed_save(a: 'Atom', path: 'str'):
    """the whole atom is written, in binary, to the given path, which ends in .atom"""
    return a.save(path)


def expected_save(a, path):
    import pickle
    if path[-5:] == '.atom':
        target = path
    else:
        target = path + '.atom'
    with open(target, 'wb') as f:
        pickle.dump(a, f)


@observe(effects=True, inline=['Atom.save'])
def observed_default_name(a: 'Atom'):
    """without a path the atom's name is the file name"""
    return a.save(None)


def expected_default_name(a):
    import pickle
    target = a.name
    if not target.endswith('.atom'):
        target += '.atom'
    with open(target, 'wb') as f:
        pickle.dump(a, f)


@observe(effects=True, inline=['Atom.load'])
def observed_load(path: 'str'):
    """what is loaded is what the file holds, and a file that does not hold an atom is refused"""
    from atomtoolkit.atom import Atom
    return Atom.load(path)


def expected_load(path):
    import pickle
    from atomtoolkit.atom import Atom
    with open(path, 'rb') as f:
        a = pickle.load(f)
    if isinstance(a, Atom):
        return a
    raise IOError('The indicated file does not contain an Atom object')
