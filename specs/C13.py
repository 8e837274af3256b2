@observe(inline=['LevelStructure.__getitem__'])
def observed_by_rank(atom: 'Atom', n: 'int'):
    """levels[n] is the n-th level in order of energy"""
    return atom.levels[n]


def expected_by_rank(atom, n):
    import networkx as nx
    nodes = nx.get_node_attributes(atom.levels.model, 'level')
    return sorted(nodes.values(), key=lambda x: x.level_Hz)[n]


@observe(inline=['LevelStructure.__getitem__'])
def observed_by_name(atom: 'Atom', key: 'str'):
    """an alias wins over everything else; a key with mF= walks level, hyperfine and Zeeman sublevel; one with mJ=
    the I = 0 form of it; one with F= level and hyperfine sublevel; any other key is the name of a level"""
    return atom.levels[key]


def expected_by_name(atom, key):
    import networkx as nx
    nodes = nx.get_node_attributes(atom.levels.model, 'level')
    if key in atom.levels.aliases:
        return atom.levels.aliases[key]
    if 'mF=' in key:
        a, b, c = key.rsplit(' ', maxsplit=2)
        return nodes[a][b][c]
    if 'mJ=' in key:
        a, m = key.rsplit(' mJ=', maxsplit=1)
        return nodes[a]['F=' + nodes[a].term.J_frac]['mF=' + m]
    if 'F=' in key:
        a, b = key.rsplit(' ', maxsplit=1)
        return nodes[a][b]
    return nodes[key]


@observe(inline=['EnergyLevel.__getitem__'], opaque=['EnergyLevel.populate_sublevels', 'HFLevel.populate_sublevels'])
def observed_sublevel_by_label(x: 'EnergyLevel', k: 'str'):
    """a sublevel is found under its own label; for I = 0 an mJ label goes through the only hyperfine level"""
    return x[k]


def given_sublevel_by_label(x, k):
    return len(x._sublevels) > 0


def expected_sublevel_by_label(x, k):
    if x.atom.I == 0 and 'mJ' in k:
        return x._sublevels['F=' + x.term.J_frac][k.replace('mJ', 'mF')]
    return x._sublevels[k]


@observe(effects=True, inline=['BaseLevel.alias'])
def observed_alias(x: 'EnergyLevel', name: 'str'):
    """giving a level an alias makes it reachable under it in its atom"""
    x.alias = name
    return x.alias


def expected_alias(x, name):
    x._alias = name
    x.atom.levels.aliases[name] = x
    return name


@observe(inline=['LevelStructure.__len__', 'LevelStructure.__iter__', 'LevelStructure.keys', 'LevelStructure.values',
                 'LevelStructure.levels', 'LevelStructure.list_names'])
def observed_views(atom: 'Atom'):
    """length, iteration, keys and values all describe the nodes of the level graph"""
    s = atom.levels
    return len(s), [k for k in s], list(s.keys()), list(s.values()), list(s.levels()), s.list_names()


def expected_views(atom):
    import networkx as nx
    nodes = nx.get_node_attributes(atom.levels.model, 'level')
    names = [k for k in nodes]
    lv = [v for v in nodes.values()]
    return len(nodes), names, names, lv, lv, names


@observe(effects=True, inline=['LevelStructure.__setitem__', 'LevelStructure.append'])
def observed_adding(atom: 'Atom', x: 'EnergyLevel', y: 'EnergyLevel', name: 'str'):
    """assigning a level under a key adds it with that alias; appending adds it"""
    atom.levels[name] = x
    atom.levels.append(y)


def expected_adding(atom, x, y, name):
    atom.add_level(x, alias=name)
    atom.add_level(y)


@observe(effects=True, inline=['LevelStructure.__delitem__'])
def observed_removing(atom: 'Atom', name: 'str'):
    """deleting a key removes that node"""
    del atom.levels[name]


def expected_removing(atom, name):
    atom.levels.model.remove_node(name)
