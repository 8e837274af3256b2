@observe(inline=['TransitionStructure.__getitem__'])
def observed_by_names(atom: 'Atom', a: 'str', b: 'str'):
    """each end of the key is resolved as a level key; the pair is then ordered by energy and looked up among the
    transitions, their hyperfine components or the Zeeman components of those"""
    return atom.transitions[(a, b)]


def expected_by_names(atom, a, b):
    s = atom.transitions
    if (a, b) in s.aliases:
        return s.aliases[(a, b)]
    na, nb = atom.levels[a].name, atom.levels[b].name
    low, high = (nb, na) if atom.levels[na].level_Hz > atom.levels[nb].level_Hz else (na, nb)
    if 'mF=' in na:
        l0, l1, l2 = low.rsplit(' ', maxsplit=2)
        h0, h1, h2 = high.rsplit(' ', maxsplit=2)
        return s.model.edges[l0, h0]['transition'][(l1, h1)][(l2, h2)]
    if 'F=' in na:
        l0, l1 = low.rsplit(' ', maxsplit=1)
        h0, h1 = high.rsplit(' ', maxsplit=1)
        return s.model.edges[l0, h0]['transition'][(l1, h1)]
    return s.model.edges[low, high]['transition']


@observe(inline=['TransitionStructure.__getitem__'])
def observed_by_ranks(atom: 'Atom', n: 'int', m: 'int'):
    """a pair of integers means the n-th and m-th levels in order of energy"""
    return atom.transitions[(n, m)]


def expected_by_ranks(atom, n, m):
    s = atom.transitions
    if (n, m) in s.aliases:
        return s.aliases[(n, m)]
    na, nb = atom.levels[n].name, atom.levels[m].name
    low, high = (nb, na) if atom.levels[na].level_Hz > atom.levels[nb].level_Hz else (na, nb)
    if 'mF=' in na:
        l0, l1, l2 = low.rsplit(' ', maxsplit=2)
        h0, h1, h2 = high.rsplit(' ', maxsplit=2)
        return s.model.edges[l0, h0]['transition'][(l1, h1)][(l2, h2)]
    if 'F=' in na:
        l0, l1 = low.rsplit(' ', maxsplit=1)
        h0, h1 = high.rsplit(' ', maxsplit=1)
        return s.model.edges[l0, h0]['transition'][(l1, h1)]
    return s.model.edges[low, high]['transition']


@observe(effects=True, inline=['BaseTransition.alias'])
def observed_alias(t: 'Transition', name: 'str'):
    """giving a transition an alias makes it reachable under it in its atom"""
    t.alias = name
    return t.alias


def expected_alias(t, name):
    t._alias = name
    t.atom.transitions.aliases[name] = t
    return name


@observe(inline=['TransitionStructure.__len__', 'TransitionStructure.__iter__', 'TransitionStructure.keys',
                 'TransitionStructure.values', 'TransitionStructure.list_names'])
def observed_views(atom: 'Atom'):
    """length, iteration, keys and values all describe the edges of the level graph"""
    s = atom.transitions
    return len(s), [k for k in s], list(s.keys()), list(s.values()), s.list_names(), s.list_names(False)


def expected_views(atom):
    import networkx as nx
    e = nx.get_edge_attributes(atom.transitions.model, 'transition')
    names = [k for k in e]
    return len(e), names, names, [v for v in e.values()], [k for k in names if k[0] != k[1]], names


@observe(effects=True, inline=['TransitionStructure.__setitem__', 'TransitionStructure.append'])
def observed_adding(atom: 'Atom', t: 'Transition', u: 'Transition', name: 'str'):
    """assigning a transition under a key adds it and gives it that alias; appending adds it"""
    atom.transitions[name] = t
    atom.transitions.append(u)


def expected_adding(atom, t, u, name):
    atom.add_transition(t)
    t.alias = name
    atom.add_transition(u)


@observe(effects=True, inline=['TransitionStructure.__delitem__'])
def observed_removing(atom: 'Atom', a: 'str', b: 'str'):
    """deleting a key removes that edge"""
    del atom.transitions[(a, b)]


def expected_removing(atom, a, b):
    atom.transitions.model.remove_edge(a, b)
