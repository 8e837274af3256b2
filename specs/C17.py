@observe(inline=['Atom.compute_branching_ratios'])
def observed_ratios(atom: 'Atom', key: 'str'):
    """the ratio to each lower level is A of that transition over the sum of A over all transitions leading down from
    the level the key names"""
    return atom.compute_branching_ratios(key)


def given_ratios(atom, key):
    name = atom.levels[key].name
    return not any(t.E_upper.name == name and t.A is None for t in atom.linked_levels(key).values())


def expected_ratios(atom, key):
    from atomtoolkit import Hz
    name = atom.levels[key].name
    links = atom.linked_levels(key)
    total = sum(t.A.to(Hz).magnitude for k, t in links.items() if t.E_upper.name == name)
    return {k: t.A.to(Hz).magnitude / total for k, t in links.items() if t.E_upper.name == name}


@observe(inline=['Atom.state_lifetime'])
def observed_lifetime(atom: 'Atom', key: 'str'):
    """the lifetime is 1 / (sum of A / 2 pi) over the transitions leading down, infinite when that sum is zero"""
    return atom.state_lifetime(key)


def expected_lifetime(atom, key):
    import numpy as np
    from atomtoolkit import ureg
    total = sum(t.A for t in atom.linked_levels(key).values() if t.E_upper is atom.levels[key])
    if total == 0:
        return np.inf * ureg.s
    return (2 * np.pi / total).to(ureg.s)


@observe(inline=['Atom.linked_levels'], effects=True)
def observed_links(atom: 'Atom', key: 'str'):
    """the levels linked to a level are the other ends of its edges, each with the transition of that edge"""
    return atom.linked_levels(key)


def given_links(atom, key):
    from atomtoolkit.atom import EnergyLevel
    return isinstance(atom.levels[key], EnergyLevel)


def expected_links(atom, key):
    x = atom.levels[key]
    return {k: d['transition'] for k, d in x.model.adj[x.name].items() if k != x.name}


@observe(inline=['Atom.linked_levels'], effects=True)
def observed_sublevel_links(atom: 'Atom', key: 'str'):
    """for a sublevel, the components of all transitions of the level above it exist before the edges are read"""
    return atom.linked_levels(key)


def given_sublevel_links(atom, key):
    from atomtoolkit.atom import EnergyLevel
    return not isinstance(atom.levels[key], EnergyLevel)


def expected_sublevel_links(atom, key):
    x = atom.levels[key]
    for t in atom.linked_levels(x.parent.name).values():
        t.subtransitions()
    return {k: d['transition'] for k, d in x.model.adj[x.name].items() if k != x.name}
