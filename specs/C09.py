@observe(effects=True, inline=['Transition.set_frequency'])
def observed_set(t: 'Transition', f: 'Quantity'):
    """setting a frequency stores it and re-imposes the fixed frequencies on the part of the atom holding this
    transition; when it was already imposed and both levels are locked, the upper one is released first"""
    t.set_frequency(f)
    return t.set_freq


def given_set(t, f):
    return t.set_freq is None or bool(t.set_freq)


def expected_set(t, f):
    if t.set_freq is not None and t.E_upper.fixed and t.E_lower.fixed:
        t.E_upper.fixed = False
    t.set_freq = f
    t.E_1.atom.enforce_consistency(node_or_trans=(t.E_1.name, t.E_2.name))
    return f


@observe(effects=True, inline=['HFTransition.set_frequency'])
def observed_set_hyperfine(t: 'HFTransition', f: 'Quantity'):
    """setting the frequency of a hyperfine component moves the parent transition by the same difference"""
    t.set_frequency(f)


def expected_set_hyperfine(t, f):
    t.parent.set_frequency(t.parent.freq + (f - t.freq))


@observe(effects=True, inline=['ZTransition.set_frequency'])
def observed_set_zeeman(t: 'ZTransition', f: 'Quantity'):
    """setting the frequency of a Zeeman component moves the hyperfine transition by the same difference"""
    t.set_frequency(f)


def expected_set_zeeman(t, f):
    t.parent.set_frequency(t.parent.freq + (f - t.freq))


@observe(effects=True)
def observed_assign(t: 'Transition', h: 'HFTransition', z: 'ZTransition', f: 'Quantity'):
    """assigning to the frequency of any transition is the same as setting it"""
    t.freq = f
    h.freq = f
    z.freq = f


def expected_assign(t, h, z, f):
    t.set_frequency(f)
    h.set_frequency(f)
    z.set_frequency(f)


@observe(effects=True, inline=['Atom.enforce_consistency'])
def observed_propagate(atom: 'Atom', what: 'opt[tuple]'):
    """every connected group of fixed transitions is walked outwards from its lowest level; each step puts the
    unlocked end (the upper one first) at the fixed frequency from the other and locks both"""
    atom.enforce_consistency(what)


def expected_propagate(atom, what):
    import networkx as nx
    import warnings
    from atomtoolkit import Hz
    g = atom._levelsModel
    fixed = g.edge_subgraph([(u, v) for u, v, d in g.edges(data=True) if d['transition'].set_freq is not None])
    for c in nx.connected_components(fixed):
        part = fixed.subgraph(c)
        if what:
            if not (what in part or what in part.edges()):
                continue
        low, key_low = None, None
        for key, level in part.nodes(data='level'):
            if low is None:
                low, key_low = level, key
            elif level.level_Hz < low.level_Hz:
                low, key_low = level, key
        for edge in nx.dfs_edges(part, source=key_low):
            t = part.edges()[edge]['transition']
            f = t.set_freq.to(Hz).magnitude
            up, down = t.E_upper, t.E_lower
            if up.fixed and down.fixed and f != abs(down.level_Hz - up.level_Hz):
                warnings.warn('contradiction')
            elif up.fixed:
                down.level_Hz = up.level_Hz - f
            else:
                up.level_Hz = down.level_Hz + f
            up.fixed = True
            down.fixed = True
