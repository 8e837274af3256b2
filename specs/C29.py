@observe(effects=True, values=False, inline=['HFLevel.compute_hf_shift', 'HFLevel.compute_gF', 'EnergyLevel.compute_gJ'])
def observed_levels(l: 'EnergyLevel', h: 'HFLevel', z: 'ZLevel'):
    """reading a level changes nothing"""
    for x in (l, h, z):
        x.level, x.level_Hz, x.shift, x.shift_Hz, x.alias, str(x), repr(x)
    l.hfA, l.hfB, l.hfC
    l.compute_gJ()
    h.compute_hf_shift()
    h.compute_gF()
    l.get_manifold(), h.get_manifold(), z.get_manifold(), l.get_atom(), h.get_atom(), z.get_atom()
    return None


def expected_levels(l, h, z):
    return None


@observe(effects=True, values=False, inline=['HFTransition.compute_linewidth', 'ZTransition.compute_linewidth'])
def observed_transitions(t: 'Transition', h: 'HFTransition', z: 'ZTransition'):
    """reading a transition changes nothing"""
    for x in (t, h, z):
        x.freq, x.freq_Hz, x.wl, x.alias, str(x), repr(x)
        x.compute_linewidth()
        x.transition_allowed()
    return None


def expected_transitions(t, h, z):
    return None


LOOK = ['LevelStructure.__getitem__', 'TransitionStructure.__getitem__']


@observe(effects=True, values=False, inline=LOOK)
def observed_level_key(a: 'Atom', k: 'str'):
    """looking a level up by a key changes nothing"""
    a.levels[k]
    k in a.levels
    return None


def given_level_key(a, k):
    return k in a.levels


def expected_level_key(a, k):
    return None


@observe(effects=True, values=False, inline=LOOK)
def observed_level_rank(a: 'Atom', i: 'int'):
    """looking levels up by rank changes nothing"""
    a.levels[i]
    a.levels[i:i + 2]
    return None


def expected_level_rank(a, i):
    return None


@observe(effects=True, values=False, inline=LOOK)
def observed_level_listing(a: 'Atom'):
    """listing and measuring the collection of levels changes nothing"""
    len(a.levels), list(a.levels), a.levels.keys(), a.levels.values(), a.levels.list_names(), a.levels.levels()
    return a.B


def expected_level_listing(a):
    return a.B


@observe(effects=True, values=False, inline=LOOK)
def observed_transition_key(a: 'Atom', p: 'tuple[str,str]'):
    """looking a transition up by a pair of keys changes nothing"""
    a.transitions[p]
    return None


def given_transition_key(a, p):
    return p in a.transitions


def expected_transition_key(a, p):
    return None


@observe(effects=True, values=False, inline=LOOK)
def observed_transition_listing(a: 'Atom'):
    """listing and measuring the collection of transitions changes nothing"""
    len(a.transitions), list(a.transitions), a.transitions.keys(), a.transitions.values()
    a.transitions.list_names(), a.transitions.list_names(False)
    return a.B


def expected_transition_listing(a):
    return a.B


@observe(effects=True, values=False, inline=['Atom.linked_levels', 'Atom.state_lifetime', 'Atom.compute_branching_ratios'])
def observed_rates(a: 'Atom', l: 'EnergyLevel'):
    """branching ratios, lifetimes and linked levels of a manifold change nothing"""
    a.compute_branching_ratios(l.name)
    a.state_lifetime(l.name)
    a.linked_levels(l.name)
    return None


def given_rates(a, l):
    from atomtoolkit.atom import EnergyLevel
    return isinstance(a.levels[l.name], EnergyLevel)


def expected_rates(a, l):
    return None


@observe(effects=True, values=False, inline=['make_term_copy'])
def observed_terms(t: 'Term', m: 'MultiTerm', F: 'half', mF: 'half'):
    """reading, comparing, copying or converting a term changes nothing"""
    str(t), repr(t), str(m), repr(m), t.name, t.short_name, m.full_name, len(m), m[0]
    t == t, m == t, m == m
    t.make_term_copy(F, mF)
    m.make_term_copy(F, mF)
    return None


def expected_terms(t, m, F, mF):
    return None
