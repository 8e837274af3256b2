LEVELS = ['EnergyLevel.populate_sublevels', 'EnergyLevel._assign_models', 'HFLevel.populate_sublevels',
          'HFLevel._assign_models']
TRANS = ['Transition.populate_subtransitions', 'HFTransition.populate_subtransitions']


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.keys'])
def observed_level_keys(x: 'EnergyLevel'):
    """reading the keys of an unpopulated level creates and registers the sublevels first, once"""
    return x.keys()


def expected_level_keys(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.keys()


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.values'])
def observed_level_values(x: 'EnergyLevel'):
    """reading the values of an unpopulated level creates and registers the sublevels first, once"""
    return x.values()


def expected_level_values(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.values()


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.items'])
def observed_level_items(x: 'EnergyLevel'):
    """reading the items of an unpopulated level creates and registers the sublevels first, once"""
    return x.items()


def expected_level_items(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.items()


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.sublevels'])
def observed_level_list(x: 'EnergyLevel'):
    """reading the list of an unpopulated level creates and registers the sublevels first, once"""
    return x.sublevels()


def expected_level_list(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return list(x._sublevels.values())


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.__len__'])
def observed_level_len(x: 'EnergyLevel'):
    """reading the len of an unpopulated level creates and registers the sublevels first, once"""
    return len(x)


def expected_level_len(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return len(x._sublevels)


@observe(effects=True, opaque=LEVELS, inline=['EnergyLevel.__iter__'])
def observed_level_iter(x: 'EnergyLevel'):
    """reading the iter of an unpopulated level creates and registers the sublevels first, once"""
    return list(iter(x))


def expected_level_iter(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return list(x._sublevels)


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.keys'])
def observed_hyperfine_keys(x: 'HFLevel'):
    """reading the keys of an unpopulated level creates and registers the sublevels first, once"""
    return x.keys()


def expected_hyperfine_keys(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.keys()


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.values'])
def observed_hyperfine_values(x: 'HFLevel'):
    """reading the values of an unpopulated level creates and registers the sublevels first, once"""
    return x.values()


def expected_hyperfine_values(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.values()


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.items'])
def observed_hyperfine_items(x: 'HFLevel'):
    """reading the items of an unpopulated level creates and registers the sublevels first, once"""
    return x.items()


def expected_hyperfine_items(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return x._sublevels.items()


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.sublevels'])
def observed_hyperfine_list(x: 'HFLevel'):
    """reading the list of an unpopulated level creates and registers the sublevels first, once"""
    return x.sublevels()


def expected_hyperfine_list(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return list(x._sublevels.values())


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.__len__'])
def observed_hyperfine_len(x: 'HFLevel'):
    """reading the len of an unpopulated level creates and registers the sublevels first, once"""
    return len(x)


def expected_hyperfine_len(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return len(x._sublevels)


@observe(effects=True, opaque=LEVELS, inline=['HFLevel.__iter__'])
def observed_hyperfine_iter(x: 'HFLevel'):
    """reading the iter of an unpopulated level creates and registers the sublevels first, once"""
    return list(iter(x))


def expected_hyperfine_iter(x):
    if len(x._sublevels) == 0:
        x._assign_models()
        x.populate_sublevels()
        for y in list(x._sublevels.values()):
            x._submodel.add_node(y.name, level=y)
    return list(x._sublevels)


@observe(effects=True, opaque=TRANS, inline=['Transition.keys'])
def observed_transition_keys(t: 'Transition'):
    """reading the keys of an unpopulated transition creates and registers its components first, once"""
    return t.keys()


def expected_transition_keys(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.keys()


@observe(effects=True, opaque=TRANS, inline=['Transition.values'])
def observed_transition_values(t: 'Transition'):
    """reading the values of an unpopulated transition creates and registers its components first, once"""
    return t.values()


def expected_transition_values(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.values()


@observe(effects=True, opaque=TRANS, inline=['Transition.items'])
def observed_transition_items(t: 'Transition'):
    """reading the items of an unpopulated transition creates and registers its components first, once"""
    return t.items()


def expected_transition_items(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.items()


@observe(effects=True, opaque=TRANS, inline=['Transition.subtransitions'])
def observed_transition_list(t: 'Transition'):
    """reading the list of an unpopulated transition creates and registers its components first, once"""
    return t.subtransitions()


def expected_transition_list(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return list(t._subtransitions.values())


@observe(effects=True, opaque=TRANS, inline=['Transition.__len__'])
def observed_transition_len(t: 'Transition'):
    """reading the len of an unpopulated transition creates and registers its components first, once"""
    return len(t)


def expected_transition_len(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return len(t._subtransitions)


@observe(effects=True, opaque=TRANS, inline=['Transition.__iter__'])
def observed_transition_iter(t: 'Transition'):
    """reading the iter of an unpopulated transition creates and registers its components first, once"""
    return list(iter(t))


def expected_transition_iter(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return list(t._subtransitions)


@observe(effects=True, opaque=TRANS, inline=['HFTransition.keys'])
def observed_component_keys(t: 'HFTransition'):
    """reading the keys of an unpopulated transition creates and registers its components first, once"""
    return t.keys()


def expected_component_keys(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.keys()


@observe(effects=True, opaque=TRANS, inline=['HFTransition.values'])
def observed_component_values(t: 'HFTransition'):
    """reading the values of an unpopulated transition creates and registers its components first, once"""
    return t.values()


def expected_component_values(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.values()


@observe(effects=True, opaque=TRANS, inline=['HFTransition.items'])
def observed_component_items(t: 'HFTransition'):
    """reading the items of an unpopulated transition creates and registers its components first, once"""
    return t.items()


def expected_component_items(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return t._subtransitions.items()


@observe(effects=True, opaque=TRANS, inline=['HFTransition.subtransitions'])
def observed_component_list(t: 'HFTransition'):
    """reading the list of an unpopulated transition creates and registers its components first, once"""
    return t.subtransitions()


def expected_component_list(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return list(t._subtransitions.values())


@observe(effects=True, opaque=TRANS, inline=['HFTransition.__len__'])
def observed_component_len(t: 'HFTransition'):
    """reading the len of an unpopulated transition creates and registers its components first, once"""
    return len(t)


def expected_component_len(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return len(t._subtransitions)


@observe(effects=True, opaque=TRANS, inline=['HFTransition.__iter__'])
def observed_component_iter(t: 'HFTransition'):
    """reading the iter of an unpopulated transition creates and registers its components first, once"""
    return list(iter(t))


def expected_component_iter(t):
    if len(t._subtransitions) == 0:
        assert len(t.E_1.sublevels()) != 0
        assert len(t.E_2.sublevels()) != 0
        t.populate_subtransitions()
        for y in list(t._subtransitions.values()):
            y.add_to_atom(t.atom)
    return list(t._subtransitions)


@observe(effects=True, inline=['BaseLevel.__setitem__', 'BaseLevel.__delitem__', 'BaseTransition.__setitem__',
                               'BaseTransition.__delitem__'])
def observed_assigned(x: 'EnergyLevel', h: 'HFLevel', z: 'ZLevel', k: 'str', t: 'Transition', c: 'HFTransition',
                      a: 'str', b: 'str'):
    """a sublevel assigned to a key of a level is found there and has that level as its parent; a component assigned to a
    pair is found there"""
    x[k] = x['F=0']
    h[k] = z
    t[a, b] = c


def expected_assigned(x, h, z, k, t, c, a, b):
    y = x['F=0']
    y.parent = x
    x._sublevels[k] = y
    z.parent = h
    h._sublevels[k] = z
    t._subtransitions[(a, b)] = c


@observe(effects=True, inline=['BaseLevel.__setitem__', 'BaseLevel.__delitem__', 'BaseTransition.__setitem__',
                               'BaseTransition.__delitem__'])
def observed_deleted(x: 'EnergyLevel', h: 'HFLevel', k: 'str', t: 'Transition', u: 'HFTransition', a: 'str', b: 'str'):
    """deleting a key removes exactly that sublevel or component"""
    del x[k]
    del h[k]
    del t[a, b]
    del u[a, b]


def expected_deleted(x, h, k, t, u, a, b):
    del x._sublevels[k]
    del h._sublevels[k]
    del t._subtransitions[(a, b)]
    del u._subtransitions[(a, b)]
