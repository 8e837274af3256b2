@observe(inline_new=['Atom', 'LevelStructure', 'TransitionStructure'])
def observed_wiring(b: 'Quantity'):
    """a new atom and its level and transition interfaces share the same three graphs, one per kind of level"""
    from atomtoolkit.atom import Atom
    a = Atom('X', B=b)
    return (a.levels.atom is a, a.transitions.atom is a, a.levels.model is a._levelsModel,
            a.levels.hf_model is a._hfModel, a.levels.z_model is a._zModel, a.transitions.model is a._levelsModel,
            a.transitions.hf_model is a._hfModel, a.transitions.z_model is a._zModel,
            a._levelsModel is a._hfModel, a._levelsModel is a._zModel, a._hfModel is a._zModel)


def expected_wiring(b):
    return True, True, True, True, True, True, True, True, False, False, False


@observe(effects=True, inline=['EnergyLevel.add_to_atom'])
def observed_level(x: 'EnergyLevel', atom: 'Atom'):
    """joining an atom puts a level into its level graph under its name, along with the sublevels it already has"""
    x.add_to_atom(atom)
    return x.atom


def expected_level(x, atom):
    x.atom = atom
    x._model = atom._levelsModel
    x._submodel = atom._hfModel
    atom._levelsModel.add_node(x.name, level=x)
    if len(x._sublevels) != 0:
        for y in x.sublevels():
            y.add_to_atom(atom)
    return atom


@observe(effects=True, inline=['HFLevel.add_to_atom'], ref_inline=['ZLevel.add_to_atom'])
def observed_hyperfine_level(x: 'HFLevel', atom: 'Atom'):
    """a hyperfine sublevel goes into the hyperfine graph, along with the sublevels it already has"""
    x.add_to_atom(atom)


def expected_hyperfine_level(x, atom):
    x.atom = atom
    x._model = atom._hfModel
    x._submodel = atom._zModel
    atom._hfModel.add_node(x.name, level=x)
    if len(x._sublevels) != 0:
        for y in x.sublevels():
            y.add_to_atom(atom)


@observe(effects=True, inline=['ZLevel.add_to_atom'])
def observed_zeeman_level(x: 'ZLevel', atom: 'Atom'):
    """a Zeeman sublevel goes into the Zeeman graph"""
    x.add_to_atom(atom)


def expected_zeeman_level(x, atom):
    x.atom = atom
    x._model = atom._zModel
    x._submodel = None
    atom._zModel.add_node(x.name, level=x)
    if len(x._sublevels) != 0:
        for y in x.sublevels():
            y.add_to_atom(atom)


@observe(effects=True, inline=['Transition.add_to_atom'])
def observed_transition(t: 'Transition', atom: 'Atom'):
    """joining an atom puts a transition into its level graph between its two levels, along with its components"""
    t.add_to_atom(atom)


def expected_transition(t, atom):
    t.atom = atom
    t._model = atom._levelsModel
    t._submodel = atom._hfModel
    atom._levelsModel.add_edge(t.E_lower.name, t.E_upper.name, transition=t)
    if len(t._subtransitions) != 0:
        for y in t._subtransitions.values():
            y.add_to_atom(atom)


@observe(effects=True, inline=['HFTransition.add_to_atom'])
def observed_hyperfine_transition(t: 'HFTransition', atom: 'Atom'):
    """a hyperfine component goes into the hyperfine graph, along with its components"""
    t.add_to_atom(atom)


def expected_hyperfine_transition(t, atom):
    t.atom = atom
    t._model = atom._hfModel
    t._submodel = atom._zModel
    atom._hfModel.add_edge(t.E_lower.name, t.E_upper.name, transition=t)
    if len(t._subtransitions) != 0:
        for y in t._subtransitions.values():
            y.add_to_atom(atom)


@observe(effects=True, inline=['ZTransition.add_to_atom'])
def observed_zeeman_transition(t: 'ZTransition', atom: 'Atom'):
    """a Zeeman component goes into the Zeeman graph"""
    t.add_to_atom(atom)


def expected_zeeman_transition(t, atom):
    t.atom = atom
    t._model = atom._zModel
    t._submodel = None
    atom._zModel.add_edge(t.E_lower.name, t.E_upper.name, transition=t)
    if len(t._subtransitions) != 0:
        for y in t._subtransitions.values():
            y.add_to_atom(atom)


@observe(effects=True, inline_new=['Transition', 'HFTransition', 'ZTransition'])
def observed_new_transition(a: 'EnergyLevel', b: 'EnergyLevel', f: 'Quantity'):
    """a transition made between two levels joins the atom of the first one, if there is one"""
    from atomtoolkit.atom import Transition
    Transition(a, b, freq=f)


def expected_new_transition(a, b, f):
    from atomtoolkit.atom import Transition
    t = Transition(a, b, freq=f)
    if a.atom is not None:
        t.add_to_atom(a.atom)


@observe(effects=True, inline_new=['Transition', 'HFTransition', 'ZTransition'],
         opaque=['HFTransition.transition_allowed'])
def observed_new_component(a: 'HFLevel', b: 'HFLevel', p: 'Transition'):
    """a component joins the atom only if it is allowed in at least one multipole"""
    from atomtoolkit.atom import HFTransition
    HFTransition(a, b, parent=p)


def expected_new_component(a, b, p):
    from atomtoolkit.atom import HFTransition
    t = HFTransition(a, b, parent=p)
    ok = t.transition_allowed()
    if a.atom is not None and (ok[0] or ok[1] or ok[2]):
        t.add_to_atom(a.atom)


@observe(effects=True, inline=['Atom.add_level'])
def observed_add_level(atom: 'Atom', x: 'EnergyLevel', alias: 'opt[str]'):
    """adding a level registers it and every alias it has, and returns it"""
    return atom.add_level(x, alias=alias)


def expected_add_level(atom, x, alias):
    x.add_to_atom(atom)
    if alias is not None:
        x.alias = alias
    if x.alias is not None:
        atom.levels.aliases[x.alias] = x
    return x


@observe(effects=True, inline=['Atom.add_level'])
def observed_add_populated_level(atom: 'Atom', x: 'EnergyLevel'):
    """adding a level with its sublevels creates them and registers each one"""
    return atom.add_level(x, True)


def expected_add_populated_level(atom, x):
    x.add_to_atom(atom)
    if x.alias is not None:
        atom.levels.aliases[x.alias] = x
    x.populate_sublevels()
    for y in list(x.values()):
        y.add_to_atom(atom)
    return x


@observe(effects=True, inline=['Atom.add_transition'])
def observed_add_transition(atom: 'Atom', t: 'Transition'):
    """adding a transition registers it and its alias, then imposes its frequency if it has one"""
    return atom.add_transition(t)


def expected_add_transition(atom, t):
    t.add_to_atom(atom)
    if t.alias is not None:
        atom.transitions.aliases[t.alias] = t
    if t.set_freq is not None:
        atom.enforce_consistency()
    return t


@observe(effects=True, inline=['Atom.add_transition'])
def observed_add_by_names(atom: 'Atom', a: 'str', b: 'str', f: 'Quantity'):
    """adding a pair of level keys makes the transition between those levels, unless it is already there"""
    return atom.add_transition((a, b), freq=f)


def expected_add_by_names(atom, a, b, f):
    import warnings
    from atomtoolkit.atom import Transition
    if (a, b) in atom.transitions.keys():
        warnings.warn('already there')
        t = atom.transitions[(a, b)]
    else:
        t = Transition(atom.levels[a], atom.levels[b], freq=f)
    t.add_to_atom(atom)
    if t.alias is not None:
        atom.transitions.aliases[t.alias] = t
    if t.set_freq is not None:
        atom.enforce_consistency()
    return t


@observe(effects=True, inline=['Atom.add_transition'])
def observed_add_by_levels(atom: 'Atom', x: 'EnergyLevel', y: 'EnergyLevel', f: 'Quantity', a: 'Quantity'):
    """adding a pair of levels makes the transition between them, with the frequency and A given and no alias"""
    return atom.add_transition((x, y), freq=f, A=a)


def given_add_by_levels(atom, x, y, f, a):
    return (x, y) not in atom.transitions.keys()


def expected_add_by_levels(atom, x, y, f, a):
    from atomtoolkit.atom import Transition
    t = Transition(x, y, freq=f, A=a)
    t.add_to_atom(atom)
    if t.alias is not None:
        atom.transitions.aliases[t.alias] = t
    if t.set_freq is not None:
        atom.enforce_consistency()
    return t


@observe(effects=True, inline=['Atom.add_transition'])
def observed_add_named(atom: 'Atom', a: 'str', b: 'str', n: 'str', al: 'str'):
    """everything else said of a new transition reaches it: its name and its alias"""
    return atom.add_transition((a, b), name=n, alias=al)


def given_add_named(atom, a, b, n, al):
    return (a, b) not in atom.transitions.keys()


def expected_add_named(atom, a, b, n, al):
    from atomtoolkit.atom import Transition
    t = Transition(atom.levels[a], atom.levels[b], name=n, alias=al)
    t.add_to_atom(atom)
    if t.alias is not None:
        atom.transitions.aliases[t.alias] = t
    if t.set_freq is not None:
        atom.enforce_consistency()
    return t


@observe(effects=True, inline_new=['Atom', 'LevelStructure', 'TransitionStructure'], ref_new=[])
def observed_constructed(n: 'str', i: 'num', xs: 'list[EnergyLevel]', ts: 'list[Transition]'):
    """a new atom keeps the name and nuclear spin it is given and adds every level and transition it is given"""
    from atomtoolkit.atom import Atom
    a = Atom(n, I=i, levels=xs, transitions=ts)
    return a.name, a.I


def expected_constructed(n, i, xs, ts):
    from atomtoolkit.atom import Atom
    from atomtoolkit import util
    a = Atom(n, I=i, levels=xs, transitions=ts)
    for x in xs:
        a.add_level(x)
    for t in ts:
        a.add_transition(t)
    return n, util.frac_to_float(i)


@observe(effects=True, inline_new=['Atom', 'LevelStructure', 'TransitionStructure'], ref_new=[])
def observed_constructed_in_part(xs: 'list[EnergyLevel]', ts: 'list[Transition]'):
    """a new atom may be given levels or transitions alone"""
    from atomtoolkit.atom import Atom
    Atom('X', levels=xs)
    Atom('Y', transitions=ts)


def expected_constructed_in_part(xs, ts):
    from atomtoolkit.atom import Atom
    a = Atom('X', levels=xs)
    for x in xs:
        a.add_level(x)
    b = Atom('Y', transitions=ts)
    for t in ts:
        b.add_transition(t)


@observe(inline=['EnergyLevel.get_atom'])
def observed_level_of(x: 'EnergyLevel', a: 'Atom'):
    """a level made with an atom as its parent belongs to that atom"""
    x.parent = a
    return x.get_atom()


def expected_level_of(x, a):
    return a


@observe(inline=['EnergyLevel.get_atom'])
def observed_level_of_none(x: 'EnergyLevel'):
    """a level made without a parent belongs to no atom yet"""
    x.parent = None
    return x.get_atom()


def expected_level_of_none(x):
    return None


@observe(inline=['HFLevel.get_atom'], ref_inline=['ZLevel.get_atom'])
def observed_sublevel_of(x: 'HFLevel', y: 'ZLevel'):
    """a sublevel belongs to the atom its parent belongs to"""
    return x.get_atom(), y.get_atom()


def expected_sublevel_of(x, y):
    return x.parent.atom, y.parent.atom
