@observe(inline=['EnergyLevel.__init__', 'BaseLevel.__init__', 'BaseLevel.__str__'], inline_new=['EnergyLevel'])
def observed_level(t: 'Term', m: 'MultiTerm', e: 'Quantity', a: 'str'):
    """a level bears the name of its term, the leading one of a mixture, and that is also its text"""
    from atomtoolkit.atom import EnergyLevel
    x, y = EnergyLevel(t, e), EnergyLevel(m, e, alias=a)
    return x.name, str(x), y.name, str(y), y.alias


def expected_level(t, m, e, a):
    from atomtoolkit.term import MultiTerm
    name = MultiTerm(t).name
    return name, name, m.terms[0].name, m.terms[0].name, a


@observe(inline=['BaseLevel.__str__', 'BaseLevel.__repr__', 'BaseTransition.__str__', 'BaseTransition.__repr__',
                 'Atom.__str__', 'Atom.__repr__', 'Term.__str__', 'Term.__repr__'])
def observed_texts(x: 'EnergyLevel', h: 'HFLevel', z: 'ZLevel', t: 'Transition', a: 'Atom', s: 'Term'):
    """levels, transitions and atoms are written as their names, terms as their term symbols"""
    return str(x), str(h), f'{z}', str(t), f'{a}', str(s)


def expected_texts(x, h, z, t, a, s):
    return x.name, h.name, z.name, t.name, a.name, s.term_name


@observe(inline=['BaseLevel.__repr__', 'BaseTransition.__repr__', 'Atom.__repr__', 'Term.__repr__'])
def observed_shown(x: 'EnergyLevel', h: 'HFLevel', t: 'Transition', z: 'ZTransition', a: 'Atom', s: 'Term'):
    """shown in a session, each tells what it is, its name, and its energy, frequency and A coefficient, spin or size"""
    return repr(x), repr(h), repr(t), repr(z), repr(a), repr(s)


def expected_shown(x, h, t, z, a, s):
    def level(kind, y):
        return f'<{kind}(name = {y.name}, level={y.level}, {len(y._sublevels)} sublevels)>'

    def line(kind, y):
        return f'<{kind}({y.name}, freq={y.freq}, A={y.A}>'
    return (level('EnergyLevel', x), level('HFLevel', h), line('Transition', t), line('ZTransition', z),
            f'<Atom(name={a.name}, I={a.I}, {len(a.levels)} levels)>', f'Term({s.name})')


@observe(inline=['LevelStructure.__repr__', 'TransitionStructure.__repr__'])
def observed_structures(a: 'Atom'):
    """the collections of an atom tell how many levels and transitions they hold, and of which kind they
    are, if there are any"""
    return repr(a.levels), repr(a.transitions)


def expected_structures(a):
    n, m = len(a.levels), len(a.transitions)
    levels, lines = f'LevelStructure containing {n} levels', f'TransitionStructure containing {m} transitions'
    if n > 0:
        levels += f' of type {type(list(a.levels.values())[0]).__name__}'
    if m > 0:
        lines += f' of type {type(list(a.transitions.values())[0]).__name__}'
    return levels, lines


@observe(inline=['Transition.__init__', 'BaseTransition.__init__'], inline_new=['Transition'])
def observed_transition(x: 'EnergyLevel', y: 'EnergyLevel', n: 'str'):
    """a transition is named after the two levels in the order they were given, unless it is given a name; its key is the
    pair of their names"""
    from atomtoolkit.atom import Transition
    t, u = Transition(x, y), Transition(x, y, name=n)
    return t.name, t.model_name, u.name, u.model_name


def expected_transition(x, y, n):
    return x.name + ' → ' + y.name, (x.name, y.name), n, (x.name, y.name)
