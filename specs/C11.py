@observe(effects=True, inline=['Transition.populate_subtransitions'])
def observed_hyperfine_components(t: 'Transition'):
    """the hyperfine components are exactly the allowed pairs among the sublevel pairs within reach of the rank,
    each filed under (lower label, upper label)"""
    t.populate_subtransitions()


def expected_hyperfine_components(t):
    from atomtoolkit.atom import HFTransition
    ok = t.allowed_types
    reach = 2 if ok[2] and not ok[1] else 1
    anything = not (True in ok)
    for a in t.E_1.sublevels():
        for b in t.E_2.sublevels():
            if anything or abs(a.term.F - b.term.F) <= reach:
                x = HFTransition(a, b, parent=t)
                if x.allowed_types[0] or x.allowed_types[1] or x.allowed_types[2]:
                    t[(x.E_lower.term.short_name, x.E_upper.term.short_name)] = x


@observe(effects=True, inline=['HFTransition.populate_subtransitions'])
def observed_zeeman_components(t: 'HFTransition'):
    """the same for the Zeeman components of a hyperfine component"""
    t.populate_subtransitions()


def expected_zeeman_components(t):
    from atomtoolkit.atom import ZTransition
    ok = t.allowed_types
    reach = 2 if ok[2] and not ok[1] else 1
    anything = not (True in ok)
    for a in t.E_1.sublevels():
        for b in t.E_2.sublevels():
            if anything or abs(a.term.mF - b.term.mF) <= reach:
                x = ZTransition(a, b, parent=t)
                if x.allowed_types[0] or x.allowed_types[1] or x.allowed_types[2]:
                    t[(x.E_lower.term.short_name, x.E_upper.term.short_name)] = x


@observe(effects=True, inline=['ZTransition.populate_subtransitions'])
def observed_zeeman_leaves(t: 'ZTransition'):
    """a Zeeman component has no components"""
    return t.populate_subtransitions()


def expected_zeeman_leaves(t):
    return None


@observe(inline=['BaseTransition.__getitem__'], effects=False)
def observed_lookup(t: 'Transition', a: 'str', b: 'str'):
    """a component is found under either order of its two labels, the exact order first"""
    return t[(a, b)]


def given_lookup(t, a, b):
    return len(t._subtransitions) > 0


def expected_lookup(t, a, b):
    if (a, b) in t._subtransitions:
        return t._subtransitions[(a, b)]
    return t._subtransitions[(b, a)]
