"""Hand-written behaviour-preserving rewrites of the repository: the checks have to stay quiet on each of them.
usage: rewrites.py list | apply NAME DIR"""
import os
import sys

A = 'atomtoolkit/atom.py'
R = {}


def rw(name, *edits):
    R[name] = edits


rw('hf-helper-constants', (A, """        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))

        if J <= 1 or I <= 1:
            FM3 = 0
        else:
            FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                    -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""", """        ii, jj, ff = I * (I + 1), J * (J + 1), F * (F + 1)
        k = (ff - jj - ii) / 2
        level = self.manifold
        shift = level.hfA_Hz * k
        if J > 0.5 and I > 0.5:
            shift += level.hfB_Hz * self._quadrupole_factor(k, ii, jj)
        if not (J <= 1 or I <= 1):
            numerator = 10 * k ** 3 + 20 * k ** 2 + 2 * k * (ii + jj + 3 - 3 * ii * jj) - 5 * ii * jj
            shift += level.hfC_Hz * numerator / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return shift

    def _quadrupole_factor(self, k, ii, jj):
        I, J = self.atom.I, self.term.J
        return (3 * k * k + 3 * k / 2 - ii * jj) / (2 * I * (2 * I - 1) * J * (2 * J - 1))
"""))

rw('hf-max-min', (A, """        if J <= 0.5 or I <= 0.5:
            FE2 = 0""", """        if min(I, J) <= 0.5:
            FE2 = 0"""), (A, "        if J <= 1 or I <= 1:\n", "        if not min(J, I) > 1:\n"))

rw('gF-early-return', (A, """        if F != 0:
            return self.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return 0.0
""", """        if F == 0:
            return 0.0
        ratio = 0.5 * (1 + (J * (J + 1) - I * (I + 1)) / (F * (F + 1)))
        return ratio * self.manifold.lande
"""))

rw('gJ-generator', (A, """            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
                                                         / (2 * J * (J + 1))))
        return total / sum(term.percentage for term in self.term.terms)
""", """            jj = J * (J + 1)
            g = 1 + 1.0023 * (jj + ss * (ss + 1) - ls * (ls + 1)) / (2 * jj)
            total = total + sum(g * ampls ** 2) * term.percentage
        weight = 0
        for term in self.term.terms:
            weight += term.percentage
        return total / weight
"""))

rw('gJ-method-extraction', (A, """            if term.coupling == 'LS':
                terms = np.array([[term.l], [term.s], [1.0]])
            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'LK':
                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
            else:
                return 0.0
""", """            terms = self._ls_expansion(term)
            if terms is None:
                return 0.0
"""), (A, """    @classmethod
    def from_dataframe(cls, df, i=0) -> EnergyLevel:""", """    @staticmethod
    def _ls_expansion(term):
        from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
        if term.coupling == 'LS':
            return np.array([[term.l], [term.s], [1.0]])
        if term.coupling == 'LK':
            return LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
        if term.coupling == 'JJ' and not any(x is None for x in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so)):
            return JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
        if term.coupling == 'JK' and not any(x is None for x in (term.jc, term.k, term.lc, term.sc, term.lo, term.so)):
            return JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
        return None

    @classmethod
    def from_dataframe(cls, df, i=0) -> EnergyLevel:"""), (A, """        from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
        if self.term.J == 0:
            return 0.0
""", """        if self.term.J == 0:
            return 0.0
"""))

rw('sublevels-range', (A, """            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """            J, I = self.term.J, self.atom.I
            lowest = abs(J - I)
            for n in range(int(J + I - lowest) + 1):
                f = lowest + n
                sublevel = HFLevel(term=self.term.make_term_copy(F=f), parent=self)
                self['F=' + util.float_to_frac(f)] = sublevel
"""))

rw('sublevels-while', (A, """            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """            f = abs(self.term.J - self.atom.I)
            while f <= self.term.J + self.atom.I:
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
                f += 1
"""))

rw('sublevels-guard-clause', (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        for f in self._F_values():
            self._add_sublevel(f)

    def _F_values(self):
        return np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1)

    def _add_sublevel(self, f):
        self[f'F={util.float_to_frac(f)}'] = HFLevel(term=self.term.make_term_copy(F=f), parent=self)
"""))

rw('zshift-factored', (A, """        return self.gF * self.term.mF * mu_B.to(Hz/G).magnitude * self.atom.B_gauss \\
            + self.quadratic_zeeman * self.atom.B_gauss ** 2
""", """        B = self.atom.B_gauss
        magneton = mu_B.to(Hz / G).magnitude
        return B * (magneton * self.gF * self.term.mF + B * self.quadratic_zeeman)
"""))

rw('hflevel-level-hz', (A, """        return (self.parent.level_Hz + self.shift_Hz) * Hz
""", """        return self.level_Hz * Hz
"""))

rw('hflevel-drop-override', (A, """    @property
    def level(self) -> pint.Quantity:
        \"\"\"When asked, sublevels calculate their position relative to their parent level\"\"\"
        return (self.parent.level_Hz + self.shift_Hz) * Hz

    @level.setter
    def level(self, value: pint.Quantity):
        \"\"\"
        When the level of a sublevel is changed (for example, by a transition being added), the sublevel tells its
        parent to move by the same amount instead of moving itself
        :param value: the new level of the hyperfine level
        \"\"\"
        shift = value - self.level
        self.parent.level += shift
""", """    @property
    def level(self) -> pint.Quantity:
        \"\"\"When asked, sublevels calculate their position relative to their parent level\"\"\"
        return self.parent.level + self.shift

    @level.setter
    def level(self, value: pint.Quantity):
        parent = self.parent
        parent.level = parent.level + (value - self.level)
"""))

rw('init-order', (A, """        self.parent = parent
        self._subtransitions = dict()
        self._alias = alias
        self._model = None
        self._submodel = None
        # Energy Levels
        self.E_1, self.E_2 = E1, E2
        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""", """        self._subtransitions = {}
        self._model = self._submodel = None
        self._alias = alias
        self.E_1 = E1
        self.E_2 = E2
        self.E_lower, self.E_upper = (E1, E2) if E1.level < E2.level else (E2, E1)
        self.parent = parent
"""))

rw('init-name', (A, """        self.name = name
        if self.name is None:
            self.name = f'{self.E_1.name} → {self.E_2.name}'
""", """        self.name = ' → '.join(self.model_name) if name is None else name
"""))

rw('init-any', (A, "        if self.atom is not None and (self.parent is None or np.any(np.array(self.allowed_types))):\n",
                "        forbidden = self.parent is not None and not any(self.allowed_types)\n"
                "        if self.atom is not None and not forbidden:\n"))

rw('subtransitions-any', (A, """            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """            t = HFTransition(a, b, parent=self)
            if not any(t.allowed_types):
                continue
            self[t.E_lower.term.short_name, t.E_upper.term.short_name] = t
"""), (A, """            t = ZTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """            t = ZTransition(a, b, parent=self)
            if True in t.allowed_types:
                key = (t.E_lower.term.short_name, t.E_upper.term.short_name)
                self._subtransitions[key] = t
"""))

rw('subtransitions-shared', (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._populate(HFTransition, 'F')
"""), (A, """        pairs = self._compute_sublevel_pairs('mF')
        for a, b in pairs:
            t = ZTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._populate(ZTransition, 'mF')
"""), (A, """    # region: dict-like-methods

    @lazy_compute_subtransitions
    def __len__""", """    def _populate(self, cls, attr):
        for a, b in self._compute_sublevel_pairs(attr):
            t = cls(a, b, parent=self)
            if any(t.allowed_types):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t

    # region: dict-like-methods

    @lazy_compute_subtransitions
    def __len__"""))

rw('pairs-loop', (A, """        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        if self.allowed_types[1] or not self.allowed_types[2]:
            max_delta = 1
        else:
            max_delta = 2
        pairs = []
        for l1 in self.E_1.sublevels():
            for l2 in self.E_2.sublevels():
                delta = getattr(l1.term, attr) - getattr(l2.term, attr)
                if -max_delta <= delta <= max_delta:
                    pairs.append((l1, l2))
        return pairs
"""))

rw('allowed-shared', (A, """        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""", """        same_parity = p0 == p1
        dipole = _triangle(J0, J1, 1.0)
        quadrupole = _triangle(J0, J1, 2.0) and self.E_1 is not self.E_2
        return dipole and not same_parity, dipole and same_parity, quadrupole and same_parity
"""), (A, """class Transition(BaseTransition):
    \"\"\"
    A Transition connects two""", """def _triangle(a, b, k):
    return abs(a - b) <= k and a + b >= k


class Transition(BaseTransition):
    \"\"\"
    A Transition connects two"""))

rw('allowed-types-early', (A, """        J0, J1 = self.E_1.term.J, self.E_2.term.J
        p0, p1 = self.E_1.term.parity, self.E_2.term.parity
        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
""", """        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
        (J0, p0), (J1, p1) = [(E.term.J, E.term.parity) for E in (self.E_1, self.E_2)]
"""))

rw('hf-allowed-loop', (A, """        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret

    def _assign_models(self):
        \"\"\"An HFTransition""", """        return tuple(wigner6j(J0, J1, k, F1, F0, I) != 0.0 and ok for k, ok in zip((1, 1, 2), init))

    def _assign_models(self):
        \"\"\"An HFTransition"""))

rw('hf-linewidth-rank', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        e1, m1, e2 = self.parent.allowed_types
        rank = 1 if (e1 or m1) else 2 if e2 else None
        if rank is None:
            factor = 0.0
        else:
            factor = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J2, F2, I, F1, J1, rank) ** 2
        return self.parent.A * factor, float(factor)
"""))

rw('z-linewidth-range', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
        elif self.parent.allowed_types[2]:
            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        if not any(self.parent.allowed_types):
            factor = 0.0
        else:
            k = 1 if any(self.parent.allowed_types[:2]) else 2
            factor = 0
            for q in range(-k, k + 1):
                factor += wigner3j(F1, k, F2, -mF1, q, mF2) ** 2
        return factor * self.parent.A, float(factor)
"""))

rw('setfreq-flatten', (A, """        if self.set_freq:  # unlock the upper level if the transition is already constrained
            if self.E_upper.fixed and self.E_lower.fixed:
                self.E_upper.fixed = False
        self.set_freq = freq
        self.E_1.atom.enforce_consistency(node_or_trans=self.model_name)
""", """        upper, lower = self.E_upper, self.E_lower
        if self.set_freq and upper.fixed and lower.fixed:
            upper.fixed = False
        self.set_freq = freq
        atom = self.E_1.atom
        atom.enforce_consistency(self.model_name)
"""))

rw('atom-init-or', (A, """        if levels is not None:
            for level in levels:
                self.add_level(level)
        if transitions is not None:
            for transition in transitions:
                self.add_transition(transition)
""", """        for level in levels or []:
            self.add_level(level)
        for transition in transitions or ():
            self.add_transition(transition)
"""))

rw('add-level-alias', (A, """        if alias is not None:
            level.alias = alias
        if level.alias is not None:
            self.levels.aliases[level.alias] = level
        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in list(level.values()):
                sublevel.add_to_atom(self)
        return level
""", """        if alias is not None:
            level.alias = alias
        aliases = self.levels.aliases
        if level.alias is not None:
            aliases[level.alias] = level
        if not populate_sublevels:
            return level
        level.populate_sublevels()
        for sublevel in level.sublevels():
            sublevel.add_to_atom(self)
        return level
"""))

rw('add-transition-split', (A, """        if isinstance(transition, tuple):
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)

        transition.add_to_atom(self)
""", """        if isinstance(transition, tuple):
            transition = self._transition_from_pair(transition, kwargs)

        transition.add_to_atom(self)
"""), (A, """    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss * ureg.gauss
""", """    def _transition_from_pair(self, pair, kwargs):
        if pair in self.transitions.keys():
            warnings.warn(f'transition {pair} is already in {self.name}')
            return self.transitions[pair]
        a, b = pair
        if isinstance(a, str):
            return Transition(self.levels[a], self.levels[b], **kwargs)
        if isinstance(a, BaseLevel):
            return Transition(a, b, **kwargs)
        return pair

    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss * ureg.gauss
"""))

rw('save-pathname', (A, """        if filename is None:
            filename = self.name
        if not filename.endswith(".atom"):
            filename = filename + ".atom"
        with open(filename, "wb") as file:
            pickle.dump(self, file)
""", """        path = self.name if filename is None else filename
        suffix = '.atom'
        if not path.endswith(suffix):
            path += suffix
        with open(path, mode='wb') as f:
            pickle.dump(self, f)
"""))

rw('lifetime-loop', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        total_A = 0
        for t in self.linked_levels(key).values():
            if t.E_upper is level:
                total_A += t.A
        if total_A == 0:
            return np.inf * ureg.s
        return (2 * np.pi / total_A).to(ureg.s)
"""))

rw('ratios-dictcomp', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")

        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        downward = {n: t for n, t in transitions.items() if t.E_upper.name == key}
        if any(t.A is None for t in downward.values()):
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
        rates = {n: t.A.to(Hz).magnitude for n, t in downward.items()}
        total = sum(rates.values())
        return {n: rate / total for n, rate in rates.items()}
"""))

rw('linked-loop', (A, """        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        linked = {}
        for k, edge in level.model.adj[key].items():
            if k == key:
                continue
            linked[k] = edge['transition']
        return linked
"""))

rw('lazy-shared', (A, """            for transition in list(self._subtransitions.values()):
                transition.add_to_atom(self.atom)
        return func(self, *args, **kwargs)
""", """            atom = self.atom
            for transition in tuple(self._subtransitions.values()):
                transition.add_to_atom(atom)
        return func(self, *args, **kwargs)
"""))

rw('lazy-not', (A, """        if len(self._subtransitions) == 0:
            assert""", """        if not self._subtransitions:
            assert"""), (A, """        if len(self._subtransitions) != 0:
            for subtransition in self._subtransitions.values():
                subtransition.add_to_atom(atom)
""", """        for subtransition in self._subtransitions.values():
            subtransition.add_to_atom(atom)
"""), (A, """        if len(self._sublevels) != 0:
            for sublevel in self.sublevels():
                sublevel.add_to_atom(atom)
""", """        for sublevel in self._sublevels.values():
            sublevel.add_to_atom(atom)
"""))


H = 'atomtoolkit/atom_helpers.py'
U = 'atomtoolkit/util.py'
T = 'atomtoolkit/term.py'
S = 'atomtoolkit/transition_strengths.py'

rw('consistency-min', (A, """            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
""", """            key_lowest, _ = min(subgraph.nodes(data='level'), key=lambda item: item[1].level_Hz)
"""))

rw('consistency-lowest-helper', (A, """            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
""", """            key_lowest = self._lowest_key(subgraph)
"""), (A, """    def enforce_consistency(self""", """    @staticmethod
    def _lowest_key(graph):
        best = None
        for key, level in graph.nodes(data='level'):
            if best is None or level.level_Hz < graph.nodes[best]['level'].level_Hz:
                best = key
        return best

    def enforce_consistency(self"""))

rw('consistency-edge-helper', (A, """                t = subgraph.edges()[edge]['transition']
                e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """                self._pin(subgraph.edges[edge]['transition'], edge)

    def _pin(self, t, edge):
        lower, upper = t.E_lower, t.E_upper
        freq = t.set_freq.to(Hz).magnitude
        if upper.fixed and lower.fixed and abs(upper.level_Hz - lower.level_Hz) != freq:
            warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
        elif not upper.fixed:
            upper.level_Hz = lower.level_Hz + freq
        else:
            lower.level_Hz = upper.level_Hz - freq
        lower.fixed = True
        upper.fixed = True
"""))

rw('consistency-continue', (A, """            if node_or_trans:
                # check that the node/transition that triggered the enforcement call is contained in the subgraph
                if not (node_or_trans in subgraph or node_or_trans in subgraph.edges()):
                    continue
""", """            if node_or_trans and node_or_trans not in subgraph and node_or_trans not in subgraph.edges():
                continue
"""), (A, "        connected_components = (set_graph.subgraph(c) for c in nx.connected_components(set_graph))\n"
          "        for subgraph in connected_components:\n",
          "        for component in nx.connected_components(set_graph):\n"
          "            subgraph = set_graph.subgraph(component)\n"))

rw('consistency-edges-loop', (A, """        set_edges = [(u, v) for u, v, e in self._levelsModel.edges(data=True) if e['transition'].set_freq is not None]
""", """        set_edges = []
        for u, v, t in self._levelsModel.edges(data='transition'):
            if t.set_freq is not None:
                set_edges.append((u, v))
"""))

rw('frac-partition', (U, """        if '/' in frac:
            (f1, f2) = frac.split('/')
            return float(f1) / float(f2)
        else:
            try:
                return float(frac)
            except TypeError:
                raise ValueError("Please input a fraction-formatted string or a float")
    return frac
""", """        if '/' not in frac:
            return float(frac)
        numerator, denominator = frac.split('/')
        return float(numerator) / float(denominator)
    return frac
"""))

rw('frac-format', (U, """    if (2 * f) % 2 == 0:
        return str(int(f))
    else:
        return str(int(f * 2)) + '/2'
""", """    twice = int(2 * f)
    return f'{twice}/2' if (2 * f) % 2 != 0 else f'{int(f)}'
"""))

rw('letters-constant', (U, "    return 'SPDFGHIKLMNOQRTUVWXYZ'.index(let.upper())\n", "    return LETTERS.index(let.upper())\n"),
   (U, "    return 'SPDFGHIKLMNOQRTUVWXYZ'[int(l)]\n", "    return LETTERS[int(l)]\n"),
   (U, "        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':\n", "        if term[0] in LETTERS:\n"),
   (U, "def let_to_l(let: str)", "LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'\n\n\ndef let_to_l(let: str)"))

rw('lang-conditions-merged', (U, """    if type(l) is float:
        if not l.is_integer():
            raise (ValueError("Requires an integer or an integer-valued float"))
    if type(l) is str:
        raise TypeError()
""", """    if isinstance(l, str):
        raise TypeError()
    if type(l) is float and int(l) != l:
        raise ValueError("Requires an integer or an integer-valued float")
"""))

rw('coupling-early', (U, """    if '[' in term:
        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':
            return 'LK'
        else:
            return 'JK'
    elif '(' in term:
        return 'JJ'
    elif len(term) > 1:
        return 'LS'
    else:
        return "unknown"
""", """    if '[' in term:
        return 'LK' if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ' else 'JK'
    if '(' in term:
        return 'JJ'
    return 'LS' if len(term) > 1 else 'unknown'
"""))

rw('readable-shared', (U, """    sets = list(zip(*[list(a) for a in JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)]))
    return _sets_to_list(sets)
""", """    return _sets_to_list(list(zip(*JJ_to_LS(J, Jc, Jo, lc, sc, lo, so))))
"""), (U, """    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * ampl ** 2, 2)) for l, s, ampl in sets if ampl != 0]
""", """    out = []
    for l, s, ampl in sets:
        if ampl == 0:
            continue
        label = f'{int(2 * s + 1)}{l_to_let(l)}'
        out.append((label, round(100 * ampl ** 2, 2)))
    return out
"""))

rw('term-names', (T, """        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'

        self.name = f'{self.conf} {self.term_name}'
""", """        parts = [f'{self.term}{self.J_frac}']
        if self.F is not None:
            parts.append(f'F={self.F_frac}')
        if self.mF is not None:
            parts.append(f'mF={self.mF_frac}')
        self.short_name = parts[-1]
        self.term_name = ' '.join(parts)
        self.name = ' '.join([conf, self.term_name])
"""))

rw('term-eq-tuple', (T, """        return self.quantum_nums == other.quantum_nums and \\
               self.conf == other.conf and \\
               self.term == other.term and \\
               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
""", """        return (self.conf, self.term, self.J, self.F, self.mF, self.quantum_nums) == \\
            (other.conf, other.term, other.J, other.F, other.mF, other.quantum_nums)
"""))

rw('term-copy-single', (T, """        if self.F is not None:
            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
                        percentage=self.percentage)
        return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                    percentage=self.percentage)
""", """        new_F = F if self.F is None else self.F
        return Term(self.conf, self.term, self.J, new_F, mF, self.percentage, self.quantum_nums)
"""))

rw('multiterm-eq-zip', (T, """        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
""", """        if len(self) != len(other):
            return False
        return all(a == b for a, b in zip(self.terms, other.terms))
"""))

rw('multiterm-eq-loop', (T, """        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
""", """        if len(self) != len(other):
            return False
        for mine, theirs in zip(self, other):
            if not mine == theirs:
                return False
        return True
"""))

rw('multiterm-sort', (T, """        self.terms = sorted(terms, key=lambda t: t.percentage, reverse=True)
        self.terms_dict = {t.percentage: t for t in self.terms}
""", """        ordered = list(terms)
        ordered.sort(key=lambda term: term.percentage, reverse=True)
        self.terms = ordered
        self.terms_dict = dict((t.percentage, t) for t in ordered)
"""))

rw('parity-if', (T, """        self.parity = (-1 if '*' in self.term else 1)
""", """        if '*' in term:
            self.parity = -1
        else:
            self.parity = 1
"""))

rw('tkq-shared', (S, """    prod = 1
    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                   F1, F0, I) ** 2
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0) ** 2
    return prod
""", """    return tkq_mel(I, k, q, J0, F0, M0, J1, F1, M1) ** 2
"""))

rw('tkq-sqrt', (S, """    prod = 1
    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                 F1, F0, I)
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0)
    return prod
""", """    six_j = wigner6j(J0, J1, k, F1, F0, I)
    three_j = wigner3j(F1, k, F0, -M1, q, M0)
    return np.sqrt((2 * F0 + 1) * (2 * F1 + 1)) * six_j * three_j
"""))

rw('e1-mel-dot', (S, """    eps = eps / np.linalg.norm(eps)
    tot = 0
    tot += tkq_mel(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 ** 0.5 * (eps[0] + 1j * eps[1])
    tot += tkq_mel(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2]
    tot += tkq_mel(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 ** 0.5 * (eps[0] - 1j * eps[1])
    return tot


@functools.lru_cache(maxsize=None)
def E1_transition_strength_geom""", """    x, y, z = eps / np.linalg.norm(eps)
    spherical = {-1: (x + 1j * y) / np.sqrt(2), 0: z, 1: (x - 1j * y) / np.sqrt(2)}
    return sum(tkq_mel(I, 1, q, J0, F0, M0, J1, F1, M1) * component for q, component in spherical.items())


@functools.lru_cache(maxsize=None)
def E1_transition_strength_geom"""))

rw('e1-alias-m1', (S, """    return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0


@functools.lru_cache(maxsize=None)
def M1_mel_geom""", """    return _dipole_average(I, J0, F0, M0, J1, F1, M1)


def _dipole_average(I, *states):
    total = 0.0
    for q in (-1, 0, 1):
        total += tkq_transition_strength(I, 1, q, *states)
    return total / 3


@functools.lru_cache(maxsize=None)
def M1_mel_geom"""), (S, """    return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0


@functools.lru_cache(maxsize=None)
def E2_mel_geom""", """    return _dipole_average(I, J0, F0, M0, J1, F1, M1)


@functools.lru_cache(maxsize=None)
def E2_mel_geom"""))

rw('e2-avg-weights', (S, """    tot = 0
    tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
    tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
    tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * (14.0 / 29.0)
    tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
    tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
    return tot
""", """    weights = {0: 28, 1: 9, 2: 6}
    return sum(weights[abs(q)] / 58 * tkq_transition_strength(I, 2, q, J0, F0, M0, J1, F1, M1) for q in range(-2, 3))
"""))

rw('e2-symmetric', (S, """    tot = 0
    tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \\
           (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \\
           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
    tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \\
           ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    return tot
""", """    def sym(a, b):
        return k[a] * eps[b] + k[b] * eps[a]

    xx, yy, zz = k * eps
    amplitudes = [
        (-2, xx - yy - 1j * sym(0, 1)),
        (-1, -sym(0, 2) + 1j * sym(1, 2)),
        (0, np.sqrt(2 / 3) * (2 * zz - xx - yy)),
        (1, sym(0, 2) + 1j * sym(1, 2)),
        (2, xx - yy + 1j * sym(0, 1)),
    ]
    tot = 0
    for q, amplitude in amplitudes:
        tot += tkq_mel(I, 2, q, J0, F0, M0, J1, F1, M1) * amplitude
    return tot
"""))

rw('jj-outer', (S, """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
                                        lo, so, Jo,
                                        outls[i], outss[i], J) *
                               np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                         for i in range(len(outls))])
    return np.stack([outls, outss, outpercs])
""", """    outls, outss, outpercs = [], [], []
    for l in np.arange(abs(lc - lo), lc + lo + 1):
        for s in np.arange(abs(sc - so), sc + so + 1):
            norm = np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * l + 1) * (2 * s + 1))
            outls.append(l)
            outss.append(s)
            outpercs.append(float(norm * wigner9j(lc, sc, Jc, lo, so, Jo, l, s, J)))
    return np.stack([outls, outss, outpercs])
"""))

rw('levels-getitem-rank', (H, """        if isinstance(key, int) or isinstance(key, slice):
            return sorted(nx.get_node_attributes(self.model, 'level').values(), key=lambda x: x.level_Hz)[key]
        if key in self.aliases:
            return self.aliases[key]
""", """        if isinstance(key, (int, slice)):
            by_energy = sorted(self.values(), key=lambda level: level.level_Hz)
            return by_energy[key]
        aliases = self.aliases
        if key in aliases:
            return aliases[key]
"""))

rw('levels-getitem-helper', (H, """        if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
            main, hf, z = key.rsplit(' ', maxsplit=2)
            return nx.get_node_attributes(self.model, 'level')[main][hf][z]
        elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = nx.get_node_attributes(self.model, 'level')[main]
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        elif 'F=' in key:  # match [conf] [term] F=[f]
            main, hf = key.rsplit(' ', maxsplit=1)
            return nx.get_node_attributes(self.model, 'level')[main][hf]
        else:  # match [conf] [term]
            return nx.get_node_attributes(self.model, 'level')[key]
""".replace("F=[f]\n            main, hf = key", "F=[F]\n            main, hf = key"), """        if 'mF=' in key:
            main, hf, z = key.rsplit(' ', maxsplit=2)
            return self._manifold(main)[hf][z]
        if 'mJ=' in key:
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = self._manifold(main)
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        if 'F=' in key:
            main, hf = key.rsplit(' ', maxsplit=1)
            return self._manifold(main)[hf]
        return self._manifold(key)

    def _manifold(self, name):
        return self.model.nodes[name]['level']
"""))

rw('transitions-getitem-swap', (H, """        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
""", """        k_lower, k_upper = key
        levels = self.atom.levels
        if levels[k_lower].level > levels[k_upper].level:
            k_lower, k_upper = k_upper, k_lower
"""))

rw('transitions-getitem-parent', (H, """            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
""", """            manifold = self.model.edges[main_0, main_1]['transition']
            return manifold[hf_0, hf_1][z_0, z_1]
"""))

rw('list-names-comp', (H, """        if hide_self_transitions:
            return [key for key in self.keys() if key[0] != key[1]]
        return list(self.keys())
""", """        return [(a, b) for a, b in self.keys() if not (hide_self_transitions and a == b)]
"""))

rw('len-nodes', (H, """        return len(nx.get_node_attributes(self.model, 'level'))
""", """        return len(self.keys())
"""))

L = 'atomtoolkit/render/lineshapes.py'
P = 'atomtoolkit/render/spectra.py'
G = 'atomtoolkit/render/grotrian.py'
IO = 'atomtoolkit/IO.py'
W = 'atomtoolkit/wigner.py'
E = 'atomtoolkit/environment.py'
Y = 'species/Yb_II_171.py'

rw('shape-kwargs-get', (L, """        width = self.gamma
        if 'A_coeff' in kwargs:
            width += kwargs['A_coeff']
        ampl = 1.0
        if 'ampl' in kwargs:
            ampl = kwargs['ampl']
        return lorentzian(x, x0, width, ampl=ampl)

    def width_func(self, padding=20.0, **kwargs):
        if 'A_coeff' in kwargs:
            return padding * (self.gamma + kwargs['A_coeff'])
        return padding * self.gamma
""", """        return lorentzian(x, x0, self._total_width(kwargs), ampl=kwargs.get('ampl', 1.0))

    def _total_width(self, options):
        return self.gamma + options.get('A_coeff', 0)

    def width_func(self, padding=20.0, **kwargs):
        return self._total_width(kwargs) * padding
"""))

rw('mod-shape-delegates', (L, """        tot = np.zeros_like(x)
        tot += lorentzian(x, x0, width, ampl=ampl * float(jv(0, self.depth) ** 2))
        for i in range(1, self.num_sidebands + 1):
            mod_ampl = ampl * float(jv(i, self.depth) ** 2)
            tot += lorentzian(x, x0 + i * self.mod_freq_GHz, width, ampl=mod_ampl)
            tot += lorentzian(x, x0 - i * self.mod_freq_GHz, width, ampl=mod_ampl)
        return tot

    def width_func""", """        return mod_lorentzian(x, x0, width, ampl=ampl, depth=self.depth, num_sidebands=self.num_sidebands,
                              mod_freq_GHz=self.mod_freq_GHz)

    def width_func"""))

rw('mod-shape-symmetric', (L, """    tot = np.zeros_like(x)
    tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
    for i in range(1, num_sidebands + 1):
        mod_ampl = ampl * float(jv(i, depth) ** 2)
        tot += lorentzian(x, x0 + i * mod_freq_GHz, gamma, ampl=mod_ampl)
        tot += lorentzian(x, x0 - i * mod_freq_GHz, gamma, ampl=mod_ampl)
    return tot
""", """    def sideband(order, strength):
        return lorentzian(x, x0 + order * mod_freq_GHz, gamma, ampl=strength)

    tot = np.zeros_like(x)
    tot += sideband(0, ampl * float(jv(0, depth) ** 2))
    for i in range(1, num_sidebands + 1):
        strength = ampl * float(jv(i, depth) ** 2)
        tot += sideband(i, strength)
        tot += sideband(-i, strength)
    return tot
"""))

rw('lorentzian-half-width', (L, """    return ampl * gamma ** 2 / (4 * (x - x0) ** 2 + gamma ** 2)
""", """    half = gamma / 2
    detuning = x - x0
    return ampl * half ** 2 / (detuning ** 2 + half * half)
"""))

rw('gaussian-reduced', (L, """    return ampl * np.exp(-(x - x0) ** 2 / (2 * sigma ** 2))
""", """    reduced = (x0 - x) / sigma
    return np.exp(-0.5 * reduced ** 2) * ampl
"""))

rw('thermal-sigma-names', (L, """        ampl = kwargs.get('ampl', 1.0)
        if self.gamma > self.cutoff*self.sigma*x0:
            return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
        elif self.sigma*x0 > self.cutoff*self.gamma:
            return gaussian(x, x0, self.sigma*x0, ampl=ampl)
        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
""", """        ampl, doppler = kwargs.get('ampl', 1.0), self.sigma * x0
        if self.gamma > self.cutoff * doppler:
            return lorentzian(x, x0, self.gamma, ampl)
        if doppler > self.cutoff * self.gamma:
            return gaussian(x, x0, doppler, ampl)
        return voigt(x, x0, doppler, self.gamma, ampl=ampl)
"""))

rw('plot-lists', (P, """        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
""", """        x_values = np.sort(np.array(all_x).flatten())
        y_values = np.zeros_like(x_values)
        for x, curve in zip(all_x, all_y):
            y_values += np.interp(x_values, x, curve)
"""))

rw('plot-curve-helper', (P, """        fGHz = transition.freq.to(unit).magnitude
        ampl = transition.rel_strength
        if kwargs.get('ampl_dict') is not None:
            ampl *= kwargs.get('ampl_dict')[transition.name]
        x_values, y_values = lineshape.compute(fGHz, ampl=ampl, **kwargs)
""", """        ampl = transition.rel_strength
        scale = kwargs.get('ampl_dict')
        if scale is not None:
            ampl = ampl * scale[transition.name]
        x_values, y_values = lineshape.compute(transition.freq.to(unit).magnitude, ampl=ampl, **kwargs)
"""), (P, """    if 'color_func' not in kwargs:
        def color_func(t): return 0, 0, 0, 1
    else:
        color_func = kwargs['color_func']
""", """    color_func = kwargs.get('color_func', lambda t: (0, 0, 0, 1))
"""))

rw('color-table-comps', (P, """    main_props, secondary_props = [], []
    for t in items:
        main_props.append(property_color(t))
        secondary_props.append(property_shade(t))
""", """    main_props = [property_color(t) for t in items]
    secondary_props = [property_shade(t) for t in items]
"""), (P, """    return {t: color_by_properties(t) for t in items}
""", """    table = {}
    for t in items:
        table[t] = color_by_properties(t)
    return table
"""))

rw('color-table-min', (P, """    min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
""", """    min_main_props = {}
    for p0 in main_props:
        min_main_props[p0] = min(shade for main, shade in prop_pairs if main == p0)
"""))

rw('spectrum-table-helper', (P, """        if coloring == 'l':
            color_dict = color_table_from_property(lines,
                                                   property_color=lambda t: t.E_lower.term.F,
                                                   property_shade=lambda t: t.E_upper.term.F,
                                                   cmap=kwargs.pop('cmap', 'tab10'))
        elif coloring == 'u':
            color_dict = color_table_from_property(lines,
                                                   property_color=lambda t: t.E_upper.term.F,
                                                   property_shade=lambda t: t.E_lower.term.F,
                                                   cmap=kwargs.pop('cmap', 'tab10'))
""", """        def lower(t): return t.E_lower.term.F
        def upper(t): return t.E_upper.term.F
        if coloring in ('l', 'u'):
            main, shade = (lower, upper) if coloring == 'l' else (upper, lower)
            color_dict = color_table_from_property(lines, main, shade, kwargs.pop('cmap', 'tab10'))
"""))

rw('spectrum-lineshape-order', (P, """    if lineshape is not None:
        lineshape_func = lineshape
    elif temp.magnitude == 0:
        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
    else:
        assert mass is not None, "thermal lineshape requires mass to be given"
        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
""", """    if lineshape is None:
        gamma = laser_linewidth.to('GHz').magnitude
        if temp.magnitude != 0:
            if mass is None:
                raise AssertionError("thermal lineshape requires mass to be given")
            lineshape_func = ThermalLineShape(temp, mass, gamma)
        else:
            lineshape_func = LorentzianLineShape(gamma)
    else:
        lineshape_func = lineshape
"""))

rw('jj-product', (S, """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
                                        lo, so, Jo,
                                        outls[i], outss[i], J) *
                               np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                         for i in range(len(outls))])
    return np.stack([outls, outss, outpercs])
""", """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * l + 1) * (2 * s + 1)) *
                               wigner9j(lc, sc, Jc, lo, so, Jo, l, s, J))
                         for l, s in zip(outls, outss)])
    return np.stack([outls, outss, outpercs])
"""))

rw('jj-helper', (S, """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
""", """    outls, outss = _ls_grid(lc, sc, lo, so)
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
"""), (S, """@functools.lru_cache(maxsize=None)
def JJ_to_LS""", """def _ls_grid(lc, sc, lo, so):
    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    return np.repeat(ls, len(ss)), np.tile(ss, len(ls))


@functools.lru_cache(maxsize=None)
def JJ_to_LS"""), (S, """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float((-1) **""", """    outls, outss = _ls_grid(lc, sc, lo, so)
    outpercs = np.array([float((-1) **"""))

rw('lk-append', (S, """    outpercs = np.array([np.sqrt((2 * K + 1) * (2 * outss[i] + 1)) * wigner6j(L, sc, K,
                                                                              so, J, outss[i]) for i in
                         range(len(outls))])
    return""", """    amplitudes = []
    for s in outss:
        amplitudes.append(((2 * K + 1) * (2 * s + 1)) ** 0.5 * wigner6j(L, sc, K, so, J, s))
    outpercs = np.array(amplitudes)
    return"""))

rw('wigner-merged', (W, """            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
""", """            try:
                return func(*[int(2 * x) for x in args])
            except (ValueError, IndexError):
                return 0.0
"""))

rw('wigner-early', (W, """    def wrapper(*args):
        if PY3NJ_INSTALLED:
            # py3nj takes the arguments doubled, and requires them to be integers
            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
        else:
            # sympy throws an error when selection rules are violated, but it needs to return 0
            try:
                return float(func(*args))
            except ValueError:
                return 0.0

    return wrapper
""", """    def doubled(*args):
        try:
            return func(*(int(x * 2) for x in args))
        except (IndexError, ValueError):
            return 0.0

    def plain(*args):
        try:
            value = func(*args)
            return float(value)
        except ValueError:
            return 0.0

    return doubled if PY3NJ_INSTALLED else plain
"""))

rw('io-rename-helper', (IO, """    if ("freq" not in columns) and ("frequency" in columns):
        columns["freq"] = columns["frequency"]
    if ("A" not in columns) and ("A_coeff" in columns):
        columns["A"] = columns["A_coeff"]
""", """    for short, long in (("freq", "frequency"), ("A", "A_coeff")):
        if short not in columns and long in columns:
            columns[short] = columns[long]
"""))

rw('io-frame-loop', (IO, """    if "freq" in columns:
        df["freq"] = df_file[columns["freq"]]
    else:
        df["freq"] = None
    if "A" in columns:
        df["A"] = df_file[columns["A"]].astype('pint[MHz]')
    else:
        df["A"] = None
    return df
""", """    df["freq"] = df_file[columns["freq"]] if "freq" in columns else None
    df["A"] = None if "A" not in columns else df_file[columns["A"]].astype('pint[MHz]')
    return df
"""))

rw('io-hf-rows', (IO, """    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
""", """    zero = Q_(0.0, 'GHz')
    rows_to_write = []
    for level in atom.levels.values():
        if blank:
            row = [level.name, zero, zero, zero]
        else:
            row = [level.name, def_A if level.hfA == zero else level.hfA, level.hfB, level.hfC]
        rows_to_write.append(row)
"""))

rw('io-hf-row-helper', (IO, """        for row in reader:
            try:
                name, hfA, hfB, hfC = row
                atom.levels[name].hfA = Q_(hfA)
                atom.levels[name].hfB = Q_(hfB)
                atom.levels[name].hfC = Q_(hfC)
            except KeyError:
                pass
""", """        for name, hfA, hfB, hfC in reader:
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            level.hfA = Q_(hfA)
            level.hfB = Q_(hfB)
            level.hfC = Q_(hfC)
"""))

rw('io-full-restructure', (IO, """    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif 'transitions_df' in kwargs:
        if kwargs['transitions_df'] is not None:
            a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
        else:
            a.populate_transitions(**kwargs)
    else:
        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
    a.populate_internal_transitions()
    return a
""", """    table = kwargs.get('transitions_df')
    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif table is not None:
        a.populate_transitions_df(table, **kwargs)
    elif 'transitions_df' in kwargs:
        a.populate_transitions(**kwargs)
    else:
        options = {'allowed': (True, False, False)}
        options.update(kwargs)
        a.populate_transitions(**options)
    a.populate_internal_transitions()
    return a
"""))

rw('env-field', (E, """        return self.pol * (2 * self.intensity / (c * ureg.vacuum_permittivity)) ** 0.5
""", """        squared = 2 * self.intensity / c / ureg.vacuum_permittivity
        return squared ** 0.5 * self.pol
"""), (E, """        return 1 / c * np.cross(self.k, self.E())
""", """        return np.cross(self.k, self.E()) / c
"""))

rw('env-assert-first', (E, """        self.k = k
        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
        self.pol = pol
        self.intensity = i
""", """        norm = np.linalg.norm(pol)
        assert abs(1 - norm) < 1e-6, "polarization must be a unit vector"
        self.pol, self.intensity, self.k = pol, i, k
"""))

rw('populate-nested', (A, """            j_pairs = zip(set0, set1)
            level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
                        level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                        self.add_transition(t)
                    else:
                        del self.transitions[(pair[0].name, pair[1].name)]
""", """            level_pairs = tqdm([(l1, l2) for j1, j2 in zip(set0, set1) for l1 in j1 for l2 in j2])
            for first, second in level_pairs:
                if self._levelsModel.has_edge(first.name, second.name):
                    continue
                t = Transition(first, second)
                if not np.any(np.array(t.allowed_types) & np.array(allowed)):
                    del self.transitions[first.name, second.name]
                    continue
                level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                self.add_transition(t)
"""))

rw('populate-any', (A, """                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
""", """                    if any(possible and wanted for possible, wanted in zip(t.allowed_types, allowed)):
"""))

rw('populate-deltas', (A, """        allowed_deltas = [0, 1, 2] if allowed[2] else [0, 1]
""", """        allowed_deltas = [0, 1]
        if allowed[2]:
            allowed_deltas.append(2)
"""))

rw('internal-direct', (A, """        for level in levels:
            t = Transition(level, level)
            t.add_to_atom(self)
            levels.set_description(f'adding internal transitions to {level.name:91}')
""", """        for level in levels:
            Transition(level, level).add_to_atom(self)
            levels.set_description(f'adding internal transitions to {level.name:91}')
"""))

rw('df-name-helper', (A, """            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
""", """            names = [f'{row["conf_" + side]} {row["term_" + side]}{util.float_to_frac(float(row["j_" + side]))}'
                     for side in ('l', 'u')]
            try:
                e1, e2 = self.levels[names[0]], self.levels[names[1]]
                t = Transition(e1, e2, freq=row["freq"], A=row["A"])
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                continue
"""))

rw('lifetime-loop2', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        total_A = 0
        for t in self.linked_levels(key).values():
            if t.E_upper is level:
                total_A += t.A
        if total_A != 0:
            return (2 * np.pi / total_A).to(ureg.s)
        return np.inf * ureg.s
"""))

rw('branching-comp', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
""", """        A_coeffs = {n: t.A for n, t in transitions.items() if t.E_upper.name == key}
        try:
"""))

rw('multiterm-zip', (T, """        term_objs = []
        for j in range(len(confs)):
            if type(df[confs[j]][i]) == str:
                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
""", """        term_objs = [Term(df[conf][i], df[term][i], df['J'][i], percentage=df[pct][i])
                     for conf, term, pct in zip(confs, terms, pcts) if isinstance(df[conf][i], str)]
        return MultiTerm(*term_objs)
"""))

rw('species-helper', (Y, """absroot = pathlib.Path(__file__).parents[1]
RESOURCE_PATH = absroot.joinpath('resources')
TRANSITIONS_PATH = absroot.joinpath('resources/Yb_II_Oscillator_Strengths.csv')
HYPERFINE_PATH = absroot.joinpath('resources/171Yb_Hyperfine.csv')
""", """RESOURCE_PATH = pathlib.Path(__file__).parents[1] / 'resources'
TRANSITIONS_PATH = RESOURCE_PATH / 'Yb_II_Oscillator_Strengths.csv'
HYPERFINE_PATH = RESOURCE_PATH / '171Yb_Hyperfine.csv'
"""), (Y, """# Override the frequencies of existing transitions
Yb171.transitions[('4f14.5d 2D3/2', '4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2')].set_frequency(Q_(320.567693, 'THz'))
Yb171.transitions[('4f14.6s 2S1/2', '4f14.6p 2P*1/2')].set_frequency(Q_(811.294110, 'THz'))
""", """GROUND = '4f14.6s 2S1/2'


def override(lower, upper, thz):
    Yb171.transitions[lower, upper].set_frequency(Q_(thz, 'THz'))


override('4f14.5d 2D3/2', '4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2', 320.567693)
override(GROUND, '4f14.6p 2P*1/2', 811.294110)
"""))

rw('species-ground', (Y, """Yb171.levels['4f14.6s 2S1/2']['F=0']['mF=0'].quadratic_zeeman = -155.305
Yb171.levels['4f14.6s 2S1/2']['F=1']['mF=0'].quadratic_zeeman = 155.305
""", """ground = Yb171.levels['4f14.6s 2S1/2']
for name, coefficient in (('F=0', -155.305), ('F=1', 155.305)):
    ground[name]['mF=0'].quadratic_zeeman = coefficient
"""))

rw('grotrian-row-helper', (G, """        return pd.DataFrame({
            'level': [level],
            'show': [show],
            'p0': [p0],
            'p1': [p1],
            'bbox': [self.bbox([p0, p1], pad=kwargs.get('bbox_pad', 0.05))],
            'kwargs': [kwargs]})
""", """        return self._row(level, show, p0, p1, self.bbox([p0, p1], pad=kwargs.get('bbox_pad', 0.05)), kwargs)

    @staticmethod
    def _row(level, show, p0, p1, bbox, options):
        row = {'level': level, 'show': show, 'p0': p0, 'p1': p1, 'bbox': bbox, 'kwargs': options}
        return pd.DataFrame({column: [value] for column, value in row.items()})
"""))

rw('grotrian-zrow-centre', (G, """        p0 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) - sublevel_width / 2, y)
        p1 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) + sublevel_width / 2, y)
""", """        centre = x0 + x1 + level.term.mF * (sublevel_width + space_width)
        half = sublevel_width / 2
        p0, p1 = (centre - half, y), (centre + half, y)
"""))

rw('grotrian-span-helper', (G, """        Fs = [s.term.F for s in level.manifold.sublevels()]
        N = len(Fs)
        span = abs(level.manifold[f'F={util.float_to_frac(max(Fs))}'].shift_Hz -
                   level.manifold[f'F={util.float_to_frac(min(Fs))}'].shift_Hz)
        i = level.term.F - min(Fs)

        w_null""", """        N, span, i = self._position(level)

        w_null"""), (G, """    def _compute_hflevel_row(""", """    @staticmethod
    def _position(level):
        manifold = level.manifold
        Fs = [s.term.F for s in manifold.sublevels()]
        top, bottom = max(Fs), min(Fs)
        span = abs(manifold[f'F={util.float_to_frac(bottom)}'].shift_Hz -
                   manifold[f'F={util.float_to_frac(top)}'].shift_Hz)
        return len(Fs), span, level.term.F - bottom

    def _compute_hflevel_row("""))

rw('grotrian-strategies', (G, """        if strategy == 'g' or strategy == 'gross':
            strategy = self._gross_level_table
        elif strategy == 'hf' or strategy == 'hyperfine':
            strategy = self._hf_level_table
        elif strategy == 'z' or strategy == 'zeeman':
            strategy = self._zeeman_level_table
""", """        if strategy in ('g', 'gross'):
            strategy = self._gross_level_table
        elif strategy in ('hf', 'hyperfine'):
            strategy = self._hf_level_table
        elif strategy in ('z', 'zeeman'):
            strategy = self._zeeman_level_table
"""))

rw('grotrian-bbox-zip', (G, """        xs = [pt[0] for pt in pts]
        ys = [pt[1] for pt in pts]
        y_pad = (max(ys) - min(ys)) * pad
        return min(xs) - pad, min(ys) - y_pad, max(xs) + pad, max(ys) + y_pad
""", """        left, right = min(x for x, _ in pts), max(x for x, _ in pts)
        bottom, top = min(y for _, y in pts), max(y for _, y in pts)
        y_pad = pad * (top - bottom)
        return left - pad, bottom - y_pad, right + pad, top + y_pad
"""))

rw('grotrian-arrow-lookup', (G, """            pos = None
            if type(level) == ZLevel:
                if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
                if level.parent in list(self.lines_df['level']) or bbox_override in {'hf', 'hyperfine'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.parent]['bbox'])[0], a, (x1, y1))
                if level in list(self.lines_df['level']) and bbox_override is False:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
""", """            pos = None
            drawn = list(self.lines_df['level'])

            def at(owner):
                box = list(self.lines_df[self.lines_df['level'] == owner]['bbox'])[0]
                return compute_bbox_pos(box, a, (x1, y1))
            if type(level) == ZLevel:
                if level.manifold in drawn or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = at(level.manifold)
                if level.parent in drawn or bbox_override in {'hf', 'hyperfine'}:
                    pos = at(level.parent)
                if level in drawn and bbox_override is False:
                    pos = at(level)
"""))


rw('regex-compiled', (U, """    [(ss, ls)] = re.findall(r'(\\d+)([A-Z])', term)
""", """    [(ss, ls)] = _LS_SYMBOL.findall(term)
"""), (U, """def parse_LS_term(term: str)""", """_LS_SYMBOL = re.compile(r'(\\d+)([A-Z])')


def parse_LS_term(term: str)"""))

rw('regex-search-groups', (U, """    [(sos, ks)] = re.findall(r'(\\d+)\\[(.+?)]', term)

    jc = frac_to_float(jcs)
""", """    match = re.search(r'([0-9]+)\\[(.+?)\\]', term)
    sos, ks = match.groups()

    jc = frac_to_float(jcs)
"""))

rw('regex-named-groups', (U, """    [(ls, sos, ks)] = re.findall(r'([A-Z])\\*? ?(\\d+)\\[(.+?)]', term)
""", """    m = re.search(r'(?P<letter>[A-Z])[*]?[ ]?(?P<mult>\\d+)\\[(?P<k>.+?)]', term)
    ls, sos, ks = m.group('letter'), m.group('mult'), m['k']
"""))

rw('regex-extra-group', (U, """    [(ss, ls)] = re.findall(r'(\\d+)([A-Z])', term)
""", """    [(_, ss, ls)] = re.findall(r'((\\d+)([A-Z]))', term)
"""))

rw('parse-spin-helper', (U, """    if lcs.isupper():
        sc = (float(scs) - 1) / 2
    elif lcs.islower():
        sc = 0.0
    else:
        sc = None
    if los.isupper():
        so = (float(sos) - 1) / 2
    elif los.islower():
        so = 0.0
    else:
        so = None

    return lc, sc, lo, so, jc, jo
""", """    return lc, _part_spin(scs, lcs), lo, _part_spin(sos, los), jc, jo


def _part_spin(multiplicity: str, letter: str) -> float or None:
    if letter == '':
        return None
    return (float(multiplicity) - 1) / 2 if letter.isupper() else 0.0
"""))

rw('parse-jk-parts-loop', (U, """    if len(relevant_parts) == 2:
        [(scs, lcs, jcs), (_, los, _)] = relevant_parts
    else:
        [(scs, lcs, jcs)] = relevant_parts
        los = conf[-1]
    # find the following forms: 2[3/2], 3[4]*""", """    scs, lcs, jcs = relevant_parts[0]
    los = relevant_parts[1][1] if len(relevant_parts) == 2 else conf[-1]
    # find the following forms: 2[3/2], 3[4]*"""))

# ---- fifth batch: dispatch tables, shared bases, generators, reductions

rw('setfreq-mixin', (A, """    def set_frequency(self, freq: pint.Quantity):
        diff = freq - self.freq
        self.parent.set_frequency(self.parent.freq + diff)


class ZTransition(BaseTransition):
    \"\"\"
    An ZTransition connects two ZLevels. It""", """

class ZTransition(_Subtransition):
    \"\"\"
    An ZTransition connects two ZLevels. It"""), (A, """    def set_frequency(self, freq: pint.Quantity):
        diff = freq - self.freq
        self.parent.set_frequency(self.parent.freq + diff)


############################################
#                   Atom  """, """
############################################
#                   Atom  """), (A, """class HFTransition(BaseTransition):
    \"\"\"
""", """class _Subtransition(BaseTransition):
    \"\"\"A transition whose frequency follows the one it belongs to\"\"\"

    def set_frequency(self, freq: pint.Quantity):
        offset = self.freq - self.parent.freq
        self.parent.set_frequency(freq - offset)


class HFTransition(_Subtransition):
    \"\"\"
"""))

rw('populate-shared-base', (A, """    @abstractmethod
    def populate_subtransitions(self):
        \"\"\"Should generate the appropriate transitions between the sublevels of the transition's EnergyLevels\"\"\"
        raise NotImplementedError
""", """    @abstractmethod
    def populate_subtransitions(self):
        \"\"\"Should generate the appropriate transitions between the sublevels of the transition's EnergyLevels\"\"\"
        raise NotImplementedError

    def _populate_with(self, kind, attr):
        for a, b in self._compute_sublevel_pairs(attr):
            candidate = kind(a, b, parent=self)
            if not any(candidate.allowed_types):
                continue
            key = candidate.E_lower.term.short_name, candidate.E_upper.term.short_name
            self[key] = candidate
"""), (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._populate_with(HFTransition, 'F')
"""), (A, """        pairs = self._compute_sublevel_pairs('mF')
        for a, b in pairs:
            t = ZTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._populate_with(ZTransition, 'mF')
"""))

rw('sublevels-shared-base', (A, """    @property
    @abstractmethod
    def level_Hz(self) -> float:
        \"\"\"Should""", """    def _populate_range(self, kind, symbol, first, last):
        value = first
        for value in np.arange(first, last + 1):
            term = self.term.make_term_copy(**{symbol: value})
            self[f'{symbol}={util.float_to_frac(value)}'] = kind(term=term, parent=self)

    @property
    @abstractmethod
    def level_Hz(self) -> float:
        \"\"\"Should"""), (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        J, I = self.term.J, self.atom.I
        self._populate_range(HFLevel, 'F', abs(J - I), J + I)
"""), (A, """            for mf in np.arange(-self.term.F, self.term.F + 1):
                t = self.term.make_term_copy(mF=mf)
                e = ZLevel(term=t, parent=self)
                self[f'mF={util.float_to_frac(mf)}'] = e
""", """            self._populate_range(ZLevel, 'mF', -self.term.F, self.term.F)
"""))

rw('quantity-property-factory', (A, """class EnergyLevel(BaseLevel):
    \"\"\"
    An""", """def _in_hertz(quantity: pint.Quantity) -> float:
    return quantity.to(Hz).magnitude


class EnergyLevel(BaseLevel):
    \"\"\"
    An"""), (A, """        self._level_Hz = level.to(Hz).magnitude
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
""", """        self._level_Hz = _in_hertz(level)
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = map(_in_hertz, (hfA, hfB, hfC))
"""), (A, "        self.hfA_Hz = value.to(Hz).magnitude\n", "        self.hfA_Hz = _in_hertz(value)\n"),
   (A, "        self.hfB_Hz = value.to(Hz).magnitude\n", "        self.hfB_Hz = _in_hertz(value)\n"),
   (A, "        self.hfC_Hz = value.to(Hz).magnitude\n", "        self.hfC_Hz = _in_hertz(value)\n"))

rw('init-ordered-pair', (A, """        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""", """        self.E_lower, self.E_upper = (E1, E2) if E1.level < E2.level else (E2, E1)
"""))

rw('pairs-early-list', (A, """        if True not in self.allowed_types:
            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        if not any(self.allowed_types):
            return pairs
        _, m1, e2 = self.allowed_types
        max_delta = 1 if m1 or not e2 else 2

        def close_enough(pair):
            first, second = (getattr(level.term, attr) for level in pair)
            return abs(first - second) <= max_delta

        return filter(close_enough, pairs)
"""))

rw('z-linewidth-sum-helper', (A, """        F1, F2 = self.E_1.term.F, self.E_2.term.F
        mF1, mF2 = self.E_1.term.mF, self.E_2.term.mF
        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
        elif self.parent.allowed_types[2]:
            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        e1, m1, e2 = self.parent.allowed_types
        factor = 0.0
        if e1 or m1:
            factor = self._strength(1)
        elif e2:
            factor = self._strength(2)
        return self.parent.A * factor, float(factor)

    def _strength(self, rank):
        a, b = self.E_1.term, self.E_2.term
        total = 0.0
        for q in range(-rank, rank + 1):
            total += wigner3j(a.F, rank, b.F, -a.mF, q, b.mF) ** 2
        return total
"""))

rw('hf-linewidth-dispatch', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
""", """        ranks = [rank for rank, allowed in zip((1, 1, 2), self.parent.allowed_types) if allowed]
        factor = 0.0
        if ranks:
            factor = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J2, F2, I, F1, J1, ranks[0]) ** 2
"""))

rw('allowed-walrus', (A, """        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""", """        def triangle(k):
            return (delta := abs(J1 - J0)) <= k and k <= J0 + J1 and delta <= J0 + J1

        same_parity = p0 * p1 == 1
        return (triangle(1) and not same_parity,
                triangle(1) and same_parity,
                triangle(2) and same_parity and self.E_1 is not self.E_2)
"""))

rw('hf-allowed-dict', (A, """        if self.parent is not None:
            init = self.parent.allowed_types
        else:
            init = [True, True, True]
        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret
""", """        connects = {k: wigner6j(J0, J1, k, F1, F0, I) != 0.0 for k in (1, 2)}
        if self.parent is None:
            return connects[1], connects[1], connects[2]
        inherited = self.parent.allowed_types
        return tuple(connects[k] and inherited[n] for n, k in enumerate((1, 1, 2)))
"""))

rw('z-allowed-comp', (A, """        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""", """        dipole = sum(wigner3j(F1, 1, F0, -mF1, q, mF0) for q in (-1, 0, 1)) != 0.0
        quadrupole = sum(wigner3j(F1, 2, F0, -mF1, q, mF0) for q in range(-2, 3)) != 0.0
        return dipole and init[0], dipole and init[1], quadrupole and init[2]
"""))

rw('lifetime-generator', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        decays = [t for t in self.linked_levels(key).values() if t.E_upper is level]
        total = sum(t.A for t in decays)
        if total != 0:
            return (2 * np.pi / total).to(ureg.s)
        return float('inf') * ureg.s
"""))

rw('ratios-two-steps', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:""", """        A_coeffs = dict((n, t.A) for n, t in transitions.items() if t.E_upper.name == key)
        try:
            totalAs = sum(A.to(Hz).magnitude for A in A_coeffs.values())
        except AttributeError:"""), (A, """        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        ratios = {}
        for name in A_coeffs:
            ratios[name] = A_coeffs[name].to(Hz).magnitude / totalAs
        return ratios
"""))

rw('linked-guard', (A, """        level = self.levels[key]
        key = level.name
        if not isinstance(level, EnergyLevel):
            for k, trans in self.linked_levels(level.parent.name).items():
                trans.subtransitions()
        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        level = self.levels[key]
        if not isinstance(level, EnergyLevel):
            self._populate_below(level.parent)
        return {name: edge['transition'] for name, edge in level.model.adj[level.name].items()
                if name != level.name}

    def _populate_below(self, parent):
        for transition in self.linked_levels(parent.name).values():
            transition.subtransitions()
"""))

rw('consistency-min-key', (A, """            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
            # perform""", """            key_lowest, _ = min(nodes, key=lambda item: item[1].level_Hz)
            # perform"""))

rw('consistency-settle-method', (A, """            for edge in search:
                t = subgraph.edges()[edge]['transition']
                e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """            for edge in search:
                self._settle(subgraph.edges[edge]['transition'], edge)

    @staticmethod
    def _settle(t, edge):
        lower, upper = t.E_lower, t.E_upper
        freq = t.set_freq.to(Hz).magnitude
        conflict = freq != abs(lower.level_Hz - upper.level_Hz)
        if lower.fixed and upper.fixed and conflict:
            warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
        elif not upper.fixed:
            upper.level_Hz = lower.level_Hz + freq
        else:
            lower.level_Hz = upper.level_Hz - freq
        lower.fixed = True
        upper.fixed = True
"""))

rw('add-transition-resolve', (A, """        if isinstance(transition, tuple):
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)

        transition.add_to_atom(self)
""", """        if isinstance(transition, tuple):
            transition = self._resolve_transition(transition, kwargs)

        transition.add_to_atom(self)
"""), (A, """    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss""", """    def _resolve_transition(self, key, options):
        if key in self.transitions.keys():
            warnings.warn(f'transition {key} is already in {self.name}')
            return self.transitions[key]
        first, second = key[0], key[1]
        if isinstance(first, str):
            return Transition(self.levels[first], self.levels[second], **options)
        if isinstance(first, BaseLevel):
            return Transition(first, second, **options)
        return key

    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss"""))

rw('populate-chain', (A, """        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            set0 = [js[j] for j in list(js.keys())]
            # don't include the last several j values to avoid IndexErrors
            set1 = [js[j + delta_j] for j in list(js.keys())[:int(-(delta_j * 2 + 1))]]
            j_pairs = zip(set0, set1)
            level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
                        level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                        self.add_transition(t)
                    else:
                        del self.transitions[(pair[0].name, pair[1].name)]
""", """        for delta_j in allowed_deltas:
            values = list(js.keys())
            starts = values[:int(-(delta_j * 2 + 1))]
            pairs = [(a, b) for j in starts for a in js[j] for b in js[j + delta_j]]
            progress = tqdm(pairs)
            for a, b in progress:
                if self._levelsModel.has_edge(a.name, b.name):
                    continue
                t = Transition(a, b)
                wanted = any(have and want for have, want in zip(t.allowed_types, allowed))
                if not wanted:
                    del self.transitions[(a.name, b.name)]
                    continue
                progress.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                self.add_transition(t)
"""))

rw('df-row-helper', (A, """            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
""", """            names = []
            for side in ('l', 'u'):
                j = util.float_to_frac(float(row[f'j_{side}']))
                names.append(f'{row["conf_" + side]} {row["term_" + side]}{j}')
            try:
                lower, upper = (self.levels[name] for name in names)
                t = Transition(lower, upper, freq=row["freq"], A=row["A"])
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                continue
"""))

rw('levels-nodes-helper', (H, """        if isinstance(key, int) or isinstance(key, slice):
            return sorted(nx.get_node_attributes(self.model, 'level').values(), key=lambda x: x.level_Hz)[key]
        if key in self.aliases:
            return self.aliases[key]
        if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
            main, hf, z = key.rsplit(' ', maxsplit=2)
            return nx.get_node_attributes(self.model, 'level')[main][hf][z]
        elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = nx.get_node_attributes(self.model, 'level')[main]
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        elif 'F=' in key:  # match [conf] [term] F=[F]
            main, hf = key.rsplit(' ', maxsplit=1)
            return nx.get_node_attributes(self.model, 'level')[main][hf]
        else:  # match [conf] [term]
            return nx.get_node_attributes(self.model, 'level')[key]
""", """        nodes = nx.get_node_attributes(self.model, 'level')
        if isinstance(key, (int, slice)):
            ordered = list(nodes.values())
            ordered.sort(key=lambda level: level.level_Hz)
            return ordered[key]
        if key in self.aliases:
            return self.aliases[key]
        if 'mF=' in key:
            path = key.rsplit(' ', 2)
        elif 'mJ=' in key:
            main, z = key.rsplit(' mJ=', 1)
            path = [main, 'F=' + nodes[main].term.J_frac, 'mF=' + z]
        elif 'F=' in key:
            path = key.rsplit(' ', 1)
        else:
            path = [key]
        found = nodes
        for step in path:
            found = found[step]
        return found
"""))

rw('levels-getitem-reduce', (H, """            main, hf, z = key.rsplit(' ', maxsplit=2)
            return nx.get_node_attributes(self.model, 'level')[main][hf][z]
""", """            return functools.reduce(lambda container, step: container[step], key.rsplit(' ', maxsplit=2),
                                    nx.get_node_attributes(self.model, 'level'))
"""), (H, "import networkx as nx\n\nif", "import functools\n\nimport networkx as nx\n\nif"))

rw('transitions-split-helper', (H, """        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
        else:  # match [conf] [term]
            return self.model.edges[k_lower, k_upper]['transition']
""", """        depth = 2 if 'mF=' in key[0] else 1 if 'F=' in key[0] else 0
        if depth == 0:
            return self.model.edges[k_lower, k_upper]['transition']
        steps = list(zip(k_lower.rsplit(' ', depth), k_upper.rsplit(' ', depth)))
        transition = self.model.edges[steps[0]]['transition']
        for step in steps[1:]:
            transition = transition[step]
        return transition
"""))

rw('structures-getattr', (H, """    def keys(self) -> KeysView:
        return nx.get_node_attributes(self.model, 'level').keys()

    def values(self) -> ValuesView:
        return nx.get_node_attributes(self.model, 'level').values()
""", """    @property
    def _nodes(self):
        return nx.get_node_attributes(self.model, 'level')

    def keys(self) -> KeysView:
        return self._nodes.keys()

    def values(self) -> ValuesView:
        return self._nodes.values()
"""))

rw('list-names-filter', (H, """        if hide_self_transitions:
            return [key for key in self.keys() if key[0] != key[1]]
        return list(self.keys())
""", """        return [(a, b) for a, b in self.keys() if not hide_self_transitions or a != b]
"""))

rw('float-frac-divmod', (U, """    if (2 * f) % 2 == 0:
        return str(int(f))
    else:
        return str(int(f * 2)) + '/2'
""", """    doubled = int(2 * f)
    return f'{doubled}/2' if doubled % 2 else str(doubled // 2)
"""))

rw('frac-map', (U, """            (f1, f2) = frac.split('/')
            return float(f1) / float(f2)
        else:""", """            numerator, denominator = map(float, frac.split('/'))
            return numerator / denominator
        else:"""))

rw('let-to-l-find', (U, """    return 'SPDFGHIKLMNOQRTUVWXYZ'.index(let.upper())
""", """    for l, letter in enumerate('SPDFGHIKLMNOQRTUVWXYZ'):
        if letter == let.upper():
            return l
    raise ValueError('substring not found')
"""))

rw('quantum-nums-dict', (U, """    coupling = get_term_coupling(term)
    lc = sc = lo = so = jc = jo = l = s = k = None
    if coupling == 'LS':
        l, s = parse_LS_term(term)
    elif coupling == 'JK':
        lc, sc, lo, so, jc, k = parse_JK_term(conf, term)
    elif coupling == 'JJ':
        lc, sc, lo, so, jc, jo = parse_JJ_term(conf, term)
    elif coupling == 'LK':
        lc, sc, lo, so, l, k = parse_LK_term(conf, term)
    return lc, sc, lo, so, jc, jo, l, s, k
""", """    coupling = get_term_coupling(term)
    found = {}
    if coupling == 'LS':
        found['l'], found['s'] = parse_LS_term(term)
    elif coupling == 'JK':
        found.update(zip(('lc', 'sc', 'lo', 'so', 'jc', 'k'), parse_JK_term(conf, term)))
    elif coupling == 'JJ':
        found.update(zip(('lc', 'sc', 'lo', 'so', 'jc', 'jo'), parse_JJ_term(conf, term)))
    elif coupling == 'LK':
        found.update(zip(('lc', 'sc', 'lo', 'so', 'l', 'k'), parse_LK_term(conf, term)))
    return tuple(found.get(name) for name in ('lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k'))
"""))

rw('coupling-match', (U, """    if '[' in term:
        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':
            return 'LK'
        else:
            return 'JK'
    elif '(' in term:
        return 'JJ'
    elif len(term) > 1:
        return 'LS'
    else:
        return "unknown"
""", """    if term.find('[') >= 0:
        return 'LK' if term[0] in set('SPDFGHIKLMNOQRTUVWXYZ') else 'JK'
    if term.find('(') != -1:
        return 'JJ'
    return 'unknown' if len(term) < 2 else 'LS'
"""))

rw('term-names-join', (T, """        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'

        self.name = f'{self.conf} {self.term_name}'
""", """        parts = [f'{self.term}{self.J_frac}']
        for label, value, text in (('F', self.F, self.F_frac), ('mF', self.mF, self.mF_frac)):
            if value is not None:
                parts.append(label + '=' + text)
        self.term_name = ' '.join(parts)
        self.short_name = parts[-1]
        self.name = ' '.join([self.conf] + parts)
"""))

rw('term-fracs-setattr', (T, """        self.J = util.frac_to_float(J)
        self.F = util.frac_to_float(F)
        self.mF = util.frac_to_float(mF)
        self.J_frac, self.F_frac, self.mF_frac = util.float_to_frac(self.J), util.float_to_frac(self.F), \\
            util.float_to_frac(self.mF)
""", """        for symbol, value in {'J': J, 'F': F, 'mF': mF}.items():
            number = util.frac_to_float(value)
            setattr(self, symbol, number)
            setattr(self, symbol + '_frac', util.float_to_frac(number))
"""))

rw('term-eq-all', (T, """        return self.quantum_nums == other.quantum_nums and \\
               self.conf == other.conf and \\
               self.term == other.term and \\
               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
""", """        compared = ('quantum_nums', 'conf', 'term', 'J', 'F', 'mF')
        return all(getattr(self, field) == getattr(other, field) for field in compared)
"""))

rw('multiterm-df-comp', (T, """        term_objs = []
        for j in range(len(confs)):
            if type(df[confs[j]][i]) == str:
                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
""", """        return MultiTerm(*(Term(df[conf][i], df[term][i], df['J'][i], percentage=df[pct][i])
                           for conf, term, pct in zip(confs, terms, pcts) if isinstance(df[conf][i], str)))
"""))

rw('e1-geom-table', (S, """    eps = eps / np.linalg.norm(eps)
    tot = 0
    tot += tkq_transition_strength(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    tot += tkq_transition_strength(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2] ** 2
    tot += tkq_transition_strength(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    return tot
""", """    x, y, z = eps / np.linalg.norm(eps)
    sigma = (x ** 2 + y ** 2) / 2
    weights = {-1: sigma, 0: z ** 2, 1: sigma}
    return sum(weight * tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q, weight in weights.items())
"""))

rw('e2-mel-table', (S, """    tot = 0
    tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \\
           (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \\
           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
    tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \\
           ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    return tot
""", """    ex, ey, ez = eps
    kx, ky, kz = k
    diagonal = kx * ex - ky * ey
    xy, xz, yz = kx * ey + ky * ex, kx * ez + kz * ex, ky * ez + kz * ey
    components = [diagonal - 1j * xy,
                  -xz + 1j * yz,
                  np.sqrt(2 / 3) * (2 * kz * ez - kx * ex - ky * ey),
                  xz + 1j * yz,
                  diagonal + 1j * xy]
    tot = 0
    for q, component in enumerate(components, start=-2):
        tot += tkq_mel(I, 2, q, J0, F0, M0, J1, F1, M1) * component
    return tot
"""))

rw('tkq-strength-square', (S, """    prod = 1
    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                   F1, F0, I) ** 2
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0) ** 2
    return prod
""", """    return tkq_mel(I, k, q, J0, F0, M0, J1, F1, M1) ** 2
"""))

rw('avg-shared', (S, """def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
    return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
""", """def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
    return _dipole_average(I, J0, F0, M0, J1, F1, M1)


def _dipole_average(*numbers):
    I, *states = numbers
    strengths = [tkq_transition_strength(I, 1, q, *states) for q in range(-1, 2)]
    return sum(strengths) / len(strengths)
"""))

rw('basis-shared', (S, """    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
                                        lo, so, Jo,
                                        outls[i], outss[i], J) *
                               np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                         for i in range(len(outls))])
    return np.stack([outls, outss, outpercs])
""", """    ls, ss = _couple(lc, lo), _couple(sc, so)
    pairs = list(itertools.product(ls, ss))
    amplitudes = []
    for L, S in pairs:
        recoupling = wigner9j(lc, sc, Jc, lo, so, Jo, L, S, J)
        amplitudes.append(float(recoupling * np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * L + 1) * (2 * S + 1))))
    outls = np.array([L for L, _ in pairs])
    outss = np.array([S for _, S in pairs])
    return np.stack([outls, outss, np.array(amplitudes)])


def _couple(a, b):
    return np.arange(abs(a - b), abs(a + b) + 1)
"""), (S, "import warnings\nimport functools\n", "import warnings\nimport functools\nimport itertools\n"))

rw('wigner-decorator', (W, """        if PY3NJ_INSTALLED:
            # py3nj takes the arguments doubled, and requires them to be integers
            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
        else:
            # sympy throws an error when selection rules are violated, but it needs to return 0
            try:
                return float(func(*args))
            except ValueError:
                return 0.0
""", """        try:
            if PY3NJ_INSTALLED:
                # py3nj takes the arguments doubled, and requires them to be integers
                return func(*[int(2 * x) for x in args])
            value = func(*args)
        except (ValueError, IndexError):
            return 0.0
        return float(value)
"""))

rw('lorentz-sidebands-comp', (L, """        tot = np.zeros_like(x)
        tot += lorentzian(x, x0, width, ampl=ampl * float(jv(0, self.depth) ** 2))
        for i in range(1, self.num_sidebands + 1):
            mod_ampl = ampl * float(jv(i, self.depth) ** 2)
            tot += lorentzian(x, x0 + i * self.mod_freq_GHz, width, ampl=mod_ampl)
            tot += lorentzian(x, x0 - i * self.mod_freq_GHz, width, ampl=mod_ampl)
        return tot
""", """        def sideband(order, sign):
            return lorentzian(x, x0 + sign * order * self.mod_freq_GHz, width,
                              ampl=ampl * float(jv(order, self.depth) ** 2))

        tot = np.zeros_like(x) + sideband(0, 1)
        for order in range(1, self.num_sidebands + 1):
            tot += sum(sideband(order, sign) for sign in (1, -1))
        return tot
"""))

rw('shape-base-amplitude', (L, """        width = self.gamma
        if 'A_coeff' in kwargs:
            width += kwargs['A_coeff']
        ampl = 1.0
        if 'ampl' in kwargs:
            ampl = kwargs['ampl']
        return lorentzian(x, x0, width, ampl=ampl)
""", """        width = self.gamma + kwargs.get('A_coeff', 0)
        return lorentzian(x, x0, width, ampl=self._amplitude(kwargs))
"""), (L, """        # TODO: technically with a line/laser of finite linewidth this can broaden into a Voigt profile
        ampl = 1.0
        if 'ampl' in kwargs:
            ampl = kwargs['ampl']
        return gaussian(x, x0, self.sigma, ampl=ampl)
""", """        # TODO: technically with a line/laser of finite linewidth this can broaden into a Voigt profile
        return gaussian(x, x0, self.sigma, ampl=self._amplitude(kwargs))
"""), (L, """    def __add__(self, other):
        return
""", """    @staticmethod
    def _amplitude(options):
        return options['ampl'] if 'ampl' in options else 1.0

    def __add__(self, other):
        return
"""))

rw('num-sidebands-for', (L, """        self.num_sidebands = 0
        if num_sidebands is None:
            while (self.depth / 2) ** self.num_sidebands > 0.01 * np.math.factorial(self.num_sidebands):
                self.num_sidebands += 1
        else:
            self.num_sidebands = num_sidebands
""", """        if num_sidebands is None:
            num_sidebands = 0
            while (depth / 2) ** num_sidebands > 0.01 * np.math.factorial(num_sidebands):
                num_sidebands += 1
        self.num_sidebands = num_sidebands
"""))

rw('plot-total-helper', (P, """    if total:
        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
        plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
""", """    if total:
        plt.plot(*_total_curve(all_x, all_y), "k:", label="Total", alpha=0.5)
"""), (P, """def plot_hyperfine_spectrum(""", """def _total_curve(xs, ys):
    grid = np.sort(np.array(xs).flatten())
    return grid, sum((np.interp(grid, x, y) for x, y in zip(xs, ys)), np.zeros_like(grid))


def plot_hyperfine_spectrum("""))

rw('plot-zeeman-properties', (P, """    if coloring == 'l':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_lower.term.mF,
                                               property_shade=lambda t: t.E_upper.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif coloring == 'u':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_upper.term.mF,
                                               property_shade=lambda t: t.E_lower.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif coloring == 'transition_type':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_upper.term.mF - t.E_lower.term.mF,
                                               property_shade=lambda t: t.E_lower.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif isinstance""", """    def lower(t): return t.E_lower.term.mF
    def upper(t): return t.E_upper.term.mF
    properties = {'l': (lower, upper), 'u': (upper, lower),
                  'transition_type': (lambda t: upper(t) - lower(t), lower)}
    if isinstance(coloring, str) and coloring in properties:
        main, shade = properties[coloring]
        color_dict = color_table_from_property(lines, main, shade, kwargs.pop('cmap', 'tab10'))
        color_func = color_dict.__getitem__
    elif isinstance"""))

rw('color-counts-loop', (P, """    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    prop_pairs = list(zip(main_props, secondary_props))
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
""", """    num_main_props = {}
    for F in sorted(set(main_props)):
        num_main_props[F] = main_props.count(F)
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {}
    for p0 in main_props:
        min_main_props[p0] = min(s for m, s in zip(main_props, secondary_props) if m == p0)
"""))

rw('grotrian-tables-shared', (G, """        if isinstance(level, EnergyLevel):
            sub_tables = []
            for i, sublevel in enumerate(level.sublevels()):
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._hf_level_table(sublevel, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_level_row(level,
                                                       bbox_override=self.bbox(
                                                          (list(table['p0'])+list(table['p1']))),
                                                       show=False,
                                                       **kwargs)], ignore_index=True)
        elif isinstance(level, HFLevel):
            table = self._compute_hflevel_row(level, **kwargs)
        else:
            table = None

        return table
""", """        if isinstance(level, HFLevel):
            return self._compute_hflevel_row(level, **kwargs)
        if not isinstance(level, EnergyLevel):
            return None
        parts = [self._hf_level_table(sublevel, **{**kwargs, 'bbox': None}) for sublevel in level.sublevels()]
        table = pd.concat(parts, ignore_index=True)
        corners = [*table['p0'], *table['p1']]
        own = self._compute_level_row(level, bbox_override=self.bbox(corners), show=False, **kwargs)
        return pd.concat([table, own], ignore_index=True)
"""))

rw('grotrian-kwargs-helper', (G, """        b = kwargs.get('spacing', 1.0)
        if b == 'realistic':
            b = 1.0
        elif b == 'schematic':
            b = 0.0
        else:
            assert 0 <= b <= 1

        a = kwargs.get('sublevel_width', 1.0)
        if a == 'degeneracy':
            a = 1.0
        elif a == 'schematic':
            a = 0.0
        else:
            assert 0 <= a <= 1
""", """        def fraction(option, full):
            value = kwargs.get(option, 1.0)
            named = {full: 1.0, 'schematic': 0.0}
            if value in named:
                return named[value]
            assert 0 <= value <= 1
            return value

        a, b = fraction('sublevel_width', 'degeneracy'), fraction('spacing', 'realistic')
"""))

rw('grotrian-arrow-helper', (G, """            if type(level) == ZLevel:
                if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
                if level.parent in list(self.lines_df['level']) or bbox_override in {'hf', 'hyperfine'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.parent]['bbox'])[0], a, (x1, y1))
                if level in list(self.lines_df['level']) and bbox_override is False:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            elif type(level) == HFLevel:
                if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
                if level in list(self.lines_df['level']) and bbox_override is False:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            else:
                pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            return pos
""", """            drawn = list(self.lines_df['level'])

            def position_of(which):
                box = list(self.lines_df[self.lines_df['level'] == which]['bbox'])[0]
                return compute_bbox_pos(box, a, (x1, y1))

            if type(level) not in (ZLevel, HFLevel):
                return position_of(level)
            pos = None
            if level.manifold in drawn or bbox_override in {'manifold', 'gross', 'g'}:
                pos = position_of(level.manifold)
            if type(level) == ZLevel and (level.parent in drawn or bbox_override in {'hf', 'hyperfine'}):
                pos = position_of(level.parent)
            if bbox_override is False and level in drawn:
                pos = position_of(level)
            return pos
"""))

rw('grotrian-brackets-early', (G, """        for i, row in self.lines_df.iterrows():
            bbox_setting = row['kwargs'].get('bbox', None)
            if bbox_setting is not None:
                x_min, y_min, x_max, y_max = row['bbox']
                if bbox_setting""", """        for _, row in self.lines_df.iterrows():
            options = row['kwargs']
            bbox_setting = options.get('bbox')
            if bbox_setting is None:
                continue
            else:
                x_min, y_min, x_max, y_max = row['bbox']
                if bbox_setting"""))

rw('env-field-operator', (E, """        return self.pol * (2 * self.intensity / (c * ureg.vacuum_permittivity)) ** 0.5
""", """        amplitude = np.sqrt(2 * self.intensity / (c * ureg.vacuum_permittivity))
        return amplitude * self.pol
"""))

rw('io-save-name-helper', (IO, """    if save:
        if type(save) == str:
            if save[-4:] != '.csv':
                save += '.csv'
        else:
            save = f'{species}_level_data.csv'
        df_clean.to_csv(save)
""", """    if save:
        name = save if isinstance(save, str) else f'{species}_level_data'
        df_clean.to_csv(name if name.endswith('.csv') else name + '.csv')
"""))

rw('io-transition-loop', (IO, """    if "freq" in columns:
        df["freq"] = df_file[columns["freq"]]
    else:
        df["freq"] = None
    if "A" in columns:
        df["A"] = df_file[columns["A"]].astype('pint[MHz]')
    else:
        df["A"] = None
    return df
""", """    df["freq"] = df_file[columns["freq"]] if "freq" in columns else None
    df["A"] = None
    if "A" in columns:
        df["A"] = df_file[columns["A"]].astype('pint[MHz]')
    return df
"""))

rw('io-hf-pathlib', (IO, """        for row in reader:
            try:
                name, hfA, hfB, hfC = row
                atom.levels[name].hfA = Q_(hfA)
                atom.levels[name].hfB = Q_(hfB)
                atom.levels[name].hfC = Q_(hfC)
            except KeyError:
                pass
""", """        for name, *coefficients in reader:
            hfA, hfB, hfC = coefficients
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            level.hfA, level.hfB, level.hfC = Q_(hfA), Q_(hfB), Q_(hfC)
"""))

rw('io-full-options', (IO, """    elif 'transitions_df' in kwargs:
        if kwargs['transitions_df'] is not None:
            a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
        else:
            a.populate_transitions(**kwargs)
    else:
        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
""", """    elif kwargs.get('transitions_df') is not None:
        a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
    else:
        if 'transitions_df' not in kwargs:
            kwargs.setdefault('allowed', (True, False, False))
        a.populate_transitions(**kwargs)
"""))


# ---- sixth batch
rw('repr-parts', (A, """        if len(self._sublevels) == 0:
            self._assign_models()
            self.populate_sublevels()
            for sublevel in list(self._sublevels.values()):
                self._submodel.add_node(sublevel.name, level=sublevel)
        return func(self, *args, **kwargs)
""", """        if not self._sublevels:
            _fill_sublevels(self)
        return func(self, *args, **kwargs)
"""), (A, """def lazy_compute_sublevels(func: Callable) -> Callable:
""", """def _fill_sublevels(level):
    level._assign_models()
    level.populate_sublevels()
    graph = level._submodel
    for sublevel in level._sublevels.values():
        graph.add_node(sublevel.name, level=sublevel)


def lazy_compute_sublevels(func: Callable) -> Callable:
"""))

rw('base-init-reorder', (A, """        self.parent = parent
        self._alias = alias
        if isinstance(term, Term):
            term = MultiTerm(term)
        self.term = term
        self.atom = self.get_atom()
        self.manifold = self.get_manifold()
        self.name = self.term.name
        self.fixed = False

        self._sublevels = dict()
        self._model = None
        self._submodel = None
""", """        self._sublevels = {}
        self._model = self._submodel = None
        self._alias, self.fixed = alias, False
        self.parent = parent
        self.term = MultiTerm(term) if isinstance(term, Term) else term
        self.name = self.term.name
        self.atom = self.get_atom()
        self.manifold = self.get_manifold()
"""))

rw('add-to-atom-early', (A, """        self._model.add_node(self.name, level=self)
        if len(self._sublevels) != 0:
            for sublevel in self.sublevels():
                sublevel.add_to_atom(atom)
""", """        self._model.add_node(self.name, level=self)
        for sublevel in list(self._sublevels.values()):
            sublevel.add_to_atom(atom)
"""))

rw('getitem-label-helper', (A, """        if self.atom.I == 0 and 'mJ' in key:
            return self._sublevels[f'F={self.term.J_frac}'][key.replace('mJ', 'mF')]
        return self._sublevels[key]

    def __setitem__(self, key: str, level: BaseLevel):
        level.parent = self
""", """        if 'mJ' in key and self.atom.I == 0:
            only = self._sublevels['F=' + self.term.J_frac]
            return only[key.replace('mJ', 'mF')]
        else:
            return self._sublevels[key]

    def __setitem__(self, key: str, level: BaseLevel):
        level.parent = self
"""))

rw('energy-init-hf-loop', (A, """        self._level_Hz = level.to(Hz).magnitude
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
        if lande is None:
            self.lande = self.compute_gJ()
        else:
            self.lande = lande
""", """        def in_hertz(quantity):
            return quantity.to(Hz).magnitude

        self._level_Hz = in_hertz(level)
        self.hfA_Hz = in_hertz(hfA)
        self.hfB_Hz = in_hertz(hfB)
        self.hfC_Hz = in_hertz(hfC)
        self.lande = self.compute_gJ() if lande is None else lande
"""))

rw('energy-init-hf-setattr', (A, """        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
        if lande is None:
""", """        for name, value in (('hfA_Hz', hfA), ('hfB_Hz', hfB), ('hfC_Hz', hfC)):
            setattr(self, name, value.to(Hz).magnitude)
        if lande is None:
"""))

rw('sublevels-helper-generator', (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        for f in self._allowed_f():
            self['F=' + util.float_to_frac(f)] = HFLevel(self.term.make_term_copy(F=f), self)

    def _allowed_f(self):
        J, I = self.term.J, self.atom.I
        lowest, highest = abs(J - I), J + I
        return np.arange(lowest, highest + 1)
"""))

rw('gj-decompose-method', (A, """        total = 0
        for term in self.term.terms:
            if term.coupling == 'LS':
""", """        total, weight = 0, 0
        for term in self.term.terms:
            weight += term.percentage
            if term.coupling == 'LS':
"""), (A, """        return total / sum(term.percentage for term in self.term.terms)
""", """        return total / weight
"""))

rw('gj-np-sum', (A, """            J = term.J
            ls, ss, ampls = terms

            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
                                                         / (2 * J * (J + 1))))
""", """            ls, ss, ampls = terms
            jj = term.J * (term.J + 1)
            g_values = 1 + 1.0023 * (jj + ss * (ss + 1) - ls * (ls + 1)) / (2 * jj)
            total += term.percentage * np.sum(g_values * ampls ** 2)
"""))

rw('gj-guard-helper', (A, """            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
""", """            elif term.coupling == 'JJ' and known(term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and known(term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
"""), (A, """        if self.term.J == 0:
            return 0.0
        total = 0
""", """        if self.term.J == 0:
            return 0.0

        def known(*quantum_numbers):
            return all(x is not None for x in quantum_numbers)

        total = 0
"""))

rw('from-df-lande', (A, """        t = MultiTerm.from_dataframe(df, i)
        lande = df["Lande"][i]
        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
""", """        term = MultiTerm.from_dataframe(df, i)
        energy, lande = df["Level (cm-1)"][i], df["Lande"][i]
        if pd.isna(lande):
            lande = None
        return EnergyLevel(term, energy, lande)
"""))

rw('hf-shift-split', (A, """        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))
""", """        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        FE2 = 0
        if J > 0.5 and I > 0.5:
            FE2 = 3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)
            FE2 /= 2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0)
"""))

rw('hf-shift-dotted', (A, """        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""", """        level = self.manifold
        return sum(c * f for c, f in zip((level.hfA_Hz, level.hfB_Hz, level.hfC_Hz), (FM1, FE2, FM3)))
"""))

rw('hflevel-setter-direct', (A, """        shift = value - self.level
        self.parent.level += shift
""", """        self.parent.level = self.parent.level + (value - self.level)
"""))

rw('gf-guard', (A, """        F = self.term.F
        J = self.term.J
        I = self.atom.I
        if F != 0:
            return self.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return 0.0
""", """        F, J, I = self.term.F, self.term.J, self.atom.I
        ff = F * (F + 1)
        if ff == 0:
            return 0.0
        projection = (ff + J * (J + 1) - I * (I + 1)) / (2 * ff)
        return projection * self.manifold.lande
"""))

rw('zshift-parts', (A, """        return self.gF * self.term.mF * mu_B.to(Hz/G).magnitude * self.atom.B_gauss \\
            + self.quadratic_zeeman * self.atom.B_gauss ** 2
""", """        field = self.atom.B_gauss
        moment = mu_B.to(Hz / G).magnitude
        linear = moment * self.gF * self.term.mF
        return (linear + self.quadratic_zeeman * field) * field
"""))

rw('lazy-sub-asserts', (A, """            assert len(self.E_1.sublevels()) != 0
            assert len(self.E_2.sublevels()) != 0
            self.populate_subtransitions()
            for transition in list(self._subtransitions.values()):
                transition.add_to_atom(self.atom)
        return func(self, *args, **kwargs)
""", """            for end in (self.E_1, self.E_2):
                assert end.sublevels()
            self.populate_subtransitions()
            for transition in self._subtransitions.copy().values():
                transition.add_to_atom(self.atom)
        return func(self, *args, **kwargs)
"""))

rw('trans-init-sorted', (A, """        self.E_1, self.E_2 = E1, E2
        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""", """        self.E_1, self.E_2 = E1, E2
        rising = E1.level < E2.level
        self.E_lower, self.E_upper = (E1, E2) if rising else (E2, E1)
"""))

rw('trans-init-name', (A, """        self.model_name = (self.E_1.name, self.E_2.name)
        self.name = name
        if self.name is None:
            self.name = f'{self.E_1.name} → {self.E_2.name}'
""", """        self.model_name = (E1.name, E2.name)
        self.name = ' → '.join(self.model_name) if name is None else name
"""))

rw('trans-init-add-helper', (A, """        # forbidden subtransitions never become part of the atom
        if self.atom is not None and (self.parent is None or np.any(np.array(self.allowed_types))):
            self.add_to_atom(self.atom)
        if alias is not None:
""", """        if self.atom is not None and self._belongs():
            self.add_to_atom(self.atom)
        if alias is not None:
"""), (A, """    @property
    def freq_Hz(self) -> float:
        \"\"\"The frequency of a transition""", """    def _belongs(self):
        \"\"\"forbidden subtransitions never become part of the atom\"\"\"
        if self.parent is None:
            return True
        return any(self.allowed_types)

    @property
    def freq_Hz(self) -> float:
        \"\"\"The frequency of a transition"""))

rw('freq-max-min', (A, """        return abs(self.E_1.level_Hz - self.E_2.level_Hz)

    @property
    def freq(self)""", """        energies = self.E_1.level_Hz, self.E_2.level_Hz
        return max(energies) - min(energies)

    @property
    def freq(self)"""))

rw('linewidth-none', (A, """        if self._A is None:
            return None, 1.0
        return self._A.to(Hz), 1.0
""", """        A = None if self._A is None else self._A.to(Hz)
        return A, 1.0
"""))

rw('pairs-loop-yield', (A, """        if True not in self.allowed_types:
            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        candidates = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        if not any(self.allowed_types):
            return candidates
        _, m1, e2 = self.allowed_types
        reach = 1 if m1 or not e2 else 2

        def close(pair):
            a, b = (getattr(level.term, attr) for level in pair)
            return abs(a - b) <= reach
        return filter(close, candidates)
"""))

rw('getitem-reversed', (A, """        try:
            return self._subtransitions[item]
        except KeyError:
            return self._subtransitions[(item[1], item[0])]
""", """        if item in self._subtransitions:
            return self._subtransitions[item]
        first, second = item
        return self._subtransitions[second, first]
"""))

rw('allowed-nested', (A, """        J0, J1 = self.E_1.term.J, self.E_2.term.J
        p0, p1 = self.E_1.term.parity, self.E_2.term.parity
        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
        # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
        # Correct me if I'm wrong!
        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""", """        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
        a, b = self.E_1.term, self.E_2.term
        same_parity = a.parity == b.parity

        def couples(rank):
            return abs(a.J - b.J) <= rank and a.J + b.J >= rank

        dipole = couples(1)
        # E2 transitions within a manifold are assumed to be strongly suppressed
        return (dipole and not same_parity,
                dipole and same_parity,
                couples(2) and same_parity and self.E_1 is not self.E_2)
"""))

rw('populate-sub-continue', (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        for lower, upper in self._compute_sublevel_pairs('F'):
            component = HFTransition(lower, upper, parent=self)
            if not any(component.allowed_types):
                continue
            ends = component.E_lower, component.E_upper
            self[tuple(level.term.short_name for level in ends)] = component
"""))

rw('setfreq-unlock-helper', (A, """        if self.set_freq:  # unlock the upper level if the transition is already constrained
            if self.E_upper.fixed and self.E_lower.fixed:
                self.E_upper.fixed = False
        self.set_freq = freq
        self.E_1.atom.enforce_consistency(node_or_trans=self.model_name)
""", """        if self.set_freq:
            self._unlock()
        self.set_freq = freq
        atom = self.E_1.atom
        atom.enforce_consistency(self.model_name)

    def _unlock(self):
        \"\"\"unlock the upper level if the transition is already constrained\"\"\"
        upper, lower = self.E_upper, self.E_lower
        if lower.fixed and upper.fixed:
            upper.fixed = False
"""))

rw('hf-linewidth-early', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        e1, m1, e2 = self.parent.allowed_types
        factor = 0.0
        if e1 or m1 or e2:
            rank = 1 if e1 or m1 else 2
            factor = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J2, F2, I, F1, J1, rank) ** 2
        return factor * self.parent.A, float(factor)
"""))

rw('hf-allowed-zip', (A, """        if self.parent is not None:
            init = self.parent.allowed_types
        else:
            init = [True, True, True]
        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret
""", """        init = (True,) * 3 if self.parent is None else self.parent.allowed_types
        symbols = {rank: wigner6j(J0, J1, rank, F1, F0, I) for rank in (1, 2)}
        return tuple(symbols[rank] != 0.0 and ok for rank, ok in zip((1, 1, 2), init))
"""))

rw('z-allowed-helper', (A, """        init = self.parent.allowed_types
        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""", """        def reachable(rank):
            total = 0
            for q in range(-rank, rank + 1):
                total += wigner3j(F1, rank, F0, -mF1, q, mF0)
            return total != 0.0

        e1, m1, e2 = self.parent.allowed_types
        return reachable(1) and e1, reachable(1) and m1, reachable(2) and e2
"""))

rw('atom-init-loops', (A, """        if levels is not None:
            for level in levels:
                self.add_level(level)
        if transitions is not None:
            for transition in transitions:
                self.add_transition(transition)
""", """        for add, things in ((self.add_level, levels), (self.add_transition, transitions)):
            if things is None:
                continue
            for thing in things:
                add(thing)
"""))

rw('add-level-reorder', (A, """        if alias is not None:
            level.alias = alias
        if level.alias is not None:
            self.levels.aliases[level.alias] = level
        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in list(level.values()):
                sublevel.add_to_atom(self)
        return level
""", """        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in level.sublevels():
                sublevel.add_to_atom(self)
        if alias is not None:
            level.alias = alias
        name = level.alias
        if name is not None:
            self.levels.aliases[name] = level
        return level
"""))

rw('add-transition-helper', (A, """        if isinstance(transition, tuple):
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)

        transition.add_to_atom(self)
""", """        if isinstance(transition, tuple):
            transition = self._from_pair(transition, kwargs)
        transition.add_to_atom(self)
"""), (A, """    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss * ureg.gauss
""", """    def _from_pair(self, pair, options):
        if pair in self.transitions.keys():
            warnings.warn(f'transition {pair} is already in {self.name}')
            return self.transitions[pair]
        start = pair[0]
        if isinstance(start, str):
            return Transition(*(self.levels[k] for k in pair[:2]), **options)
        if isinstance(start, BaseLevel):
            return Transition(start, pair[1], **options)
        return pair

    @property
    def B(self) -> pint.Quantity:
        return self.B_gauss * ureg.gauss
"""))

rw('save-default', (A, """        if filename is None:
            filename = self.name
        if not filename.endswith(".atom"):
            filename = filename + ".atom"
        with open(filename, "wb") as file:
            pickle.dump(self, file)
""", """        suffix = ".atom"
        target = self.name if filename is None else filename
        target += "" if target.endswith(suffix) else suffix
        with open(target, "wb") as file:
            pickle.dump(self, file)
"""))

rw('load-outside', (A, """        with open(filename, "rb") as file:
            p = pickle.load(file)
            if not isinstance(p, Atom):
                raise IOError("The indicated file does not contain an Atom object")
            return p
""", """        with open(filename, "rb") as file:
            loaded = pickle.load(file)
        if isinstance(loaded, Atom):
            return loaded
        raise IOError("The indicated file does not contain an Atom object")
"""))

rw('linked-explicit', (A, """        level = self.levels[key]
        key = level.name
        if not isinstance(level, EnergyLevel):
            for k, trans in self.linked_levels(level.parent.name).items():
                trans.subtransitions()
        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        level = self.levels[key]
        if not isinstance(level, EnergyLevel):
            for transition in self.linked_levels(level.parent.name).values():
                transition.subtransitions()
        linked = {}
        for other, data in level.model.adj[level.name].items():
            if other == level.name:
                continue
            linked[other] = data['transition']
        return linked
"""))

rw('lifetime-rate', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        decays = [t for t in self.linked_levels(key).values() if t.E_upper is level]
        total = sum(t.A for t in decays)
        return np.inf * ureg.s if total == 0 else (2 * np.pi / total).to(ureg.s)
"""))

rw('ratios-helper', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")

        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        rates = {}
        try:
            for name, t in transitions.items():
                if t.E_upper.name == key:
                    rates[name] = t.A.to(Hz).magnitude
        except AttributeError:
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
        total = sum(rates.values())
        return {name: rate / total for name, rate in rates.items()}
"""))

rw('consistency-lowest-sorted', (A, """            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
""", """            key_lowest, _ = min(subgraph.nodes(data='level'), key=lambda item: item[1].level_Hz)
"""))

rw('consistency-reordered', (A, """                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """                conflict = e_l.fixed and e_u.fixed and abs(e_l.level_Hz - e_u.level_Hz) != freq
                if conflict:
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                else:
                    if not e_u.fixed:
                        e_u.level_Hz = freq + e_l.level_Hz
                    else:
                        e_l.level_Hz = e_u.level_Hz - freq
                e_l.fixed = True
                e_u.fixed = True
"""))

rw('df-rows-helper', (A, """            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
""", """            names = []
            for end in ('l', 'u'):
                j = util.float_to_frac(float(row[f'j_{end}']))
                names.append(f'{row["conf_" + end]} {row["term_" + end]}{j}')
            try:
                lower, upper = (self.levels[name] for name in names)
                t = Transition(lower, upper, freq=row["freq"], A=row["A"])
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                continue
"""))

rw('aliases-get', (H, """        if key in self.aliases.keys():
            return self.aliases[key]
        # ints, aliases""", """        known = self.aliases.get(key)
        if known is not None:
            return known
        # ints, aliases"""))

rw('transition-key-resolve', (H, """        key = tuple(k.name if hasattr(k, 'name') else self.atom.levels[k].name for k in key)
        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
""", """        levels = self.atom.levels
        key = tuple(map(self._level_name, key))
        first, second = levels[key[0]], levels[key[1]]
        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
        k_lower, k_upper = key[::-1] if first.level > second.level else key
"""), (H, """    def __setitem__(self, key: str, value: Transition):
        self.atom.add_transition(value)
""", """    def _level_name(self, k):
        if hasattr(k, 'name'):
            return k.name
        return self.atom.levels[k].name

    def __setitem__(self, key: str, value: Transition):
        self.atom.add_transition(value)
"""))

rw('nodes-property', (H, """    def __len__(self) -> int:
        return len(nx.get_node_attributes(self.model, 'level'))

    def __iter__(self) -> Iterator:
        return nx.get_node_attributes(self.model, 'level').__iter__()

    def keys(self) -> KeysView:
        return nx.get_node_attributes(self.model, 'level').keys()

    def values(self) -> ValuesView:
        return nx.get_node_attributes(self.model, 'level').values()
""", """    @property
    def _nodes(self):
        return nx.get_node_attributes(self.model, 'level')

    def __len__(self) -> int:
        return len(self._nodes)

    def __iter__(self) -> Iterator:
        return iter(self._nodes)

    def keys(self) -> KeysView:
        return self._nodes.keys()

    def values(self) -> ValuesView:
        return self._nodes.values()
"""))

rw('parity-count', (T, """        self.parity = (-1 if '*' in self.term else 1)
""", """        self.parity = 1
        if '*' in term:
            self.parity = -1
"""))

rw('term-name-suffix', (T, """        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'
""", """        self.short_name = self.term_name = self.term + self.J_frac
        for label, value, frac in (('F', self.F, self.F_frac), ('mF', self.mF, self.mF_frac)):
            if value is None:
                continue
            self.short_name = f'{label}={frac}'
            self.term_name += ' ' + self.short_name
"""))

rw('copy-or', (T, """        if self.F is not None:
            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
                        percentage=self.percentage)
        return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                    percentage=self.percentage)
""", """        keep_f = self.F is not None
        return Term(self.conf, self.term, self.J, self.F if keep_f else F, mF, self.percentage, self.quantum_nums)
"""))

rw('multiterm-negated-sort', (T, """        self.terms = sorted(terms, key=lambda t: t.percentage, reverse=True)
        self.terms_dict = {t.percentage: t for t in self.terms}
""", """        ordered = list(terms)
        ordered.sort(key=lambda t: t.percentage, reverse=True)
        self.terms = ordered
        self.terms_dict = dict((t.percentage, t) for t in ordered)
"""))

rw('multiterm-df-zip2', (T, """        confs = [c for c in df.columns if 'Configuration' in c]
        terms = [c for c in df.columns if 'Term' in c]
        pcts = [c for c in df.columns if 'Percentage' in c]
        term_objs = []
        for j in range(len(confs)):
            if type(df[confs[j]][i]) == str:
                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
""", """        def columns(kind):
            return [c for c in df.columns if kind in c]

        confs, terms, pcts = columns('Configuration'), columns('Term'), columns('Percentage')
        term_objs = []
        for j, column in enumerate(confs):
            conf = df[column][i]
            if not isinstance(conf, str):
                continue
            term_objs.append(Term(conf, df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
"""))

rw('tkq-return', (S, """    prod = 1
    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                   F1, F0, I) ** 2
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0) ** 2
    return prod
""", """    six, three = wigner6j(J0, J1, k, F1, F0, I), wigner3j(F1, k, F0, -M1, q, M0)
    return (2 * F0 + 1) * (2 * F1 + 1) * (six * three) ** 2
"""))

rw('e1-strength-circular', (S, """    tot = 0
    tot += tkq_transition_strength(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    tot += tkq_transition_strength(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2] ** 2
    tot += tkq_transition_strength(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    return tot
""", """    transverse = 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    minus, pi, plus = [tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in (-1, 0, 1)]
    return (minus + plus) * transverse + pi * eps[2] ** 2
"""))

rw('e2-avg-dict', (S, """    tot = 0
    tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
    tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
    tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * (14.0 / 29.0)
    tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * (9.0 / 58.0)
    tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
    return tot
""", """    weights = {0: 14.0 / 29.0, 1: 9.0 / 58.0, 2: 3.0 / 29.0}
    return sum(weights[abs(q)] * tkq_transition_strength(I, 2, q, J0, F0, M0, J1, F1, M1) for q in range(-2, 3))
"""))

rw('mod-lorentz-pair', (L, """    tot = np.zeros_like(x)
    tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
    for i in range(1, num_sidebands + 1):
        mod_ampl = ampl * float(jv(i, depth) ** 2)
        tot += lorentzian(x, x0 + i * mod_freq_GHz, gamma, ampl=mod_ampl)
        tot += lorentzian(x, x0 - i * mod_freq_GHz, gamma, ampl=mod_ampl)
    return tot


class LineShape""", """    tot = np.zeros_like(x)
    for i in range(-num_sidebands, num_sidebands + 1):
        tot += lorentzian(x, x0 + i * mod_freq_GHz, gamma, ampl=ampl * float(jv(abs(i), depth) ** 2))
    return tot


class LineShape"""))

rw('thermal-ratio', (L, """        if self.gamma > self.cutoff*self.sigma*x0:
            return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
        elif self.sigma*x0 > self.cutoff*self.gamma:
            return gaussian(x, x0, self.sigma*x0, ampl=ampl)
        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
""", """        doppler = self.sigma * x0
        if self.gamma > self.cutoff * doppler:
            profile = lorentzian(x, x0, self.gamma, ampl)
        elif doppler > self.cutoff * self.gamma:
            profile = gaussian(x, x0, doppler, ampl)
        else:
            profile = voigt(x, x0, doppler, self.gamma, ampl)
        return profile
"""))

rw('plot-sum-interp', (P, """        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
""", """        x_values = np.sort(np.array(all_x).flatten())
        y_values = np.zeros_like(x_values)
        for i, curve in enumerate(all_y):
            y_values += np.interp(x_values, all_x[i], curve)
"""))

rw('plot-ampl-guard', (P, """        ampl = transition.rel_strength
        if kwargs.get('ampl_dict') is not None:
            ampl *= kwargs.get('ampl_dict')[transition.name]
        x_values, y_values = lineshape.compute(fGHz, ampl=ampl, **kwargs)
""", """        weights = kwargs.get('ampl_dict')
        weight = 1 if weights is None else weights[transition.name]
        x_values, y_values = lineshape.compute(fGHz, ampl=transition.rel_strength * weight, **kwargs)
"""))

rw('color-shade-helper', (P, """        # set the lightness depending on the shade property and convert back to RGB
        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
        col = colorsys.hls_to_rgb(col[0], lightness, col[2])
        return col

    return {t: color_by_properties(t) for t in items}
""", """        hue, _, saturation = col
        return colorsys.hls_to_rgb(hue, lightness(color_prop, shade_prop), saturation)

    def lightness(main, shade):
        # depends on the rank of the shade property among those of the same color
        rank = shade - min_main_props[main] + 1
        return 0.2 + 0.6 * rank / (num_main_props[main] + 1)

    table = {}
    for t in items:
        table[t] = color_by_properties(t)
    return table
"""))

rw('grotrian-add-level-dict', (G, """        if strategy == 'g' or strategy == 'gross':
            strategy = self._gross_level_table
        elif strategy == 'hf' or strategy == 'hyperfine':
            strategy = self._hf_level_table
        elif strategy == 'z' or strategy == 'zeeman':
            strategy = self._zeeman_level_table
""", """        if strategy in ('g', 'gross'):
            strategy = self._gross_level_table
        elif strategy in ('hf', 'hyperfine'):
            strategy = self._hf_level_table
        elif strategy in ('z', 'zeeman'):
            strategy = self._zeeman_level_table
"""))

rw('grotrian-anchor-const', (G, """            if type(anchor) == int:
                anchor_vec = pos_dict[anchor]
            else:
                anchor_vec = anchor
            return (bbox[0]*anchor_vec[0] + bbox[2]*anchor_vec[2] + offset[0],
                    bbox[1]*anchor_vec[1] + bbox[3]*anchor_vec[3] + offset[1])
""", """            weights = pos_dict[anchor] if type(anchor) == int else anchor
            x, y = (bbox[i] * weights[i] + bbox[i + 2] * weights[i + 2] + offset[i] for i in (0, 1))
            return x, y
"""))

rw('field-pol-first', (E, """        self.k = k
        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
        self.pol = pol
        self.intensity = i
""", """        deviation = np.linalg.norm(pol) - 1
        assert -1e-6 < deviation < 1e-6, "polarization must be a unit vector"
        self.k, self.pol, self.intensity = k, pol, i
"""))

rw('hf-csv-rows', (IO, """    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
""", """    zero = Q_(0.0, 'GHz')

    def coefficients(level):
        if blank:
            return [zero, zero, zero]
        return [def_A if level.hfA == zero else level.hfA, level.hfB, level.hfC]

    rows_to_write = [[level.name] + coefficients(level) for level in atom.levels.values()]
"""))

rw('full-dispatch', (IO, """    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif 'transitions_df' in kwargs:
        if kwargs['transitions_df'] is not None:
            a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
        else:
            a.populate_transitions(**kwargs)
    else:
        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
    a.populate_internal_transitions()
""", """    _fill_transitions(a, kwargs)
    a.populate_internal_transitions()
"""), (IO, """def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
""", """def _fill_transitions(a, kwargs):
    if 'transitions_csv' in kwargs:
        return apply_transition_csv(a, kwargs['transitions_csv'])
    if 'transitions_df' not in kwargs:
        return a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
    df = kwargs['transitions_df']
    if df is None:
        return a.populate_transitions(**kwargs)
    return a.populate_transitions_df(df, **kwargs)


def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
"""))

rw('parse-ls-match', (U, """    [(ss, ls)] = re.findall(r'(\\d+)([A-Z])', term)
    s = (float(ss) - 1) / 2
    l = let_to_l(ls)
    return l, s
""", """    [(multiplicity, letter)] = re.findall(r'(\\d+)([A-Z])', term)
    return let_to_l(letter), 0.5 * (float(multiplicity) - 1)
"""))

rw('parse-jj-spin-loop', (U, """    jc = frac_to_float(jcs)
    jo = frac_to_float(jos)
    lc = let_to_l(lcs)
    lo = let_to_l(los)
    if lcs.isupper():
        sc = (float(scs) - 1) / 2
    elif lcs.islower():
        sc = 0.0
    else:
        sc = None
    if los.isupper():
        so = (float(sos) - 1) / 2
    elif los.islower():
        so = 0.0
    else:
        so = None
""", """    spins = []
    for multiplicity, letter in ((scs, lcs), (sos, los)):
        spin = None
        if letter.isupper():
            spin = (float(multiplicity) - 1) / 2
        elif letter.islower():
            spin = 0.0
        spins.append(spin)
    sc, so = spins
    jc, jo = frac_to_float(jcs), frac_to_float(jos)
    lc, lo = let_to_l(lcs), let_to_l(los)
"""))

rw('sets-list-helper', (U, """    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * ampl ** 2, 2)) for l, s, ampl in sets if ampl != 0]
""", """    out = []
    for l, s, ampl in sets:
        if ampl == 0:
            continue
        name = f'{int(2 * s + 1)}{l_to_let(l)}'
        out.append((name, round(100 * ampl ** 2, 2)))
    return out
"""))


rw('nist-url-params', (IO, """    df = pd.read_csv(
        'https://physics.nist.gov/cgi-bin/ASD/energy1.pl?de=0' +
        '&spectrum=' + species.replace(' ', '+') +
        '&units=0' +
        '&format=2' +
        '&output=0' +
        '&page_size=15' +
        '&multiplet_ordered=' + ('on' if term_ordered else '0') +
        '&conf_out=on' +
        '&term_out=on' +
        '&level_out=on' +
        '&unc_out=on' +
        '&j_out=on' +
        '&lande_out=on' +
        '&perc_out=on' +
        '&temp=' +
        '&submit=Retrieve+Data',
        index_col=False)
""", """    params = {
        'de': '0',
        'spectrum': species.replace(' ', '+'),
        'units': '0',
        'format': '2',
        'output': '0',
        'page_size': '15',
        'multiplet_ordered': 'on' if term_ordered else '0',
        'conf_out': 'on',
        'term_out': 'on',
        'level_out': 'on',
        'unc_out': 'on',
        'j_out': 'on',
        'lande_out': 'on',
        'perc_out': 'on',
        'temp': '',
        'submit': 'Retrieve+Data',
    }
    query = '&'.join(f'{k}={v}' for k, v in params.items())
    df = pd.read_csv('https://physics.nist.gov/cgi-bin/ASD/energy1.pl?' + query, index_col=False)
"""))

rw('nist-url-helper', (IO, """    df = pd.read_csv(
        'https://physics.nist.gov/cgi-bin/ASD/energy1.pl?de=0' +
        '&spectrum=' + species.replace(' ', '+') +
        '&units=0' +
        '&format=2' +
        '&output=0' +
        '&page_size=15' +
        '&multiplet_ordered=' + ('on' if term_ordered else '0') +
        '&conf_out=on' +
        '&term_out=on' +
        '&level_out=on' +
        '&unc_out=on' +
        '&j_out=on' +
        '&lande_out=on' +
        '&perc_out=on' +
        '&temp=' +
        '&submit=Retrieve+Data',
        index_col=False)
""", """    df = pd.read_csv(_nist_url(species, term_ordered), index_col=False)
"""), (IO, """def _load_NIST_data(""", """_NIST_BASE = 'https://physics.nist.gov/cgi-bin/ASD/energy1.pl'


def _nist_url(species, term_ordered):
    ordering = 'on' if term_ordered else '0'
    columns = ''.join('&{}_out=on'.format(c) for c in ('conf', 'term', 'level', 'unc', 'j', 'lande', 'perc'))
    return (f"{_NIST_BASE}?de=0&spectrum={'+'.join(species.split(' '))}&units=0&format=2&output=0&page_size=15"
            f"&multiplet_ordered={ordering}{columns}&temp=&submit=Retrieve+Data")


def _load_NIST_data("""))

rw('nist-save-helper', (IO, """    if save:
        if type(save) == str:
            if save[-4:] != '.csv':
                save += '.csv'
        else:
            save = f'{species}_level_data.csv'
        df_clean.to_csv(save)

    return df_clean
""", """    if save:
        _save_levels(df_clean, species, save)

    return df_clean
"""), (IO, """def _load_NIST_data(""", """def _save_levels(table, species, save):
    if isinstance(save, str):
        path = save if save.endswith('.csv') else f'{save}.csv'
    else:
        path = species + '_level_data.csv'
    table.to_csv(path)


def _load_NIST_data("""))

rw('nist-split-fetch', (IO, """    # === strip the data of extraneous symbols ===
    df_clean = df.applymap(lambda k: k.strip(' ="?'))
""", """    df_clean = _clean_levels(df)

    if not save:
        return df_clean
    if type(save) != str:
        save = f'{species}_level_data.csv'
    elif not save.endswith('.csv'):
        save = save + '.csv'
    df_clean.to_csv(save)
    return df_clean


def _clean_levels(df):
    # === strip the data of extraneous symbols ===
    df_clean = df.applymap(lambda k: k.strip(' ="?'))
"""), (IO, """    if save:
        if type(save) == str:
            if save[-4:] != '.csv':
                save += '.csv'
        else:
            save = f'{species}_level_data.csv'
        df_clean.to_csv(save)

    return df_clean
""", """    return df_clean
"""))

rw('nist-coerce-loops', (IO, """    df_clean['Configuration'] = df_clean['Configuration'].astype('str')
    df_clean['Term'] = df_clean['Term'].astype('str')
    df_clean['Term'] = df_clean['Term'].apply(lambda k: re.sub(r'[a-z] ', '', k))
    df_clean['J'] = df_clean['J'].astype('str')
    df_clean['Level (cm-1)'] = pd.to_numeric(df_clean['Level (cm-1)'], errors='coerce')

    if 'Lande' not in df_clean.columns:
        df_clean['Lande'] = None
    df_clean['Lande'] = pd.to_numeric(df_clean['Lande'], errors='coerce')
""", """    if 'Lande' not in df_clean.columns:
        df_clean['Lande'] = None
    for column in ('Configuration', 'Term', 'J'):
        df_clean[column] = df_clean[column].astype('str')
    for column in ('Level (cm-1)', 'Lande'):
        df_clean[column] = pd.to_numeric(df_clean[column], errors='coerce')
    df_clean['Term'] = df_clean['Term'].apply(lambda k: re.sub(r'[a-z] ', '', k))
"""))

rw('draw-models-table', (G, """    if plot_type == 'hf':
        model = atom._hfModel.copy()
    elif plot_type == 'z':
        model = atom._zModel.copy()
    else:
        model = atom._levelsModel.copy()
    for node in model.nodes():
        try:
            model.remove_edge(node, node)
        except nx.NetworkXError:
            pass
""", """    models = {'hf': atom._hfModel, 'z': atom._zModel}
    model = models.get(plot_type, atom._levelsModel).copy()
    for node in model.nodes():
        if model.has_edge(node, node):
            model.remove_edge(node, node)
"""))

rw('draw-selfloops', (G, """    for node in model.nodes():
        try:
            model.remove_edge(node, node)
        except nx.NetworkXError:
            pass
""", """    model.remove_edges_from([(node, node) for node in model.nodes()])
"""))

rw('draw-positions-helper', (G, """def draw_levels(""", """def _position(level):
    return level.term.J, level.level_Hz / 1e12


def draw_levels("""), (G, """    positions = {l.name: (l.term.J, l.level_Hz/1e12) for l in atom.levels.values()}
""", """    positions = {}
    for level in atom.levels.values():
        positions[level.name] = _position(level)
"""))

rw('repr-atom-format', (A, """        return f'<Atom(name={self.name}, I={self.I}, {len(self.levels)} levels)>'
""", """        n = len(self.levels)
        return '<Atom(name={}, I={}, {} levels)>'.format(self.name, self.I, n)
"""))

rw('repr-level-percent', (A, """        return f'<{type(self).__name__}(name = {self.name}, level={str(self.level)}, {len(self._sublevels)} sublevels)>'
""", """        kind = self.__class__.__name__
        count = len(self._sublevels)
        return '<%s(name = %s, level=%s, %d sublevels)>' % (kind, self.name, self.level, count)
"""))

rw('repr-structures-shared', (H, """        if len(self) == 0:
            return 'LevelStructure containing 0 levels'
        return f'LevelStructure containing {len(self)} levels of type {type(list(self.values())[0]).__name__}'
""", """        return _describe(self, 'levels')
"""), (H, """        if len(self) == 0:
            return 'TransitionStructure containing 0 transitions'
        return f'TransitionStructure containing {len(self)} transitions of type {type(list(self.values())[0]).__name__}'
""", """        return _describe(self, 'transitions')
"""), (H, """class LevelStructure:
""", """def _describe(structure, noun):
    members = list(structure.values())
    text = f'{type(structure).__name__} containing {len(members)} {noun}'
    if members:
        text += f' of type {type(members[0]).__name__}'
    return text


class LevelStructure:
"""))

rw('repr-structures-next', (H, """        return f'LevelStructure containing {len(self)} levels of type {type(list(self.values())[0]).__name__}'
""", """        first = next(iter(self.values()))
        return f'LevelStructure containing {len(self)} levels of type {first.__class__.__name__}'
"""))

rw('trans-name-early', (A, """        self.model_name = (self.E_1.name, self.E_2.name)
        self.name = name
        if self.name is None:
            self.name = f'{self.E_1.name} → {self.E_2.name}'
""", """        self.model_name = E1.name, E2.name
        self.name = name if name is not None else ' → '.join(self.model_name)
"""))

rw('color-shade-min-dict', (P, """    main_props, secondary_props = [], []
    for t in items:
        main_props.append(property_color(t))
        secondary_props.append(property_shade(t))
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    prop_pairs = list(zip(main_props, secondary_props))
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
""", """    main_props = [property_color(t) for t in items]
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in sorted(set(main_props))}
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {p0: min(property_shade(t) for t in items if property_color(t) == p0) for p0 in main_props}
"""))

rw('color-hls-unpack', (P, """        col = colormap(list(num_main_props.keys()).index(color_prop))
        # convert it to HLS
        col = colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
        # set the lightness depending on the shade property and convert back to RGB
        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
        col = colorsys.hls_to_rgb(col[0], lightness, col[2])
        return col

    return {t: color_by_properties(t) for t in items}
""", """        rank = list(num_main_props).index(color_prop)
        red, green, blue = matplotlib.colors.to_rgb(colormap(rank))
        # convert it to HLS
        hue, _, saturation = colorsys.rgb_to_hls(red, green, blue)
        # set the lightness depending on the shade property and convert back to RGB
        step = shade_prop - min_main_props[color_prop] + 1
        lightness = 0.2 + 0.6 * step / (num_main_props[color_prop] + 1)
        return colorsys.hls_to_rgb(hue, lightness, saturation)

    table = {}
    for t in items:
        table[t] = color_by_properties(t)
    return table
"""))

rw('color-partial', (P, """    def color_by_properties(t):
        colormap = plt.get_cmap(cmap)

        color_prop = property_color(t)
        shade_prop = property_shade(t)
""", """    colormap = plt.get_cmap(cmap)
    ranks = {F: i for i, F in enumerate(num_main_props)}

    def color_by_properties(t):
        color_prop, shade_prop = property_color(t), property_shade(t)
"""), (P, """        col = colormap(list(num_main_props.keys()).index(color_prop))
""", """        col = colormap(ranks[color_prop])
"""))

rw('spectrum-color-table', (P, """    elif type(lines[0]) == HFTransition:
        if coloring == 'l':
            color_dict = color_table_from_property(lines,
                                                   property_color=lambda t: t.E_lower.term.F,
                                                   property_shade=lambda t: t.E_upper.term.F,
                                                   cmap=kwargs.pop('cmap', 'tab10'))
        elif coloring == 'u':
            color_dict = color_table_from_property(lines,
                                                   property_color=lambda t: t.E_upper.term.F,
                                                   property_shade=lambda t: t.E_lower.term.F,
                                                   cmap=kwargs.pop('cmap', 'tab10'))

        def color_func(t): return color_dict[t]
""", """    elif type(lines[0]) == HFTransition:
        def lower_F(t): return t.E_lower.term.F

        def upper_F(t): return t.E_upper.term.F
        if coloring in ('l', 'u'):
            first, second = (lower_F, upper_F) if coloring == 'l' else (upper_F, lower_F)
            color_dict = color_table_from_property(lines, first, second, kwargs.pop('cmap', 'tab10'))

        def color_func(t): return color_dict[t]
"""))

rw('zeeman-spectrum-flat', (P, """    if isinstance(transitions, HFTransition):
        lines = list(transitions.values())
    elif isinstance(transitions, Transition):
        lines = list(itertools.chain.from_iterable(list(t.values()) for t in list(transitions.values())))
    elif isinstance(transitions, list):
        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
    else:
        lines = transitions
""", """    if isinstance(transitions, list):
        lines = [line for t in transitions for line in t.values()]
    elif isinstance(transitions, Transition):
        lines = [line for t in transitions.values() for line in t.values()]
    elif isinstance(transitions, HFTransition):
        lines = list(transitions.values())
    else:
        lines = transitions
"""))

rw('plot-hf-ternary', (P, """    if isinstance(transitions, list):
        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
    else:
        lines = list(transitions.values())

    plot_spectrum(""", """    parents = transitions if isinstance(transitions, list) else [transitions]
    lines = []
    for parent in parents:
        lines.extend(parent.values())

    plot_spectrum("""))

rw('beam-ratio', (E, """        return self.w0 * np.sqrt(1 + z ** 2 / self.zr ** 2)
""", """        ratio = z / self.zr
        return self.w0 * (1 + ratio * ratio) ** 0.5
"""), (E, """        return z * (1 + self.zr ** 2 / z ** 2)
""", """        return z + self.zr ** 2 / z
"""))

rw('term-attrs-property-free', (T, """        self.J_frac, self.F_frac, self.mF_frac = util.float_to_frac(self.J), util.float_to_frac(self.F), \\
            util.float_to_frac(self.mF)

        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'

        self.name = f'{self.conf} {self.term_name}'
""", """        self.J_frac = util.float_to_frac(self.J)
        self.F_frac = util.float_to_frac(self.F)
        self.mF_frac = util.float_to_frac(self.mF)

        labels = [f'{self.term}{self.J_frac}']
        for symbol, value, frac in (('F', self.F, self.F_frac), ('mF', self.mF, self.mF_frac)):
            if value is not None:
                labels.append(f'{symbol}={frac}')
        self.short_name = labels[-1]
        self.term_name = ' '.join(labels)
        self.name = ' '.join([self.conf, self.term_name])
"""))

rw('levels-getitem-parts', (H, """        if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
            main, hf, z = key.rsplit(' ', maxsplit=2)
            return nx.get_node_attributes(self.model, 'level')[main][hf][z]
        elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = nx.get_node_attributes(self.model, 'level')[main]
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        elif 'F=' in key:  # match [conf] [term] F=[F]
            main, hf = key.rsplit(' ', maxsplit=1)
            return nx.get_node_attributes(self.model, 'level')[main][hf]
        else:  # match [conf] [term]
            return nx.get_node_attributes(self.model, 'level')[key]
""", """        levels = nx.get_node_attributes(self.model, 'level')
        if 'mJ=' in key and 'mF=' not in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            manifold = levels[main]
            hf = f'F={manifold.term.J_frac}'
            return manifold[hf]['mF=' + z]
        depth = 2 if 'mF=' in key else 1 if 'F=' in key else 0
        if depth == 0:
            return levels[key]
        main, *labels = key.rsplit(' ', maxsplit=depth)
        level = levels[main]
        for label in labels:
            level = level[label]
        return level
"""))

rw('transitions-order-helper', (H, """        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
""", """        k_lower, k_upper = self._ordered(*key)
"""), (H, """    def __setitem__(self, key: str, value: Transition):
        self.atom.add_transition(value)
""", """    def _ordered(self, first, second):
        levels = self.atom.levels
        if levels[first].level <= levels[second].level:
            return first, second
        return second, first

    def __setitem__(self, key: str, value: Transition):
        self.atom.add_transition(value)
"""))

rw('consistency-energies', (A, """            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
""", """            energies = {key: node.level_Hz for key, node in nodes}
            key_lowest = min(energies, key=energies.get)
"""))

rw('ratios-items', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")

        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        downward = {n: t for n, t in transitions.items() if t.E_upper.name == key}
        if any(t.A is None for t in downward.values()):
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
        rates = {n: t.A.to(Hz).magnitude for n, t in downward.items()}
        total = sum(rates.values())
        return {n: rate / total for n, rate in rates.items()}
"""))

rw('mod-sidebands-pairs', (L, """        tot = np.zeros_like(x)
        tot += lorentzian(x, x0, width, ampl=ampl * float(jv(0, self.depth) ** 2))
        for i in range(1, self.num_sidebands + 1):
            mod_ampl = ampl * float(jv(i, self.depth) ** 2)
            tot += lorentzian(x, x0 + i * self.mod_freq_GHz, width, ampl=mod_ampl)
            tot += lorentzian(x, x0 - i * self.mod_freq_GHz, width, ampl=mod_ampl)
        return tot
""", """        tot = np.zeros_like(x)
        for i in range(self.num_sidebands + 1):
            mod_ampl = ampl * float(jv(i, self.depth) ** 2)
            offset = i * self.mod_freq_GHz
            centres = [x0] if i == 0 else [x0 + offset, x0 - offset]
            for centre in centres:
                tot += lorentzian(x, centre, width, ampl=mod_ampl)
        return tot
"""))

rw('thermal-width-helper', (L, """        if self.gamma > self.cutoff*self.sigma*x0:
            return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
        elif self.sigma*x0 > self.cutoff*self.gamma:
            return gaussian(x, x0, self.sigma*x0, ampl=ampl)
        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
""", """        doppler = self.sigma * x0
        if self.gamma > self.cutoff * doppler:
            return lorentzian(x, x0, self.gamma, ampl)
        if doppler > self.cutoff * self.gamma:
            return gaussian(x, x0, doppler, ampl)
        return voigt(x, x0, doppler, self.gamma, ampl)
"""))

rw('hf-csv-rows-ternary', (IO, """    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
    with open(filename, 'w', newline='', encoding='utf-8') as f:
        writer = csv.writer(f)
        writer.writerows(rows_to_write)
""", """    zero = Q_(0.0, 'GHz')

    def row(level):
        if blank:
            return [level.name, zero, zero, zero]
        hfA = def_A if level.hfA == zero else level.hfA
        return [level.name, hfA, level.hfB, level.hfC]

    with open(filename, 'w', newline='', encoding='utf-8') as f:
        csv.writer(f).writerows(row(level) for level in atom.levels.values())
"""))

rw('hf-apply-guard', (IO, """            try:
                name, hfA, hfB, hfC = row
                atom.levels[name].hfA = Q_(hfA)
                atom.levels[name].hfB = Q_(hfB)
                atom.levels[name].hfC = Q_(hfC)
            except KeyError:
                pass
""", """            name, hfA, hfB, hfC = row
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            level.hfA, level.hfB, level.hfC = Q_(hfA), Q_(hfB), Q_(hfC)
"""))

rw('arrow-boxes-helper', (G, """            pos = None
            if type(level) == ZLevel:
                if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
                if level.parent in list(self.lines_df['level']) or bbox_override in {'hf', 'hyperfine'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.parent]['bbox'])[0], a, (x1, y1))
                if level in list(self.lines_df['level']) and bbox_override is False:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            elif type(level) == HFLevel:
                if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
                if level in list(self.lines_df['level']) and bbox_override is False:
                    pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            else:
                pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
            return pos
""", """            def drawn(l):
                return l in list(self.lines_df['level'])

            def at(l):
                box = list(self.lines_df[self.lines_df['level'] == l]['bbox'])[0]
                return compute_bbox_pos(box, a, (x1, y1))

            if type(level) not in (ZLevel, HFLevel):
                return at(level)
            pos = None
            if drawn(level.manifold) or bbox_override in {'manifold', 'gross', 'g'}:
                pos = at(level.manifold)
            if type(level) == ZLevel and (drawn(level.parent) or bbox_override in {'hf', 'hyperfine'}):
                pos = at(level.parent)
            if drawn(level) and bbox_override is False:
                pos = at(level)
            return pos
"""))

rw('zrow-pitch', (G, """        p0 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) - sublevel_width / 2, y)
        p1 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) + sublevel_width / 2, y)
""", """        pitch = sublevel_width + space_width
        left = x0 + x1 + level.term.mF * pitch - sublevel_width / 2
        p0, p1 = (left, y), (left + sublevel_width, y)
"""))

rw('tables-substructure-helper', (G, """        if isinstance(level, EnergyLevel):
            sub_tables = []
            for sublevel in level.sublevels():
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._zeeman_level_table(sublevel, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_level_row(level,
                                                       bbox_override=self.bbox(
                                                          (list(table['p0']) + list(table['p1']))),
                                                       show=False,
                                                       **kwargs)],
                              ignore_index=True)
        elif type(level) == HFLevel:
            sub_tables = []
            for z_level in level.sublevels():
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._zeeman_level_table(z_level, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_hflevel_row(level,
                                                         bbox_override=self.bbox(
                                                            (list(table['p0']) + list(table['p1']))),
                                                         show=False,
                                                         **kwargs)],
                              ignore_index=True)
        elif type(level) == ZLevel:
            table = self._compute_zlevel_row(level, **kwargs)
        else:
            table = None

        return table
""", """        if type(level) == ZLevel:
            return self._compute_zlevel_row(level, **kwargs)
        if isinstance(level, EnergyLevel):
            own_row = self._compute_level_row
        elif type(level) == HFLevel:
            own_row = self._compute_hflevel_row
        else:
            return None
        sub_kwargs = {**kwargs, 'bbox': None}
        inner = pd.concat([self._zeeman_level_table(sub, **sub_kwargs) for sub in level.sublevels()],
                          ignore_index=True)
        corners = list(inner['p0']) + list(inner['p1'])
        outer = own_row(level, bbox_override=self.bbox(corners), show=False, **kwargs)
        return pd.concat([inner, outer], ignore_index=True)
"""))

rw('setfreq-shared-shift', (A, """    def set_frequency(self, freq: pint.Quantity):
        diff = freq - self.freq
        self.parent.set_frequency(self.parent.freq + diff)


class ZTransition(BaseTransition):
""", """    def set_frequency(self, freq: pint.Quantity):
        self.parent.set_frequency(freq + self.parent.freq - self.freq)


class ZTransition(BaseTransition):
"""))

rw('zallowed-shared-sums', (A, """        F0, F1 = self.E_1.term.F, self.E_2.term.F
        mF0, mF1 = self.E_1.term.mF, self.E_2.term.mF
        init = self.parent.allowed_types
        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""", """        lower, upper = self.E_1.term, self.E_2.term

        def coupled(rank):
            total = 0
            for q in range(-rank, rank + 1):
                total += wigner3j(upper.F, rank, lower.F, -upper.mF, q, lower.mF)
            return total != 0.0

        dipole, quadrupole = coupled(1), coupled(2)
        e1, m1, e2 = self.parent.allowed_types
        return dipole and e1, dipole and m1, quadrupole and e2
"""))

rw('wigner-refuse-tuple', (W, """            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
        else:
            # sympy throws an error when selection rules are violated, but it needs to return 0
            try:
                return float(func(*args))
            except ValueError:
                return 0.0
""", """            refusals = (ValueError, IndexError)
            doubled = [int(2 * x) for x in args]
            try:
                return func(*doubled)
            except refusals:
                return 0.0
        # sympy throws an error when selection rules are violated, but it needs to return 0
        try:
            value = func(*args)
        except ValueError:
            return 0.0
        return float(value)
"""))


rw('species-frequency-table', (Y, """Yb171.transitions[('4f14.5d 2D3/2', '4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2')].set_frequency(Q_(320.567693, 'THz'))
Yb171.transitions[('4f14.6s 2S1/2', '4f14.6p 2P*1/2')].set_frequency(Q_(811.294110, 'THz'))
""", """MEASURED_THZ = {
    ('4f14.5d 2D3/2', '4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2'): 320.567693,
    ('4f14.6s 2S1/2', '4f14.6p 2P*1/2'): 811.294110,
}
for _levels, _freq in MEASURED_THZ.items():
    Yb171.transitions[_levels].set_frequency(Q_(_freq, 'THz'))
"""))

rw('species-ground-shifts', (Y, """Yb171.levels['4f14.6s 2S1/2']['F=0']['mF=0'].quadratic_zeeman = -155.305
Yb171.levels['4f14.6s 2S1/2']['F=1']['mF=0'].quadratic_zeeman = 155.305
""", """CLOCK_SHIFT = 155.305
for _f, _sign in ((0, -1), (1, 1)):
    Yb171.levels['4f14.6s 2S1/2'][f'F={_f}']['mF=0'].quadratic_zeeman = _sign * CLOCK_SHIFT
"""))

rw('setfreq-level-key-names', (Y, """t = Yb171.add_transition((Yb171.levels['4f14.6s 2S1/2'], Yb171.levels['4f14.5d 2D5/2']), A=Q_(22, 'Hz'))
t.set_frequency(Q_(729.476090, 'THz'))
""", """ground, metastable = (Yb171.levels[k] for k in ('4f14.6s 2S1/2', '4f14.5d 2D5/2'))
t = Yb171.add_transition((ground, metastable), A=Q_(22, 'Hz'))
t.set_frequency(Q_(729.476090, 'THz'))
"""))



rw('atom-branching-values', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")

        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        decays = [(n, t) for n, t in transitions.items() if t.E_upper.name == key]
        try:
            rates = [t.A.to(Hz).magnitude for _, t in decays]
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
        total = np.sum(rates)
        return {n: rate / total for (n, _), rate in zip(decays, rates)}
"""))

rw('atom-lifetime-early', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        decay_rates = [t.A for t in self.linked_levels(key).values() if t.E_upper is level]
        total_A = sum(decay_rates)
        if total_A != 0:
            return (2 * np.pi / total_A).to(ureg.s)
        return np.inf * ureg.s
"""))

rw('atom-linked-helper', (A, """        level = self.levels[key]
        key = level.name
        if not isinstance(level, EnergyLevel):
            for k, trans in self.linked_levels(level.parent.name).items():
                trans.subtransitions()
        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        level = self.levels[key]
        if not isinstance(level, EnergyLevel):
            self._expand_links(level.parent)
        linked = {}
        for neighbour, data in level.model.adj[level.name].items():
            if neighbour == level.name:
                continue
            linked[neighbour] = data['transition']
        return linked

    def _expand_links(self, level: BaseLevel):
        \"\"\"generate the components of every transition connected to the level\"\"\"
        for transition in self.linked_levels(level.name).values():
            transition.subtransitions()
"""))

rw('atom-populate-grouped', (A, """        js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
              for J in np.arange(0, max_to_try + 1, 0.5)}
        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            set0 = [js[j] for j in list(js.keys())]
            # don't include the last several j values to avoid IndexErrors
            set1 = [js[j + delta_j] for j in list(js.keys())[:int(-(delta_j * 2 + 1))]]
            j_pairs = zip(set0, set1)
            level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
            for pair in level_pairs:
""", """        all_levels = list(self.levels.values())
        j_values = list(np.arange(0, max_to_try + 1, 0.5))
        js = {J: [lvl for lvl in all_levels if lvl.term.J == J] for J in j_values}
        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            # don't include the last several j values to avoid IndexErrors
            lower_js = j_values[:int(-(delta_j * 2 + 1))]
            level_pairs = tqdm([(l0, l1) for j in lower_js for l0 in js[j] for l1 in js[j + delta_j]])
            for pair in level_pairs:
"""))

rw('atom-populate-pair-method', (A, """            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
                        level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                        self.add_transition(t)
                    else:
                        del self.transitions[(pair[0].name, pair[1].name)]
""", """            for l0, l1 in level_pairs:
                if self._levelsModel.has_edge(l0.name, l1.name):
                    continue
                t = Transition(l0, l1)
                wanted = any(kind and ok for kind, ok in zip(t.allowed_types, allowed))
                if not wanted:
                    del self.transitions[(l0.name, l1.name)]
                    continue
                level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                self.add_transition(t)
"""))

rw('atom-df-rows-tuple', (A, """        for _, row in rows:
            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
""", """        for _, row in rows:
            names = []
            for end in 'lu':
                j = util.float_to_frac(float(row['j_' + end]))
                names.append('{} {}{}'.format(row['conf_' + end], row['term_' + end], j))
            try:
                lower, upper = [self.levels[name] for name in names]
                t = Transition(lower, upper, freq=row["freq"], A=row["A"])
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                continue
"""))

rw('atom-settle-function', (A, """            for edge in search:
                t = subgraph.edges()[edge]['transition']
                e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """            for edge in search:
                t = subgraph.edges()[edge]['transition']
                lower, upper = t.E_lower, t.E_upper
                freq = t.set_freq.to(Hz).magnitude
                both_fixed = lower.fixed and upper.fixed
                if both_fixed and abs(upper.level_Hz - lower.level_Hz) != freq:
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                else:
                    if upper.fixed:
                        lower.level_Hz = upper.level_Hz - freq
                    else:
                        upper.level_Hz = lower.level_Hz + freq
                for end in (lower, upper):
                    end.fixed = True
"""))

rw('atom-pairs-rank', (A, """        if True not in self.allowed_types:
            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        all_pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        if True not in self.allowed_types:
            return all_pairs
        _, m1, e2 = self.allowed_types
        max_delta = 2 if e2 and not m1 else 1

        def close(pair):
            a, b = (getattr(level.term, attr) for level in pair)
            return abs(a - b) <= max_delta
        return filter(close, all_pairs)
"""))

rw('atom-hf-allowed-symbols', (A, """        if self.parent is not None:
            init = self.parent.allowed_types
        else:
            init = [True, True, True]
        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret
""", """        init = (True,) * 3 if self.parent is None else self.parent.allowed_types
        dipole = wigner6j(J0, J1, 1, F1, F0, I) != 0.0
        quadrupole = wigner6j(J0, J1, 2, F1, F0, I) != 0.0
        e1, m1, e2 = init
        return dipole and e1, dipole and m1, quadrupole and e2
"""))

rw('atom-z-linewidth-ranks', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
        elif self.parent.allowed_types[2]:
            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        e1, m1, e2 = self.parent.allowed_types
        rank = 1 if e1 or m1 else 2 if e2 else None
        factor = 0.0
        if rank is not None:
            for q in range(-rank, rank + 1):
                factor += wigner3j(F1, rank, F2, -mF1, q, mF2) ** 2
        return factor * self.parent.A, float(factor)
"""))

rw('atom-save-suffix', (A, """        if filename is None:
            filename = self.name
        if not filename.endswith(".atom"):
            filename = filename + ".atom"
        with open(filename, "wb") as file:
            pickle.dump(self, file)
""", """        path = self.name if filename is None else filename
        if path[-5:] != ".atom":
            path += ".atom"
        with open(path, "wb") as file:
            file.write(pickle.dumps(self))
"""))

rw('atom-gj-dispatch', (A, """            if term.coupling == 'LS':
                terms = np.array([[term.l], [term.s], [1.0]])
            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'LK':
                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
            else:
                return 0.0

            J = term.J
            ls, ss, ampls = terms

            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
                                                         / (2 * J * (J + 1))))
        return total / sum(term.percentage for term in self.term.terms)
""", """            electrons = (term.lc, term.sc, term.lo, term.so)
            if term.coupling == 'LS':
                components = np.array([[term.l], [term.s], [1.0]])
            elif term.coupling == 'LK':
                components = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, *electrons):
                components = JJ_to_LS(term.J, term.jc, term.jo, *electrons)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, *electrons):
                components = JK_to_LS(term.J, term.jc, term.k, *electrons)
            else:
                return 0.0
            total += term.percentage * self._lande_of(term.J, *components)
        return total / sum(term.percentage for term in self.term.terms)

    @staticmethod
    def _lande_of(J, ls, ss, ampls):
        \"\"\"the g-value of a superposition of LS terms\"\"\"
        jj = J * (J + 1)
        spin_part = 1.0023 * (jj + ss * (ss + 1) - ls * (ls + 1)) / (2 * jj)
        return sum(ampls ** 2 * (1 + spin_part))
"""))

rw('atom-hf-sublevels-count', (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        J, I = self.term.J, self.atom.I
        lowest = abs(J - I)
        for step in range(int(J + I - lowest) + 1):
            F = lowest + step
            sublevel = HFLevel(term=self.term.make_term_copy(F=F), parent=self)
            self['F=' + util.float_to_frac(F)] = sublevel
"""))

rw('atom-base-level-init', (A, """        self.parent = parent
        self._alias = alias
        if isinstance(term, Term):
            term = MultiTerm(term)
        self.term = term
        self.atom = self.get_atom()
        self.manifold = self.get_manifold()
        self.name = self.term.name
        self.fixed = False

        self._sublevels = dict()
        self._model = None
        self._submodel = None
""", """        self._alias = alias
        self._sublevels = {}
        self._model = self._submodel = None
        self.fixed = False

        self.parent = parent
        self.term = MultiTerm(term) if isinstance(term, Term) else term
        self.name = self.term.name
        self.atom, self.manifold = self.get_atom(), self.get_manifold()
"""))

rw('atom-hf-shift-moments', (A, """        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))

        if J <= 1 or I <= 1:
            FM3 = 0
        else:
            FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                    -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""", """        manifold = self.manifold
        ii, jj = I * (I + 1), J * (J + 1)
        K = 0.5 * (F * (F + 1) - jj - ii)

        shift = manifold.hfA_Hz * K
        if min(I, J) > 0.5:
            quadrupole = 3 * K ** 2 + 1.5 * K - ii * jj
            shift += manifold.hfB_Hz * quadrupole / (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))
        if min(I, J) > 1:
            octupole = 10 * K ** 3 + 20 * K ** 2 + 2 * K * (ii + jj + 3 - 3 * ii * jj) - 5 * ii * jj
            shift += manifold.hfC_Hz * octupole / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return shift
"""))

rw('atom-getitem-try', (A, """        try:
            return self._subtransitions[item]
        except KeyError:
            return self._subtransitions[(item[1], item[0])]
""", """        lower, upper = item
        if (lower, upper) in self._subtransitions:
            return self._subtransitions[(lower, upper)]
        return self._subtransitions[(upper, lower)]
"""))

rw('atom-add-transition-resolve-table', (A, """        if isinstance(transition, tuple):
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)
""", """        if isinstance(transition, tuple):
            first, second = transition
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            else:
                if isinstance(first, str):
                    first, second = self.levels[first], self.levels[second]
                if isinstance(first, BaseLevel):
                    transition = Transition(first, second, **kwargs)
"""))

rw('helpers-mixin-len', (H, """    def __len__(self) -> int:
        return len(nx.get_node_attributes(self.model, 'level'))

    def __iter__(self) -> Iterator:
        return nx.get_node_attributes(self.model, 'level').__iter__()

    def keys(self) -> KeysView:
        return nx.get_node_attributes(self.model, 'level').keys()

    def values(self) -> ValuesView:
        return nx.get_node_attributes(self.model, 'level').values()
""", """    def _mapping(self) -> Dict:
        return nx.get_node_attributes(self.model, 'level')

    def __len__(self) -> int:
        return len(self._mapping())

    def __iter__(self) -> Iterator:
        return iter(self._mapping())

    def keys(self) -> KeysView:
        return self._mapping().keys()

    def values(self) -> ValuesView:
        return self._mapping().values()
"""))

rw('helpers-transition-unpack', (H, """        key = tuple(k.name if hasattr(k, 'name') else self.atom.levels[k].name for k in key)
        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
        else:  # match [conf] [term]
            return self.model.edges[k_lower, k_upper]['transition']
""", """        levels = self.atom.levels
        first, second = (k.name if hasattr(k, 'name') else levels[k].name for k in key)
        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
        swap = levels[first].level > levels[second].level
        k_lower, k_upper = (second, first) if swap else (first, second)
        depth = 2 if 'mF=' in first else 1 if 'F=' in first else 0
        if depth == 0:
            return self.model.edges[k_lower, k_upper]['transition']
        parts_lower = k_lower.rsplit(' ', maxsplit=depth)
        parts_upper = k_upper.rsplit(' ', maxsplit=depth)
        transition = self.model.edges[parts_lower[0], parts_upper[0]]['transition']
        for pair in zip(parts_lower[1:], parts_upper[1:]):
            transition = transition[pair]
        return transition
"""))

rw('helpers-list-names-loop', (H, """        if hide_self_transitions:
            return [key for key in self.keys() if key[0] != key[1]]
        return list(self.keys())
""", """        names = []
        for lower, upper in self.keys():
            if hide_self_transitions and lower == upper:
                continue
            names.append((lower, upper))
        return names
"""))

rw('io-hf-default', (IO, """    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
    with open(filename, 'w', newline='', encoding='utf-8') as f:
        writer = csv.writer(f)
        writer.writerows(rows_to_write)
""", """    zero = Q_(0.0, 'GHz')

    def coefficients(level):
        if blank:
            return zero, zero, zero
        hfA = def_A if level.hfA == zero else level.hfA
        return hfA, level.hfB, level.hfC

    with open(filename, 'w', newline='', encoding='utf-8') as f:
        writer = csv.writer(f)
        for level in atom.levels.values():
            writer.writerow([level.name, *coefficients(level)])
"""))

rw('io-apply-hf-level', (IO, """            try:
                name, hfA, hfB, hfC = row
                atom.levels[name].hfA = Q_(hfA)
                atom.levels[name].hfB = Q_(hfB)
                atom.levels[name].hfC = Q_(hfC)
            except KeyError:
                pass
""", """            name, hfA, hfB, hfC = row
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            level.hfA, level.hfB, level.hfC = Q_(hfA), Q_(hfB), Q_(hfC)
"""))

rw('io-full-popped', (IO, """    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif 'transitions_df' in kwargs:
        if kwargs['transitions_df'] is not None:
            a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
        else:
            a.populate_transitions(**kwargs)
    else:
        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
    a.populate_internal_transitions()
    return a
""", """    _add_transitions(a, kwargs)
    a.populate_internal_transitions()
    return a


def _add_transitions(a, options):
    if 'transitions_csv' in options:
        apply_transition_csv(a, options['transitions_csv'])
        return
    if 'transitions_df' not in options:
        options = dict(options)
        options.setdefault('allowed', (True, False, False))
        a.populate_transitions(**options)
        return
    table = options['transitions_df']
    if table is None:
        a.populate_transitions(**options)
    else:
        a.populate_transitions_df(table, **options)
"""))

rw('io-transition-table', (IO, """    df = pd.DataFrame(data={k: df_file[columns[k]] for k in ["conf_l", "term_l", "j_l",
                                                             "conf_u", "term_u", "j_u"]})
    if "freq" in columns:
        df["freq"] = df_file[columns["freq"]]
    else:
        df["freq"] = None
    if "A" in columns:
        df["A"] = df_file[columns["A"]].astype('pint[MHz]')
    else:
        df["A"] = None
    return df
""", """    needed = [f'{quantity}_{end}' for end in 'lu' for quantity in ('conf', 'term', 'j')]
    df = pd.DataFrame(data={name: df_file[columns[name]] for name in needed})
    df["freq"] = df_file[columns["freq"]] if "freq" in columns else None
    df["A"] = df_file[columns["A"]].astype('pint[MHz]') if "A" in columns else None
    return df
"""))

rw('term-init-tuple', (T, """        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'

        self.name = f'{self.conf} {self.term_name}'
""", """        parts = [f'{self.term}{self.J_frac}']
        for label, value, text in (('F', self.F, self.F_frac), ('mF', self.mF, self.mF_frac)):
            if value is None:
                continue
            parts.append(f'{label}={text}')
        self.term_name, self.short_name = ' '.join(parts), parts[-1]
        self.name = ' '.join([self.conf, self.term_name])
"""))

rw('term-eq-items', (T, """        return self.quantum_nums == other.quantum_nums and \\
               self.conf == other.conf and \\
               self.term == other.term and \\
               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
""", """        for attribute in ('quantum_nums', 'conf', 'term', 'J', 'F', 'mF'):
            if getattr(self, attribute) != getattr(other, attribute):
                return False
        return True
"""))

rw('term-copy-kwargs', (T, """        if self.F is not None:
            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
                        percentage=self.percentage)
        return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                    percentage=self.percentage)
""", """        options = dict(quantum_nums=self.quantum_nums, percentage=self.percentage, mF=mF)
        options['F'] = F if self.F is None else self.F
        return Term(self.conf, self.term, self.J, **options)
"""))

rw('multiterm-df-zip-filter', (T, """        confs = [c for c in df.columns if 'Configuration' in c]
        terms = [c for c in df.columns if 'Term' in c]
        pcts = [c for c in df.columns if 'Percentage' in c]
        term_objs = []
        for j in range(len(confs)):
            if type(df[confs[j]][i]) == str:
                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
""", """        def columns(label):
            return [c for c in df.columns if label in c]

        J = df['J'][i]
        components = []
        for conf_col, term_col, pct_col in zip(columns('Configuration'), columns('Term'), columns('Percentage')):
            conf = df[conf_col][i]
            if not isinstance(conf, str):
                continue
            components.append(Term(conf, df[term_col][i], J, percentage=df[pct_col][i]))
        return MultiTerm(*components)
"""))

rw('util-frac-guard', (U, """    if type(frac) == str:
        if '/' in frac:
            (f1, f2) = frac.split('/')
            return float(f1) / float(f2)
        else:
            try:
                return float(frac)
            except TypeError:
                raise ValueError("Please input a fraction-formatted string or a float")
    return frac
""", """    if not isinstance(frac, str):
        return frac
    numerator, slash, denominator = frac.partition('/')
    if slash:
        return float(numerator) / float(denominator)
    return float(frac)
"""))

rw('util-float-frac-twice', (U, """    if (2 * f) % 2 == 0:
        return str(int(f))
    else:
        return str(int(f * 2)) + '/2'
""", """    twice = 2 * f
    is_whole = twice % 2 == 0
    return f'{int(f)}' if is_whole else f'{int(twice)}/2'
"""))

rw('util-readable-generic', (U, """    sets = list(zip(*[list(a) for a in JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)]))
    return _sets_to_list(sets)


def readable_JK""", """    return _sets_to_list(_rows(JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)))


def _rows(columns):
    return list(zip(*map(list, columns)))


def readable_JK"""), (U, """    sets = list(zip(*[list(a) for a in JK_to_LS(J, Jc, K, lc, sc, lo, so)]))
    return _sets_to_list(sets)
""", """    return _sets_to_list(_rows(JK_to_LS(J, Jc, K, lc, sc, lo, so)))
"""), (U, """    sets = list(zip(*[list(a) for a in LK_to_LS(J, L, K, sc, so)]))
    return _sets_to_list(sets)
""", """    return _sets_to_list(_rows(LK_to_LS(J, L, K, sc, so)))
"""))

rw('util-parse-jj-spin', (U, """    if lcs.isupper():
        sc = (float(scs) - 1) / 2
    elif lcs.islower():
        sc = 0.0
    else:
        sc = None
    if los.isupper():
        so = (float(sos) - 1) / 2
    elif los.islower():
        so = 0.0
    else:
        so = None

    return lc, sc, lo, so, jc, jo
""", """    spins = []
    for multiplicity, letter in ((scs, lcs), (sos, los)):
        spin = None
        if letter.isupper():
            spin = (float(multiplicity) - 1) / 2
        elif letter.islower():
            spin = 0.0
        spins.append(spin)
    sc, so = spins

    return lc, sc, lo, so, jc, jo
"""))

rw('util-quantum-nums-early', (U, """    lc = sc = lo = so = jc = jo = l = s = k = None
    if coupling == 'LS':
        l, s = parse_LS_term(term)
    elif coupling == 'JK':
        lc, sc, lo, so, jc, k = parse_JK_term(conf, term)
    elif coupling == 'JJ':
        lc, sc, lo, so, jc, jo = parse_JJ_term(conf, term)
    elif coupling == 'LK':
        lc, sc, lo, so, l, k = parse_LK_term(conf, term)
    return lc, sc, lo, so, jc, jo, l, s, k
""", """    if coupling == 'LS':
        return (None,) * 6 + parse_LS_term(term) + (None,)
    if coupling == 'JJ':
        return (*parse_JJ_term(conf, term), None, None, None)
    if coupling == 'JK':
        *electrons, jc, k = parse_JK_term(conf, term)
        return (*electrons, jc, None, None, None, k)
    if coupling == 'LK':
        *electrons, l, k = parse_LK_term(conf, term)
        return (*electrons, None, None, l, None, k)
    return (None,) * 9
"""))

rw('ts-e2-strength-terms', (S, """    tot = 0
    tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
    tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \\
           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
    tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \\
           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
    tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \\
           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
    tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
    return tot
""", """    ex, ey, ez = eps
    kx, ky, kz = k
    stretched = (ex ** 2 + ey ** 2) * (kx ** 2 + ky ** 2)
    single = (ez * kx + ex * kz) ** 2 + (ez * ky + ey * kz) ** 2
    axial = (2. / 3.) * (2 * kz * ez - kx * ex - ky * ey) ** 2
    weights = {-2: stretched, -1: single, 0: axial, 1: single, 2: stretched}
    return sum(weight * tkq_transition_strength(I, 2, q, J0, F0, M0, J1, F1, M1) for q, weight in weights.items())
"""))

rw('ts-jj-vector', (S, """    outpercs = np.array([float(wigner9j(lc, sc, Jc,
                                        lo, so, Jo,
                                        outls[i], outss[i], J) *
                               np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                         for i in range(len(outls))])
    return np.stack([outls, outss, outpercs])
""", """    outpercs = []
    for l, s in zip(outls, outss):
        weight = np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * l + 1) * (2 * s + 1))
        symbol = wigner9j(lc, sc, Jc,
                          lo, so, Jo,
                          l, s, J)
        outpercs.append(float(weight * symbol))
    return np.stack([outls, outss, np.array(outpercs)])
"""))

rw('ts-tkq-inline', (S, """    prod = 1
    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                 F1, F0, I)
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0)
    return prod
""", """    degeneracy = (2 * F0 + 1) * (2 * F1 + 1)
    reduced = wigner6j(J0, J1, k,
                       F1, F0, I)
    angular = wigner3j(F1, k, F0,
                       -M1, q, M0)
    return np.sqrt(degeneracy) * reduced * angular
"""))

rw('ls-thermal-limits', (L, """        ampl = kwargs.get('ampl', 1.0)
        if self.gamma > self.cutoff*self.sigma*x0:
            return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
        elif self.sigma*x0 > self.cutoff*self.gamma:
            return gaussian(x, x0, self.sigma*x0, ampl=ampl)
        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
""", """        ampl = kwargs.get('ampl', 1.0)
        doppler = self.sigma * x0
        if self.gamma > self.cutoff * doppler:
            profile, widths = lorentzian, {'gamma': self.gamma}
        elif doppler > self.cutoff * self.gamma:
            profile, widths = gaussian, {'sigma': doppler}
        else:
            profile, widths = voigt, {'sigma': doppler, 'gamma': self.gamma}
        return profile(x, x0, ampl=ampl, **widths)
"""))

rw('ls-natural-width', (L, """    def shape_func(self, x, x0, **kwargs):
        width = self.gamma
        if 'A_coeff' in kwargs:
            width += kwargs['A_coeff']
        ampl = 1.0
        if 'ampl' in kwargs:
            ampl = kwargs['ampl']
        return lorentzian(x, x0, width, ampl=ampl)

    def width_func(self, padding=20.0, **kwargs):
        if 'A_coeff' in kwargs:
            return padding * (self.gamma + kwargs['A_coeff'])
        return padding * self.gamma
""", """    def _total_width(self, options):
        return self.gamma + options.get('A_coeff', 0)

    def shape_func(self, x, x0, **kwargs):
        return lorentzian(x, x0, self._total_width(kwargs), ampl=kwargs.get('ampl', 1.0))

    def width_func(self, padding=20.0, **kwargs):
        return self._total_width(kwargs) * padding
"""))

rw('ls-sidebands-for', (L, """            while (self.depth / 2) ** self.num_sidebands > 0.01 * np.math.factorial(self.num_sidebands):
                self.num_sidebands += 1
""", """            n = 0
            while True:
                if (self.depth / 2) ** n <= 0.01 * np.math.factorial(n):
                    break
                n += 1
            self.num_sidebands = n
"""))

rw('sp-transitions-dict', (P, """    all_x, all_y = [], []
    for transition in transitions:

        fGHz = transition.freq.to(unit).magnitude
        ampl = transition.rel_strength
        if kwargs.get('ampl_dict') is not None:
            ampl *= kwargs.get('ampl_dict')[transition.name]
        x_values, y_values = lineshape.compute(fGHz, ampl=ampl, **kwargs)
        all_x.append(x_values)
        all_y.append(y_values)

        label = label_func(transition)

        col = color_func(transition)

        plt.plot(x_values, y_values, label=label, c=col)
    if total:
        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
        plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
""", """    ampl_dict = kwargs.get('ampl_dict')

    def strength(transition):
        if ampl_dict is None:
            return transition.rel_strength
        return transition.rel_strength * ampl_dict[transition.name]

    curves = []
    for transition in transitions:
        centre = transition.freq.to(unit).magnitude
        curve = lineshape.compute(centre, ampl=strength(transition), **kwargs)
        plt.plot(*curve, label=label_func(transition), c=color_func(transition))
        curves.append(curve)
    if total:
        grid = np.sort(np.array([x for x, _ in curves]).flatten())
        summed = np.zeros_like(grid)
        for x, y in curves:
            summed += np.interp(grid, x, y)
        plt.plot(grid, summed, "k:", label="Total", alpha=0.5)
"""))

rw('sp-spectrum-lineshape-helper', (P, """    # determine the lineshape:
    if lineshape is not None:
        lineshape_func = lineshape
    elif temp.magnitude == 0:
        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
    else:
        assert mass is not None, "thermal lineshape requires mass to be given"
        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
""", """    # determine the lineshape:
    lineshape_func = lineshape
    if lineshape_func is None:
        gamma = laser_linewidth.to('GHz').magnitude
        if temp.magnitude != 0:
            assert mass is not None, "thermal lineshape requires mass to be given"
            lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=gamma)
        else:
            lineshape_func = LorentzianLineShape(gamma=gamma)
"""))

rw('sp-zeeman-ends', (P, """        F0 = transition.E_lower.term.F_frac
        F1 = transition.E_upper.term.F_frac
        mF0 = transition.E_lower.term.mF_frac
        mF1 = transition.E_upper.term.mF_frac
        return f'F={F0}, mF={mF0} → F={F1}, mF={mF1}'
""", """        ends = (transition.E_lower.term, transition.E_upper.term)
        return ' → '.join(f'F={t.F_frac}, mF={t.mF_frac}' for t in ends)
"""), (P, """    if coloring == 'l':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_lower.term.mF,
                                               property_shade=lambda t: t.E_upper.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif coloring == 'u':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_upper.term.mF,
                                               property_shade=lambda t: t.E_lower.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif coloring == 'transition_type':
        color_dict = color_table_from_property(lines,
                                               property_color=lambda t: t.E_upper.term.mF - t.E_lower.term.mF,
                                               property_shade=lambda t: t.E_lower.term.mF,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = lambda t: color_dict[t]
    elif isinstance(coloring, Callable):
        color_func = coloring
    else:
        color_func = None

    plot_transitions""", """    def lower(t): return t.E_lower.term.mF

    def upper(t): return t.E_upper.term.mF

    def change(t): return upper(t) - lower(t)

    properties = {'l': (lower, upper), 'u': (upper, lower), 'transition_type': (change, lower)}
    color_func = None
    if isinstance(coloring, str) and coloring in properties:
        hue, shade = properties[coloring]
        color_dict = color_table_from_property(lines, property_color=hue, property_shade=shade,
                                               cmap=kwargs.pop('cmap', 'tab10'))
        color_func = color_dict.__getitem__
    elif isinstance(coloring, Callable):
        color_func = coloring

    plot_transitions"""))

rw('sp-colors-inline', (P, """    main_props, secondary_props = [], []
    for t in items:
        main_props.append(property_color(t))
        secondary_props.append(property_shade(t))
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    prop_pairs = list(zip(main_props, secondary_props))
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
""", """    prop_pairs = [(property_color(t), property_shade(t)) for t in items]
    main_props = [main for main, _ in prop_pairs]
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {}
    for main, secondary in prop_pairs:
        if main not in min_main_props or secondary < min_main_props[main]:
            min_main_props[main] = secondary
"""))

rw('gr-brackets-comp', (G, """        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
""", """        boxed = [d for d in self.lines_df['kwargs'] if d.get('bbox', False)]
        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in boxed]
        bracket_lws = [d.get('bracket_lw', 1) for d in boxed]
"""))

rw('gr-interp-names', (G, """        b = kwargs.get('spacing', 1.0)
        if b == 'realistic':
            b = 1.0
        elif b == 'schematic':
            b = 0.0
        else:
            assert 0 <= b <= 1

        a = kwargs.get('sublevel_width', 1.0)
        if a == 'degeneracy':
            a = 1.0
        elif a == 'schematic':
            a = 0.0
        else:
            assert 0 <= a <= 1
""", """        def fraction(setting, full_name):
            value = kwargs.get(setting, 1.0)
            if value == full_name:
                return 1.0
            if value == 'schematic':
                return 0.0
            assert 0 <= value <= 1
            return value

        b = fraction('spacing', 'realistic')
        a = fraction('sublevel_width', 'degeneracy')
"""))

rw('gr-hf-row-edges', (G, """        w_null = W - (N - 1) * offset * W
        wF = W * (2 * level.term.F + 1) / squeeze
        dx = (1 - a) * w_null / 2 + a * wF / 2
        y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
        p0 = (offset * W * i - dx + x1 + x0, y)
        p1 = (offset * W * i + dx + x1 + x0, y)
""", """        w_null = W * (1 - (N - 1) * offset)
        wF = W * (2 * level.term.F + 1) / squeeze
        line_width = (1 - a) * w_null + a * wF
        centre = x0 + x1 + offset * W * i
        displacement = b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N
        y = y0 + y1 + displacement * hf_scale / 1e12
        p0, p1 = ((centre + side * line_width / 2, y) for side in (-1, 1))
"""))

rw('gr-tables-generic', (G, """            sub_tables = []
            for z_level in level.sublevels():
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._zeeman_level_table(z_level, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_hflevel_row(level,
                                                         bbox_override=self.bbox(
                                                            (list(table['p0']) + list(table['p1']))),
                                                         show=False,
                                                         **kwargs)],
                              ignore_index=True)
""", """            plain = {**kwargs, 'bbox': None}
            table = pd.concat([self._zeeman_level_table(z_level, **plain) for z_level in level.sublevels()],
                              ignore_index=True)
            ends = table['p0'].tolist() + table['p1'].tolist()
            own_row = self._compute_hflevel_row(level, bbox_override=self.bbox(ends), show=False, **kwargs)
            table = pd.concat([table, own_row], ignore_index=True)
"""))

rw('gr-arrow-ends', (G, """        a_0 = kwargs.pop('start_anchor', 5)
        a_1 = kwargs.pop('end_anchor', 5)
        x1_0 = kwargs.pop('start_x1', 0)
        x1_1 = kwargs.pop('end_x1', 0)
        y1_0 = kwargs.pop('start_y1', 0)
        y1_1 = kwargs.pop('end_y1', 0)
""", """        (a_0, x1_0, y1_0), (a_1, x1_1, y1_1) = [
            (kwargs.pop(f'{end}_anchor', 5), kwargs.pop(f'{end}_x1', 0), kwargs.pop(f'{end}_y1', 0))
            for end in ('start', 'end')]
"""))

rw('gr-strategy-table', (G, """        if strategy == 'g' or strategy == 'gross':
            strategy = self._gross_level_table
        elif strategy == 'hf' or strategy == 'hyperfine':
            strategy = self._hf_level_table
        elif strategy == 'z' or strategy == 'zeeman':
            strategy = self._zeeman_level_table
""", """        for names, table in ((('g', 'gross'), self._gross_level_table),
                             (('hf', 'hyperfine'), self._hf_level_table),
                             (('z', 'zeeman'), self._zeeman_level_table)):
            if strategy in names:
                strategy = table
                break
"""))

rw('env-beam-width', (E, """        return self.pol * self.E0 * self.w0 / self.w(z) * np.exp(-r * r / self.w(z) ** 2)
""", """        w = self.w(z)
        return self.pol * self.E0 * (self.w0 / w) * np.exp(-(r / w) ** 2)
"""), (E, """        return z * (1 + self.zr ** 2 / z ** 2)
""", """        return z + self.zr ** 2 / z
"""))

rw('env-light-magnitude', (E, """        return self.pol * (2 * self.intensity / (c * ureg.vacuum_permittivity)) ** 0.5

    def B(self, **_):
        return 1 / c * np.cross(self.k, self.E())
""", """        amplitude = np.sqrt(2 * self.intensity / (c * ureg.vacuum_permittivity))
        return amplitude * self.pol

    def B(self, **_):
        electric = self.E()
        return np.cross(self.k, electric) / c
"""))


rw('a9-repr-format', (A, """        return f'<{type(self).__name__}(name = {self.name}, level={str(self.level)}, {len(self._sublevels)} sublevels)>'
""", """        kind = self.__class__.__name__
        count = len(self._sublevels)
        return '<{}(name = {}, level={}, {} sublevels)>'.format(kind, self.name, self.level, count)
"""))

rw('a9-level-setter-unpack', (A, """        self._level_Hz = level.to(Hz).magnitude
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
        if lande is None:
            self.lande = self.compute_gJ()
        else:
            self.lande = lande
""", """        self._level_Hz, self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = (q.to(Hz).magnitude for q in (level, hfA, hfB, hfC))
        self.lande = lande
        if self.lande is None:
            self.lande = self.compute_gJ()
"""))

rw('a9-getitem-mj', (A, """        if self.atom.I == 0 and 'mJ' in key:
            return self._sublevels[f'F={self.term.J_frac}'][key.replace('mJ', 'mF')]
        return self._sublevels[key]
""", """        spinless = self.atom.I == 0
        if not (spinless and 'mJ' in key):
            return self._sublevels[key]
        only = self._sublevels['F=' + self.term.J_frac]
        return only['mF'.join(key.split('mJ'))]
"""))

rw('a9-populate-helper', (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        J, I = self.term.J, self.atom.I
        lowest, highest = sorted((abs(J - I), J + I))
        for F in np.arange(lowest, highest + 1):
            self._add_hyperfine(F)

    def _add_hyperfine(self, F):
        \"\"\"adds the sublevel of total angular momentum F\"\"\"
        label = 'F=' + util.float_to_frac(F)
        self[label] = HFLevel(self.term.make_term_copy(F=F), self)
"""))

rw('a9-populate-setitem', (A, """            for mf in np.arange(-self.term.F, self.term.F + 1):
                t = self.term.make_term_copy(mF=mf)
                e = ZLevel(term=t, parent=self)
                self[f'mF={util.float_to_frac(mf)}'] = e
""", """            F = self.term.F
            projections = np.arange(-F, F + 1)
            labels = ['mF=%s' % util.float_to_frac(m) for m in projections]
            for label, m in zip(labels, projections):
                self[label] = ZLevel(self.term.make_term_copy(mF=m), parent=self)
"""))

rw('a9-gj-table', (A, """        total = 0
        for term in self.term.terms:
            if term.coupling == 'LS':
                terms = np.array([[term.l], [term.s], [1.0]])
            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'LK':
                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
            else:
                return 0.0

            J = term.J
            ls, ss, ampls = terms

            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
                                                         / (2 * J * (J + 1))))
        return total / sum(term.percentage for term in self.term.terms)
""", """        def in_LS(term):
            \"\"\"the LS components of a term, or None where its quantum numbers are not known\"\"\"
            if term.coupling == 'LS':
                return np.array([[term.l], [term.s], [1.0]])
            if term.coupling == 'LK':
                return LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
            if term.coupling == 'JJ':
                numbers = (term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
                return None if None in numbers else JJ_to_LS(term.J, *numbers)
            if term.coupling == 'JK':
                numbers = (term.jc, term.k, term.lc, term.sc, term.lo, term.so)
                return None if None in numbers else JK_to_LS(term.J, *numbers)
            return None

        total, weight = 0, 0
        for term in self.term.terms:
            components = in_LS(term)
            if components is None:
                return 0.0
            ls, ss, ampls = components
            jj = term.J * (term.J + 1)
            g = 1 + 1.0023 * (jj + ss * (ss + 1) - ls * (ls + 1)) / (2 * jj)
            total += term.percentage * sum(ampls ** 2 * g)
            weight += term.percentage
        return total / weight
"""))

rw('a9-fromdf-level', (A, """        t = MultiTerm.from_dataframe(df, i)
        lande = df["Lande"][i]
        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
""", """        energy, lande = (df[column][i] for column in ("Level (cm-1)", "Lande"))
        extra = {} if pd.isna(lande) else {'lande': lande}
        return EnergyLevel(MultiTerm.from_dataframe(df, i), energy, **extra)
"""))

rw('a9-hfshift-K', (A, """        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))

        if J <= 1 or I <= 1:
            FM3 = 0
        else:
            FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                    -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""", """        ff, jj, ii = (x * (x + 1) for x in (F, J, I))
        k = ff - jj - ii
        m = self.manifold
        shift = m.hfA_Hz * k / 2
        if min(I, J) > 0.5:
            shift += m.hfB_Hz * (1.5 * k * (k + 1) - 2 * ii * jj) / (4 * I * (2 * I - 1) * J * (2 * J - 1))
        if min(I, J) > 1:
            numerator = 1.25 * k ** 3 + 5 * k ** 2 + k * (ii + jj + 3 - 3 * ii * jj) - 5 * ii * jj
            shift += m.hfC_Hz * numerator / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return shift
"""))

rw('a9-gf-early', (A, """        F = self.term.F
        J = self.term.J
        I = self.atom.I
        if F != 0:
            return self.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return 0.0
""", """        F, J, I = self.term.F, self.term.J, self.atom.I
        if not F:
            return 0.0
        projection = 0.5 + (J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return self.manifold.lande * projection
"""))

rw('a9-zshift-poly', (A, """        return self.gF * self.term.mF * mu_B.to(Hz/G).magnitude * self.atom.B_gauss \\
            + self.quadratic_zeeman * self.atom.B_gauss ** 2
""", """        field = self.atom.B_gauss
        linear = self.gF * self.term.mF * mu_B.to(Hz / G).magnitude
        return np.polyval([self.quadratic_zeeman, linear, 0], field)
"""))

rw('a9-updown-sorted', (A, """        self.E_1, self.E_2 = E1, E2
        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""", """        self.E_1, self.E_2 = E1, E2
        ends = (E2, E1) if E2.level > E1.level else (E1, E2)
        self.E_upper, self.E_lower = ends
"""))

rw('a9-updown-max', (A, """        self.E_1, self.E_2 = E1, E2
        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""", """        self.E_1, self.E_2 = E1, E2
        self.E_lower, self.E_upper = sorted((E2, E1), key=lambda e: e.level_Hz)
"""))

rw('a9-init-name', (A, """        self.name = name
        if self.name is None:
            self.name = f'{self.E_1.name} → {self.E_2.name}'
""", """        self.name = ' → '.join(self.model_name) if name is None else name
"""))

rw('a9-init-addtoatom', (A, """        if self.atom is not None and (self.parent is None or np.any(np.array(self.allowed_types))):
            self.add_to_atom(self.atom)
        if alias is not None:
""", """        forbidden_component = self.parent is not None and not any(self.allowed_types)
        if not (self.atom is None or forbidden_component):
            self.add_to_atom(self.atom)
        if alias is not None:
"""))

rw('a9-addtoatom-sub', (A, """        self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
        if len(self._subtransitions) != 0:
            for subtransition in self._subtransitions.values():
                subtransition.add_to_atom(atom)
""", """        lower, upper = (e.name for e in (self.E_lower, self.E_upper))
        self._model.add_edge(lower, upper, transition=self)
        for key in self._subtransitions:
            self._subtransitions[key].add_to_atom(atom)
"""))

rw('a9-pairs-filter', (A, """        if True not in self.allowed_types:
            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        if True not in self.allowed_types:
            return pairs
        _, M1, E2 = self.allowed_types
        max_delta = 2 if E2 and not M1 else 1

        def close(pair):
            first, second = (getattr(level.term, attr) for level in pair)
            return abs(first - second) <= max_delta
        return filter(close, pairs)
"""))

rw('a9-subkey-get', (A, """        try:
            return self._subtransitions[item]
        except KeyError:
            return self._subtransitions[(item[1], item[0])]
""", """        found = self._subtransitions.get(item)
        if found is not None:
            return found
        first, second = item
        return self._subtransitions[second, first]
"""))

rw('a9-allowed-within', (A, """        J0, J1 = self.E_1.term.J, self.E_2.term.J
        p0, p1 = self.E_1.term.parity, self.E_2.term.parity
        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
        # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
        # Correct me if I'm wrong!
        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""", """        if not isinstance(self.E_1, type(self.E_2)):
            return False, False, False
        terms = self.E_1.term, self.E_2.term
        J0, J1 = (t.J for t in terms)
        same_parity = terms[0].parity == terms[1].parity

        def triangle(rank):
            return abs(J1 - J0) <= rank <= J0 + J1
        dipole, quadrupole = triangle(1), triangle(2)
        # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
        # Correct me if I'm wrong!
        return (dipole and not same_parity, dipole and same_parity,
                quadrupole and same_parity and self.E_1 is not self.E_2)
"""))

rw('a9-subpop-shared', (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._fill(HFTransition, 'F')
"""), (A, """        pairs = self._compute_sublevel_pairs('mF')
        for a, b in pairs:
            t = ZTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._fill(ZTransition, 'mF')
"""), (A, """    # region: dict-like-methods

    @lazy_compute_subtransitions
    def __len__(self) -> int:
        return len(self._subtransitions)
""", """    def _fill(self, kind, attr):
        \"\"\"creates the allowed components, which are transitions of the given kind\"\"\"
        for pair in self._compute_sublevel_pairs(attr):
            component = kind(*pair, parent=self)
            if any(component.allowed_types):
                lower, upper = component.E_lower.term, component.E_upper.term
                self[lower.short_name, upper.short_name] = component

    # region: dict-like-methods

    @lazy_compute_subtransitions
    def __len__(self) -> int:
        return len(self._subtransitions)
"""))

rw('a9-setfreq-nested', (A, """        if self.set_freq:  # unlock the upper level if the transition is already constrained
            if self.E_upper.fixed and self.E_lower.fixed:
                self.E_upper.fixed = False
        self.set_freq = freq
""", """        if self.set_freq and self.E_upper.fixed and self.E_lower.fixed:
            self.E_upper.fixed = False
        self.set_freq = freq
"""))

rw('a9-hf-strength', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        dipole, quadrupole = any(self.parent.allowed_types[:2]), self.parent.allowed_types[2]
        factor = 0.0
        if dipole or quadrupole:
            symbol = wigner6j(J2, F2, I, F1, J1, 1 if dipole else 2)
            factor = (2 * F1 + 1) * (2 * F2 + 1) * symbol * symbol
        return factor * self.parent.A, float(factor)
"""))

rw('a9-z-strength', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
        elif self.parent.allowed_types[2]:
            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        E1, M1, E2 = self.parent.allowed_types
        rank = 1 if E1 or M1 else 2 if E2 else None
        factor = 0.0
        if rank is not None:
            for q in range(-rank, rank + 1):
                factor += wigner3j(F1, rank, F2, -mF1, q, mF2) ** 2
        return self.parent.A * factor, float(factor)
"""))

rw('a9-hf-allowed', (A, """        if self.parent is not None:
            init = self.parent.allowed_types
        else:
            init = [True, True, True]
        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret
""", """        init = (True,) * 3 if self.parent is None else self.parent.allowed_types
        return tuple(wigner6j(J0, J1, rank, F1, F0, I) != 0.0 and ok for rank, ok in zip((1, 1, 2), init))
"""))

rw('a9-z-allowed', (A, """        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""", """        couples = {}
        for rank in (1, 2):
            couples[rank] = sum(wigner3j(F1, rank, F0, -mF1, q, mF0) for q in range(-rank, rank + 1)) != 0.0
        return couples[1] and init[0], couples[1] and init[1], couples[2] and init[2]
"""))

rw('a9-atom-init-or', (A, """        if levels is not None:
            for level in levels:
                self.add_level(level)
        if transitions is not None:
            for transition in transitions:
                self.add_transition(transition)
""", """        for level in (levels if levels is not None else ()):
            self.add_level(level)
        for transition in (transitions if transitions is not None else ()):
            self.add_transition(transition)
"""))

rw('a9-addlevel-alias', (A, """        if alias is not None:
            level.alias = alias
        if level.alias is not None:
            self.levels.aliases[level.alias] = level
        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in list(level.values()):
                sublevel.add_to_atom(self)
        return level
""", """        if alias is None:
            alias = level.alias
        else:
            level.alias = alias
        if alias is not None:
            self.levels.aliases[alias] = level
        if not populate_sublevels:
            return level
        level.populate_sublevels()
        for sublevel in tuple(level.sublevels()):
            sublevel.add_to_atom(self)
        return level
"""))

rw('a9-addtrans-first', (A, """        if isinstance(transition, tuple):
            if transition in self.transitions.keys():
                warnings.warn(f'transition {transition} is already in {self.name}')
                transition = self.transitions[transition]
            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)
""", """        if isinstance(transition, tuple):
            ends = transition
            if ends in self.transitions.keys():
                warnings.warn(f'transition {ends} is already in {self.name}')
                transition = self.transitions[ends]
            else:
                if isinstance(ends[0], str):
                    ends = self.levels[ends[0]], self.levels[ends[1]]
                if isinstance(ends[0], BaseLevel):
                    transition = Transition(ends[0], ends[1], **kwargs)
"""))

rw('a9-load-type', (A, """        with open(filename, "rb") as file:
            p = pickle.load(file)
            if not isinstance(p, Atom):
                raise IOError("The indicated file does not contain an Atom object")
            return p
""", """        with open(filename, "rb") as file:
            loaded = pickle.loads(file.read())
        if isinstance(loaded, Atom):
            return loaded
        raise IOError("The indicated file does not contain an Atom object")
"""))

rw('a9-fromdf-suppress', (A, """            try:
                e = EnergyLevel.from_dataframe(df, i)
                rows.set_description(f'adding level {e.name:109}')
                a.add_level(e)
            except KeyError:
                pass
        return a
""", """            try:
                e = EnergyLevel.from_dataframe(df, i)
            except KeyError:
                continue
            rows.set_description(f'adding level {e.name:109}')
            a.add_level(e)
        return a
"""))

rw('a9-populate-nested', (A, """        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            set0 = [js[j] for j in list(js.keys())]
            # don't include the last several j values to avoid IndexErrors
            set1 = [js[j + delta_j] for j in list(js.keys())[:int(-(delta_j * 2 + 1))]]
            j_pairs = zip(set0, set1)
            level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
""", """        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            # don't include the last several j values to avoid IndexErrors
            j_values = list(js)[:-(delta_j * 2 + 1)]
            level_pairs = tqdm([(lvl0, lvl1) for j in j_values for lvl0 in js[j] for lvl1 in js[j + delta_j]])
            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
"""))

rw('a9-popdf-labels', (A, """            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
""", """            names = []
            for end in ('l', 'u'):
                J = util.float_to_frac(float(row['j_' + end]))
                names.append(f'{row["conf_" + end]} {row["term_" + end]}{J}')
            try:
                e1, e2 = [self.levels[name] for name in names]
                t = Transition(e1, e2, freq=row["freq"], A=row["A"])
"""))

rw('a9-linked-loop', (A, """        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        linked = {}
        for other, data in level.model.adj[key].items():
            if other == key:
                continue
            linked[other] = data['transition']
        return linked
"""))

rw('a9-lifetime-loop', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        total_A = 0
        for t in self.linked_levels(key).values():
            if t.E_upper is level:
                total_A = total_A + t.A
        return (2 * np.pi / total_A).to(ureg.s) if total_A != 0 else np.inf * ureg.s
"""))

rw('a9-branching-two-pass', (A, """        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")

        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
        return ratios
""", """        down = {n: t for n, t in transitions.items() if t.E_upper.name == key}
        if any(t.A is None for t in down.values()):
            # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
        rates = {n: t.A.to(Hz).magnitude for n, t in down.items()}
        total = sum(rates.values())
        return {n: rate / total for n, rate in rates.items()}
"""))

rw('a9-consistency-split', (A, """            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
            # perform a depth first search starting from the lowest energy node in the subgraph,
            # setting subsequent levels one at a time
            search = nx.dfs_edges(subgraph, source=key_lowest)
            for edge in search:
                t = subgraph.edges()[edge]['transition']
                e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """            key_lowest, _ = min(subgraph.nodes(data='level'), key=lambda item: item[1].level_Hz)
            # perform a depth first search starting from the lowest energy node in the subgraph,
            # setting subsequent levels one at a time
            for edge in nx.dfs_edges(subgraph, source=key_lowest):
                self._impose(subgraph.edges[edge]['transition'], edge)

    @staticmethod
    def _impose(t, edge):
        \"\"\"moves the free end of a fixed transition to where its frequency puts it\"\"\"
        lower, upper = t.E_lower, t.E_upper
        freq = t.set_freq.to(Hz).magnitude
        if lower.fixed and upper.fixed and abs(lower.level_Hz - upper.level_Hz) != freq:
            warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
        elif not upper.fixed:
            upper.level_Hz = lower.level_Hz + freq
        else:
            lower.level_Hz = upper.level_Hz - freq
        lower.fixed = True
        upper.fixed = True
"""))

# ---- tenth batch: the other modules
rw('b10-let-dict', (U, """    if len(let) > 1:
        raise ValueError('Argument must be a single character in "SPDFGHIKLMNOQRTUVWXYZ" or an empty string')
    return 'SPDFGHIKLMNOQRTUVWXYZ'.index(let.upper())
""", """    if len(let) != 1:
        raise ValueError('Argument must be a single character in "SPDFGHIKLMNOQRTUVWXYZ" or an empty string')
    letters = 'SPDFGHIKLMNOQRTUVWXYZ'
    return letters.index(let.upper())
"""))

rw('b10-l-to-let-nested', (U, """    if type(l) is float:
        if not l.is_integer():
            raise (ValueError("Requires an integer or an integer-valued float"))
    if type(l) is str:
        raise TypeError()
    return 'SPDFGHIKLMNOQRTUVWXYZ'[int(l)]
""", """    if type(l) is str:
        raise TypeError()
    if type(l) is float and not l.is_integer():
        raise ValueError("Requires an integer or an integer-valued float")
    position = int(l)
    return 'SPDFGHIKLMNOQRTUVWXYZ'[position]
"""))

rw('b10-float-frac-half', (U, """    if (2 * f) % 2 == 0:
        return str(int(f))
    else:
        return str(int(f * 2)) + '/2'
""", """    doubled = 2 * f
    if doubled % 2:
        return f'{int(doubled)}/2'
    return f'{int(f)}'
"""))

rw('b10-frac-float-else', (U, """    if type(frac) == str:
        if '/' in frac:
            (f1, f2) = frac.split('/')
            return float(f1) / float(f2)
        else:
            try:
                return float(frac)
            except TypeError:
                raise ValueError("Please input a fraction-formatted string or a float")
    return frac
""", """    if type(frac) != str:
        return frac
    if '/' not in frac:
        try:
            return float(frac)
        except TypeError:
            raise ValueError("Please input a fraction-formatted string or a float")
    numerator, denominator = [float(part) for part in frac.split('/')]
    return numerator / denominator
"""))

rw('b10-sets-loop', (U, """    return [(str(int(2 * s + 1)) + l_to_let(l), round(100 * ampl ** 2, 2)) for l, s, ampl in sets if ampl != 0]
""", """    readable = []
    for l, s, ampl in sets:
        if ampl == 0:
            continue
        multiplicity = int(2 * s + 1)
        readable.append((f'{multiplicity}{l_to_let(l)}', round(100 * ampl ** 2, 2)))
    return readable
"""))

rw('b10-readable-jj', (U, """    sets = list(zip(*[list(a) for a in JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)]))
    return _sets_to_list(sets)
""", """    ls, ss, amplitudes = JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)
    return _sets_to_list(list(zip(ls, ss, amplitudes)))
"""))

rw('b10-term-to-ls-early', (U, """    if coupling == 'LS':
        return [(term, 100.00)]
    elif coupling == 'JK':
        return readable_JK_to_LS(j, jc, k, lc, sc, lo, so)
    elif coupling == 'JJ':
        return readable_JJ_to_LS(j, jc, jo, lc, sc, lo, so)
    elif coupling == 'LK':
        return readable_LK_to_LS(j, l, k, sc, so)
""", """    if coupling == 'LS':
        return [(term, 100.00)]
    converters = {'JK': (readable_JK_to_LS, (j, jc, k, lc, sc, lo, so)),
                  'JJ': (readable_JJ_to_LS, (j, jc, jo, lc, sc, lo, so)),
                  'LK': (readable_LK_to_LS, (j, l, k, sc, so))}
    if coupling in converters:
        convert, numbers = converters[coupling]
        return convert(*numbers)
"""))

rw('b10-coupling-order', (U, """    if '[' in term:
        if term[0] in 'SPDFGHIKLMNOQRTUVWXYZ':
            return 'LK'
        else:
            return 'JK'
    elif '(' in term:
        return 'JJ'
    elif len(term) > 1:
        return 'LS'
    else:
        return "unknown"
""", """    if '[' not in term:
        if '(' in term:
            return 'JJ'
        return 'LS' if len(term) > 1 else 'unknown'
    first = term[0]
    return 'LK' if first in 'SPDFGHIKLMNOQRTUVWXYZ' else 'JK'
"""))

rw('b10-jk-last', (U, """    if len(relevant_parts) == 2:
        [(scs, lcs, jcs), (_, los, _)] = relevant_parts
    else:
        [(scs, lcs, jcs)] = relevant_parts
        los = conf[-1]
    # find the following forms: 2[3/2], 3[4]*, and extract the relevant substrings
    [(sos, ks)] = re.findall(r'(\\d+)\\[(.+?)]', term)
""", """    outer = conf[-1]
    if len(relevant_parts) == 2:
        core, (_, outer, _) = relevant_parts
    else:
        [core] = relevant_parts
    scs, lcs, jcs = core
    los = outer
    # find the following forms: 2[3/2], 3[4]*, and extract the relevant substrings
    [(sos, ks)] = re.findall(r'(\\d+)\\[(.+?)]', term)
"""))

rw('b10-jj-spin-ternary', (U, """    if lcs.isupper():
        sc = (float(scs) - 1) / 2
    elif lcs.islower():
        sc = 0.0
    else:
        sc = None
    if los.isupper():
        so = (float(sos) - 1) / 2
    elif los.islower():
        so = 0.0
    else:
        so = None

    return lc, sc, lo, so, jc, jo
""", """    sc = so = None
    if lcs.islower():
        sc = 0.0
    elif lcs.isupper():
        sc = (float(scs) - 1) / 2
    if los.islower():
        so = 0.0
    elif los.isupper():
        so = (float(sos) - 1) / 2

    return lc, sc, lo, so, jc, jo
"""))

rw('b10-term-names-parts', (T, """        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'

        self.name = f'{self.conf} {self.term_name}'
""", """        parts = [f'{self.term}{self.J_frac}']
        for label, value, frac in (('F', self.F, self.F_frac), ('mF', self.mF, self.mF_frac)):
            if value is not None:
                parts.append(f'{label}={frac}')
        self.short_name = parts[-1]
        self.term_name = ' '.join(parts)
        self.name = ' '.join([self.conf, self.term_name])
"""))

rw('b10-term-eq-early', (T, """        return self.quantum_nums == other.quantum_nums and \\
               self.conf == other.conf and \\
               self.term == other.term and \\
               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
""", """        if (self.J, self.F, self.mF) != (other.J, other.F, other.mF):
            return False
        if self.conf != other.conf or self.term != other.term:
            return False
        return self.quantum_nums == other.quantum_nums
"""))

rw('b10-term-copy-f', (T, """        if self.F is not None:
            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
                        percentage=self.percentage)
        return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                    percentage=self.percentage)
""", """        new_F = F if self.F is None else self.F
        return Term(self.conf, self.term, self.J, F=new_F, mF=mF, percentage=self.percentage,
                    quantum_nums=self.quantum_nums)
"""))

rw('b10-multiterm-df-index', (T, """        confs = [c for c in df.columns if 'Configuration' in c]
        terms = [c for c in df.columns if 'Term' in c]
        pcts = [c for c in df.columns if 'Percentage' in c]
        term_objs = []
        for j in range(len(confs)):
            if type(df[confs[j]][i]) == str:
                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return MultiTerm(*term_objs)
""", """        def named(part):
            return [column for column in df.columns if part in column]

        terms, pcts = named('Term'), named('Percentage')
        term_objs = []
        for j, conf_column in enumerate(named('Configuration')):
            conf = df[conf_column][i]
            if type(conf) != str:
                continue
            term_objs.append(Term(conf, df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
        return cls(*term_objs)
"""))

rw('b10-multiterm-eq-any', (T, """        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
""", """        if len(self) != len(other):
            return False
        for mine, theirs in zip(self.terms, other.terms):
            if not mine == theirs:
                return False
        return True
"""))

rw('b10-multiterm-getattr', (T, """        if item in Term.__slots__:
            return self.terms[0].__getattribute__(item)
        return object.__getattribute__(self, item)
""", """        if item not in Term.__slots__:
            return super().__getattribute__(item)
        leading = self.terms[0]
        return getattr(leading, item)
"""))

rw('b10-tkq-common', (S, """    prod = 1
    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                 F1, F0, I)
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0)
    return prod
""", """    reduced = ((2 * F0 + 1) * (2 * F1 + 1)) ** 0.5 * wigner6j(J0, J1, k, F1, F0, I)
    return reduced * wigner3j(F1, k, F0, -M1, q, M0)
"""))

rw('b10-e1-strength-loop', (S, """    eps = eps / np.linalg.norm(eps)
    tot = 0
    tot += tkq_transition_strength(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    tot += tkq_transition_strength(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2] ** 2
    tot += tkq_transition_strength(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    return tot
""", """    x, y, z = eps / np.linalg.norm(eps)
    transverse = 0.5 * (x ** 2 + y ** 2)
    tot = 0
    for q, weight in zip((-1, 0, 1), (transverse, z ** 2, transverse)):
        tot += weight * tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1)
    return tot
"""))

rw('b10-e2-mel-helper', (S, """    tot = 0
    tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \\
           (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \\
           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
    tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \\
           ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
    tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \\
           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
    return tot
""", """    def mel(q):
        return tkq_mel(I, 2, q, J0, F0, M0, J1, F1, M1)

    def crossed(a, b):
        return k[a] * eps[b] + k[b] * eps[a]

    diagonal = eps[0] * k[0] - k[1] * eps[1]
    tot = mel(-2) * (diagonal - 1j * crossed(0, 1))
    tot += mel(-1) * (1j * crossed(1, 2) - crossed(0, 2))
    tot += mel(0) * (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
    tot += mel(1) * (1j * crossed(1, 2) + crossed(0, 2))
    tot += mel(2) * (diagonal + 1j * crossed(0, 1))
    return tot
"""))

rw('b10-lk-full', (S, """    ls = [L]
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([np.sqrt((2 * K + 1) * (2 * outss[i] + 1)) * wigner6j(L, sc, K,
                                                                              so, J, outss[i]) for i in
                         range(len(outls))])
    return np.stack([outls, outss, outpercs])
""", """    outss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat([L], len(outss))
    outpercs = np.array([np.sqrt((2 * K + 1) * (2 * S + 1)) * wigner6j(L, sc, K, so, J, S) for S in outss])
    return np.stack([outls, outss, outpercs])
"""))

rw('b10-lorentz-sidebands', (L, """    tot = np.zeros_like(x)
    tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
    for i in range(1, num_sidebands + 1):
        mod_ampl = ampl * float(jv(i, depth) ** 2)
        tot += lorentzian(x, x0 + i * mod_freq_GHz, gamma, ampl=mod_ampl)
        tot += lorentzian(x, x0 - i * mod_freq_GHz, gamma, ampl=mod_ampl)
    return tot


class LineShape(ABC):""", """    tot = np.zeros_like(x)
    for order in range(-num_sidebands, num_sidebands + 1):
        strength = ampl * float(jv(abs(order), depth) ** 2)
        tot += lorentzian(x, x0 + order * mod_freq_GHz, gamma, ampl=strength)
    return tot


class LineShape(ABC):"""))

rw('b10-mod-width', (L, """        width = self.gamma
        if 'A_coeff' in kwargs:
            width += kwargs['A_coeff'] / (1e6 * 2 * np.pi)
        return self.mod_freq_GHz * self.num_sidebands + padding * width
""", """        natural = kwargs.get('A_coeff', 0.0) / (1e6 * 2 * np.pi)
        return padding * (self.gamma + natural) + self.num_sidebands * self.mod_freq_GHz
"""))

rw('b10-thermal-shape', (L, """        ampl = kwargs.get('ampl', 1.0)
        if self.gamma > self.cutoff*self.sigma*x0:
            return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
        elif self.sigma*x0 > self.cutoff*self.gamma:
            return gaussian(x, x0, self.sigma*x0, ampl=ampl)
        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
""", """        doppler = self.sigma * x0
        options = {'ampl': kwargs.get('ampl', 1.0)}
        if self.gamma > self.cutoff * doppler:
            return lorentzian(x, x0, self.gamma, **options)
        if doppler > self.cutoff * self.gamma:
            return gaussian(x, x0, doppler, **options)
        return voigt(x, x0, doppler, self.gamma, **options)
"""))

rw('b10-num-sidebands', (L, """        self.num_sidebands = 0
        if num_sidebands is None:
            while (self.depth / 2) ** self.num_sidebands > 0.01 * np.math.factorial(self.num_sidebands):
                self.num_sidebands += 1
        else:
            self.num_sidebands = num_sidebands
""", """        if num_sidebands is None:
            num_sidebands = 0
            while (depth / 2) ** num_sidebands > 0.01 * np.math.factorial(num_sidebands):
                num_sidebands += 1
        self.num_sidebands = num_sidebands
"""))

rw('b10-compute-span', (L, """        width = self.width_func(x0=x0, **kwargs)
        x_values = np.linspace(x0 - width, x0 + width, num_points)
        y_values = self.shape_func(x_values, x0, **kwargs)
        return x_values, y_values
""", """        half_range = self.width_func(x0=x0, **kwargs)
        low, high = x0 - half_range, x0 + half_range
        x_values = np.linspace(low, high, num=num_points)
        return x_values, self.shape_func(x_values, x0, **kwargs)
"""))

rw('b10-plot-curves', (P, """    if total:
        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
        plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
""", """    if total:
        grid = np.sort(np.array(all_x).flatten())
        summed = np.zeros_like(grid)
        for i in range(len(all_x)):
            summed += np.interp(grid, all_x[i], all_y[i])
        plt.plot(grid, summed, "k:", label="Total", alpha=0.5)
"""))

rw('b10-plot-color-default', (P, """    if 'color_func' not in kwargs:
        def color_func(t): return 0, 0, 0, 1
    else:
        color_func = kwargs['color_func']
""", """    color_func = kwargs['color_func'] if 'color_func' in kwargs else lambda t: (0, 0, 0, 1)
"""))

rw('b10-hf-lines', (P, """    if isinstance(transitions, list):
        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
    else:
        lines = list(transitions.values())

    plot_spectrum(lines, lineshape=lineshape, coloring=coloring, unit="GHz", **kwargs)
""", """    sources = transitions if isinstance(transitions, list) else [transitions]
    lines = [line for source in sources for line in source.values()]
    plot_spectrum(lines, lineshape=lineshape, coloring=coloring, unit="GHz", **kwargs)
"""))

rw('b10-color-table-pairs', (P, """    main_props, secondary_props = [], []
    for t in items:
        main_props.append(property_color(t))
        secondary_props.append(property_shade(t))
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    prop_pairs = list(zip(main_props, secondary_props))
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
""", """    prop_pairs = [(property_color(t), property_shade(t)) for t in items]
    main_props = [main for main, _ in prop_pairs]
    # the number of colors that will be needed
    num_main_props = {F: main_props.count(F) for F in np.unique(main_props)}
    # a dict that yields the lowest secondary property associated with each main property
    min_main_props = {}
    for main, secondary in prop_pairs:
        if main not in min_main_props or secondary < min_main_props[main]:
            min_main_props[main] = secondary
"""))

rw('b10-spectrum-lines', (P, """    lines = transitions
    if not isinstance(transitions, list):
        lines = list(transitions.values())
    # determine the lineshape:
    if lineshape is not None:
        lineshape_func = lineshape
    elif temp.magnitude == 0:
        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
    else:
        assert mass is not None, "thermal lineshape requires mass to be given"
        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
""", """    lines = transitions if isinstance(transitions, list) else list(transitions.values())
    # determine the lineshape:
    lineshape_func = lineshape
    if lineshape_func is None:
        gamma = laser_linewidth.to('GHz').magnitude
        if temp.magnitude == 0:
            lineshape_func = LorentzianLineShape(gamma)
        else:
            assert mass is not None, "thermal lineshape requires mass to be given"
            lineshape_func = ThermalLineShape(temp, mass, gamma)
"""))

rw('b10-spectrum-zee-table', (P, """        elif coloring == 'transition_type':
            color_dict = color_table_from_property(lines,
                                                   property_color=lambda t: t.E_upper.term.mF - t.E_lower.term.mF,
                                                   property_shade=lambda t: t.E_lower.term.mF,
                                                   cmap=kwargs.pop('cmap', 'tab10'))

        def color_func(t): return color_dict[t]

    plot_transitions(lines,""", """        elif coloring == 'transition_type':
            def delta(t):
                return t.E_upper.term.mF - t.E_lower.term.mF

            color_dict = color_table_from_property(lines, delta, lambda t: t.E_lower.term.mF,
                                                   kwargs.pop('cmap', 'tab10'))

        def color_func(t): return color_dict[t]

    plot_transitions(lines,"""))

rw('b10-draw-copy', (G, """    if plot_type == 'hf':
        model = atom._hfModel.copy()
    elif plot_type == 'z':
        model = atom._zModel.copy()
    else:
        model = atom._levelsModel.copy()
    for node in model.nodes():
        try:
            model.remove_edge(node, node)
        except nx.NetworkXError:
            pass
""", """    source = atom._levelsModel
    if plot_type == 'hf':
        source = atom._hfModel
    elif plot_type == 'z':
        source = atom._zModel
    model = source.copy()
    for node in list(model.nodes()):
        if model.has_edge(node, node):
            model.remove_edge(node, node)
"""))

rw('b10-bbox-sorted', (G, """        xs = [pt[0] for pt in pts]
        ys = [pt[1] for pt in pts]
        y_pad = (max(ys) - min(ys)) * pad
        return min(xs) - pad, min(ys) - y_pad, max(xs) + pad, max(ys) + y_pad
""", """        left, right = min(pt[0] for pt in pts), max(pt[0] for pt in pts)
        bottom, top = min(pt[1] for pt in pts), max(pt[1] for pt in pts)
        y_pad = pad * (top - bottom)
        return left - pad, bottom - y_pad, right + pad, top + y_pad
"""))

rw('b10-squeeze', (G, """        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
        if squeeze is True:
            squeeze = level.term.J + level.atom.I
        elif squeeze is False:
            squeeze = max(l.term.F for l in level.atom.levels[0].values())
        squeeze = int(2 * squeeze + 1)
""", """        squeeze = kwargs.get('squeeze', True)
        if squeeze is True:
            squeeze = level.term.J + level.atom.I
        elif squeeze is False:
            squeeze = max([l.term.F for l in level.atom.levels[0].values()])
        squeeze = int(2 * squeeze + 1)
"""))

rw('b10-spacing-names', (G, """        b = kwargs.get('spacing', 1.0)
        if b == 'realistic':
            b = 1.0
        elif b == 'schematic':
            b = 0.0
        else:
            assert 0 <= b <= 1

        a = kwargs.get('sublevel_width', 1.0)
        if a == 'degeneracy':
            a = 1.0
        elif a == 'schematic':
            a = 0.0
        else:
            assert 0 <= a <= 1
""", """        def fraction(option, full):
            value = kwargs.get(option, full)
            if value == full:
                return 1.0
            if value == 'schematic':
                return 0.0
            assert 0 <= value <= 1
            return value

        b, a = fraction('spacing', 'realistic'), fraction('sublevel_width', 'degeneracy')
"""))

rw('b10-level-row-half', (G, """        y = y0 + y1
        p0 = (x0 + x1 - width / 2, y)
        p1 = (x0 + x1 + width / 2, y)

        if bbox_override is None:
            bbox = self.bbox([p0, p1], pad=kwargs.get('bbox_pad', 0.05))
        else:
            bbox = bbox_override
""", """        centre, y = x0 + x1, y0 + y1
        p0, p1 = [(centre + side * width / 2, y) for side in (-1, 1)]
        bbox = bbox_override
        if bbox is None:
            bbox = self.bbox([p0, p1], pad=kwargs.get('bbox_pad', 0.05))
"""))

rw('b10-zee-table-recursive', (G, """        if isinstance(level, EnergyLevel):
            sub_tables = []
            for sublevel in level.sublevels():
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._zeeman_level_table(sublevel, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_level_row(level,
                                                       bbox_override=self.bbox(
                                                          (list(table['p0']) + list(table['p1']))),
                                                       show=False,
                                                       **kwargs)],
                              ignore_index=True)
        elif type(level) == HFLevel:
            sub_tables = []
            for z_level in level.sublevels():
                sub_kwargs = kwargs.copy()
                sub_kwargs['bbox'] = None
                sub_tables.append(self._zeeman_level_table(z_level, **sub_kwargs))
            table = pd.concat(sub_tables, ignore_index=True)
            table = pd.concat([table,
                               self._compute_hflevel_row(level,
                                                         bbox_override=self.bbox(
                                                            (list(table['p0']) + list(table['p1']))),
                                                         show=False,
                                                         **kwargs)],
                              ignore_index=True)
        elif type(level) == ZLevel:
            table = self._compute_zlevel_row(level, **kwargs)
        else:
            table = None

        return table
""", """        if isinstance(level, EnergyLevel):
            own_row = self._compute_level_row
        elif type(level) == HFLevel:
            own_row = self._compute_hflevel_row
        elif type(level) == ZLevel:
            return self._compute_zlevel_row(level, **kwargs)
        else:
            return None
        inner = {**kwargs, 'bbox': None}
        table = pd.concat([self._zeeman_level_table(sub, **inner) for sub in level.sublevels()], ignore_index=True)
        box = self.bbox(list(table['p0']) + list(table['p1']))
        return pd.concat([table, own_row(level, bbox_override=box, show=False, **kwargs)], ignore_index=True)
"""))

rw('b10-render-lists', (G, """        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
""", """        boxed = [options for options in self.lines_df['kwargs'] if options.get('bbox', False)]
        bracket_colors = [options.get('bracket_color', (0, 0, 0, .8)) for options in boxed]
        bracket_lws = [options.get('bracket_lw', 1) for options in boxed]
"""))

rw('b10-nist-params', (IO, """        '&multiplet_ordered=' + ('on' if term_ordered else '0') +
        '&conf_out=on' +
        '&term_out=on' +
        '&level_out=on' +
        '&unc_out=on' +
        '&j_out=on' +
        '&lande_out=on' +
        '&perc_out=on' +
""", """        '&multiplet_ordered=' + ('on' if term_ordered else '0') +
        ''.join('&' + column + '_out=on' for column in ('conf', 'term', 'level', 'unc', 'j', 'lande', 'perc')) +
"""))

rw('b10-save-name', (IO, """    if save:
        if type(save) == str:
            if save[-4:] != '.csv':
                save += '.csv'
        else:
            save = f'{species}_level_data.csv'
        df_clean.to_csv(save)

    return df_clean
""", """    if not save:
        return df_clean
    filename = save if type(save) == str else f'{species}_level_data.csv'
    if not filename.endswith('.csv'):
        filename = filename + '.csv'
    df_clean.to_csv(filename)
    return df_clean
"""))

rw('b10-conf-guard', (IO, """        if type(c1) != str:
            return
        if re.match(r'\\(.+?\\)\\(.+?\\)', c1):
            return re.sub(r'\\((.+?)\\)', '({})', c0).format(*re.findall(r'\\((.+?)\\)', c1))
        elif re.match(r'\\(.+?\\).+\\(.+?\\)', c1):
            return c0.split('(')[0]+c1
        else:
            return c1
""", """        if isinstance(c1, str):
            if re.match(r'\\(.+?\\)\\(.+?\\)', c1) is not None:
                template = re.sub(r'\\((.+?)\\)', '({})', c0)
                return template.format(*re.findall(r'\\((.+?)\\)', c1))
            prefix = c0.split('(')[0] if re.match(r'\\(.+?\\).+\\(.+?\\)', c1) else ''
            return prefix + c1
"""))

rw('b10-transition-freq', (IO, """    df = pd.DataFrame(data={k: df_file[columns[k]] for k in ["conf_l", "term_l", "j_l",
                                                             "conf_u", "term_u", "j_u"]})
    if "freq" in columns:
        df["freq"] = df_file[columns["freq"]]
    else:
        df["freq"] = None
    if "A" in columns:
        df["A"] = df_file[columns["A"]].astype('pint[MHz]')
    else:
        df["A"] = None
    return df
""", """    data = {}
    for end in ("l", "u"):
        for quantity in ("conf", "term", "j"):
            key = f"{quantity}_{end}"
            data[key] = df_file[columns[key]]
    df = pd.DataFrame(data=data)
    df["freq"] = df_file[columns["freq"]] if "freq" in columns else None
    df["A"] = df_file[columns["A"]].astype('pint[MHz]') if "A" in columns else None
    return df
"""))

rw('b10-hf-csv-write', (IO, """    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
    with open(filename, 'w', newline='', encoding='utf-8') as f:
        writer = csv.writer(f)
        writer.writerows(rows_to_write)
""", """    zero = Q_(0.0, 'GHz')

    def coefficients(level):
        if blank:
            return [zero] * 3
        return [def_A if level.hfA == zero else level.hfA, level.hfB, level.hfC]

    with open(filename, 'w', newline='', encoding='utf-8') as f:
        writer = csv.writer(f)
        for level in atom.levels.values():
            writer.writerow([level.name] + coefficients(level))
"""))

rw('b10-full-else', (IO, """    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif 'transitions_df' in kwargs:
        if kwargs['transitions_df'] is not None:
            a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
        else:
            a.populate_transitions(**kwargs)
    else:
        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
    a.populate_internal_transitions()
    return a
""", """    if 'transitions_csv' in kwargs:
        apply_transition_csv(a, kwargs['transitions_csv'])
    elif 'transitions_df' not in kwargs:
        options = dict(kwargs)
        options.setdefault('allowed', (True, False, False))
        a.populate_transitions(**options)
    elif kwargs['transitions_df'] is None:
        a.populate_transitions(**kwargs)
    else:
        a.populate_transitions_df(kwargs['transitions_df'], **kwargs)
    a.populate_internal_transitions()
    return a
"""))

rw('b10-field-amplitude', (E, """    def E(self, **_):
        return self.pol * (2 * self.intensity / (c * ureg.vacuum_permittivity)) ** 0.5
""", """    def E(self, **_):
        amplitude = np.sqrt(2 * self.intensity / c / ureg.vacuum_permittivity)
        return amplitude * self.pol
"""))

rw('b10-wigner-args', (W, """            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
""", """            doubled = [int(2 * x) for x in args]
            try:
                return func(*doubled)
            except (IndexError, ValueError):
                return 0.0
"""))

# ---- eleventh batch: levels, transitions and the atom once more
rw('c1-lazy-shared', (A, """        if len(self._sublevels) == 0:
            self._assign_models()
            self.populate_sublevels()
            for sublevel in list(self._sublevels.values()):
                self._submodel.add_node(sublevel.name, level=sublevel)
        return func(self, *args, **kwargs)
    return wrapper
""", """        _ensure_sublevels(self)
        return func(self, *args, **kwargs)
    return wrapper


def _ensure_sublevels(level):
    if level._sublevels:
        return
    level._assign_models()
    level.populate_sublevels()
    for name_and_level in level._sublevels.items():
        sublevel = name_and_level[1]
        level._submodel.add_node(sublevel.name, level=sublevel)
"""))

rw('c1-lazy-guard', (A, """        if len(self._subtransitions) == 0:
            assert len(self.E_1.sublevels()) != 0
            assert len(self.E_2.sublevels()) != 0
            self.populate_subtransitions()
            for transition in list(self._subtransitions.values()):
                transition.add_to_atom(self.atom)
        return func(self, *args, **kwargs)
    return wrapper
""", """        if not self._subtransitions:
            for end in (self.E_1, self.E_2):
                assert end.sublevels()
            self.populate_subtransitions()
            for transition in tuple(self._subtransitions.values()):
                transition.add_to_atom(self.atom)
        return func(self, *args, **kwargs)
    return wrapper
"""))

rw('c1-level-init-order', (A, """        self.parent = parent
        self._alias = alias
        if isinstance(term, Term):
            term = MultiTerm(term)
        self.term = term
        self.atom = self.get_atom()
        self.manifold = self.get_manifold()
        self.name = self.term.name
        self.fixed = False

        self._sublevels = dict()
        self._model = None
        self._submodel = None
""", """        self._sublevels, self._model, self._submodel = {}, None, None
        self.fixed = False
        self.term = MultiTerm(term) if isinstance(term, Term) else term
        self.name = self.term.name
        self.parent, self._alias = parent, alias
        self.manifold, self.atom = self.get_manifold(), self.get_atom()
"""))

rw('c1-models-lazily', (A, """    @property
    def model(self) -> nx.Graph:
        if not self._model:
            self._assign_models()
        return self._model
""", """    def _resolved(self, which: str) -> nx.Graph:
        if not getattr(self, which):
            self._assign_models()
        return getattr(self, which)

    @property
    def model(self) -> nx.Graph:
        return self._resolved('_model')
"""))

rw('c1-level-add', (A, """        self.atom = atom
        self._assign_models()
        self._model.add_node(self.name, level=self)
        if len(self._sublevels) != 0:
            for sublevel in self.sublevels():
                sublevel.add_to_atom(atom)
""", """        self.atom = atom
        self._assign_models()
        self._model.add_node(self.name, **{'level': self})
        for sublevel in list(self._sublevels.values()):
            sublevel.add_to_atom(atom)
"""))

rw('c1-transition-add', (A, """        self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
        if len(self._subtransitions) != 0:
            for subtransition in self._subtransitions.values():
                subtransition.add_to_atom(atom)
""", """        ends = [self.E_lower.name, self.E_upper.name]
        self._model.add_edge(*ends, transition=self)
        for subtransition in self._subtransitions.values():
            subtransition.add_to_atom(atom)
"""))

rw('c1-getitem-mj', (A, """        if self.atom.I == 0 and 'mJ' in key:
            return self._sublevels[f'F={self.term.J_frac}'][key.replace('mJ', 'mF')]
        return self._sublevels[key]
""", """        spinless = self.atom.I == 0
        if not (spinless and 'mJ' in key):
            return self._sublevels[key]
        only_hf_level = self._sublevels['F=' + self.term.J_frac]
        return only_hf_level[key.replace('mJ', 'mF')]
"""))

rw('c1-energy-init', (A, """        self._level_Hz = level.to(Hz).magnitude
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
        if lande is None:
            self.lande = self.compute_gJ()
        else:
            self.lande = lande
""", """        def in_Hz(quantity):
            return quantity.to(Hz).magnitude

        self._level_Hz = in_Hz(level)
        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = map(in_Hz, (hfA, hfB, hfC))
        self.lande = lande
        if self.lande is None:
            self.lande = self.compute_gJ()
"""))

rw('c1-energy-init-setters', (A, """        self.hfA_Hz, self.hfB_Hz, self.hfC_Hz = hfA.to(Hz).magnitude, hfB.to(Hz).magnitude, hfC.to(Hz).magnitude
""", """        self.hfA, self.hfB, self.hfC = hfA, hfB, hfC
"""))

rw('c1-get-atom', (A, """        if self.parent is not None:
            if not isinstance(self.parent, Atom):
                warnings.warn(f'The parent of {self.name} is not an Atom')
            return self.parent
""", """        atom = self.parent
        if atom is None or isinstance(atom, Atom):
            return atom
        warnings.warn(f'The parent of {self.name} is not an Atom')
        return atom
"""))

rw('c1-populate-f', (A, """        if self.atom is not None:
            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""", """        if self.atom is None:
            return
        J, I = self.term.J, self.atom.I
        count = int(2 * min(J, I)) + 1
        for n in range(count):
            f = abs(J - I) + n
            self['F=' + util.float_to_frac(f)] = HFLevel(self.term.make_term_copy(F=f), self)
"""))

rw('c1-populate-mf', (A, """        if isinstance(self.parent, EnergyLevel):
            for mf in np.arange(-self.term.F, self.term.F + 1):
                t = self.term.make_term_copy(mF=mf)
                e = ZLevel(term=t, parent=self)
                self[f'mF={util.float_to_frac(mf)}'] = e
""", """        if not isinstance(self.parent, EnergyLevel):
            return
        F = self.term.F
        terms = {mf: self.term.make_term_copy(mF=mf) for mf in np.arange(-F, F + 1)}
        for mf, term in terms.items():
            self[f'mF={util.float_to_frac(mf)}'] = ZLevel(term=term, parent=self)
"""))

rw('c1-gj-contribution', (A, """            J = term.J
            ls, ss, ampls = terms

            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
                                                         / (2 * J * (J + 1))))
        return total / sum(term.percentage for term in self.term.terms)
""", """            JJ = term.J * (term.J + 1)
            ls, ss, ampls = terms
            projections = (JJ + ss * (ss + 1) - ls * (ls + 1)) / (2 * JJ)
            weights = ampls ** 2
            total += term.percentage * (weights * (1 + 1.0023 * projections)).sum()
        weight = sum([term.percentage for term in self.term.terms])
        return total / weight
"""))

rw('c1-gj-known', (A, """            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
""", """            elif term.coupling in ('JJ', 'JK') and \\
                    all(x is not None for x in (term.jc, term.jo if term.coupling == 'JJ' else term.k,
                                                term.lc, term.sc, term.lo, term.so)):
                if term.coupling == 'JJ':
                    terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
                else:
                    terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
"""))

rw('c1-from-df', (A, """        t = MultiTerm.from_dataframe(df, i)
        lande = df["Lande"][i]
        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
""", """        lande = df["Lande"][i]
        if pd.isna(lande):
            lande = None
        return cls(MultiTerm.from_dataframe(df, i), df["Level (cm-1)"][i], lande)
"""))

rw('c1-hf-shift-parts', (A, """        if J <= 1 or I <= 1:
            FM3 = 0
        else:
            FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                    -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""", """        FM3 = 0
        if J > 1 and I > 1:
            II, JJ = I * (I + 1), J * (J + 1)
            numerator = 10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (II + JJ + 3 - 3 * II * JJ) - 5 * II * JJ
            FM3 = numerator / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        coefficients = (self.manifold.hfA_Hz, self.manifold.hfB_Hz, self.manifold.hfC_Hz)
        return sum(a * f for a, f in zip(coefficients, (FM1, FE2, FM3)))
"""))

rw('c1-hf-shift-min', (A, """        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))
""", """        smaller = min(I, J)
        FE2 = 0
        if smaller > 0.5:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * J * (2.0 * I - 1.0) * (2.0 * J - 1.0))
"""))

rw('c1-hf-level-setter', (A, """        shift = value - self.level
        self.parent.level += shift
""", """        parent = self.parent
        parent.level = parent.level + (value - self.level)
"""))

rw('c1-gf', (A, """        if F != 0:
            return self.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return 0.0
""", """        if not F:
            return 0.0

        def square(x):
            return x * (x + 1)

        return self.manifold.lande * (square(F) + square(J) - square(I)) / (2 * square(F))
"""))

rw('c1-name-default', (A, """        self.name = name
        if self.name is None:
            self.name = f'{self.E_1.name} → {self.E_2.name}'
""", """        self.name = ' → '.join(self.model_name) if name is None else name
"""))

rw('c1-init-allowed', (A, """        if self.atom is not None and (self.parent is None or np.any(np.array(self.allowed_types))):
            self.add_to_atom(self.atom)
""", """        belongs = self.parent is None or any(self.allowed_types)
        if self.atom is not None and belongs:
            self.add_to_atom(self.atom)
"""))

rw('c1-pairs-early', (A, """        if True not in self.allowed_types:
            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""", """        pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
        if True not in self.allowed_types:
            return pairs
        _, m1, e2 = self.allowed_types
        max_delta = 2 if e2 and not m1 else 1

        def close(pair):
            first, second = (getattr(level.term, attr) for level in pair)
            return abs(first - second) <= max_delta

        return filter(close, pairs)
"""))

rw('c1-sub-getitem', (A, """        try:
            return self._subtransitions[item]
        except KeyError:
            return self._subtransitions[(item[1], item[0])]
""", """        if item not in self._subtransitions:
            item = (item[1], item[0])
        return self._subtransitions[item]
"""))

rw('c1-allowed-rules', (A, """        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""", """        same_parity = p0 == p1
        dipole, quadrupole = [abs(J1 - J0) <= rank <= J0 + J1 for rank in (1.0, 2.0)]
        e1 = dipole and not same_parity
        m1 = dipole and same_parity
        e2 = quadrupole and same_parity and self.E_1 is not self.E_2
        return e1, m1, e2
"""))

rw('c1-populate-sub', (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        for pair in self._compute_sublevel_pairs('F'):
            t = HFTransition(*pair, parent=self)
            if not any(t.allowed_types):
                continue
            key = tuple(end.term.short_name for end in (t.E_lower, t.E_upper))
            self[key] = t
"""))

rw('c1-populate-both', (A, """        pairs = self._compute_sublevel_pairs('F')
        for a, b in pairs:
            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""", """        self._populate(HFTransition, 'F')

    def _populate(self, kind, attr):
        for a, b in self._compute_sublevel_pairs(attr):
            t = kind(a, b, parent=self)
            if np.any(t.allowed_types):
                self[t.E_lower.term.short_name, t.E_upper.term.short_name] = t
"""))

rw('c1-hf-linewidth', (A, """        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""", """        e1, m1, e2 = self.parent.allowed_types
        factor = 0.0
        if e1 or m1 or e2:
            rank = 1 if e1 or m1 else 2
            factor = (2 * F1 + 1) * (2 * F2 + 1) * wigner6j(J2, F2, I, F1, J1, rank) ** 2
        return factor * self.parent.A, float(factor)
"""))

rw('c1-hf-allowed', (A, """        if self.parent is not None:
            init = self.parent.allowed_types
        else:
            init = [True, True, True]
        ret = (
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[0],
            wigner6j(J0, J1, 1, F1, F0, I) != 0.0 and init[1],
            wigner6j(J0, J1, 2, F1, F0, I) != 0.0 and init[2]
        )
        return ret
""", """        init = [True] * 3 if self.parent is None else self.parent.allowed_types
        return tuple(wigner6j(J0, J1, rank, F1, F0, I) != 0.0 and parent_allows
                     for rank, parent_allows in zip((1, 1, 2), init))
"""))

rw('c1-zee-allowed', (A, """        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""", """        def connects(rank):
            return sum(wigner3j(F1, rank, F0, -mF1, q, mF0) for q in range(-rank, rank + 1)) != 0.0

        dipole = connects(1)
        return dipole and init[0], dipole and init[1], connects(2) and init[2]
"""))

rw('c1-set-frequency-sub', (A, """    def set_frequency(self, freq: pint.Quantity):
        diff = freq - self.freq
        self.parent.set_frequency(self.parent.freq + diff)


class ZTransition""", """    def set_frequency(self, freq: pint.Quantity):
        parent = self.parent
        offset = parent.freq - self.freq
        parent.set_frequency(freq + offset)


class ZTransition"""))

rw('c1-add-level', (A, """        level.add_to_atom(self)
        if alias is not None:
            level.alias = alias
        if level.alias is not None:
            self.levels.aliases[level.alias] = level
        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in list(level.values()):
                sublevel.add_to_atom(self)
        return level
""", """        level.add_to_atom(self)
        if alias is not None:
            level.alias = alias
        alias = level.alias
        if alias is not None:
            self.levels.aliases[alias] = level
        if populate_sublevels:
            level.populate_sublevels()
            for sublevel in level.sublevels():
                sublevel.add_to_atom(self)
        return level
"""))

rw('c1-add-transition', (A, """            elif isinstance(transition[0], str):
                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
            elif isinstance(transition[0], BaseLevel):
                transition = Transition(transition[0], transition[1], **kwargs)
""", """            else:
                first, second = transition[0], transition[1]
                if isinstance(first, str):
                    first, second = self.levels[first], self.levels[second]
                if isinstance(first, BaseLevel):
                    transition = Transition(first, second, **kwargs)
"""))

rw('c1-save', (A, """        if filename is None:
            filename = self.name
        if not filename.endswith(".atom"):
            filename = filename + ".atom"
        with open(filename, "wb") as file:
            pickle.dump(self, file)
""", """        target = self.name if filename is None else filename
        target += '' if target.endswith('.atom') else '.atom'
        with open(target, mode='wb') as out:
            pickle.dump(obj=self, file=out)
"""))

rw('c1-load', (A, """            p = pickle.load(file)
            if not isinstance(p, Atom):
                raise IOError("The indicated file does not contain an Atom object")
            return p
""", """            contents = pickle.load(file)
        if isinstance(contents, Atom):
            return contents
        raise IOError("The indicated file does not contain an Atom object")
"""))

rw('c1-from-dataframe', (A, """        if num_levels is None:
            num_levels = len(df)
        a = Atom(name, I=I, B=B)
        rows = tqdm(range(num_levels))
        for i in rows:
            try:
                e = EnergyLevel.from_dataframe(df, i)
                rows.set_description(f'adding level {e.name:109}')
                a.add_level(e)
            except KeyError:
                pass
        return a
""", """        atom = cls(name, I, B)
        rows = tqdm(range(len(df) if num_levels is None else num_levels))
        for row in rows:
            try:
                level = EnergyLevel.from_dataframe(df, i=row)
                rows.set_description(f'adding level {level.name:109}')
                atom.levels.append(level)
            except KeyError:
                continue
        return atom
"""))

rw('c1-populate-js', (A, """        js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
              for J in np.arange(0, max_to_try + 1, 0.5)}
        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            set0 = [js[j] for j in list(js.keys())]
            # don't include the last several j values to avoid IndexErrors
            set1 = [js[j + delta_j] for j in list(js.keys())[:int(-(delta_j * 2 + 1))]]
            j_pairs = zip(set0, set1)
            level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
""", """        js = {}
        for J in np.arange(0, max_to_try + 1, 0.5):
            js[J] = [lvl for lvl in self.levels.values() if lvl.term.J == J]
        J_values = list(js)
        for delta_j in allowed_deltas:  # range(int(len(allowed)+2/2)):
            # don't include the last several j values to avoid IndexErrors
            usable = J_values[:int(-(delta_j * 2 + 1))]
            level_pairs = tqdm([pair for j in usable for pair in itertools.product(js[j], js[j + delta_j])])
"""))

rw('c1-populate-pair', (A, """            for pair in level_pairs:
                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                    t = Transition(pair[0], pair[1])
                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
                        level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                        self.add_transition(t)
                    else:
                        del self.transitions[(pair[0].name, pair[1].name)]
""", """            for lower, upper in level_pairs:
                if self._levelsModel.has_edge(lower.name, upper.name):
                    continue
                t = Transition(lower, upper)
                if any(a and b for a, b in zip(t.allowed_types, allowed)):
                    level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                    self.add_transition(t)
                else:
                    del self.transitions[t.model_name]
"""))

rw('c1-populate-df', (A, """            j_l = util.float_to_frac(float(row['j_l']))
            j_u = util.float_to_frac(float(row['j_u']))
            try:
                e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
                freq = row["freq"]
                A = row["A"]
                t = Transition(e1, e2, freq=freq, A=A)
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
""", """            names = []
            for end in 'lu':
                j = util.float_to_frac(float(row['j_' + end]))
                names.append('%s %s%s' % (row['conf_' + end], row['term_' + end], j))
            try:
                e1, e2 = [self.levels[name] for name in names]
                t = Transition(e1, e2, row["freq"], row["A"])
                rows.set_description(f'adding transition {t.name:104}')
                self.add_transition(t)
            except KeyError:
                pass
"""))

rw('c1-linked', (A, """        if not isinstance(level, EnergyLevel):
            for k, trans in self.linked_levels(level.parent.name).items():
                trans.subtransitions()
        adjacent = level.model.adj[key]
        return {k: t['transition'] for k, t in adjacent.items() if k != key}
""", """        if not isinstance(level, EnergyLevel):
            for trans in self.linked_levels(level.parent.name).values():
                trans.subtransitions()
        linked = {}
        for neighbor in level.model.neighbors(key):
            if neighbor == key:
                continue
            linked[neighbor] = level.model.edges[key, neighbor]['transition']
        return linked
"""))

rw('c1-lifetime', (A, """        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""", """        level = self.levels[key]
        rates = [t.A for t in self.linked_levels(key).values() if t.E_upper is level]
        total_A = sum(rates)
        if total_A != 0:
            lifetime = 2 * np.pi / total_A
            return lifetime.to(ureg.s)
        return np.inf * ureg.s
"""))

rw('c1-branching', (A, """        transitions = self.linked_levels(key)
        key = self.levels[key].name
        A_coeffs = {}
        for n, t in transitions.items():
            if t.E_upper.name == key:
                A_coeffs[n] = t.A
        try:
            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
        except AttributeError:
""", """        upper_name = self.levels[key].name
        A_coeffs = {n: t.A for n, t in self.linked_levels(key).items() if t.E_upper.name == upper_name}
        key = upper_name
        try:
            totalAs = sum(A.to(Hz).magnitude for A in A_coeffs.values())
        except AttributeError:
"""))

rw('c1-enforce-edges', (A, """        set_edges = [(u, v) for u, v, e in self._levelsModel.edges(data=True) if e['transition'].set_freq is not None]
        set_graph = self._levelsModel.edge_subgraph(set_edges)
        connected_components = (set_graph.subgraph(c) for c in nx.connected_components(set_graph))
        for subgraph in connected_components:
            if node_or_trans:
""", """        set_edges = []
        for u, v, t in self._levelsModel.edges(data='transition'):
            if t.set_freq is not None:
                set_edges.append((u, v))
        set_graph = self._levelsModel.edge_subgraph(set_edges)
        for component in nx.connected_components(set_graph):
            subgraph = set_graph.subgraph(component)
            if node_or_trans:
"""))

rw('c1-enforce-lowest', (A, """            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
            # perform a depth first search starting from the lowest energy node in the subgraph,
            # setting subsequent levels one at a time
            search = nx.dfs_edges(subgraph, source=key_lowest)
""", """            key_lowest, _ = min(subgraph.nodes(data='level'), key=lambda item: item[1].level_Hz)
            # perform a depth first search starting from the lowest energy node in the subgraph,
            # setting subsequent levels one at a time
            search = nx.dfs_edges(subgraph, key_lowest)
"""))

rw('c1-enforce-step', (A, """                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif e_u.fixed:
                    e_l.level_Hz = e_u.level_Hz - freq
                else:
                    e_u.level_Hz = e_l.level_Hz + freq
                e_u.fixed = e_l.fixed = True
""", """                both_fixed = e_l.fixed and e_u.fixed
                if both_fixed and abs(e_u.level_Hz - e_l.level_Hz) != freq:
                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
                elif not e_u.fixed:
                    e_u.level_Hz = freq + e_l.level_Hz
                else:
                    e_l.level_Hz = e_u.level_Hz - freq
                e_l.fixed = True
                e_u.fixed = True
"""))

rw('c1-atom-init', (A, """        if levels is not None:
            for level in levels:
                self.add_level(level)
        if transitions is not None:
            for transition in transitions:
                self.add_transition(transition)
""", """        for level in levels if levels is not None else ():
            self.add_level(level)
        for transition in transitions if transitions is not None else ():
            self.add_transition(transition)
"""))

rw('c1-levels-getitem', (H, """        if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
            main, hf, z = key.rsplit(' ', maxsplit=2)
            return nx.get_node_attributes(self.model, 'level')[main][hf][z]
        elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = nx.get_node_attributes(self.model, 'level')[main]
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        elif 'F=' in key:  # match [conf] [term] F=[F]
            main, hf = key.rsplit(' ', maxsplit=1)
            return nx.get_node_attributes(self.model, 'level')[main][hf]
        else:  # match [conf] [term]
            return nx.get_node_attributes(self.model, 'level')[key]
""", """        by_name = nx.get_node_attributes(self.model, 'level')
        if 'mJ=' in key and 'mF=' not in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
            main, z = key.rsplit(' mJ=', maxsplit=1)
            l = by_name[main]
            return l[f'F={l.term.J_frac}'][f'mF={z}']
        if 'F=' not in key:  # match [conf] [term]
            return by_name[key]
        # match [conf] [term] F=[f] and perhaps mF=[mF]
        main, *inner = key.rsplit(' ', maxsplit=2 if 'mF=' in key else 1)
        level = by_name[main]
        for part in inner:
            level = level[part]
        return level
"""))

rw('c1-transitions-getitem', (H, """        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
        else:  # match [conf] [term]
            return self.model.edges[k_lower, k_upper]['transition']
""", """        first, second = key
        k_lower, k_upper = first, second
        if self.atom.levels[first].level > self.atom.levels[second].level:
            k_lower, k_upper = second, first
        depth = 2 if 'mF=' in first else 1 if 'F=' in first else 0
        if depth == 0:  # match [conf] [term]
            return self.model.edges[k_lower, k_upper]['transition']
        lower_parts = k_lower.rsplit(' ', maxsplit=depth)
        upper_parts = k_upper.rsplit(' ', maxsplit=depth)
        transition = self.model.edges[lower_parts[0], upper_parts[0]]['transition']
        for pair in zip(lower_parts[1:], upper_parts[1:]):
            transition = transition[pair]
        return transition
"""))

rw('c1-list-names', (H, """        if hide_self_transitions:
            return [key for key in self.keys() if key[0] != key[1]]
        return list(self.keys())
""", """        names = list(self.keys())
        if not hide_self_transitions:
            return names
        return [(first, second) for first, second in names if first != second]
"""))


def apply(name, d):
    for f, old, new in R[name]:
        p = os.path.join(d, f)
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old), old[:80])
        open(p, 'w').write(t.replace(old, new))
    print(len(R[name]))


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        print('\n'.join(R))
    else:
        apply(sys.argv[2], sys.argv[3])
