From 3b26bb93b5a670852bc659b48c80bbaffc1fb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 01/36] fix: hyperfine octupole shift is missing the (2I-1)
 factor

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..a25daed 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From ad46e8ed606c7a8efc703a5d1b3978df2837af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 02/36] fix: ZTransition E2 strength uses the lower F for both
 levels

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a25daed..ff15236 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -817,7 +817,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From 0eb4e42ec648fa1f595615452f834c87e8f2175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 03/36] fix: selection rules must respect the J triangle rule

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ff15236..fb019d7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -716,9 +716,9 @@ class Transition(BaseTransition):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
-        return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
-                (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
+                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
+                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
 
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
-- 
2.43.0


From e3054984e431ec0559f62e5775ef098f88174999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 04/36] fix: re-adding a transition iterates over subtransition
 keys

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index fb019d7..de1c0b4 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -646,7 +646,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From 30ca3274e9c481ccfeb1ed11b0dd4c962823fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 05/36] fix: subtransition lookup prefers the reversed key over
 the exact one

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index de1c0b4..026f277 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -670,9 +670,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From 2cf4cb8d0d32ee02c97ecee4b9bb8af5b1208f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 06/36] fix: linked_levels discards existing subtransitions

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 026f277..8acd273 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1091,7 +1091,7 @@ class Atom:
         level = self.levels[key]
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
-                trans.populate_subtransitions()
+                trans.subtransitions()
         adjacent = level.model.adj[key]
         return {k: t['transition'] for k, t in adjacent.items() if k != key}
 
-- 
2.43.0


From df3203188c1d093bd3f9faedfdfe7e63ece9a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 07/36] fix: save appends the .atom suffix based on the first
 dot only

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 8acd273..050c859 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -974,10 +974,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with open(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From 2272a7a3a93643403440af4baf8a951dde89ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 08/36] fix: levels without a tabulated Lande g-factor get g =
 NaN

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 050c859..ef457dc 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -368,7 +368,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From 897b32d0f6c1e363900ac5f5f1c4a52daa9bf9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 09/36] fix: gJ estimate weights components by percentage and
 squared amplitude

---
 atomtoolkit/atom.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ef457dc..71e8428 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -337,27 +337,27 @@ class EnergyLevel(BaseLevel):
         :return: gJ
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
+        if self.term.J == 0:
+            return 0.0
         total = 0
-        for pct, term in self.term.terms_dict.items():
+        for term in self.term.terms:
             if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
+                terms = np.array([[term.l], [term.s], [1.0]])
             elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
+                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
             else:
                 return 0.0
 
             J = term.J
-            ls, ss, percents = terms
+            ls, ss, ampls = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
-        return total
+            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
+                                                         / (2 * J * (J + 1))))
+        return total / sum(term.percentage for term in self.term.terms)
 
     @classmethod
     def from_dataframe(cls, df, i=0) -> EnergyLevel:
-- 
2.43.0


From 87b8e4431b9e93b284e51ea36f3502cdbd1962e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 10/36] fix: branching ratios and lifetimes mix units of A and
 reject aliases

---
 atomtoolkit/atom.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 71e8428..dfa28d2 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1087,6 +1087,7 @@ class Atom:
         :return: dict(Level: transition)
         """
         level = self.levels[key]
+        key = level.name
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
                 trans.subtransitions()
@@ -1113,17 +1114,18 @@ class Atom:
         :return: a dict of level names and the branching ratios to those levels
         """
         transitions = self.linked_levels(key)
+        key = self.levels[key].name
         A_coeffs = {}
         for n, t in transitions.items():
             if t.E_upper.name == key:
                 A_coeffs[n] = t.A
         try:
-            totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
+        except AttributeError:
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
 
-        ratios = {k: t.magnitude / totalAs for k, t in A_coeffs.items()}
+        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
         return ratios
 
     def enforce_consistency(self, node_or_trans: BaseLevel or BaseTransition = None):
-- 
2.43.0


From ba4c4bcae1d69f39358da6dde30d2e38ea7df393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 11/36] fix: gJ estimate raises for terms with unresolved core
 quantum numbers

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index dfa28d2..8a8b9d7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -343,9 +343,9 @@ class EnergyLevel(BaseLevel):
         for term in self.term.terms:
             if term.coupling == 'LS':
                 terms = np.array([[term.l], [term.s], [1.0]])
-            elif term.coupling == 'JJ':
+            elif term.coupling == 'JJ' and None not in (term.jc, term.jo, term.lc, term.sc, term.lo, term.so):
                 terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
-            elif term.coupling == 'JK':
+            elif term.coupling == 'JK' and None not in (term.jc, term.k, term.lc, term.sc, term.lo, term.so):
                 terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
                 terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
-- 
2.43.0


From e925bcf19ddf7ecb570638c291ccdf263427a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 12/36] fix: transition lookup depends on insertion order and
 rejects documented keys

---
 atomtoolkit/atom_helpers.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..e3d18f3 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -115,6 +115,8 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
+        # ints, aliases, mJ-style names and level objects all resolve to the full name of the level
+        key = tuple(k.name if hasattr(k, 'name') else self.atom.levels[k].name for k in key)
         # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
         if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
             k_lower, k_upper = key[1], key[0]
@@ -123,21 +125,13 @@ class TransitionStructure:
         if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
             main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
             main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
+            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
         elif 'F=' in key[0]:  # match [conf] [term] F=[f]
             main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
             main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
+            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
         else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+            return self.model.edges[k_lower, k_upper]['transition']
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From 0b64da2baf5adc341329f360283ad8d7bf98ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 13/36] fix: transition assignment and deletion take the
 arguments Python passes

---
 atomtoolkit/atom_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index e3d18f3..5d62d54 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -133,11 +133,12 @@ class TransitionStructure:
         else:  # match [conf] [term]
             return self.model.edges[k_lower, k_upper]['transition']
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: str, value: Transition):
         self.atom.add_transition(value)
+        value.alias = key
 
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+    def __delitem__(self, key: Tuple[str, str]):
+        self.model.remove_edge(*key)
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From d5401028c6e9c1d16c2057e4f3055675486d6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 14/36] fix: forbidden subtransitions are registered in the
 atom graphs

---
 atomtoolkit/atom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 8a8b9d7..dce860f 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -567,8 +567,6 @@ class BaseTransition(ABC):
             self.E_lower = self.E_2
         # Check if in an atom
         self.atom = self.E_1.atom
-        if self.atom is not None:
-            self.add_to_atom(self.atom)
         # Names
         self.model_name = (self.E_1.name, self.E_2.name)
         self.name = name
@@ -579,6 +577,9 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
+        # forbidden subtransitions never become part of the atom
+        if self.atom is not None and (self.parent is None or np.any(np.array(self.allowed_types))):
+            self.add_to_atom(self.atom)
         if alias is not None:
             self.atom.transitions.aliases[alias] = self
 
-- 
2.43.0


From 857f2ff7cb665175df565fe8816bec2e82f2377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 15/36] fix: populate_transitions raises KeyError and keeps
 forbidden transitions

---
 atomtoolkit/atom.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index dce860f..84f9a85 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1028,11 +1028,8 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
-        # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        # E1 and M1 transitions change J by up to 1, E2 transitions by up to 2
+        allowed_deltas = [0, 1, 2] if allowed[2] else [0, 1]
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1044,13 +1041,13 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        del self.transitions[(pair[0].name, pair[1].name)]
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 65348655bbe374eef7e5ceed15b2f2f9223fe756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 16/36] fix: term equality ignores J, F and mF

---
 atomtoolkit/term.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 91374d6..777a621 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -77,7 +77,8 @@ class Term:
         # CONSIDER: rn this matches multiterms. Is this the behavior I want?
         return self.quantum_nums == other.quantum_nums and \
                self.conf == other.conf and \
-               self.term == other.term
+               self.term == other.term and \
+               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
 
     def make_term_copy(self, F: float = None, mF: float = None) -> Term:
         """
-- 
2.43.0


From 70e16ae9d37773c9c4e3bd4d67c726a81026b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 17/36] fix: MultiTerm repr is not a string and equality
 ignores extra terms

---
 atomtoolkit/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 777a621..bc6af5a 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -122,7 +122,7 @@ class MultiTerm(collections.abc.Sequence):
         return object.__getattribute__(self, item)
 
     def __repr__(self):
-        return MultiTerm(*self.terms)
+        return f'MultiTerm({self.terms})'
 
     def __str__(self):
         return f"{self.terms[0]} ({self.terms[0].percentage})"
@@ -140,7 +140,7 @@ class MultiTerm(collections.abc.Sequence):
     def __eq__(self, other: Term or MultiTerm) -> bool:
         if isinstance(other, Term):
             return self[0] == other
-        return np.all([self[i] == other[i] for i in range(len(self))])
+        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
 
     def make_term_copy(self, F: float = None, mF: float = None) -> MultiTerm:
         """
-- 
2.43.0


From a1e70fa2ef37f56edb534e13e5d310e3045f7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 18/36] fix: Term.from_dataframe reads a column the IO module
 drops

---
 atomtoolkit/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index bc6af5a..1976aa6 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -96,7 +96,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Percentage"][i])
 
 
 class MultiTerm(collections.abc.Sequence):
-- 
2.43.0


From 9aac62ca1ea4896719b9eddd4e6004e3068907e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 19/36] fix: tensor strengths use 2F+2 for the degeneracy of
 the upper level

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From beefee0c68bf84ff398f0d7d211aecc90353e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 20/36] fix: E2 geometric factors leak into forbidden
 components

---
 atomtoolkit/transition_strengths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..a772efc 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -99,7 +99,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
@@ -107,7 +107,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
@@ -122,11 +122,11 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
            (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From 62405e1de088c0abf8d5a6c5f977661e717a319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 21/36] fix: spectra take the laser linewidth in Hz on a GHz
 axis

---
 atomtoolkit/render/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..310584e 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -155,10 +155,10 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     if lineshape is not None:
         lineshape_func = lineshape
     elif temp.magnitude == 0:
-        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
     else:
         assert mass is not None, "thermal lineshape requires mass to be given"
-        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
-- 
2.43.0


From 5ebfa2f499e57a1a93770a451af3b0e246024689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 22/36] fix: plot_spectrum fails for a single transition object

---
 atomtoolkit/render/spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 310584e..01ac06e 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -164,7 +164,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +196,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
-- 
2.43.0


From 4ef86f1701ca0d5247f41bbfa31077166c3977c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 23/36] fix: mod_lorentzian fails with its default number of
 sidebands

---
 atomtoolkit/render/lineshapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 98e8882..63c668b 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -30,6 +30,8 @@ def voigt(x, x0, sigma: float, gamma: float, ampl: float = 1.0):
 
 def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float = 0.0, num_sidebands: int = None,
                    mod_freq_GHz: float = 1.0):
+    if num_sidebands is None:
+        num_sidebands = ModLorentzianLineShape(gamma, depth, mod_freq_GHz).num_sidebands
     tot = np.zeros_like(x)
     tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
     for i in range(1, num_sidebands + 1):
-- 
2.43.0


From 534541a817f7a073f4ec00ff7d28935b64a935df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 24/36] fix: Grotrian sublevels overflow the level width or
 divide by zero

---
 atomtoolkit/render/grotrian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..e62e547 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,9 +282,9 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
         squeeze = int(2 * squeeze + 1)
@@ -335,7 +335,7 @@ class Grotrian:
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
         sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        space_width = (1 - fill_factor) * W / (squeeze - 1) if squeeze > 1 else 0.0
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
@@ -365,7 +365,7 @@ class Grotrian:
         i = level.term.F - min(Fs)
 
         w_null = W - (N - 1) * offset * W
-        wF = W * (2 * level.term.F + 1) / (2 * squeeze + 1)
+        wF = W * (2 * level.term.F + 1) / squeeze
         dx = (1 - a) * w_null / 2 + a * wF / 2
         y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
         p0 = (offset * W * i - dx + x1 + x0, y)
-- 
2.43.0


From 9940b25adc287e8322393cd9db820f0eb47d4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 25/36] fix: rendering a Grotrian twice draws every level twice

---
 atomtoolkit/render/grotrian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index e62e547..f2c66ae 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -172,6 +172,7 @@ class Grotrian:
             return [[(min_x + h, min_y), (min_x, min_y), (min_x, max_y), (min_x + h, max_y)],
                     [(max_x - h, min_y), (max_x, min_y), (max_x, max_y), (max_x - h, max_y)]]
 
+        self.lines_df = self.lines_df.iloc[0:0]
         # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons)
         for i, row in self.level_prompts.iterrows():
             self.lines_df = pd.concat([self.lines_df, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))],
-- 
2.43.0


From c22c7b527f2c4965a23d40304edf6d39cec1c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 26/36] fix: polarization vectors shorter than a unit vector
 are accepted

---
 atomtoolkit/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/environment.py b/atomtoolkit/environment.py
index effcc89..5e119f3 100644
--- a/atomtoolkit/environment.py
+++ b/atomtoolkit/environment.py
@@ -16,7 +16,7 @@ class LightField:
             right circular = 2**(-0.5) * [1, 1j, 0]
         """
         self.k = k
-        assert np.linalg.norm(pol) - 1 < 1e-6, "polarization must be a unit vector"
+        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
         self.pol = pol
         self.intensity = i
 
-- 
2.43.0


From 93e86b22fd23a83b0c4efe37b5ea1be5cb5b7d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 27/36] fix: Yb171 species file passes levels as separate
 arguments

---
 species/Yb_II_171.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/species/Yb_II_171.py b/species/Yb_II_171.py
index e79a567..1e0c78c 100644
--- a/species/Yb_II_171.py
+++ b/species/Yb_II_171.py
@@ -44,7 +44,7 @@ Yb171.transitions[('4f14.6s 2S1/2', '4f14.6p 2P*1/2')].set_frequency(Q_(811.2941
 t = Yb171.add_transition((Yb171.levels['4f14.6s 2S1/2'], Yb171.levels['4f14.5d 2D5/2']), A=Q_(22, 'Hz'))
 t.set_frequency(Q_(729.476090, 'THz'))
 
-t = Yb171.add_transition(Yb171.levels['4f13.(2F*).6s2 2F*7/2'], Yb171.levels['4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2'], A=Q_(50, 'kHz'))
+t = Yb171.add_transition((Yb171.levels['4f13.(2F*).6s2 2F*7/2'], Yb171.levels['4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2']), A=Q_(50, 'kHz'))
 # t.set_frequency(Q_(394.423900, 'THz'))
 
 # Set any additional properties
-- 
2.43.0


From ba76fb66fa04a0dac89fb0ece5194a50e51644d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 28/36] fix: generate_full_from_dataframe passes allowed twice

---
 atomtoolkit/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..c42c17a 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -310,6 +310,6 @@ def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
         else:
             a.populate_transitions(**kwargs)
     else:
-        a.populate_transitions(allowed=(True, False, False), **kwargs)
+        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
     a.populate_internal_transitions()
     return a
-- 
2.43.0


From 8d8f9f51e411272fc54b050c38f529dd78406f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 29/36] fix: E2 axial component weight depends on the direction
 of the field

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index a772efc..f1cd099 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -103,7 +103,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (-6 ** 0.5 * k[0] * eps[0] + 6 ** 0.5 * k[1] * eps[1] + (2. / 3.) * 6 ** 0.5 * k[2] * eps[2])
+           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
@@ -124,7 +124,7 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
+           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-- 
2.43.0


From c841a45b8e8900099e4ab5aef8a0803265df6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 30/36] fix: vanishing Wigner symbols compare unequal to 0.0
 with sympy 1.13 or newer

---
 atomtoolkit/wigner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..c0c82f1 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -17,7 +17,6 @@ except ImportError:
     from sympy.physics.wigner import wigner_3j as _wigner3j
     from sympy.physics.wigner import wigner_6j as _wigner6j
     from sympy.physics.wigner import wigner_9j as _wigner9j
-    from sympy import N
 
     PY3NJ_INSTALLED = False
 
@@ -39,7 +38,7 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                return float(func(*args))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From 678adce667ccf893b5143365e1d04f0109781f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 31/36] fix: an atom without levels or transitions cannot be
 shown

---
 atomtoolkit/atom_helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 5d62d54..ff6cf7f 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -20,6 +20,8 @@ class LevelStructure:
         self.aliases = dict()
 
     def __repr__(self):
+        if len(self) == 0:
+            return 'LevelStructure containing 0 levels'
         return f'LevelStructure containing {len(self)} levels of type {type(list(self.values())[0]).__name__}'
 
     def __getitem__(self, key: Union[int, slice, str]) -> BaseLevel or List[BaseLevel]:
@@ -97,6 +99,8 @@ class TransitionStructure:
         self.aliases = dict()
 
     def __repr__(self):
+        if len(self) == 0:
+            return 'TransitionStructure containing 0 transitions'
         return f'TransitionStructure containing {len(self)} transitions of type {type(list(self.values())[0]).__name__}'
 
     def __getitem__(self, key: Tuple[str, str] or Tuple[int, int]) -> BaseTransition:
-- 
2.43.0


From c76a61874d85b003324bc6382efcd629374dc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 32/36] fix: the thermal lineshapes' sigma is the Doppler
 standard deviation, as a plain number

sigma was a factor sqrt(8) too large for the standard deviation that gaussian() takes
(and that fwhm = 2.355 sigma states), and a quantity in unreduced units, on which the
Voigt profile between the two limits raised a TypeError.
---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 63c668b..f9a1570 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -140,7 +140,7 @@ class GaussianLineShape(LineShape):
 class ThermalGaussianLineShape(LineShape):
     def __init__(self, T, m):
         super().__init__()
-        self.sigma = (8*ureg.k*T/(m*c**2))**0.5
+        self.sigma = ((ureg.k*T/(m*c**2))**0.5).to('').magnitude
         self.fwhm = self.sigma * 2.355
 
     def shape_func(self, x, x0, **kwargs):
@@ -156,7 +156,7 @@ class ThermalLineShape(LineShape):
 
     def __init__(self, T, m, gamma):
         super().__init__()
-        self.sigma = (8 * ureg.k * T / (m * c ** 2)) ** 0.5
+        self.sigma = ((ureg.k * T / (m * c ** 2)) ** 0.5).to('').magnitude
         self.fwhm = self.sigma * 2.355
         self.gamma = gamma
 
-- 
2.43.0


From 6eed05e94112caa6c889bd394f68f63b5bb91251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 33/36] fix: a thermal line of no natural width is a Gaussian

gamma is 0 by default in plot_spectrum, and the ratio of the widths raised a
ZeroDivisionError.
---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index f9a1570..e40356c 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -162,9 +162,9 @@ class ThermalLineShape(LineShape):
 
     def shape_func(self, x, x0, **kwargs):
         ampl = kwargs.get('ampl', 1.0)
-        if self.gamma/(self.sigma*x0) > self.cutoff:
+        if self.gamma > self.cutoff*self.sigma*x0:
             return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
-        elif (self.sigma*x0)/self.gamma > self.cutoff:
+        elif self.sigma*x0 > self.cutoff*self.gamma:
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-- 
2.43.0


From da6779f6717d8b647f27a61b556b070ab3263695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 34/36] fix: a thermal line is sampled over its width at its
 centre

sigma is relative to the centre, so that the samples reached 20 sigma GHz to either
side of a line that is sigma x0 GHz wide: the drawn line was flat.
---
 atomtoolkit/render/lineshapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index e40356c..dc8a6a4 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -54,7 +54,7 @@ class LineShape(ABC):
         raise NotImplementedError
 
     def compute(self, x0, num_points: int = 1000, **kwargs):
-        width = self.width_func(**kwargs)
+        width = self.width_func(x0=x0, **kwargs)
         x_values = np.linspace(x0 - width, x0 + width, num_points)
         y_values = self.shape_func(x_values, x0, **kwargs)
         return x_values, y_values
@@ -147,8 +147,8 @@ class ThermalGaussianLineShape(LineShape):
         ampl = kwargs.get('ampl', 1.0)
         return gaussian(x, x0, self.sigma*x0, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
+    def width_func(self, padding=20.0, x0=1.0, **kwargs):
+        return padding * self.sigma * x0
 
 
 class ThermalLineShape(LineShape):
@@ -168,5 +168,5 @@ class ThermalLineShape(LineShape):
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
\ No newline at end of file
+    def width_func(self, padding=20.0, x0=1.0, **kwargs):
+        return padding * self.sigma * x0
\ No newline at end of file
-- 
2.43.0


From 9ae74cf49e3f7c9ae57d55b0ccdfa5dc9c0c2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 35/36] fix: sending an arrow to another level's box does not
 raise

compute_arrow passed override_bbox on to FancyArrowPatch, which has no such
property, so every use of it raised AttributeError.
---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index f2c66ae..989726b 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -229,7 +229,7 @@ class Grotrian:
         x1_1 = kwargs.pop('end_x1', 0)
         y1_0 = kwargs.pop('start_y1', 0)
         y1_1 = kwargs.pop('end_y1', 0)
-        bbox_overrides = kwargs.get('override_bbox', (False, False))
+        bbox_overrides = kwargs.pop('override_bbox', (False, False))
 
         def compute_bbox_pos(bbox: Tuple, anchor: int or Tuple, offset: Tuple):
             pos_dict = {1: (1, 0, 0, 1),   2: (.5, 0, .5, 1),   3: (0, 0, 1, 1),
-- 
2.43.0


From 89bd617de647c3329cd5ef8a88352444d5b638d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 36/36] fix: loading a table of transitions leaves the caller's
 column names alone

load_transition_data added the keys freq and A to the dict it was given, so a
second call with another frequency column silently read the first one again.
---
 atomtoolkit/IO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index c42c17a..34563d2 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -177,6 +177,7 @@ def load_transition_data(filename: str, columns: dict = None, **kwargs):
     :return:
     """
     df_file = pd.read_csv(filename, **kwargs)
+    columns = dict(columns)
     if ("freq" not in columns) and ("frequency" in columns):
         columns["freq"] = columns["frequency"]
     if ("A" not in columns) and ("A_coeff" in columns):
-- 
2.43.0

