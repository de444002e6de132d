From 1bd1cf092335ac53fb2338c97a3ef7aa96cfeb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/96] fix: keep integer variables within their domains when
 calling omega

omega represents an integer variable as a bitfield, so a variable
with domain (0, 2) could take the value 3. Realizability verdicts
were wrong, and enumerated strategies raised ValueError or IndexError
when converted to machines.
---
 tulip/interfaces/omega.py | 51 +++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index c595ed0..bf118fd 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -87,26 +87,40 @@ def is_circular(
     return triv != t.bdd.false
 
 
-def _int_bounds(aut: trl.Automaton):
-    """Create care set for enumeration.
+def _add_int_bounds(
+        g:
+            _spec.GRSpec,
+        aut:
+            trl.Automaton
+        ) -> None:
+    """Restrict integer variables to their domains.
+
+    `omega` represents an integer variable as a bitfield,
+    which can take also values outside the variable's domain.
 
-    @rtype:
-        `dd.bdd.Function | dd.cudd.Function`
+    Each player has to keep its own variables within their domains,
+    and is constrained only when the other player does so too.
     """
-    int_types = {'int', 'saturating', 'modwrap'}
-    bdd = aut.bdd
-    u = bdd.true
-    for var, d in aut.vars.items():
-        t = d['type']
-        if t == 'bool':
-            continue
-        assert t in int_types, t
-        dom = d['dom']
-        p, q = dom
-        e = f'({p} <= {var}) & ({var} <= {q})'
-        v = aut.add_expr(e)
-        u = bdd.apply('and', u, v)
-    return u
+    env_dom = aut.add_expr(
+        aut.type_hint_for(g.env_vars))
+    sys_dom = aut.add_expr(
+        aut.type_hint_for(g.sys_vars))
+    # initial condition
+    match g.qinit:
+        case r'\A \A':
+            aut.init['env'] &= env_dom & sys_dom
+        case r'\E \E':
+            aut.init['sys'] &= env_dom & sys_dom
+        case _:
+            aut.init['env'] &= env_dom
+            aut.init['sys'] |= ~ env_dom
+            aut.init['sys'] &= sys_dom
+    # actions
+    env_dom = aut.replace_with_primed(g.env_vars, env_dom)
+    sys_dom = aut.replace_with_primed(g.sys_vars, sys_dom)
+    aut.action['env'] &= env_dom
+    aut.action['sys'] |= ~ env_dom
+    aut.action['sys'] &= sys_dom
 
 
 def _strategy_to_state_annotated(
@@ -177,6 +191,7 @@ def _grspec_to_automaton(
     a.moore = g.moore
     a.plus_one = g.plus_one
     a.qinit = g.qinit
+    _add_int_bounds(g, a)
     return a
 
 
-- 
2.43.0


From f5f07c528fa8da3517e88e0aa55e387250c28e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/96] fix: outputs of enumerated Moore strategies do not
 depend on next inputs

The symbolic strategy for `moore=True` may allow several outputs from
a state. The enumeration resolves that choice separately for each next
input, so the machine returned for a Moore specification (the default)
could not be implemented without seeing the next input.
---
 tulip/interfaces/omega.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/tulip/interfaces/omega.py b/tulip/interfaces/omega.py
index bf118fd..58feaa5 100644
--- a/tulip/interfaces/omega.py
+++ b/tulip/interfaces/omega.py
@@ -60,6 +60,8 @@ def synthesize_enumerated_streett(
         print('WARNING: unrealizable')
         return None
     gr1.make_streett_transducer(z, yij, xijk, aut)
+    if aut.moore:
+        _select_moore_outputs(aut)
     t2 = time.time()
     g = enum.action_to_steps(
         aut, 'env', 'impl',
@@ -123,6 +125,33 @@ def _add_int_bounds(
     aut.action['sys'] &= sys_dom
 
 
+def _select_moore_outputs(aut: trl.Automaton) -> None:
+    """Choose a single output for each state.
+
+    The action `aut.action['impl']` may allow several outputs from
+    a state. The enumeration selects among them after it has fixed
+    the next input, so outputs could depend on the next input.
+    """
+    u = aut.action['impl']
+    primed_vars = aut.varlist["impl'"]
+    for i, var in enumerate(primed_vars):
+        if aut.vars[var]['type'] == 'bool':
+            values = [f'~ {var}', var]
+        else:
+            a, b = aut.vars[var]['dom']
+            values = [
+                f'{var} = {value}'
+                for value in range(a, b + 1)]
+        selected = aut.false
+        done = aut.false
+        for value in values:
+            v = u & aut.add_expr(value)
+            selected |= v & ~ done
+            done |= aut.exist(primed_vars[i:], v)
+        u = selected
+    aut.action['impl'] = u
+
+
 def _strategy_to_state_annotated(
         g:
             nx.DiGraph,
-- 
2.43.0


From 62884695cb5350e1794e12651b4a0eff9001be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 03/96] fix: copy edge keys before erasing outputs in
 mask_outputs

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 1942325..82ffad0 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1880,7 +1880,7 @@ def mask_outputs(
         ) -> None:
     """Erase outputs from each edge where they are zero."""
     for _, _, d in machine.edges(data=True):
-        for k in d:
+        for k in list(d):
             pop = (
                 k in machine.outputs and
                 d[k] == 0)
-- 
2.43.0


From c2a319d2699d2239bc5cdf0ba5dd1f1ecf50d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 04/96] fix: default ignore_init of synthesize_many is the
 empty set

---
 tulip/synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/synth.py b/tulip/synth.py
index 82ffad0..4d31519 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1324,6 +1324,8 @@ def synthesize_many(
         See function `synthesize` for
         available options.
     """
+    if ignore_init is None:
+        ignore_init = set()
     assert isinstance(ts, dict), ts
     for name, t in ts.items():
         if not isinstance(t, transys.FiniteTransitionSystem):
-- 
2.43.0


From e5a5a457445a296dedaef1810e431cacc94226e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 05/96] fix: substitution for a proposition that labels no
 state

---
 tulip/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index 4d31519..ddff54e 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1231,7 +1231,7 @@ def build_dependent_var_table(
         bool_states=False,
         must='xor')
     ap2states = map_ap_to_states(fts)
-    return {k: _disj(state_ids[x] for x in v)
+    return {k: _disj(state_ids[x] for x in v) or 'False'
             for k, v in ap2states.items()}
 
 
-- 
2.43.0


From 970ae15e8a47457136ef4b5cc4f9fc739a3d63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 06/96] fix: interactive simulation of machines

A recognized selection was requested again forever,
and the simulation stayed at the same state.
---
 tulip/transys/machines.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/machines.py b/tulip/transys/machines.py
index aec09b7..de20df7 100644
--- a/tulip/transys/machines.py
+++ b/tulip/transys/machines.py
@@ -888,7 +888,8 @@ def interactive_run(
     while True:
         print(
             f'\n Current state: {state}')
-        if _interactive_run_step(mealy, state) is None:
+        state = _interactive_run_step(mealy, state)
+        if state is None:
             break
 
 
@@ -896,7 +897,7 @@ def _interactive_run_step(
         mealy:
             MealyMachine,
         state
-        ) -> bool | None:
+        ) -> _ty.Optional[_ty.Any]:
     if state is None:
         raise Exception('Current state is None')
     # note: the spaghettiness of
@@ -913,7 +914,8 @@ def _interactive_run_step(
     while True:
         try:
             selected_trans = _select_transition(mealy, trans)
-        except:
+            break
+        except (ValueError, IndexError):
             print(
                 'Selection not recognized. '
                 'Please try again.')
@@ -929,7 +931,7 @@ def _interactive_run_step(
         f', to state: {to_state}\n'
         f'given inputs: {inputs}\n'
         f'reacting with outputs: {outputs}')
-    return True
+    return to_state
 
 
 def _select_transition(
-- 
2.43.0


From 6097f17518d6473b42662a747b14c1a770b28d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 07/96] fix: names of inputs in code generated for machines
 without inputs

---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 59a149e..20e4849 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -85,7 +85,7 @@ def python_case(
     node_to_int = dict([(s, i) for i, s in enumerate(M)])
     input_vars = [input_var for input_var in M.inputs] if M.inputs else []
     input_args = ', '.join(input_vars)
-    input_args_str = "'"+"', '".join(input_vars)+"'"
+    input_args_str = ', '.join(map(repr, input_vars))
     code = (
         'class {classname}:\n'
         '{t}"""Mealy transducer.\n'
-- 
2.43.0


From 89087b3b4374824745c7bbf6c429b1c41b7556ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 08/96] fix: load gr1c XML without a strategy
 (Element.getchildren was removed)

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 4099df8..764b34c 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -313,7 +313,7 @@ def load_aut_xml(
     return_now = (
         aut_elem is None or (
         aut_elem.text is None and
-            len(aut_elem.getchildren()) == 0))
+            len(aut_elem) == 0))
     if return_now:
         mach = None
         return (spec, mach)
-- 
2.43.0


From 97ebb43d50139df633d7c67cc26916d65e8cf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:05 +0000
Subject: [PATCH 09/96] fix: raise on unknown file formats in gr1c.load_mealy

---
 tulip/interfaces/gr1c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index 764b34c..f2528f8 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -644,7 +644,7 @@ def load_mealy(
     elif fformat.lower() == 'json':
         strategy = load_aut_json(s)
     else:
-        ValueError(
+        raise ValueError(
             '`gr1c.load_mealy()`: '
             f'Unrecognized file format, "{fformat}"')
     _logger.debug(
-- 
2.43.0


From a72a5e408982e829daea96b74f378045a7b207fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 10/96] fix: iterate over items in TypedDict.is_consistent

---
 tulip/transys/mathset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 7c86332..4bc43a4 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -1019,8 +1019,9 @@ class TypedDict(
         Use case: changing the object that allowed_values
         points to can invalidate the assigned values.
         """
-        for k, v in self:
-            if k in self.allowed_values:
-                if v not in self.allowed_values[k]:
-                    return False
+        for k, v in self.items():
+            if self.allowed_values.get(k) is None:
+                continue
+            if v not in self.allowed_values[k]:
+                return False
         return True
-- 
2.43.0


From a87bdf023b89e0a0eaf088bed2d73c506963abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 11/96] fix: store labels of nodes and edges in TypedDict, so
 that they are checked

---
 tulip/transys/labeled_graphs.py | 47 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index eae44ab..440bad7 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1084,13 +1084,19 @@ class LabeledDiGraph(
         """
         nodes = self.nodes(data=True)
         edges = self.edges(data=True)
-        def consistent(items):
-            return all(
-                t[-1].is_consistent()
-                for t in items)
+        def consistent(items, types):
+            typed_attr = _mset.TypedDict()
+            for *_, attr in items:
+                typed_attr.clear()
+                typed_attr.set_types(dict())
+                typed_attr.update(attr)
+                typed_attr.set_types(types)
+                if not typed_attr.is_consistent():
+                    return False
+            return True
         return (
-            consistent(nodes) and
-            consistent(edges))
+            consistent(nodes, self._node_label_types) and
+            consistent(edges, self._edge_label_types))
 
     def _update_attr_dict_with_attr(
             self,
@@ -1145,9 +1151,11 @@ class LabeledDiGraph(
             typed_attr,
             self._node_label_types,
             check)
-        nx.MultiDiGraph.add_node(
-            self, n,
-            **typed_attr)
+        # keep attributes of an existing node
+        for k, v in self._node.get(n, dict()).items():
+            typed_attr.setdefault(k, v)
+        nx.MultiDiGraph.add_node(self, n)
+        self._node[n] = typed_attr
 
     def add_nodes_from(
             self,
@@ -1261,24 +1269,15 @@ class LabeledDiGraph(
             typed_attr,
             self._edge_label_types,
             check)
-        # the only change from nx in
-        # this clause is using TypedDict
+        # the only change from nx is using TypedDict
         _logger.debug(f'adding edge: {u} ---> {v}')
         if key is None:
             key = self.new_edge_key(u, v)
-        if v in self._succ[u]:
-            keydict = self._adj[u][v]
-            datadict = keydict.get(key, typed_attr)
-            datadict.update(typed_attr)
-            nx.MultiDiGraph.add_edge(
-                self, u, v, key,
-                **datadict)
-        else:
-            # selfloops work this way
-            # without special treatment
-            nx.MultiDiGraph.add_edge(
-                self, u, v,
-                **typed_attr)
+        # keep attributes of an existing edge with this key
+        for k, value in existing_u_v.get(key, dict()).items():
+            typed_attr.setdefault(k, value)
+        nx.MultiDiGraph.add_edge(self, u, v, key)
+        self._succ[u][v][key] = typed_attr
 
     def add_edges_from(
             self,
-- 
2.43.0


From db1d75a9ad52633d0506a9268575e8a87a4f6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 12/96] fix: compare also default labels with those of existing
 edges

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 440bad7..f18a886 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1255,7 +1255,7 @@ class LabeledDiGraph(
                 f'where:\t from_state = {u}\n'
                 f'and:\t to_state = {v}\n')
         # check if same labeled transition exists
-        if attr_dict in existing_u_v.values():
+        if typed_attr in existing_u_v.values():
             _logger.warning(
                 'Same labeled transition:\n'
                 'from_state---[label]---> to_state\n'
-- 
2.43.0


From cfffb3f32ad7dbb2ea0bd0cce9da29af53b3f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 13/96] fix: reachability of states

---
 tulip/transys/labeled_graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index f18a886..cf35af3 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -276,7 +276,7 @@ class States:
 
         Wrapper of `networkx.descendants()`.
         """
-        return nx.descendants(self, state)
+        return nx.descendants(self.graph, state)
 
     def backward_reachable(
             self,
@@ -286,7 +286,7 @@ class States:
 
         Wrapper of `networkx.ancestors()`.
         """
-        return nx.ancestors(self, state)
+        return nx.ancestors(self.graph, state)
 
     def paint(
             self,
-- 
2.43.0


From 25d0617bb3591d376cef0b7f2bf41ee10d2619fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 14/96] fix: remove all transitions between states when no
 label is given

---
 tulip/transys/labeled_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index cf35af3..745b44b 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -1358,7 +1358,7 @@ class LabeledDiGraph(
             key
             for key, data in
                 self[u][v].items()
-            if data == attr_dict}
+            if not attr_dict or data == attr_dict}
         for key in rm_keys:
             self.remove_edge(
                 u, v,
-- 
2.43.0


From ba4223d615c9b12bcf15e3be04818692523f5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 15/96] fix: remove automaton nodes that are not accepting

---
 tulip/transys/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index d7bb5a6..3914cbe 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -183,7 +183,8 @@ class FiniteStateAutomaton(
         accepting set if present.
         """
         # intercept to remove also from accepting states
-        self.accepting.remove(node)
+        if node in self.accepting:
+            self.accepting.remove(node)
         super().remove_node(node)
 
 
-- 
2.43.0


From e807b72b1a33de8eca7fa002b85cd49d775387f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 16/96] fix: add unhashable elements of iterators to MathSet

---
 tulip/transys/mathset.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 4bc43a4..0fb6cc9 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -423,14 +423,13 @@ class MathSet:
             self._set |= iterable
             return
         # filter to optimize storage
-        try:
-            self._set |= set(self._filter_hashables(iterable))
-            self._list = list(unique(
-                self._list + self._filter_unhashables(iterable)))
-            return
-        except:
-            # ...if contents of elements in iterable are mutable
-            self._list = list(unique(self._list + list(iterable)))
+        for item in iterable:
+            # also hashable types can have contents that are unhashable
+            try:
+                self._set.add(item)
+            except TypeError:
+                if item not in self._list:
+                    self._list.append(item)
 
     def remove(
             self,
-- 
2.43.0


From 0da5832414832199a812dcb92d02f45f474144a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 17/96] fix: membership in CartesianProduct

---
 tulip/transys/mathset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 0fb6cc9..43a8772 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -670,7 +670,7 @@ class CartesianProduct:
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
         pairs = zip(self.mathsets, element)
-        return all(map(
+        return all(_itr.starmap(
             _op.contains, pairs))
 
     def add(
-- 
2.43.0


From 2087cf57098adc097e8aebbf677e3efb63b5df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 18/96] fix: labels, actions, and states without prefix in
 tuple2fts

---
 tulip/transys/transys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 7e347f6..2c7fa7d 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -787,6 +787,9 @@ def tuple2fts(
             state_label_pairs = False
         if state_labeling[0] is None:
             state_label_pairs = False
+        # a set is a label, also when it has two elements
+        if isinstance(state_labeling[0], _abc.Set):
+            state_label_pairs = False
         try:
             state, ap_label = state_labeling[0]
         except:
@@ -837,7 +840,8 @@ def tuple2fts(
         for state, ap_label in state_labeling:
             if ap_label is None:
                 ap_label = set()
-            state = f'{prepend_str}{state}'
+            state, = _graphs.prepend_with(
+                [state], prepend_str)
             _logger.debug(
                 f'Labeling state:\n\t{state}\n'
                 f'with label:\n\t{ap_label}\n')
@@ -853,7 +857,7 @@ def tuple2fts(
                 f'\t{from_state} ---> {to_state}\n')
             ts.transitions.add(from_state, to_state)
     else:
-        ts.actions |= actions
+        ts.sys_actions |= actions
         for from_state, to_state, act in transitions:
             from_state, to_state = _graphs.prepend_with(
                 [from_state, to_state],
@@ -863,7 +867,7 @@ def tuple2fts(
                 f'{from_state} ---[{act}]---> {to_state}\n')
             ts.transitions.add(
                 from_state, to_state,
-                actions=act)
+                sys_actions=act)
     return ts
 
 
-- 
2.43.0


From 7b1d12c38823fbe9c13b760fc73f1ad867a4b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 19/96] fix: strings as labels in line_labeled_with

---
 tulip/transys/transys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 2c7fa7d..43ac0fa 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -915,6 +915,10 @@ def line_labeled_with(
         - transitions forming a sequence:
           - s_{i} ---> s_{i+1}, for: 0 <= i < N
     """
+    # strings denote singletons
+    L = [
+        {ap_subset} if isinstance(ap_subset, str) else ap_subset
+        for ap_subset in L]
     n = len(L)
     S = range(m, m + n)
     S0 = list()
-- 
2.43.0


From e19e9192db323e467def211def0272c10b9f36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 20/96] fix: find states by label in add_initial_states

---
 tulip/transys/transys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 43ac0fa..2441ba0 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1012,8 +1012,10 @@ def add_initial_states(
         `ts.atomic_propositions`)
     """
     for label in ap_labels:
-        new_init_states = ts.states.find(ap='label')
-        ts.states.initial |= new_init_states
+        new_init_states = ts.states.find(
+            with_attr_dict=dict(ap=label))
+        ts.states.initial |= [
+            state for state, _ in new_init_states]
 
 
 def _dumps_states(
-- 
2.43.0


From cb0b5900410bfcaf034db224be15e5970c18ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 21/96] fix: export of closed transition systems to Promela
 files

---
 tulip/transys/transys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 2441ba0..6bb6634 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -693,7 +693,11 @@ class FiniteTransitionSystem(
         if fileformat not in file_formats:
             return False
         # closed ?
-        if self.env_vars:
+        is_open = any(
+            len(values) > 0
+            for name, values in self.actions.items()
+            if 'env' in name)
+        if is_open:
             return False
         s = _pml.fts2promela(self, self.name)
         # dump to file
-- 
2.43.0


From 0de245fda9adbeef9acd768ea3022813909af968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 22/96] fix: instantiate LabeledGameGraph

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 6bb6634..972c598 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1143,7 +1143,7 @@ class LabeledGameGraph(
                 ap_labels.math_set,
             default=
                 set())]
-        super().__init__(node_label_types)
+        super().__init__(node_label_types, list())
         self.atomic_propositions = self.ap
         # dot formatting
         self._state_dot_label_format = {
-- 
2.43.0


From 993c8454e68a31ad05659a684de55afca93121a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 23/96] fix: max_color is a color

---
 tulip/transys/automata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 3914cbe..1cc2842 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -688,9 +688,6 @@ class ParityGame(
         Maximization is over all nodes.
         In absence of nodes, return `-1`.
         """
-        def key(node):
-            return self.nodes[node]['color']
         return max(
-            self,
-            key=key,
+            (color for _, color in self.nodes(data='color')),
             default=-1)
-- 
2.43.0


From 49676c8b7ce98d0d8cd53cfdf40c39e53fef1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 24/96] fix: alphabet of automata that are not based on
 propositions

---
 tulip/transys/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 1cc2842..73f76fd 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -360,7 +360,7 @@ def tuple2ba(
         ba.alphabet.math_set.update(
             alphabet_or_ap)
     elif isinstance(ba.alphabet, set):
-        ba.alphabet.add(alphabet_or_ap)
+        ba.alphabet.update(alphabet_or_ap)
     else:
         raise AssertionError(
             f'unexpected case: {ba.alphabet = }')
-- 
2.43.0


From c8ed32736097ccb948eb1d74aec9c9b6ad13bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 25/96] fix: add_successors returns the new states for all
 successors

---
 tulip/transys/products.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 9984e12..c4d1525 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -144,8 +144,7 @@ class OnTheFlyProductAutomaton(
                 new_accepting)
         # new_sqs = {x for x in next_sqs if x not in self}
         _logger.debug(f'next product states: {next_sqs}')
-        _logger.debug(f'new unvisited product states: {new_sqs}')
-        return new_sqs
+        return next_sqs
 
     def add_all_states(self):
         """Iterate `add_successors` until all states are added.
-- 
2.43.0


From 57f75d26e5e773b57d1da7cd58f9d6fb266de21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 26/96] fix: label of exactly the projected state in
 ba_ts_sync_prod

---
 tulip/transys/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c4d1525..8b8dcc2 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -423,7 +423,7 @@ def ba_ts_sync_prod(
         _logger.debug(
             f'prod_TS: to_state =\n\t{to_state}\n'
             f'TS: ts_to_state =\n\t{ts_to_state}')
-        state_label_pairs = transition_system.states.find(ts_to_state)
+        state_label_pairs = transition_system.states.find([ts_to_state])
         ts_to_state_, transition_label_dict = state_label_pairs[0]
         transition_label_value = transition_label_dict['ap']
         prod_ba.transitions.add(
-- 
2.43.0


From 755151493242910e815c8e30056a1022e664a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 27/96] fix: actions of transition systems in product with a
 Buchi automaton

---
 tulip/transys/products.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index 8b8dcc2..c289b95 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -36,6 +36,7 @@ import warnings
 
 import tulip.transys.automata as automata
 import tulip.transys.labeled_graphs as _graphs
+import tulip.transys.mathset as _mset
 import tulip.transys.transys as transys
 import tulip._utils as _utl
 
@@ -208,10 +209,17 @@ def ts_ba_sync_prod(
     fts = transition_system
     ba = buchi_automaton
     prodts_name = f'{fts.name}*{ba.name}'
-    prodts = transys.FiniteTransitionSystem()
+    # same action types as `fts`
+    prodts = transys.FiniteTransitionSystem(
+        env_actions=list(),
+        sys_actions=[
+            dict(
+                name=name,
+                values=_mset.MathSet(values),
+                setter=True)
+            for name, values in fts.actions.items()])
     prodts.name = prodts_name
     prodts.atomic_propositions.add_from(ba.states())
-    prodts.sys_actions.add_from(fts.actions)
     # construct initial states of product automaton
     s0s = set(fts.states.initial)
     q0s = set(ba.states.initial)
@@ -369,7 +377,7 @@ def find_prod_succ(
                 else:
                     product.transitions.add(
                         prev_sq, new_sq,
-                        actions=sublabel_values['actions'])
+                        **sublabel_values)
     return (next_sqs, new_accepting)
 
 
-- 
2.43.0


From 8a24cab51c922a40512294927aca6eb679a18860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 28/96] fix: map from indices to states in add_adj

---
 tulip/transys/labeled_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/labeled_graphs.py b/tulip/transys/labeled_graphs.py
index 745b44b..94180cc 100644
--- a/tulip/transys/labeled_graphs.py
+++ b/tulip/transys/labeled_graphs.py
@@ -634,7 +634,9 @@ class Transitions:
                 'Adjacency matrix must be square.')
         # check states exist,
         # before adding any transitions
-        for state in adj2states:
+        is_map = isinstance(adj2states, dict)
+        states = adj2states.values() if is_map else adj2states
+        for state in states:
             if state in self.graph:
                 continue
             raise ValueError(
-- 
2.43.0


From 463ce02229043f3dae3e675488a619eb6076f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 29/96] fix: elements of CartesianProduct have one item for
 each set

---
 tulip/transys/mathset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 43a8772..457e7e9 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -669,6 +669,9 @@ class CartesianProduct:
                 'Argument element must be `Iterable`, otherwise cannot '
                 'recover which item in it belongs to which set in the '
                 'Cartesian product.')
+        element = list(element)
+        if len(element) != len(self.mathsets):
+            return False
         pairs = zip(self.mathsets, element)
         return all(_itr.starmap(
             _op.contains, pairs))
-- 
2.43.0


From a91c75071996dd43375554215af8b44f02caee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 30/96] fix: initial partition by equal sets of propositions in
 simu_abstract

---
 tulip/transys/transys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/transys.py b/tulip/transys/transys.py
index 972c598..b7ccf2b 100644
--- a/tulip/transys/transys.py
+++ b/tulip/transys/transys.py
@@ -1300,7 +1300,7 @@ def simu_abstract(
     hash_ap = dict()
         # map ap to cells in Part
     for node in G:
-        ap = repr(G.nodes[node]['ap'])
+        ap = frozenset(G.nodes[node]['ap'])
         if ap not in S0:
             S0[ap] = set()
             hash_ap[ap] = set()
-- 
2.43.0


From d33a5badb4010629843b6f1af7c6ba7a6a448f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 31/96] fix: transitions between exactly the given rule states

---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index ecc6250..f7e11ee 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -82,7 +82,7 @@ def _get_rule_violation_cost(
     cost = [0] * spec.get_num_levels()
     for idx, rule in enumerate(spec):
         rule_transitions = rule.automaton().transitions.find(
-            from_spec_state[idx], to_spec_state[idx])
+            [from_spec_state[idx]], [to_spec_state[idx]])
         rule_transition_labels = [
             set(transition[2]["letter"])
             for transition in rule_transitions]
-- 
2.43.0


From b175ed5b2707c6e915468b0c888ed3a1aa8990d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 32/96] fix: product transitions from all states of the rules

---
 tulip/mvp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index f7e11ee..cf32cfd 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -116,11 +116,12 @@ def _add_transition(
         the cost of transition from from_prod_state[0] to to_prod_state[0]
         in ks
     """
-    for from_prod_state in from_prod_states:
-        for to_prod_state in to_prod_states:
-            _add_transition_edge(
-                from_prod_state, to_prod_state,
-                ks, spec, trans_ks_cost, fa)
+    pairs = _itr.product(
+        from_prod_states, to_prod_states)
+    for from_prod_state, to_prod_state in pairs:
+        _add_transition_edge(
+            from_prod_state, to_prod_state,
+            ks, spec, trans_ks_cost, fa)
 
 
 def _add_transition_edge(
-- 
2.43.0


From 7c161486f9c7291465653c04929a2b12aa65dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 33/96] fix: goal states of rules with states that are not
 accepting

---
 tulip/mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/mvp.py b/tulip/mvp.py
index cf32cfd..687f621 100644
--- a/tulip/mvp.py
+++ b/tulip/mvp.py
@@ -232,7 +232,7 @@ def solve(
         if goal_label in ks.states[state]["ap"]]
     accepting_goal_states = _trs.SubSet(wpa.accepting)
     accepting_goal_states.add_from(
-        _itr.product(goal_states, spec.get_states()))
+        _itr.product(goal_states, spec.get_accepting_states()))
     cost, product_path = _gralgo.dijkstra_multiple_sources_multiple_targets(
         wpa,
         wpa.states.initial,
-- 
2.43.0


From 319c54796aef26dc3b08aeb61b4b9d1996e08c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 34/96] fix: a vector cost is not larger than itself

---
 tulip/transys/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/cost.py b/tulip/transys/cost.py
index f911228..f0e3d74 100644
--- a/tulip/transys/cost.py
+++ b/tulip/transys/cost.py
@@ -134,4 +134,4 @@ class VectorCost:
             if a == b:
                 continue
             return a > b
-        return True
+        return False
-- 
2.43.0


From 4630ffdd66f80e836583380d4dcb8358d16e9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 35/96] fix: shortest paths through nodes that are not
 comparable

---
 tulip/transys/graph_algorithms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/graph_algorithms.py b/tulip/transys/graph_algorithms.py
index 0732bc9..c447652 100644
--- a/tulip/transys/graph_algorithms.py
+++ b/tulip/transys/graph_algorithms.py
@@ -34,6 +34,7 @@
 import collections.abc as _abc
 import copy
 import heapq as _hp
+import itertools as _itr
 
 import tulip.transys.labeled_graphs as _graphs
 
@@ -74,9 +75,11 @@ def dijkstra_single_source_multiple_targets(
     """
     dist = {source: 0}
     visited = set()
-    Q = [(0, source, list())]
+    # count, to avoid comparing nodes when costs are equal
+    count = _itr.count()
+    Q = [(0, next(count), source, list())]
     while Q:
-        cost, u, path = _hp.heappop(Q)
+        cost, _, u, path = _hp.heappop(Q)
         if u in visited:
             continue
         visited.add(u)
@@ -92,7 +95,8 @@ def dijkstra_single_source_multiple_targets(
             new_cost = transition[2][cost_key] + cost
             if not current_cost or new_cost < current_cost:
                 dist[v] = new_cost
-                _hp.heappush(Q, (new_cost, v, path_to_u))
+                _hp.heappush(
+                    Q, (new_cost, next(count), v, path_to_u))
     return (
         float("inf"),
         list())
-- 
2.43.0


From c5938b8e403cfb33a05192c094054bb5ab455faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 36/96] fix: do not change the argument of synchronous_parallel

---
 tulip/transys/compositions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 4d474fc..44fbb19 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -121,6 +121,8 @@ def synchronous_parallel(
     """
     if transition_attr_operations is None:
         transition_attr_operations = dict()
+    transition_attr_operations = dict(
+        transition_attr_operations)
     # Let models = [K_1, ..., K_n].
     # Let
     # * prod_states = [S_1, ..., S_n]
-- 
2.43.0


From 9ff5da117473e5193383309bd492518f6312e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 37/96] fix: remove states of Rabin automata from acceptance
 pairs

---
 tulip/transys/automata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tulip/transys/automata.py b/tulip/transys/automata.py
index 73f76fd..5744b7c 100644
--- a/tulip/transys/automata.py
+++ b/tulip/transys/automata.py
@@ -604,6 +604,14 @@ class RabinAutomaton(
         self.accepting = RabinPairs(self.states)
         self.automaton_type = 'Rabin Automaton'
 
+    def remove_node(self, node):
+        """Remove state, also from the acceptance pairs."""
+        for pair in self.accepting:
+            for states in pair:
+                if node in states:
+                    states.remove(node)
+        _graphs.LabeledDiGraph.remove_node(self, node)
+
 
 class DRA(
         RabinAutomaton):
-- 
2.43.0


From 8554ae84c14bba493f91b61dd56032cf9d50e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 38/96] fix: dump labels of the transition system as JSON list

---
 tulip/transys/mathfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/mathfunc.py b/tulip/transys/mathfunc.py
index 04a4a5e..22bbba1 100644
--- a/tulip/transys/mathfunc.py
+++ b/tulip/transys/mathfunc.py
@@ -90,7 +90,7 @@ class LabeledStateInputOutputPair:
             ) -> dict:
         """Convert this object to a jsonable object, i.e., a dictionary"""
         labels = (
-            transys.states[self.state]["ap"]
+            list(transys.states[self.state]["ap"])
             if transys is not None else self.labels)
         ret = dict(
             state=self.state,
-- 
2.43.0


From 614319df4915154adbd6c569db5cb059d6361b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 39/96] fix: labels of a composition are not those of the
 single component

---
 tulip/transys/compositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/compositions.py b/tulip/transys/compositions.py
index 44fbb19..c66f828 100644
--- a/tulip/transys/compositions.py
+++ b/tulip/transys/compositions.py
@@ -161,7 +161,8 @@ def synchronous_parallel(
         ts.states[state]["ap"] = _ft.reduce(
             _op.or_, [
                 models[i].states[state[i]]["ap"]
-                for i in range(len(models))])
+                for i in range(len(models))],
+            set())
     #
     # Compute the initial state of ts:
     # I = I_1 \times ... \times I_n
-- 
2.43.0


From 73bd9446c1f99a8c6e40d49ccb1a8dea539586c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 40/96] fix: product with several enabled transitions to the
 same state

---
 tulip/transys/products.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/products.py b/tulip/transys/products.py
index c289b95..d0c930b 100644
--- a/tulip/transys/products.py
+++ b/tulip/transys/products.py
@@ -373,7 +373,9 @@ def find_prod_succ(
                     letter=fts.states[to_s]['ap'])
             elif hasattr(product, 'actions'):
                 if not sublabel_values:
-                    product.transitions.add(prev_sq, new_sq)
+                    # already added for another letter ?
+                    if not product.has_edge(prev_sq, new_sq):
+                        product.transitions.add(prev_sq, new_sq)
                 else:
                     product.transitions.add(
                         prev_sq, new_sq,
-- 
2.43.0


From 6d30eba3bd351b408947697df3fd1b4903297b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 41/96] fix: do not round probabilities in Prism files

---
 tulip/interfaces/stormpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 8aac79c..d6e307c 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -290,7 +290,7 @@ def to_prism_file(
         return transition_dict
     # Return a properly formatted string for the given probability
     def get_prob_str(prob):
-        return f'{prob:.4f}'
+        return repr(float(prob))
     # Return a string representing the
     # state with the given index and whether
     # it is primed (primed in prism file
-- 
2.43.0


From 0375a92f65e82a6c9de836e8d22ea28f4d20b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 42/96] fix: propositions that label no state in Prism files

---
 tulip/interfaces/stormpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index d6e307c..c645b1e 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -355,7 +355,7 @@ def to_prism_file(
             state_str = '|'.join(
                 ['(' + get_state_str(state_list.index(s), False) + ')'
                  for s in states]
-            )
+            ) or 'false'
             f.write(
                 f'label "{label}" = {state_str};\n')
 
-- 
2.43.0


From f1fd418da83d4b06925d5335060999de3d16d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 43/96] fix: policy from the actions that are available at each
 state

---
 tulip/interfaces/stormpy.py | 51 +++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index c645b1e..1e24e06 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -428,20 +428,61 @@ def _extract_policy(
         raise ValueError(stormpy_policy)
     tulip_policy = _mathfunc.FunctionOnLabeledState(
         'state', MDP.action_label)
-    action_map = get_action_map(stormpy_model, tulip_transys)
     for state in stormpy_model.states:
         tulip_state = to_tulip_state(state, tulip_transys)
         choice = stormpy_policy.get_choice(state)
-        action = choice.get_deterministic_choice()
+        # the choice is an index among the actions at `state`
+        actions = list(state.actions)
+        action = actions[choice.get_deterministic_choice()]
         tulip_policy.add(
             tulip_state,
-            to_tulip_action(
-                action, stormpy_model,
-                tulip_transys, action_map),
+            _find_tulip_action(
+                tulip_state, action,
+                stormpy_model, tulip_transys),
             to_tulip_labels(state, tulip_transys))
     return tulip_policy
 
 
+def _find_tulip_action(
+        from_state_tulip,
+        stormpy_action,
+        stormpy_model,
+        tulip_transys:
+            MDP,
+        prob_tol:
+            float=1e-6):
+    """Return action at `from_state_tulip` as `stormpy_action`.
+
+    The action that is returned leads from `from_state_tulip`
+    to each state with the same probability
+    as `stormpy_action` does, with the given `prob_tol`.
+    """
+    probability = dict()
+    for transition in stormpy_action.transitions:
+        to_state = to_tulip_state(
+            stormpy_model.states[transition.column],
+            tulip_transys)
+        probability[to_state] = (
+            probability.get(to_state, 0)
+            + transition.value())
+    tulip_probability = dict()
+    for _, to_state, attr in tulip_transys.transitions.find(
+            [from_state_tulip]):
+        to_states = tulip_probability.setdefault(
+            attr[MDP.action_label], dict())
+        to_states[to_state] = (
+            to_states.get(to_state, 0)
+            + attr[MC.probability_label])
+    for action, to_states in tulip_probability.items():
+        if all(abs(probability.get(s, 0) - to_states.get(s, 0))
+                <= prob_tol
+                for s in set(probability) | set(to_states)):
+            return action
+    raise ValueError(
+        'Cannot find an action on '
+        f'`tulip_transys` corresponding to {stormpy_action}')
+
+
 def _extract_probability(
         stormpy_result,
         stormpy_model,
-- 
2.43.0


From 84711c7a09c425a083042efc8ac93c1b48d3f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 44/96] fix: policy at states where any action will do

---
 tulip/interfaces/stormpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 1e24e06..1f05a76 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -433,7 +433,11 @@ def _extract_policy(
         choice = stormpy_policy.get_choice(state)
         # the choice is an index among the actions at `state`
         actions = list(state.actions)
-        action = actions[choice.get_deterministic_choice()]
+        if choice.defined:
+            action = actions[choice.get_deterministic_choice()]
+        else:
+            # any action will do
+            action = actions[0]
         tulip_policy.add(
             tulip_state,
             _find_tulip_action(
-- 
2.43.0


From 586215f56369f6722d6f97b39d868c17bd3a6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 45/96] fix: mark accepting states in DOT graphs

---
 tulip/transys/export/graph2dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index aff4c81..11a37a3 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -420,7 +420,7 @@ def _is_accepting(
         ) -> bool:
     """accepting state ?"""
     # no accepting states defined ?
-    if not hasattr(graph.states, 'accepting'):
+    if not hasattr(graph, 'accepting'):
         return False
     return state in graph.accepting
 
-- 
2.43.0


From 8b46cdc8dad7636bc94a3480c21627e8cd83b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 46/96] fix: quotes of attributes in DOT graphs

---
 tulip/transys/export/graph2dot.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index 11a37a3..8ddf118 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -141,7 +141,7 @@ def _state2dot(
     accept_shape = graph.dot_node_shape.get('accepting', '')
     shape = accept_shape if is_accepting else normal_shape
     corners = 'rounded' if shape == 'rectangle' else ''
-    rim_color = '"' + _format_color(rim_color, 'dot') + '"'
+    rim_color = _format_color(rim_color, 'dot')
     fc = d.get('fillcolor', 'none')
     filled = '' if fc == 'none' else 'filled'
     if fc == 'gradient':
@@ -170,18 +170,18 @@ def _state2dot(
     else:
         fillcolor = _format_color(fc, 'dot')
     if corners and filled:
-        node_style = f'"{corners}, {filled}"'
+        node_style = f'{corners}, {filled}'
     elif corners:
-        node_style = f'"{corners}"'
+        node_style = corners
     else:
-        node_style = f'"{filled}"'
+        node_style = filled
     to_dot_graph.add_node(
         state,
         label=node_dot_label,
         shape=shape,
         style=node_style,
         color=rim_color,
-        fillcolor=f'"{fillcolor}"')
+        fillcolor=fillcolor)
 
 
 def _state2tikz(
@@ -319,7 +319,7 @@ def _add_incoming_edge(
     phantom_node = f'phantominit{state}'
     g.add_node(
         phantom_node,
-        label='""',
+        label='',
         shape='none',
         width='0')
     g.add_edge(phantom_node, state)
@@ -510,7 +510,6 @@ def _form_edge_label(
                   label_str + sep_label_sets)
     if tikz:
         label = r'\\begin{matrix}' + label + r'\\end{matrix}'
-    label = f'"{label}"'
     return label
 
 
-- 
2.43.0


From 1f7786262104d7275ea9335bc07ba68f76307dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 47/96] fix: save images in the given file

---
 tulip/transys/export/graph2dot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index 8ddf118..18d1ade 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -598,13 +598,14 @@ def save_dot(
         return False
     dot_graph.graph_attr['rankdir'] = rankdir
     dot_graph.graph_attr['splines'] = 'true'
-    dot_graph.render(
-        filename=path,
+    data = dot_graph.pipe(
         format=fileformat,
         engine=prog,
         quiet=tikz)
             # tikz labels can raise
             # graphviz warnings
+    with open(path, 'wb') as f:
+        f.write(data)
     return True
 
 
-- 
2.43.0


From 5eb0f0a2e36c003b84a95e0f9605b464b9a297de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 48/96] fix: transitions in Promela

---
 tulip/transys/export/graph2promela.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index 6643f90..c0e0c5d 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -127,8 +127,7 @@ def fts2promela(
     ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
-            {state},
-            as_dict=True)
+            {state})
         s += str(state).replace(' ', '_') + ':'
         s += trans2promela(
             out_transitions, graph,
-- 
2.43.0


From fe70fb1dc0f68c93fe36adb57084603109795a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 49/96] fix: propositions in initial states, and names in
 Promela

---
 tulip/transys/export/graph2promela.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index c0e0c5d..a19b9c1 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -100,18 +100,22 @@ def fts2promela(
                 '\t :: atomic{\n'
                 f'\t\t printf("{sublabels_dict}\\n");\n'
                 f'{state_ap2promela(to_state, graph, ap_alphabet)}'
-                f'\t\t goto {to_state}\n'
+                f'\t\t goto {name_of(to_state)}\n'
                 '\t }\n')
         s += '\t fi;\n\n'
         return s
+
+    def name_of(state) -> str:
+        return str(state).replace(' ', '_')
+
     def get_label_of(state, graph):
         state_label_pairs = graph.states.find([state])
         state_, ap_label = state_label_pairs[0]
-        print(f'state:\t{state}')
-        print(f'ap label:\t{ap_label}')
         return ap_label['ap']
     if procname is None:
         procname = graph.name
+    if not procname:
+        procname = 'fts'
     s = '/*\n * Promela file generated with TuLiP\n'
     tm = time.strftime('%x %X %z')
     s += f' * Date: {tm}\n */\n\n'
@@ -121,14 +125,18 @@ def fts2promela(
             s += f'bool {ap};\n'
     s += f'\nactive proctype {procname}(){{\n'
     s += '\t if\n'
+    ap_alphabet = graph.atomic_propositions
     for initial_state in graph.states.initial:
-        s += f'\t :: goto {initial_state}\n'
+        s += (
+            '\t :: atomic{\n'
+            f'{state_ap2promela(initial_state, graph, ap_alphabet)}'
+            f'\t\t goto {name_of(initial_state)}\n'
+            '\t }\n')
     s += '\t fi;\n'
-    ap_alphabet = graph.atomic_propositions
     for state in graph.states():
         out_transitions = graph.transitions.find(
             {state})
-        s += str(state).replace(' ', '_') + ':'
+        s += name_of(state) + ':'
         s += trans2promela(
             out_transitions, graph,
             ap_alphabet)
-- 
2.43.0


From 28a61ac5fcc12ce6a939f44e2ff0f2aa75b1a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 50/96] fix: export of Mealy machines to SCXML

---
 tulip/transys/export/machine2scxml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tulip/transys/export/machine2scxml.py b/tulip/transys/export/machine2scxml.py
index 5143e55..1b9280b 100644
--- a/tulip/transys/export/machine2scxml.py
+++ b/tulip/transys/export/machine2scxml.py
@@ -81,7 +81,7 @@ def mealy2scxml(
             s += (
                 f'{indent(n)}event="input_present" '
                 f'{indent(n)}cond="{sublabel_dict}" '
-                f'{indent(n)}target="{to_state}"/>')
+                f'{indent(n)}target="{to_state}">')
             n = n - 1
             s += f'{indent(n)}</transition>'
         return s
@@ -92,8 +92,8 @@ def mealy2scxml(
     if len(mealy.states.initial) != 1:
         raise Exception(
             'Must have exactly 1 initial state.\n'
-            f'Got instead:\n\t{mealy.states.initial()}')
-    initial_state = mealy.states.initial()[0]
+            f'Got instead:\n\t{mealy.states.initial}')
+    initial_state, = mealy.states.initial
     s += f'initial="{initial_state}">\n'
     for state in mealy.states():
         s += (
-- 
2.43.0


From 0b97e87909033404595267231eebad16be7d37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:01 +0000
Subject: [PATCH 51/96] fix: links of graphs exported to d3

---
 tulip/transys/export/save_d3.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index afb7a95..0408461 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -157,12 +157,18 @@ def labeled_digraph2d3(
 
     var graph = """
     # embed to avoid browser local file-loading restrictions
-    try:
-        s += _nxrw.json_graph.dumps(graph)
-    except:
-        # better error msg for numpy array
-        data = _nxrw.json_graph.node_link_data(graph)
-        s += json.dumps(data, default=lambda x: str(x))
+    data = _nxrw.json_graph.node_link_data(graph)
+    # depends on the version of `networkx`
+    if 'links' not in data:
+        data['links'] = data.pop('edges')
+    # d3 finds the ends of links by position among nodes
+    index = {
+        u: i for i, u in enumerate(graph)}
+    for link in data['links']:
+        link['source'] = index[link['source']]
+        link['target'] = index[link['target']]
+    # better error msg for numpy array
+    s += json.dumps(data, default=lambda x: str(x))
     s += ';'
     s += """
     function draw(graph){
-- 
2.43.0


From 8bb570b9af5418086061554ce01dc991fa2a1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:01 +0000
Subject: [PATCH 52/96] fix: states without transitions in Promela

---
 tulip/transys/export/graph2promela.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/transys/export/graph2promela.py b/tulip/transys/export/graph2promela.py
index a19b9c1..1074bd2 100644
--- a/tulip/transys/export/graph2promela.py
+++ b/tulip/transys/export/graph2promela.py
@@ -94,6 +94,8 @@ def fts2promela(
             ap_alphabet:
                 _abc.Iterable
             ) -> str:
+        if not transitions:
+            return '\t false;\n\n'
         s = '\t if\n'
         for from_state, to_state, sublabels_dict in transitions:
             s += (
-- 
2.43.0


From 0b44b8bf862bd36cda5bbfa8781a81645ed18137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 53/96] fix: labels without format in graphs exported to d3

---
 tulip/transys/export/save_d3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/export/save_d3.py b/tulip/transys/export/save_d3.py
index 0408461..82bb1dd 100644
--- a/tulip/transys/export/save_d3.py
+++ b/tulip/transys/export/save_d3.py
@@ -51,7 +51,8 @@ def _format_label(
     """Format state/edge labels, which pop-up on mouse hover."""
     s = '"\\n\\n" +'
     for sublabel_name in label_def:
-        shown_name = label_dot_format[sublabel_name]
+        shown_name = label_dot_format.get(
+            sublabel_name, sublabel_name)
         kv_sep = label_dot_format['type?label']
         sep = label_dot_format['separator']
         s += f'"{shown_name}{kv_sep}" '
-- 
2.43.0


From 446f5716bbd806c177a00f55cbe9c5b1b00cca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 54/96] fix: gridworlds that share the content of a cell were
 equal

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index bb35f2a..ba7e64e 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -133,7 +133,7 @@ class GridWorld:
                 # the two is undefined.
         if self.size() != other.size():
             return False
-        if np.all(self.W != other.W):
+        if np.any(self.W != other.W):
             return False
         if self.goal_list != other.goal_list:
             return False
-- 
2.43.0


From 95e02ba48e82cf6f05d34c4ae7b01ce5108d38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 55/96] fix: copies of gridworlds lost the order of goals, and
 goals at initial cells

---
 tulip/gridworld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index ba7e64e..80fdba0 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -215,9 +215,13 @@ class GridWorld:
             return out
 
     def __copy__(self):
-        return GridWorld(
-            self.dumps(),
-            prefix=self.prefix)
+        gw = GridWorld(prefix=self.prefix)
+        if self.W is not None:
+            gw.W = self.W.copy()
+        gw.init_list = list(self.init_list)
+        gw.goal_list = list(self.goal_list)
+        gw.offset = self.offset
+        return gw
 
     def copy(self) -> 'GridWorld':
         """Deep-copy GridWorld instance.
-- 
2.43.0


From fe920f0bd807be8d966ae978ba015a2277a0ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 56/96] fix: cells outside of the gridworld could be empty in
 extended subworlds

---
 tulip/gridworld.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 80fdba0..750299d 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -818,20 +818,16 @@ class GridWorld:
                 offset[0] + size[0]), offset[1]:(offset[1] + size[1])].copy()
         else:
             sub = GridWorld(prefix=prefix)
-            sub.W = np.ones(size)
+            sub.W = np.ones(size, dtype=np.int32)
             self_offset = (max(offset[0], 0), max(offset[1], 0))
-            self_offset = (min(self_offset[0], self.W.shape[
-                           0] - 1), min(self_offset[1], self.W.shape[1] - 1))
             sub_offset = (max(-offset[0], 0), max(-offset[1], 0))
-            sub_offset = (min(sub_offset[0], sub.W.shape[
-                          0] - 1), min(sub_offset[1], sub.W.shape[1] - 1))
             actual_size = (
-                min(size[0],
+                max(0, min(
                     self.W.shape[0] - self_offset[0],
-                    sub.W.shape[0] - sub_offset[0]),
-                min(size[1],
+                    sub.W.shape[0] - sub_offset[0])),
+                max(0, min(
                     self.W.shape[1] - self_offset[1],
-                    sub.W.shape[1] - sub_offset[1]))
+                    sub.W.shape[1] - sub_offset[1])))
             sub.W[sub_offset[0]:(sub_offset[0] + actual_size[0]),
                   sub_offset[1]:(sub_offset[1] + actual_size[1])] = self.W[
                 self_offset[0]:(self_offset[0] + actual_size[0]),
-- 
2.43.0


From 27af0f5cd32858a7c23a09b8ddb36ef15232242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 57/96] fix: unoccupied gridworlds and narrow passages ignored
 the given prefix

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 750299d..f82f886 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1360,7 +1360,7 @@ def unoccupied(
         raise TypeError("invalid gridworld size.")
     return GridWorld(
         f'{size[0]} {size[1]}',
-        prefix="Y")
+        prefix=prefix)
 
 
 def add_trolls(
-- 
2.43.0


From 38829ced0707504bb9d1b146fa4d6df23a3ed00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 58/96] fix: comments between rows of gridworld descriptions
 raised

---
 tulip/gridworld.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index f82f886..100c0d3 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -680,6 +680,9 @@ class GridWorld:
                 # row definitions
                 if row_index >= W.shape[0]:
                     break
+                if line.startswith("#"):
+                    continue
+                        # Ignore comment lines
                 for j in range(min(len(line), W.shape[1])):
                     if line[j] == " ":
                         W[row_index][j] = 0
-- 
2.43.0


From 88e11c2f3288de7901346fd46d857e71bccf256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 59/96] fix: Boolean variables of trolls were named differently
 in mutual exclusion

---
 tulip/gridworld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 100c0d3..6d124bb 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1461,7 +1461,7 @@ def add_trolls(
                         offset=t_offset, nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
-        spec |= Xi[1].spec(offset=(-Xi[0][0], -Xi[0][1]),
+        spec |= Xi[1].spec(offset=Xi[0],
                            controlled_dyn=False, nonbool=nonbool)
     # Mutual exclusion
     for i in range(Y.size()[0]):
-- 
2.43.0


From 69a96e3a137a7fda5903233cfd2f68059d1aa8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 60/96] fix: states of trolls had values that the variables of
 trolls cannot have

---
 tulip/gridworld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/gridworld.py b/tulip/gridworld.py
index 6d124bb..eccd725 100644
--- a/tulip/gridworld.py
+++ b/tulip/gridworld.py
@@ -1458,7 +1458,8 @@ def add_trolls(
                 for j in range(t_size[1]):
                     moves_N[-1].append(
                         X[-1][1].state((i, j),
-                        offset=t_offset, nonbool=nonbool))
+                        offset=(0, 0) if nonbool else t_offset,
+                        nonbool=nonbool))
     spec = Y.spec(controlled_dyn=True, nonbool=nonbool)
     for Xi in X:
         spec |= Xi[1].spec(offset=Xi[0],
-- 
2.43.0


From a8cfeb2a73fe25eb7427ebe3eca37efabe7d85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 61/96] fix: `add_grid` raised with recent `numpy`

Elements of the bounding box are arrays of one element,
which `float` does not accept.
---
 tulip/abstract/prop2partition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 76b1701..6dea680 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -550,7 +550,9 @@ def add_grid(
             'grid points parameters '
             'must be given.')
     dim = len(ppp.domain.A[0])
-    domain_bb = ppp.domain.bounding_box
+    domain_bb = [
+        corner.flatten()
+        for corner in ppp.domain.bounding_box]
     size_list = list()
     if grid_size != None:
         if isinstance(grid_size, list):
-- 
2.43.0


From 6b5cd24042c71addc922d08bf293b839e8cb3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 62/96] fix: `add_grid` raised in one dimension

---
 tulip/abstract/prop2partition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/prop2partition.py b/tulip/abstract/prop2partition.py
index 6dea680..4f18634 100644
--- a/tulip/abstract/prop2partition.py
+++ b/tulip/abstract/prop2partition.py
@@ -606,14 +606,11 @@ def add_grid(
             float(domain_bb[1][j]),
             size_list[j],
             abs_tol)
-        if j > 0:
-            if j == 1:
-                re_list = list_grid[j - 1]
-                re_list = product_interval(
-                    re_list, list_grid[j])
-            else:
-                re_list = product_interval(
-                    re_list, list_grid[j])
+        if j == 0:
+            re_list = list_grid[j]
+        else:
+            re_list = product_interval(
+                re_list, list_grid[j])
         j += 1
     new_list = list()
     parent = list()
-- 
2.43.0


From b7558f04884e3b48c1f227b4a0a1d1b42f2fd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 63/96] fix: `get_input` found no trajectory without weight for
 the center

The input was computed only when `mid_weight > 0`. Also, the weight
was added to the matrix `R` of the caller, and accumulated over
the polytopes of the target.
---
 tulip/abstract/find_controller.py | 97 ++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 41 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index c31ca6b..3850610 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -306,7 +306,6 @@ def get_input(
     P_end = regions[end]
     n = ssys.A.shape[1]
     m = ssys.B.shape[1]
-    idx = range((N - 1) * n, N * n)
     if conservative:
         # Take convex hull or P_start as constraint
         if len(P_start) > 0:
@@ -341,36 +340,28 @@ def get_input(
         # for each polytope in target region
         for P3 in P_end:
             cost = np.inf
-            if mid_weight > 0:
-                rc, xc = pc.cheby_ball(P3)
-                R[
-                    np.ix_(
-                        range(n * (N - 1), n * N),
-                        range(n * (N - 1), n * N)
-                    )
-                ] += mid_weight * np.eye(n)
-                r[idx, 0] += -mid_weight * xc
-                try:
-                    u, cost = get_input_helper(
-                        x0, ssys, P1, P3, N, R, r, Q, ord,
-                        closed_loop=closed_loop,
-                        solver=solver)
-                except _InputHelperLPException as ex:
-                    # The end state might consist of several polytopes.
-                    # For some of them there might not be a control action that
-                    # brings the system there. In that case the matrix
-                    # constructed by get_input_helper will be singular and the
-                    # LP solver cannot return a solution.
-                    # This is not a problem unless all polytopes in the end
-                    # region are unreachable, in which case it seems likely that
-                    # there is something wrong with the abstraction routine.
-                    _logger.info(repr(ex))
-                    _logger.info(
-                        'Failed to find control action from continuous '
-                        f'state {x0} in discrete state {start} '
-                        f'to a target polytope in the discrete state {end}.\n'
-                        f'Target polytope:\n{P3}')
-                r[idx, 0] += mid_weight * xc
+            R3, r3 = _add_mid_weight(
+                R, r, P3, n, N, mid_weight)
+            try:
+                u, cost = get_input_helper(
+                    x0, ssys, P1, P3, N, R3, r3, Q, ord,
+                    closed_loop=closed_loop,
+                    solver=solver)
+            except _InputHelperLPException as ex:
+                # The end state might consist of several polytopes.
+                # For some of them there might not be a control action that
+                # brings the system there. In that case the matrix
+                # constructed by get_input_helper will be singular and the
+                # LP solver cannot return a solution.
+                # This is not a problem unless all polytopes in the end
+                # region are unreachable, in which case it seems likely that
+                # there is something wrong with the abstraction routine.
+                _logger.info(repr(ex))
+                _logger.info(
+                    'Failed to find control action from continuous '
+                    f'state {x0} in discrete state {start} '
+                    f'to a target polytope in the discrete state {end}.\n'
+                    f'Target polytope:\n{P3}')
             if cost < low_cost:
                 low_u = u
                 low_cost = cost
@@ -379,22 +370,46 @@ def get_input(
                 'Did not find any trajectory')
     else:
         P3 = P_end
-        if mid_weight > 0:
-            rc, xc = pc.cheby_ball(P3)
-            R[
-                np.ix_(
-                    range(n * (N - 1), n * N),
-                    range(n * (N - 1), n * N)
-                )
-            ] += mid_weight * np.eye(n)
-            r[idx, 0] += -mid_weight * xc
+        R3, r3 = _add_mid_weight(
+            R, r, P3, n, N, mid_weight)
         low_u, cost = get_input_helper(
-            x0, ssys, P1, P3, N, R, r, Q, ord,
+            x0, ssys, P1, P3, N, R3, r3, Q, ord,
             closed_loop=closed_loop,
             solver=solver)
     return low_u
 
 
+def _add_mid_weight(
+        R:
+            np.ndarray,
+        r:
+            np.ndarray,
+        P3:
+            Polytope,
+        n:
+            int,
+        N:
+            int,
+        mid_weight:
+            float
+        ) -> tuple[
+            np.ndarray,
+            np.ndarray]:
+    """Return costs with weight for the center of `P3`.
+
+    The arguments `R` and `r` are not changed.
+    """
+    R = np.array(R, dtype=float)
+    r = np.array(r, dtype=float)
+    if mid_weight <= 0:
+        return R, r
+    _, xc = pc.cheby_ball(P3)
+    idx = range((N - 1) * n, N * n)
+    R[np.ix_(idx, idx)] += mid_weight * np.eye(n)
+    r[idx, 0] += -mid_weight * xc
+    return R, r
+
+
 def get_input_helper(
         x0:
             Point,
-- 
2.43.0


From 9a29f4ea7ba6d00e39184fa051f11a6e100c6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 64/96] fix: `get_input` raised if a polytope of the target is
 unreachable

With `ord = 2`, the other polytopes of the target were not tried.
---
 tulip/abstract/find_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 3850610..0d6d25d 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -347,7 +347,8 @@ def get_input(
                     x0, ssys, P1, P3, N, R3, r3, Q, ord,
                     closed_loop=closed_loop,
                     solver=solver)
-            except _InputHelperLPException as ex:
+            except (_InputHelperLPException,
+                    _InputHelperQPException) as ex:
                 # The end state might consist of several polytopes.
                 # For some of them there might not be a control action that
                 # brings the system there. In that case the matrix
-- 
2.43.0


From 383ae30a298d430c92ac7442bbd866b60b8bc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 65/96] fix: `get_input` constrained the state to a cell of
 another partition

`discretize` keeps the state within the convex cell of `pwa_ppp`.
`get_input` used the cell of the partition before it was convexified
and refined by the domains of subsystems.
---
 tulip/abstract/find_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 0d6d25d..ec4cf33 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -250,8 +250,9 @@ def get_input(
     part = abstraction.ppp
     regions = part.regions
     ofts = abstraction.ts
-    original_regions = abstraction.orig_ppp
-    orig = abstraction._ppp2orig
+    # convex cells used as `trans_set` by `discretize`
+    original_regions = abstraction.pwa_ppp
+    orig = abstraction._ppp2pwa
     params = abstraction.disc_params
     N = params['N']  # horizon length
     conservative = params['conservative']
-- 
2.43.0


From 7f1d59fb8702f55dc9a6394fe17a8c1cdb0540c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 66/96] fix: norms 1 and infinity ignored the initial state in
 `get_input`

The cost `|Rx|` was computed for the part of `x` that depends on the
input, so the returned input did not minimize the documented cost.
---
 tulip/abstract/find_controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index ec4cf33..42709a5 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -506,13 +506,15 @@ def get_input_helper(
         )] = A_row
         A_it = ssys.A.dot(A_it)
     Ct = A_K.dot(B_diag)
+    Rxc = R.dot(
+        A_N.dot(x0.reshape(x0.size, 1)) +
+        A_K.dot(K_hat))
     if ord == 1:
         # f(\epsilon,u) = sum(\epsilon)
         c_LP = np.hstack((np.ones((1, N * (n + m))), r.T.dot(Ct)))
         # Constraints -\epsilon_r < R*x <= \epsilon_r
         # Constraints -\epsilon_u < Q*u <= \epsilon_u
-        # x = A_N*x0 + Ct*u --> ignore the first constant part
-        # x  = Ct*u
+        # x = Ct*u + xc, where xc == A_N*x0 + A_K*K_hat
         G_LP = np.vstack((
             np.hstack((- np.eye(N * n),
                        np.zeros((N * n, N * m)),
@@ -526,7 +528,8 @@ def get_input_helper(
                        - np.eye(N * m), Q)),
             np.hstack((np.zeros((Lu.shape[0], N * n + N * m)), Lu))
         ))
-        h_LP = np.vstack((np.zeros((2 * N * (n + m), 1)), M))
+        h_LP = np.vstack((
+            Rxc, -Rxc, np.zeros((2 * N * m, 1)), M))
     elif ord == 2:
         assert_cvxopt()
         # symmetrize
@@ -571,7 +574,8 @@ def get_input_helper(
                        -np.ones((N * m, 1)), Q)),
             np.hstack((np.zeros((Lu.shape[0], 2)), Lu))
         ))
-        h_LP = np.vstack((np.zeros((2 * N * (n + m), 1)), M))
+        h_LP = np.vstack((
+            Rxc, -Rxc, np.zeros((2 * N * m, 1)), M))
     sol = pc.polytope.lpsolve(
         c_LP.flatten(), G_LP, h_LP,
         solver=solver)
-- 
2.43.0


From 6d697aa3394a8456e3d992a5526bb14ef540f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 67/96] fix: disturbance sets of more than ten vertices raised

Digits larger than 9 are letters.
---
 tulip/abstract/feasible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/feasible.py b/tulip/abstract/feasible.py
index 84ac667..98a1d6f 100644
--- a/tulip/abstract/feasible.py
+++ b/tulip/abstract/feasible.py
@@ -739,7 +739,7 @@ def get_max_extreme(
                     j * dim,
                     (j + 1) * dim),
                 i] = D_extreme[
-                    int(ind[-j - 1]),
+                    int(ind[-j - 1], base=36),
                     :]
     d_hat = np.amax(
         np.dot(G, DN_extreme),
-- 
2.43.0


From 3d41aee05b025fed0e9eac287ca9627bc944cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 68/96] fix: dual simulation added transitions that are
 infeasible

Volumes are computed by sampling, so the difference of two volumes
can be below the tolerance, or negative, for sets that differ.
---
 tulip/abstract/discretization.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index f707a55..d469914 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1395,9 +1395,7 @@ def _discretize_dual(
         risect, xi = pc.cheby_ball(isect)
         # _logger.debug(r'si \ s0')
         rsi, xd = pc.cheby_ball(si)
-        vol2 = si.volume - vol1
-            # not accurate.
-            # need to check polytope class
+        vol2 = si.diff(S0).volume
         if vol1 <= min_cell_volume:
             _logger.warning(
                 '\t too small: si \\cap Pre(sj), '
-- 
2.43.0


From 759ce5231c1fe4f4017503a41902d9724d53a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 69/96] fix: dual simulation raised for piecewise affine
 systems

---
 tulip/abstract/discretization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index d469914..ea4f24a 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1450,6 +1450,9 @@ def _discretize_dual(
                 adj[i, new_idx] = 1
                 adj[new_idx, i] = 1
                 adj[new_idx, new_idx] = 1
+                # keep track of PWA subsystems map to new states
+                if ispwa:
+                    subsys_list.append(subsys_list[i])
                 if not conservative:
                     orig = np.hstack([orig, orig[i]])
                 if _logger.getEffectiveLevel() <= logging.DEBUG:
-- 
2.43.0


From be3034da54a3b6790e37e9c0e19f56d7e1bd1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 70/96] fix: maps of conservative abstractions to original
 cells were missing

The methods `ppp2pwa`, `ppp2orig`, `ppp2trans` of `AbstractPwa` raised
`IndexError` for cells other than the first one.
---
 tulip/abstract/discretization.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index ea4f24a..ab04473 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -771,7 +771,7 @@ def _discretize_bi(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part) # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -998,8 +998,7 @@ def _discretize_bi(
                 adj[i, r] = 1
                 adj[r, i] = 1
                 adj[r, r] = 1
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
             # adjacency between pieces of `isect` and `diff`
             for r in new_idx:
                 for k in new_idx:
@@ -1286,7 +1285,7 @@ def _discretize_dual(
     # Save original polytopes, require them to be convex
     if conservative:
         orig_list = None
-        orig = [0]
+        orig = list(range(len(part)))
     else:
         part, new2old = _p2p.part2convex(part)  # convexify
         part2orig = [part2orig[i] for i in new2old]
@@ -1453,8 +1452,7 @@ def _discretize_dual(
                 # keep track of PWA subsystems map to new states
                 if ispwa:
                     subsys_list.append(subsys_list[i])
-                if not conservative:
-                    orig = np.hstack([orig, orig[i]])
+                orig = np.hstack([orig, orig[i]])
                 if _logger.getEffectiveLevel() <= logging.DEBUG:
                     _logger.debug(
                         f'\t\n Adding states {new_idx}\n')
-- 
2.43.0


From 27c0b652468997c75385e0375f929995a6220655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 71/96] fix: `verify_transitions` ignored that an abstraction
 is open loop

---
 tulip/abstract/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index ab04473..a7085e6 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -483,7 +483,7 @@ class AbstractPwa:
             i, from_region = self.ts2ppp(from_state)
             j, to_region = self.ts2ppp(to_state)
             trans_set, sys = self.ppp2trans(i)
-            params = {'N', 'close_loop', 'use_all_horizon'}
+            params = {'N', 'closed_loop', 'use_all_horizon'}
             disc_params = {
                 k: v
                 for k, v in self.disc_params.items()
-- 
2.43.0


From 2872782b8a427b9ac980fab9c57c078e1e83c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 72/96] fix: `discretize_switched` passed wrong parameters to
 other functions

The default parameters were not keyed by mode, `KeyError` was raised if
`N` or `trans_length` was omitted, `closed_loop` was ignored, and
`multiproc_discretize_switched` blocked forever because `TypeError` was
raised in the worker processes.
---
 tulip/abstract/discretization.py | 38 ++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index a7085e6..39a5aaf 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1809,6 +1809,8 @@ def multiproc_discretize_switched(
     """
     _logger.info('parallel `discretize_switched` started')
     modes = list(hybrid_sys.modes)
+    if disc_params is None:
+        disc_params = _default_params(modes)
     mode_nums = hybrid_sys.disc_domain_size
     q = mp.Queue()
     mode_args = dict()
@@ -1839,7 +1841,7 @@ def multiproc_discretize_switched(
     # find feasible transitions over merged partition
     for mode in modes:
         cont_dyn = hybrid_sys.dynamics[mode]
-        params = disc_params[mode]
+        params = _transitions_params(disc_params[mode])
         mode_args[mode] = (
             q, merged_abstr, mode, cont_dyn, params)
     jobs = [
@@ -1896,10 +1898,10 @@ def discretize_switched(
         abstracted dynamics,
         some attributes are `dict` keyed by mode
     """
-    if disc_params is None:
-        disc_params = dict(N=1, trans_length=1)
     _logger.info('discretizing hybrid system')
     modes = list(hybrid_sys.modes)
+    if disc_params is None:
+        disc_params = _default_params(modes)
     mode_nums = hybrid_sys.disc_domain_size
     # discretize each abstraction separately
     abstractions = dict()
@@ -1921,11 +1923,9 @@ def discretize_switched(
     trans = dict()
     for mode in modes:
         cont_dyn = hybrid_sys.dynamics[mode]
-        params = disc_params[mode]
+        params = _transitions_params(disc_params[mode])
         trans[mode] = get_transitions(
-            merged_abstr, mode, cont_dyn,
-            N=params['N'],
-            trans_length=params['trans_length'])
+            merged_abstr, mode, cont_dyn, **params)
     # merge the abstractions, creating a common TS
     merge_abstractions(
         merged_abstr, trans,
@@ -1936,6 +1936,28 @@ def discretize_switched(
     return merged_abstr
 
 
+def _default_params(
+        modes:
+            list[tuple]
+        ) -> dict[tuple, dict]:
+    """Return default parameters for each mode."""
+    return {
+        mode: dict(N=1, trans_length=1)
+        for mode in modes}
+
+
+def _transitions_params(
+        disc_params:
+            dict
+        ) -> dict:
+    """Return those parameters that `get_transitions` takes."""
+    names = {'N', 'closed_loop', 'trans_length'}
+    return {
+        k: v
+        for k, v in disc_params.items()
+        if k in names}
+
+
 def plot_mode_partitions(
         swab:
             AbstractSwitched,
@@ -2085,6 +2107,8 @@ def get_transitions(
         sj = part[j]
         # Use original cell as trans_set
         trans_set = abstract_sys.ppp2pwa(mode, i)[1]
+        if len(trans_set) == 1:
+            trans_set = trans_set[0]
         active_subsystem = abstract_sys.ppp2sys(mode, i)[1]
         trans_feasible = _fsb.is_feasible(
             si, sj, active_subsystem, N,
-- 
2.43.0


From 80e9e9530c8e92749ecb7c688a14580e90ee71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 73/96] fix: modes with integer labels could not be merged

Transitions are labeled with `str` of the labels, but the labels
were declared as actions.
---
 tulip/abstract/discretization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 39a5aaf..d79d38c 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2046,7 +2046,6 @@ def merge_abstractions(
                 env_actions=str(e),
                 sys_actions=str(s))
             for e, s in modes}
-        env_actions, sys_actions = zip(*modes)
         sys_ts.env_actions.add_from(env_actions)
         sys_ts.sys_actions.add_from(sys_actions)
     for mode in modes:
-- 
2.43.0


From 9e6e64e2fa998c3422e0342d2538991056023827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 74/96] fix: `from_lti` raised if `E` or `K` were omitted

---
 tulip/hybrid.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tulip/hybrid.py b/tulip/hybrid.py
index e04dade..ac44c61 100644
--- a/tulip/hybrid.py
+++ b/tulip/hybrid.py
@@ -540,10 +540,6 @@ class PwaSysDyn:
             A = list()
         if B is None:
             B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         lti_sys = LtiSysDyn(
             A, B, E, K, Uset, Wset, domain)
         return cls([lti_sys], domain)
@@ -854,10 +850,6 @@ class SwitchedSysDyn:
             A = list()
         if B is None:
             B = list()
-        if E is None:
-            E = list()
-        if K is None:
-            K = list()
         pwa_sys = PwaSysDyn.from_lti(
             A, B, E, K,
             Uset, Wset, domain)
-- 
2.43.0


From bdf2705d7ed26b2edc1f2422bd7228468976eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 75/96] fix: conservative abstractions had transitions that
 leave the cell

Transitions of a cell were kept when the cell was divided, but their
paths stay within the cell that was divided, not within the new cell.
---
 tulip/abstract/discretization.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index d79d38c..d7e36ed 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -977,7 +977,11 @@ def _discretize_bi(
                 transitions[j, r] = 0
             # `sol[j]` is reachable from
             # intersection of `sol[i]` and `S0`
-            if i != j:
+            if conservative and N > 1:
+                # paths within the cell that was divided
+                # could leave the smaller cell
+                transitions[:, i] = 0
+            elif i != j:
                 transitions[j, i] = 1
                 # `sol[j]` is reachable from
                 # each piece of `S0 \cap sol[i]`
@@ -1427,7 +1431,8 @@ def _discretize_dual(
                     _logger.info(
                         f'Found: {idx} ---> {j} '
                         'intersection exists.\n')
-                    transitions[j, idx] = 1
+                    if not conservative or N == 1:
+                        transitions[j, idx] = 1
                     check_isect = True
             if not check_isect:
                 # Make sure new areas are Regions
@@ -1476,14 +1481,17 @@ def _discretize_dual(
                 # transitions `i` ---> `k` for `k` is
                 # neighbor of `new_idx` should be
                 # kept by `new_idx`
-                transitions[:, new_idx
-                    ] = np.multiply(
-                        transitions[:, i],
-                        adj_k[:, i])
-                # if `j` and `new_idx` are neighbors,
-                # then add `new_idx` ---> `j`
-                if adj_k[j, new_idx] != 0:
-                    transitions[j, new_idx] = 1
+                # (unless the paths of these transitions
+                # could leave the smaller cell)
+                if not conservative or N == 1:
+                    transitions[:, new_idx
+                        ] = np.multiply(
+                            transitions[:, i],
+                            adj_k[:, i])
+                    # if `j` and `new_idx` are neighbors,
+                    # then add `new_idx` ---> `j`
+                    if adj_k[j, new_idx] != 0:
+                        transitions[j, new_idx] = 1
                 #
                 # Update IJ matrix
                 IJ = np.pad(IJ, (0, 1), 'constant')
-- 
2.43.0


From ed4acd6c2b8138f5256b92a08152c064b3086521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 76/96] fix: `is_seq_inside` raised for every sequence of
 inputs

`polytope.is_inside` takes a one-dimensional array.
---
 tulip/abstract/find_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index 42709a5..dc276f4 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -647,11 +647,11 @@ def is_seq_inside(
     for i in range(N - 1):
         u = u_seq[i, :].reshape(u_seq[i, :].size, 1)
         x = A.dot(x) + B.dot(u) + K
-        if not pc.is_inside(P0, x):
+        if x.flatten() not in P0:
             inside = False
     un_1 = u_seq[N - 1, :].reshape(u_seq[N - 1, :].size, 1)
     xn = A.dot(x) + B.dot(un_1) + K
-    if not pc.is_inside(P1, xn):
+    if xn.flatten() not in P1:
         inside = False
     return inside
 
-- 
2.43.0


From fd493a7b93a662c1fb11e13124c23b702888425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 77/96] fix: `get_input` raised if a polytope of the target was
 unreachable

The set of states that reach one of several polytopes of the
end cell can be empty, in closed loop.
---
 tulip/abstract/find_controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/abstract/find_controller.py b/tulip/abstract/find_controller.py
index dc276f4..dcc9899 100644
--- a/tulip/abstract/find_controller.py
+++ b/tulip/abstract/find_controller.py
@@ -466,6 +466,9 @@ def get_input_helper(
                 P1, temp_part, ssys, N=1,
                 closed_loop=False, trans_set=P1
             )
+            if pc.is_empty(temp_part):
+                raise _InputHelperLPException(
+                    'the target polytope is unreachable')
             list_P.insert(0, temp_part)
         list_P.insert(0, P1)
         L, M = _fsb.createLM(ssys, N, list_P, disturbance_ind=[1])
-- 
2.43.0


From ddde9613292bac1d1a78438d19736624a5dc0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 78/96] fix: attribute `ppp2ts` was `None` after merging
 abstractions

`AbstractSwitched.plot` needs this attribute.
---
 tulip/abstract/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index d7e36ed..ee42c74 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2064,6 +2064,7 @@ def merge_abstractions(
             adj2states = states,
             **env_sys_actions)
     merged_abstr.ts = sys_ts
+    merged_abstr.ppp2ts = list(ppp2ts)
     merged_abstr.ppp2ts = ppp2ts
 
 
-- 
2.43.0


From d376296a22ae0a7f1c990b3143f9405100c4593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:12 +0000
Subject: [PATCH 79/96] fix: transitions without environment action did not
 allow all actions

If a state has a transition that is available for any environment
action, then the environment cannot block the system there, so no
assumption restricts the environment.
---
 tulip/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index ddff54e..e7983f3 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -1020,8 +1020,10 @@ def _env_trans_from_sys_ts(
                 for k, v in
                     label.items()
                 if 'env' in k}
+            # any env action is available ?
             if not env_actions:
-                continue
+                next_env_action_combs = set()
+                break
             _logger.debug(
                 f'env_actions: {env_actions}')
             _logger.debug(
-- 
2.43.0


From f1dda25d6ee9c5c430ddd9976e29076c2cd598f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:12 +0000
Subject: [PATCH 80/96] fix: values of state variables that represent no state

If the integers of states or actions are not contiguous, then the
variable could be equal to an integer between them, for example
initially, if the initial states are ignored.  A Boolean variable that
represents the only state could be false.
---
 tulip/synth.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tulip/synth.py b/tulip/synth.py
index e7983f3..3236773 100644
--- a/tulip/synth.py
+++ b/tulip/synth.py
@@ -376,7 +376,7 @@ def iter2var(
             s: 'boolean'
             for s in states})
         # single action ?
-        if len(mutex(state_ids.values())) == 0:
+        if len(mutex(state_ids.values())) == 0 and not min_one:
             return state_ids, None
         # handle multiple actions
         if use_mutex and not min_one:
@@ -425,6 +425,9 @@ def iter2var(
             for x in states}
         variables[statevar] = domain
         constraint = None
+        # integers that represent no state ?
+        if all_int and min_one and len(state_ids) <= n - min(states):
+            constraint = [_disj(state_ids.values())]
     tabs = 2 * '\t'
     _logger.debug(
         f'for tulip variable: {statevar}\n'
@@ -638,6 +641,7 @@ def sys_to_spec(
         statevar, bool_states,
         must='xor')
     if constraint is not None:
+        sys_init += constraint
         sys_trans += constraint
     sys_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
@@ -758,6 +762,7 @@ def env_to_spec(
         statevar, bool_states,
         must='xor')
     if constraint is not None:
+        env_init += constraint
         env_trans += constraint
     env_init += _sys_init_from_ts(
         states, state_ids, aps, ignore_initial)
-- 
2.43.0


From e49d83f762d4d29feeebbea56a66d53008043c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 81/96] fix: `|=` on `TypedDict` stored values that are not
 allowed

---
 tulip/transys/mathset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tulip/transys/mathset.py b/tulip/transys/mathset.py
index 457e7e9..2be5554 100644
--- a/tulip/transys/mathset.py
+++ b/tulip/transys/mathset.py
@@ -987,6 +987,13 @@ class TypedDict(
         for key in kwargs:
             self[key] = kwargs[key]
 
+    def __ior__(
+            self,
+            other
+            ) -> 'TypedDict':
+        self.update(other)
+        return self
+
     def setdefault(
             self,
             key,
-- 
2.43.0


From a1ab7405de3df8411ab95102babf22343239f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 82/96] fix: `stormpy.to_tulip_action` returned actions with
 other probabilities

Only transitions that both the action of Storm and an action of TuLiP have
were compared, so an action that leads elsewhere matched too.
---
 tulip/interfaces/stormpy.py | 69 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/tulip/interfaces/stormpy.py b/tulip/interfaces/stormpy.py
index 1f05a76..061baac 100644
--- a/tulip/interfaces/stormpy.py
+++ b/tulip/interfaces/stormpy.py
@@ -461,8 +461,33 @@ def _find_tulip_action(
     to each state with the same probability
     as `stormpy_action` does, with the given `prob_tol`.
     """
+    actions = _find_tulip_actions(
+        from_state_tulip, stormpy_action.transitions,
+        stormpy_model, tulip_transys, prob_tol)
+    if not actions:
+        raise ValueError(
+            'Cannot find an action on '
+            f'`tulip_transys` corresponding to {stormpy_action}')
+    return actions[0]
+
+
+def _find_tulip_actions(
+        from_state_tulip,
+        stormpy_transitions,
+        stormpy_model,
+        tulip_transys:
+            MDP,
+        prob_tol:
+            float
+        ) -> list:
+    """Return actions at `from_state_tulip` as `stormpy_transitions`.
+
+    Each of these actions leads from `from_state_tulip`
+    to each state with the same probability
+    as `stormpy_transitions` do, with the given `prob_tol`.
+    """
     probability = dict()
-    for transition in stormpy_action.transitions:
+    for transition in stormpy_transitions:
         to_state = to_tulip_state(
             stormpy_model.states[transition.column],
             tulip_transys)
@@ -477,14 +502,13 @@ def _find_tulip_action(
         to_states[to_state] = (
             to_states.get(to_state, 0)
             + attr[MC.probability_label])
-    for action, to_states in tulip_probability.items():
-        if all(abs(probability.get(s, 0) - to_states.get(s, 0))
+    return [
+        action
+        for action, to_states in tulip_probability.items()
+        if all(
+            abs(probability.get(s, 0) - to_states.get(s, 0))
                 <= prob_tol
-                for s in set(probability) | set(to_states)):
-            return action
-    raise ValueError(
-        'Cannot find an action on '
-        f'`tulip_transys` corresponding to {stormpy_action}')
+            for s in set(probability) | set(to_states))]
 
 
 def _extract_probability(
@@ -523,25 +547,10 @@ def _update_possible_actions_with_transitions(
     transition to each state matches `stormpy_transitions`
     with the given `prob_tol`.
     """
-    for stormpy_transition in stormpy_transitions:
-        to_state_tulip = to_tulip_state(
-            stormpy_model.states[stormpy_transition.column],
-            tulip_transys)
-        probability = stormpy_transition.value()
-        transitions = tulip_transys.transitions.find(
-            from_state_tulip,
-            [to_state_tulip])
-        for tulip_transition in transitions:
-            prob = abs(
-                tulip_transition[2][
-                    MC.probability_label] -
-                probability)
-            pred = prob > prob_tol
-            if not pred:
-                continue
-            try:
-                idx = possible_actions.index(
-                    tulip_transition[2][MDP.action_label])
-                possible_actions.pop(idx)
-            except ValueError:
-                pass
+    matching = _find_tulip_actions(
+        from_state_tulip, stormpy_transitions,
+        stormpy_model, tulip_transys, prob_tol)
+    possible_actions[:] = [
+        action
+        for action in possible_actions
+        if action in matching]
-- 
2.43.0


From ced3b304a00fb2498fa8a87b737b603088fb25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:23 +0000
Subject: [PATCH 83/96] fix: export of graphs to DOT for TikZ raised

A parameter had another name than the function uses. Also, nodes named
`phantominit...` were drawn, which is in addition to initial arrows of TikZ.
---
 tulip/transys/export/graph2dot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tulip/transys/export/graph2dot.py b/tulip/transys/export/graph2dot.py
index 18d1ade..eeaf916 100644
--- a/tulip/transys/export/graph2dot.py
+++ b/tulip/transys/export/graph2dot.py
@@ -187,7 +187,7 @@ def _state2dot(
 def _state2tikz(
         graph:
             '_trs.LabeledDiGraph',
-        to_pydot_graph,
+        to_dot_graph,
         state,
         is_initial:
             bool,
@@ -308,6 +308,9 @@ def _place_initial_states(
     init_subg.graph_attr['rank'] = 'source'
     for node in trs_graph.states.initial:
         init_subg.node(str(node))
+        if tikz:
+            # the node has style "initial by arrow"
+            continue
         phantom_node = f'phantominit{node}'
         init_subg.node(str(phantom_node))
     pd_graph.subgraph(init_subg)
-- 
2.43.0


From cc27a4fadfdc2ead00870073fcb57f3ffadee45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:17 +0000
Subject: [PATCH 84/96] fix: `python_case` wrote broken code for strings with
 quotes

The values of string-valued ports were written between apostrophes,
without escaping apostrophes, backslashes, and newlines.
---
 tulip/dumpsmach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tulip/dumpsmach.py b/tulip/dumpsmach.py
index 20e4849..0c5e4ca 100644
--- a/tulip/dumpsmach.py
+++ b/tulip/dumpsmach.py
@@ -124,7 +124,7 @@ def python_case(
     # cached generator
     ifs = lambda: _itr.chain(['if'], _itr.repeat('elif'))
     proj = lambda d, keys: ((k, d[k]) for k in d if k in keys)
-    proj = lambda d, keys: ((k, "'"+d[k]+"'" if isinstance(d[k], str) else d[k])
+    proj = lambda d, keys: ((k, repr(str(d[k])) if isinstance(d[k], str) else d[k])
                             for k in d if k in keys)
     # generate selection statements
     c = list()
-- 
2.43.0


From f4e0a8171ad30685f3011a8d3abc2ac9d2cce888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 85/96] fix: `gr1c.load_aut_xml` ignored its argument
 `namespace`

The variables, and items of lists in nodes, were searched for
in the default namespace, so they were not found in other ones.
---
 tulip/interfaces/gr1c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tulip/interfaces/gr1c.py b/tulip/interfaces/gr1c.py
index f2528f8..96ad72b 100644
--- a/tulip/interfaces/gr1c.py
+++ b/tulip/interfaces/gr1c.py
@@ -284,9 +284,11 @@ def load_aut_xml(
             f'{elem.attrib["version"]}')
     # Extract discrete variables and LTL specification
     tag_name, env_vardict, env_vars = _untagdict(elem.find(
-        ns_prefix+"env_vars"), get_order=True)
+        ns_prefix+"env_vars"),
+        namespace=namespace, get_order=True)
     tag_name, sys_vardict, sys_vars = _untagdict(elem.find(
-        ns_prefix+"sys_vars"), get_order=True)
+        ns_prefix+"sys_vars"),
+        namespace=namespace, get_order=True)
     # variables
     env_vars = _parse_vars(env_vars, env_vardict)
     sys_vars = _parse_vars(sys_vars, sys_vardict)
@@ -334,14 +336,16 @@ def load_aut_xml(
         #     # Assume version 1
         tag_name, this_name_list = _untaglist(
             node.find(f'{ns_prefix}anno'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if len(this_name_list) == 2:
             mode, rgrad = this_name_list
         else:
             mode, rgrad = (-1, -1)
         tag_name, this_child_list = _untaglist(
             node.find(f'{ns_prefix}child_list'),
-            cast_f=int)
+            cast_f=int,
+            namespace=namespace)
         if tag_name != f'{ns_prefix}child_list':
             # This really should never happen and may not even be
             # worth checking.
-- 
2.43.0


From f28e84a00057ecb0a8390733c2e6c7ac7a3bddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:32 +0000
Subject: [PATCH 86/96] fix: pass arguments to initialization of simulate2d

The helpers of simulate2d referred to
names of its scope, and were called without arguments,
so simulate2d raised for each value of qinit.
---
 tulip/abstract/plot.py | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index c917149..ef0832d 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -373,11 +373,15 @@ def simulate2d(
     #     initial controller state (discrete)
     match qinit:
         case r'\E \A' | r'\A \E':
-            s0_part, nd = _simulate2d_ea()
+            s0_part, nd = _simulate2d_ea(
+                ctrl, env_inputs, disc_dynamics)
         case r'\E \E':
-            s0_part, nd = _simulate2d_ee()
+            s0_part, nd = _simulate2d_ee(
+                ctrl, disc_dynamics)
         case r'\A \A':
-            s0_part, nd = _simulate2d_aa()
+            s0_part, nd = _simulate2d_aa(
+                ctrl, disc_dynamics,
+                d_init, x_init)
         case _:
             raise ValueError(qinit)
     # initialize continuous state for
@@ -428,9 +432,9 @@ def simulate2d(
             s0_loc == out['loc'],
             (s0_loc, out['loc']))
         print(f'outputs:\n    {out}\n')
-    _assert_pyplot()
     if not show_traj:
         return
+    _graphics._assert_pyplot()
     _plt.plot(x, label='x')
     _plt.plot(y, '--', label='y')
     _plt.xlabel('time')
@@ -440,7 +444,9 @@ def simulate2d(
 
 
 def _simulate2d_ea(
-        ctrl):
+        ctrl,
+        env_inputs,
+        disc_dynamics):
     # pick an initial discrete
     # system state given the
     # initial discrete environment state
@@ -456,14 +462,17 @@ def _simulate2d_ea(
             break
     _assert(
         v == nd, (v, nd))
-    s0_part = edge_data['loc']
+    s0_loc = edge_data['loc']
     _assert(
-        s0_part == out['loc'],
-        (s0_part, out))
+        s0_loc == out['loc'],
+        (s0_loc, out))
+    s0_part = disc_dynamics.ppp2ts.index(s0_loc)
     return s0_part, nd
 
 
-def _simulate2d_ee(ctrl):
+def _simulate2d_ee(
+        ctrl,
+        disc_dynamics):
     # pick an initial discrete state
     init_edges = ctrl.edges(
         'Sinit',
@@ -472,21 +481,27 @@ def _simulate2d_ee(ctrl):
         iter(init_edges))
     _assert(
         u == 'Sinit', u)
-    s0_part = edge_data['loc']
+    s0_part = disc_dynamics.ppp2ts.index(
+        edge_data['loc'])
     nd = v
     return s0_part, nd
 
 
-def _simulate2d_aa():
+def _simulate2d_aa(
+        ctrl,
+        disc_dynamics,
+        d_init,
+        x_init):
     _assert(
         d_init is not None)
     _assert(
         x_init is not None)
-    s0_part = find_node(
+    s0_part = _fnd.find_discrete_state(
         x_init, disc_dynamics.ppp)
+    s0_loc = disc_dynamics.ppp2ts[s0_part]
     _assert(
-        s0_part == d_init['loc'],
-        (s0_part, d_init))
+        s0_loc == d_init['loc'],
+        (s0_loc, d_init))
     # find the machine node with
     # `d_init` as discrete state
     init_edges = ctrl.edges(
-- 
2.43.0


From e7614da4368ad9c7c9b470c95a58338ee4d70be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:32 +0000
Subject: [PATCH 87/96] fix: include offset K of dynamics in simulate2d

---
 tulip/abstract/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index ef0832d..abff6bb 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -421,7 +421,9 @@ def simulate2d(
         for ind in range(N):
             s_now = np.dot(
                 sys_dyn.A, [x[-1], y[-1]]
-            ) + np.dot(sys_dyn.B, u[ind])
+            ) + np.dot(
+                sys_dyn.B, u[ind]
+            ) + sys_dyn.K.flatten()
             x.append(s_now[0])
             y.append(s_now[1])
         point = [x[-1], y[-1]]
-- 
2.43.0


From 4b5a148bcdca7e46374e918c3cd8c4c9c45b6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:32 +0000
Subject: [PATCH 88/96] fix: pass partition to plot_partition in
 plot_trajectory

---
 tulip/abstract/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index abff6bb..31d36ee 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -272,9 +272,10 @@ def plot_trajectory(
     if ax is None:
         ax, fig = _graphics.newax()
     _pplot.plot_partition(
+        ppp,
         plot_numbers=False,
         ax=ax,
-        show=False)
+        color_seed=color_seed)
     A = ssys.A
     B = ssys.B
     if ssys.K is not None:
-- 
2.43.0


From 013e304d148b3aab3e13f1024aa0d6c17e560a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:32 +0000
Subject: [PATCH 89/96] fix: plot_abstraction_scc raised for any abstraction

---
 tulip/abstract/plot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index 31d36ee..2c2834e 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -31,7 +31,6 @@
 # SUCH DAMAGE.
 #
 """Functions for plotting Partitions."""
-import functools as _ft
 import logging
 import typing as _ty
 
@@ -96,7 +95,7 @@ def plot_abstraction_scc(
     Handy to develop new examples or
     debug existing ones.
     """
-    _assert_pyplot()
+    _graphics._assert_pyplot()
     if ax is None:
         ax = _plt.subplot()
     ppp = ab.ppp
@@ -120,8 +119,8 @@ def plot_abstraction_scc(
         green = np.random.rand()
         blue = np.random.rand()
         color = (red, green, blue)
-        plot = _ft.partial(color=color)
-        any(map(plot, component))
+        for state in component:
+            plot_state(state, color)
     return ax
 
 
-- 
2.43.0


From f6aaa1357133f788c5297e442abb91deb2d0e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:32 +0000
Subject: [PATCH 90/96] fix: project_strategy_on_partition reads loc from edges

A Mealy machine that synthesis returns has the values of
variables on its edges, so the result was always a zero matrix.
---
 tulip/abstract/plot.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/tulip/abstract/plot.py b/tulip/abstract/plot.py
index 2c2834e..e016c67 100644
--- a/tulip/abstract/plot.py
+++ b/tulip/abstract/plot.py
@@ -190,18 +190,22 @@ def project_strategy_on_partition(
     """
     n = len(ppp)
     proj_adj = sp.lil_array((n, n))
+    # the values of `loc` label the edges of `mealy`,
+    # so each pair of consecutive edges
+    # is a (spatial) transition
     edges = mealy.transitions.find()
-    for from_state, to_state, label in edges:
-        from_label = mealy.states[from_state]
-        to_label = mealy.states[to_state]
-        intersects = (
-            'loc' in from_label and
-            'loc' in to_label)
-        if not intersects:
-            continue
-        from_loc = from_label['loc']
-        to_loc = to_label['loc']
-        proj_adj[from_loc, to_loc] = 1
+    for _, state, from_label in edges:
+        next_edges = mealy.transitions.find(
+            [state])
+        for _, _, to_label in next_edges:
+            intersects = (
+                'loc' in from_label and
+                'loc' in to_label)
+            if not intersects:
+                continue
+            from_loc = from_label['loc']
+            to_loc = to_label['loc']
+            proj_adj[from_loc, to_loc] = 1
     return proj_adj
 
 
-- 
2.43.0


From 54a9669d57bd0cd639bfc03c117c84df6cd6a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:19 +0000
Subject: [PATCH 91/96] fix: `discretize` raised if asked to plot

The name `plt` was local to the function, and unbound.
---
 tulip/abstract/discretization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index ee42c74..a08745e 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -820,6 +820,7 @@ def _discretize_bi(
     # init graphics
     if plotit:
         _graphics._assert_pyplot()
+        plt = _graphics._plt
         plt.ion()
         fig, (ax1, ax2) = plt.subplots(1, 2)
         ax1.axis('scaled')
@@ -1337,6 +1338,7 @@ def _discretize_dual(
     # init graphics
     if plotit:
         _graphics._assert_pyplot()
+        plt = _graphics._plt
         plt.ion()
         fig, (ax1, ax2) = plt.subplots(1, 2)
         ax1.axis('scaled')
-- 
2.43.0


From 8077be34edd4a270cf74d10c933638bffe9a7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:46 +0000
Subject: [PATCH 92/96] fix: plots of switched abstractions lost transitions

of modes that are not strings.
---
 tulip/abstract/discretization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index a08745e..86f43e2 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -216,9 +216,10 @@ class AbstractSwitched:
         if self.ppp is not None:
             for mode in self.modes:
                 env_mode, sys_mode = mode
+                # `ts` has the names of modes as actions
                 edge_label = dict(
-                    env_actions=env_mode,
-                    sys_actions=sys_mode)
+                    env_actions=str(env_mode),
+                    sys_actions=str(sys_mode))
                 ax = _plot_abstraction(
                     self,
                     show_ts=False,
-- 
2.43.0


From 9eb8d30e70234fdc9febd45cc8cdb8b0da4a56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:25 +0000
Subject: [PATCH 93/96] fix: parallel discretization hung if a worker failed

The parent waited for results of workers that had raised,
or had been killed.
---
 tulip/abstract/discretization.py | 40 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 86f43e2..d5d32ef 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -41,6 +41,7 @@ import logging
 import multiprocessing as mp
 import os
 import pprint
+import queue
 import typing as _ty
 import warnings
 
@@ -1799,6 +1800,35 @@ def multiproc_get_transitions(
     print(f'Worker: {name} finished.')
 
 
+def _results_of_jobs(
+        q:
+            mp.Queue,
+        jobs:
+            list[mp.Process]
+        ) -> dict:
+    """Return what `jobs` put in `q`, keyed by mode.
+
+    Raises `RuntimeError` if a job fails.
+    """
+    results = dict()
+    while len(results) < len(jobs):
+        # results are in `q` when their job has ended
+        failed = any(job.exitcode for job in jobs)
+        ended = not any(job.is_alive() for job in jobs)
+        try:
+            mode, result = q.get(timeout=1)
+        except queue.Empty:
+            if not (failed or ended):
+                continue
+            for job in jobs:
+                job.terminate()
+            raise RuntimeError(
+                'A worker failed, exit codes: '
+                f'{[job.exitcode for job in jobs]}')
+        results[mode] = result
+    return results
+
+
 def multiproc_discretize_switched(
         ppp:
             PPP,
@@ -1839,10 +1869,7 @@ def multiproc_discretize_switched(
         job.start()
     # flush before join:
     #   <http://stackoverflow.com/questions/19071529/>
-    abstractions = dict()
-    for job in jobs:
-        mode, absys = q.get()
-        abstractions[mode] = absys
+    abstractions = _results_of_jobs(q, jobs)
     for job in jobs:
         job.join()
     # merge their domains
@@ -1862,10 +1889,7 @@ def multiproc_discretize_switched(
         for args in mode_args.values()]
     for job in jobs:
         job.start()
-    trans = dict()
-    for job in jobs:
-        mode, t = q.get()
-        trans[mode] = t
+    trans = _results_of_jobs(q, jobs)
     # merge the abstractions, creating a common TS
     merge_abstractions(
         merged_abstr, trans,
-- 
2.43.0


From 08a691d40099f6f6ed970ba4c9ec6068912eeecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:17 +0000
Subject: [PATCH 94/96] fix: plots of `discretize` raised for empty sets

---
 tulip/abstract/discretization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index d5d32ef..347f275 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -1102,8 +1102,9 @@ def _discretize_bi(
         sj_tmp.plot(
             ax2, color='red', hatch='o', alpha=0.5)
         _pplt.plot_transition_arrow(si_tmp, sj_tmp, ax2)
-        S0.plot(
-            ax2, color='none', hatch='/', alpha=0.3)
+        if not pc.is_empty(S0):
+            S0.plot(
+                ax2, color='none', hatch='/', alpha=0.3)
         fig.canvas.draw()
         # plot partition
         ax1.clear()
@@ -1553,8 +1554,9 @@ def _discretize_dual(
         sj_tmp.plot(
             ax2, color='red', hatch='o', alpha=0.5)
         _pplt.plot_transition_arrow(si_tmp, sj_tmp, ax2)
-        S0.plot(
-            ax2, color='none', hatch='/', alpha=0.3)
+        if not pc.is_empty(S0):
+            S0.plot(
+                ax2, color='none', hatch='/', alpha=0.3)
         fig.canvas.draw()
         # plot partition
         ax1.clear()
-- 
2.43.0


From 4d6ee54c08920dc41eb5df7d984157ae07609b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:53 +0000
Subject: [PATCH 95/96] fix: drop an assignment without effect

It was added by ddde961, which repaired nothing:
the statement after it sets the attribute already.
---
 tulip/abstract/discretization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index 347f275..bb43dd7 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2093,7 +2093,6 @@ def merge_abstractions(
             adj2states = states,
             **env_sys_actions)
     merged_abstr.ts = sys_ts
-    merged_abstr.ppp2ts = list(ppp2ts)
     merged_abstr.ppp2ts = ppp2ts
 
 
-- 
2.43.0


From 918256a1ad6f51ebb82088b4ec9a7d95e79c2c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:12 +0000
Subject: [PATCH 96/96] fix: open-loop abstraction of switched systems raised
 for nonconvex cells

With `conservative=True`, original cells need not be convex, and
`get_transitions` gave them as `trans_set` to `is_feasible`,
which takes a polytope. Cells of the source are used then,
as `discretize` does if it is conservative.
---
 tulip/abstract/discretization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tulip/abstract/discretization.py b/tulip/abstract/discretization.py
index bb43dd7..3336a6c 100644
--- a/tulip/abstract/discretization.py
+++ b/tulip/abstract/discretization.py
@@ -2145,6 +2145,9 @@ def get_transitions(
         trans_set = abstract_sys.ppp2pwa(mode, i)[1]
         if len(trans_set) == 1:
             trans_set = trans_set[0]
+        elif len(trans_set) > 1 and not closed_loop:
+            # a convex set is needed in open loop
+            trans_set = None
         active_subsystem = abstract_sys.ppp2sys(mode, i)[1]
         trans_feasible = _fsb.is_feasible(
             si, sj, active_subsystem, N,
-- 
2.43.0

