From 52e5660e5473512b38108be9b91f840154fa033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 01/85] fix: iterated forward LinearGaussSeidel double counted
 a subsystem's own block

---
 openmdao/solvers/ln_gauss_seidel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index abd9d68..3d561f2 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -138,6 +138,13 @@ class LinearGaussSeidel(LinearSolver):
 
                     # print(sub.name, sorted(gs_outputs['fwd'][sub.name][None]))
 
+                    # The subsystem's own block is handled by its solve_linear,
+                    # so its solution from the previous iteration must not
+                    # contribute to its own right hand side.
+                    for voi in vois:
+                        if voi in sub.dumat:
+                            sub.dumat[voi].vec[:] = 0.0
+
                     # Groups and all other systems just call their own
                     # apply_linear.
                     sub._sys_apply_linear(mode, system._do_apply, vois=vois,
-- 
2.43.0


From bcb2864e2c5e44b81ff20c3db558af834ad468b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 02/85] fix: LinearGaussSeidel convergence norm ignored nested
 outputs and stale reverse data

---
 openmdao/solvers/ln_gauss_seidel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/solvers/ln_gauss_seidel.py b/openmdao/solvers/ln_gauss_seidel.py
index 3d561f2..74cc3c3 100644
--- a/openmdao/solvers/ln_gauss_seidel.py
+++ b/openmdao/solvers/ln_gauss_seidel.py
@@ -259,16 +259,16 @@ class LinearGaussSeidel(LinearSolver):
             solve.
         """
 
-        # we used to build gs_outputs up using dumat, but dumat is already
-        # identical to gs_outputs in the vois we care about, so just use it.
-        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys(),
-                                gs_outputs=system.dumat)
-
         if mode == 'fwd':
             rhs_vec = system.drmat
         else:
             rhs_vec = system.dumat
 
+        for voi in rhs_mat:
+            rhs_vec[voi].vec[:] = 0.0
+
+        system._sys_apply_linear(mode, system._do_apply, vois=rhs_mat.keys())
+
         norm = 0.0
         for voi, rhs in iteritems(rhs_mat):
             rhs_vec[voi].vec[:] -= rhs
-- 
2.43.0


From e986fb592a400c96622d7eed6fbab6671e11e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 03/85] fix: array Jacobian rows and columns collided when a
 variable is both input and output

---
 openmdao/core/problem.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c5bde79..b2edc53 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1582,7 +1582,10 @@ class Problem(object):
         else:
             usize = 0
             psize = 0
-            Jslices = OrderedDict()
+            # a variable may be both an unknown and an indep, so rows and
+            # columns need separate lookups.
+            Jrows = OrderedDict()
+            Jcols = OrderedDict()
             for u in unknown_list:
                 start = usize
                 if u in self._qoi_indices:
@@ -1590,7 +1593,7 @@ class Problem(object):
                     usize += len(idx)
                 else:
                     usize += self.root.unknowns.metadata(u)['size']
-                Jslices[u] = slice(start, usize)
+                Jrows[u] = slice(start, usize)
 
             for p in indep_list:
                 start = psize
@@ -1599,7 +1602,7 @@ class Problem(object):
                     psize += len(idx)
                 else:
                     psize += unknowns.metadata(p)['size']
-                Jslices[p] = slice(start, psize)
+                Jcols[p] = slice(start, psize)
             J = np.zeros((usize, psize))
 
         if fwd:
@@ -1776,22 +1779,22 @@ class Problem(object):
 
                             else:
                                 if fwd:
-                                    J[Jslices[item], Jslices[param].start+i] = dxval
+                                    J[Jrows[item], Jcols[param].start+i] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= in_scale[param]
+                                        J[Jrows[item], Jcols[param].start+i] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[item], Jslices[param].start+i] *= un_scale[item]
+                                        J[Jrows[item], Jcols[param].start+i] *= un_scale[item]
 
                                 else:
-                                    J[Jslices[param].start+i, Jslices[item]] = dxval
+                                    J[Jrows[param].start+i, Jcols[item]] = dxval
 
                                     # Driver scaling
                                     if param in in_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= in_scale[param]
+                                        J[Jrows[param].start+i, Jcols[item]] *= in_scale[param]
                                     if item in un_scale:
-                                        J[Jslices[param].start+i, Jslices[item]] *= un_scale[item]
+                                        J[Jrows[param].start+i, Jcols[item]] *= un_scale[item]
 
         # Clean up after ourselves
         root.clear_dparams()
-- 
2.43.0


From e10f367496f4f1bf358a1ddf4c783ee1c67d4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 04/85] fix: assembled Jacobian dropped source indices, units,
 residual scalers and shared sources

---
 openmdao/core/group.py | 55 +++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index eda51c0..12c75b1 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -1032,6 +1032,12 @@ class Group(System):
             conn = self.connections
             sys_prom_name = self._sysdata.to_prom_name
 
+            # Only explicit outputs own a diagonal of -1. The rows that belong
+            # to states hold nothing but what their component provides.
+            for name in self.states:
+                start, end = u_vec._dat[name].slice
+                partials[start:end, start:end] = 0.0
+
             for sub in self.components(recurse=True):
 
                 jac = sub._jacobian_cache
@@ -1043,34 +1049,34 @@ class Group(System):
                          "'apply_linear' is used on a component (%s)." % sub.pathname
                     raise RuntimeError(msg)
 
-                sub_u = sub.unknowns
                 sub_name = sub.pathname
+                user_jac = sub.deriv_options['type'] == 'user'
 
                 for key in jac:
                     o_var, i_var = key
                     key2 = (sub_name, key)
+                    i_var_abs = '.'.join((sub_name, i_var))
+                    is_state = i_var in sub.states
 
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
                         o_var_abs = '.'.join((sub_name, o_var))
-                        i_var_abs = '.'.join((sub_name, i_var))
                         i_var_pro = sys_prom_name[i_var_abs]
                         o_var_pro = sys_prom_name[o_var_abs]
 
-                        # States are fine ...
-                        if i_var in sub.states:
-                            pass
-
-                        #... but inputs need to find their source.
-                        elif i_var_pro not in u_vec:
+                        # States are fine, but inputs need to find their source.
+                        if not is_state:
 
                             # Param is not relevant
                             if i_var_abs not in conn:
                                 continue
 
-                            i_var_src = conn[i_var_abs][0]
-                            i_var_pro = sys_prom_name[i_var_src]
+                            # Source is outside of this group
+                            if conn[i_var_abs][0] not in sys_prom_name:
+                                continue
+
+                            i_var_pro = sys_prom_name[conn[i_var_abs][0]]
 
                         o_start, o_end = u_vec._dat[o_var_pro].slice
                         i_start, i_end = u_vec._dat[i_var_pro].slice
@@ -1080,10 +1086,31 @@ class Group(System):
                     else:
                         (o_start, o_end, i_start, i_end) = icache[key2]
 
-                    if mode=='fwd':
-                        partials[o_start:o_end, i_start:i_end] = jac[o_var, i_var]
-                    else:
-                        partials[i_start:i_end, o_start:o_end] = jac[o_var, i_var].T
+                    block = jac[o_var, i_var]
+                    cols = np.arange(i_start, i_end)
+
+                    if not is_state:
+                        meta = sub.params.metadata(i_var)
+
+                        # An input may read only part of its source.
+                        if meta.get('src_indices') is not None:
+                            cols = cols[meta['src_indices']].flatten()
+
+                        # A user jacobian is in the units of the input.
+                        if user_jac:
+                            block = block * meta.get('unit_conv', (1.0, 0.0))[0]
+
+                    # A user jacobian doesn't include the scaling of the residuals.
+                    if user_jac and o_var in sub.states:
+                        meta = sub.unknowns.metadata(o_var)
+                        block = block / (meta.get('resid_scaler') or 1.0)
+
+                    # Several inputs may read the same entry of a source.
+                    for j, col in enumerate(cols):
+                        if mode == 'fwd':
+                            partials[o_start:o_end, col] += block[:, j]
+                        else:
+                            partials[col, o_start:o_end] += block[:, j]
 
         return partials, icache
 
-- 
2.43.0


From f9dafd5aad54caccbe17f0a1bf3b0afbb66e6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 05/85] fix: complex step of a component ignored unit
 conversion of the stepped input

---
 openmdao/core/vec_wrapper_complex_step.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index dbd2b59..7a2f932 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -33,7 +33,14 @@ class ComplexStepTgtVecWrapper(object):
             The unflattened value of the named variable.
         """
         if name == self.step_var:
-            return self.step_val.reshape(self.vecwrap[name].shape)
+            step_val = self.step_val.reshape(self.vecwrap[name].shape)
+
+            # The internal vector is in the units of the source.
+            if 'unit_conv' in self.vecwrap._dat[name].meta:
+                scale, offset = self.vecwrap._dat[name].meta['unit_conv']
+                step_val = scale*(step_val + offset)
+
+            return step_val
 
         return self.vecwrap._dat[name].get()
 
-- 
2.43.0


From c8a59bd78cc0af7590e5cc0d87df22f0d389213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 06/85] fix: size of source indices was not checked when source
 and target have the same shape

---
 openmdao/core/_checks.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 9cea879..1aa5d9e 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -110,17 +110,17 @@ def __check_shapes_match(src, target, to_prom_name):
 
     src_idxs = target.get('src_indices')
 
-    if src['shape'] != target['shape']:
-        if src_idxs is not None:
-            if len(src_idxs) != target['size']:
-                errors.append("Size %d of the indexed sub-part of source "
-                                 "%s must be the same as size %d of target "
-                                 "%s." %
-                                 (len(target['src_indices']),
-                                 _both_names(src, to_prom_name),
-                                 target['size'],
-                                 _both_names(target, to_prom_name)))
-        elif 'src_indices' in src:
+    if src_idxs is not None:
+        if len(src_idxs) != target['size']:
+            errors.append("Size %d of the indexed sub-part of source "
+                             "%s must be the same as size %d of target "
+                             "%s." %
+                             (len(target['src_indices']),
+                             _both_names(src, to_prom_name),
+                             target['size'],
+                             _both_names(target, to_prom_name)))
+    elif src['shape'] != target['shape']:
+        if 'src_indices' in src:
             if target['size'] != src['distrib_size']:
                 errors.append("Total size %d of  distributed source "
                         "%s must be the same as size "
-- 
2.43.0


From 6d2065dba1b8e15f09c1526ca7ccba5a8706027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 07/85] fix: sourceless inputs where one has no units were
 rejected as having different units

---
 openmdao/core/problem.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index b2edc53..d5a5eb8 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -331,10 +331,7 @@ class Problem(object):
             # in connections, it has an unknown source.
 
             if diff_units:
-                filt = set([u for n,u in diff_units])
-                if None in filt:
-                    filt.remove(None)
-                if filt:
+                if len(set(u for u in units if u is not None)) > 1:
                     proms = set([params_dict[item]['top_promoted_name'] \
                                  for item in connected_inputs])
 
-- 
2.43.0


From 3b793da1e0808567d1a2562ef17bee6442118cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 08/85] fix: inputs joined only through other inputs lost their
 source, indices or common value

---
 openmdao/core/problem.py | 79 ++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index d5a5eb8..bf134bf 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -249,29 +249,62 @@ class Problem(object):
         self._input_inputs = {}
 
         # now all nodes that are downstream of an unknown source have been
-        # marked.  Anything left must be an input that is either dangling or
-        # upstream of an input that does have an unknown source.
-        for node in input_graph.nodes_iter():
-            # only look at unmarked nodes that have 0 in_degree
-            if node not in newconns and len(input_graph.pred[node]) == 0:
-                nosrc = [node]
-                # walk dfs from this input 'src' node until we hit a param
-                # that has an unknown src
-                for s, t in nx.dfs_edges(input_graph, node):
-                    if t in newconns:  # found param with unknown src
-                        src = newconns[t][0][0]
-                        # connect the unknown src to all of the inputs connected
-                        # to the current node that have no unknown src
-                        for n in nosrc:
-                            newconns[n] = [(src, None)]
-                        break
-                    else:
-                        nosrc.append(t)
-                else: # didn't find an unknown src, so must be dangling
-                    set_nosrc = set(nosrc)
-                    for n in nosrc:
-                        self._dangling[to_prom_name[n]] = set_nosrc
-                        self._input_inputs[n] = nosrc
+        # marked.  Anything left is connected only to other inputs. All of the
+        # inputs that are joined together, in whatever direction, share one
+        # source if any of them has one, otherwise they are all dangling.
+        visited = set()
+        for node in sorted(input_graph.nodes(),
+                           key=lambda n: len(input_graph.pred[n]) > 0):
+            if node in visited or node in newconns:
+                continue
+
+            # collect the unmarked inputs that are joined to this one, along
+            # with the connections that join them to marked inputs.
+            nosrc = []
+            edges = []
+            stack = [node]
+            while stack:
+                n = stack.pop()
+                if n in visited:
+                    continue
+                visited.add(n)
+                nosrc.append(n)
+                for s, t in chain(((n, t) for t in input_graph.succ[n]),
+                                  ((s, n) for s in input_graph.pred[n])):
+                    edges.append((s, t))
+                    other = t if s == n else s
+                    if other not in newconns:
+                        stack.append(other)
+
+            if not any(s in newconns or t in newconns for s, t in edges):
+                # didn't find an unknown src, so must be dangling
+                set_nosrc = set(nosrc)
+                for n in nosrc:
+                    self._dangling[to_prom_name[n]] = set_nosrc
+                    self._input_inputs[n] = nosrc
+                continue
+
+            # connect the unknown src to all of the inputs, starting from those
+            # next to an input that has an unknown src.
+            while not all(n in newconns for n in nosrc):
+                for s, t in edges:
+                    idxs = input_graph[s][t]['idxs']
+                    if t in newconns and s not in newconns:
+                        src, tidxs = newconns[t][0]
+                        newconns[s] = [(src, tidxs if idxs is None else None)]
+                    elif s in newconns and t not in newconns:
+                        src, sidxs = newconns[s][0]
+                        if idxs is None:
+                            idxs = sidxs
+                        elif sidxs is not None:
+                            idxs = np.array(sidxs)[idxs]
+                        newconns[t] = [(src, idxs)]
+
+            # inputs that are joined together can't have different sources
+            for s, t in edges:
+                src = newconns[s][0]
+                if src[0] not in [n for n, _ in newconns[t]]:
+                    newconns[t].append(src)
 
         # connections must be in order across processes, so use an OrderedDict
         # and sort targets before adding them
-- 
2.43.0


From 86bfabf45f511b79da4c5bb872dcab86aec14cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 09/85] fix: do not apply a second prefix to a unit that was
 created from a prefixed name

---
 openmdao/units/units.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index d1368c6..7c02ad7 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -616,6 +616,11 @@ class PhysicalUnit(object):
 
 _UNIT_CACHE = {}
 
+def _can_prefix(name):
+    """True if `name` is a known unit that does not carry a prefix already."""
+    return name in _UNIT_LIB.unit_table and name not in _UNIT_LIB.prefixed
+
+
 def _find_unit(unit):
     """Find unit helper function."""
     if isinstance(unit, str):
@@ -643,15 +648,17 @@ def _find_unit(unit):
                     except Exception: #maybe is a prefixed unit then
                         #check for single letter prefix before unit
                         if(item[0] in _UNIT_LIB.prefixes and \
-                           item[1:] in _UNIT_LIB.unit_table):
+                           _can_prefix(item[1:])):
                             add_unit(item, _UNIT_LIB.prefixes[item[0]]* \
                                      _UNIT_LIB.unit_table[item[1:]])
+                            _UNIT_LIB.prefixed.add(item)
 
                         #check for double letter prefix before unit
                         elif(item[0:2] in _UNIT_LIB.prefixes and \
-                             item[2:] in _UNIT_LIB.unit_table):
+                             _can_prefix(item[2:])):
                             add_unit(item, _UNIT_LIB.prefixes[item[0:2]]* \
                                       _UNIT_LIB.unit_table[item[2:]])
+                            _UNIT_LIB.prefixed.add(item)
 
                         #no prefixes found, unknown unit
                         else:
@@ -732,6 +739,7 @@ def import_library(libfilepointer):
     #used to is_angle() and other base type checking
     _UNIT_LIB.base_types = dict()
     _UNIT_LIB.unit_table = dict()
+    _UNIT_LIB.prefixed = set()  # units added on demand for a prefixed name
     _UNIT_LIB.prefixes = dict()
     _UNIT_LIB.help = list()
 
-- 
2.43.0


From be278076b63642b0b0ef0afbe8d9f59e25eddaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 10/85] fix: total derivatives of any request with parallel
 derivative groups or relevance reduction

---
 openmdao/core/problem.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index bf134bf..543ed53 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1654,14 +1654,27 @@ class Problem(object):
             else:
                 input_set.update(inp)
 
-        # Our variables of interest include all sets for which at least
-        # one variable is requested.
+        # The relevance reduced vectors only hold what is needed to get from
+        # the inputs to the outputs that were declared on the driver, so they
+        # can't be used if any other output is requested.
+        other_vois = relevance.vars_of_interest('rev' if fwd else 'fwd')
+        declared = set(item for sublist in other_vois for item in sublist)
+        reducible = set(voi for voi_set in all_vois for voi in voi_set
+                        if voi in self.root.dumat
+                        and voi in relevance.relevant.get(voi, ()))
+        if not declared.issuperset(output_list):
+            reducible = set()
+
+        # Our variables of interest include the requested members of all sets.
+        # They can only be solved for together if they have their own vectors.
         voi_sets = []
         for voi_set in all_vois:
-            for voi in voi_set:
-                if voi in input_set:
-                    voi_sets.append(voi_set)
-                    break
+            voi_set = tuple(voi for voi in voi_set if voi in input_set)
+            if len(voi_set) > 1 and None in [self._get_voi_key(voi, voi_set, reducible)
+                                             for voi in voi_set]:
+                voi_sets.extend((voi,) for voi in voi_set)
+            elif voi_set:
+                voi_sets.append(voi_set)
 
         # Add any variables that the user "forgot". TODO: This won't be
         # necessary when we have an API to automatically generate the
@@ -1687,7 +1700,7 @@ class Problem(object):
 
             # Allocate all of our Right Hand Sides for this parallel set.
             for voi in params:
-                vkey = self._get_voi_key(voi, params)
+                vkey = self._get_voi_key(voi, params, reducible)
 
                 duvec = self.root.dumat[vkey]
                 rhs[vkey] = np.empty((len(duvec.vec), ))
@@ -1726,12 +1739,12 @@ class Problem(object):
                 if inactives and not fwd and voi in inactives and i in inactives[voi]:
                     dx_mat = OrderedDict()
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, reducible)
                         dx_mat[vkey] = np.zeros((len(duvec.vec), ))
 
                 else:
                     for voi in params:
-                        vkey = self._get_voi_key(voi, params)
+                        vkey = self._get_voi_key(voi, params, reducible)
                         rhs[vkey][:] = 0.0
                         # only set a -1.0 in the entry if that var is 'owned' by this rank
                         # Note, we solve a slightly modified version of the unified
@@ -1744,7 +1757,7 @@ class Problem(object):
                     dx_mat = root.ln_solver.solve(rhs, root, mode)
 
                 for param, dx in iteritems(dx_mat):
-                    vkey = self._get_voi_key(param, params)
+                    vkey = self._get_voi_key(param, params, reducible)
                     if param is None:
                         param = params[0]
 
@@ -1831,12 +1844,13 @@ class Problem(object):
 
         return J
 
-    def _get_voi_key(self, voi, grp):
+    def _get_voi_key(self, voi, grp, reducible):
         """Return the voi name, which allows for parallel derivative calculations
         (currently only works with LinearGaussSeidel), or None for those
-        solvers that can only do a single linear solve at a time.
+        solvers that can only do a single linear solve at a time and for those
+        variables that are not in `reducible`, i.e. need the full vectors.
         """
-        if (voi in self._driver_vois and
+        if (voi in reducible and voi in self._driver_vois and
                 isinstance(self.root.ln_solver, LinearGaussSeidel)):
             if (len(grp) > 1 or
                     self.root.ln_solver.options['single_voi_relevance_reduction']):
-- 
2.43.0


From 7808b36e9f605b04720d2ae2cfdb42509b96473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 11/85] fix: set single entries and flat indices of a design
 variable

---
 openmdao/core/driver.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 3724efe..787f894 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -478,7 +478,8 @@ class Driver(object):
             Index of the desvar to set.
         """
         # support for uncertain samples
-        if index:
+        if index is not None and \
+           not isinstance(self.root.unknowns._dat[name].val, _ByObjWrapper):
             val = self.root.unknowns._dat[name].val[index]
         else:
             val = self.root.unknowns._dat[name].val
@@ -491,7 +492,7 @@ class Driver(object):
         adder = meta['adder']
 
         if isinstance(scaler, np.ndarray):
-            if index:
+            if index is not None:
                 value = value/scaler[index]
             else:
                 value = value/scaler
@@ -504,7 +505,7 @@ class Driver(object):
         # (as in always doing the scaler/adder operation.)
 
         if isinstance(adder, np.ndarray):
-            if index:
+            if index is not None:
                 value = value - adder[index]
             else:
                 value = value - adder
@@ -512,13 +513,18 @@ class Driver(object):
             value = value - adder
 
         # Only set the indices we requested when we set the design variable.
-        if index:
+        if index is not None:
             idx = index
         else:
             idx = meta.get('indices')
 
         if idx is not None:
-            self.root.unknowns[name][idx] = value
+            # indices refer to the flattened variable
+            val = self.root.unknowns._dat[name].val
+            if isinstance(val, _ByObjWrapper):
+                val.val.flat[idx] = value
+            else:
+                val[idx] = value
         else:
             self.root.unknowns[name] = value
 
-- 
2.43.0


From 5573d286f9e1af9daf4600a85a6efd55d5ed0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 12/85] fix: accept arrays and tuples as indices of design
 variables and responses

---
 openmdao/core/driver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 787f894..30dc6bb 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -362,7 +362,7 @@ class Driver(object):
         param['upper'] = upper
         param['adder'] = adder
         param['scaler'] = scaler
-        if indices:
+        if indices is not None and len(indices) > 0:
             param['indices'] = np.array(indices, dtype=int)
 
         self._desvars[name] = param
@@ -570,8 +570,8 @@ class Driver(object):
         obj = OrderedDict()
         obj['adder'] = adder
         obj['scaler'] = scaler
-        if indices:
-            obj['indices'] = indices
+        if indices is not None and len(indices) > 0:
+            obj['indices'] = list(indices)
             if len(indices) > 1 and not self.supports['multiple_objectives']:
                 raise RuntimeError("Multiple objective indices specified for "
                                    "variable '%s', but driver '%s' doesn't "
@@ -708,8 +708,8 @@ class Driver(object):
         con['jacs'] = jacs
         con['active_tol'] = active_tol
 
-        if indices:
-            con['indices'] = indices
+        if indices is not None and len(indices) > 0:
+            con['indices'] = list(indices)
         self._cons[name] = con
 
     def get_constraints(self, ctype='all', lintype='all'):
-- 
2.43.0


From 73043c8802d62fd157442eee15f020208a3ad1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 13/85] fix: return the value of a pass_by_obj design variable,
 not its wrapper

---
 openmdao/core/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 30dc6bb..4aa702a 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -412,6 +412,9 @@ class Driver(object):
             owner = 0
             flatval = uvec._dat[name].val
 
+        if isinstance(flatval, _ByObjWrapper):
+            flatval = flatval.val
+
         if 'indices' in meta and not (nproc > 1 and owner != iproc):
             # Make sure our indices are valid
             try:
-- 
2.43.0


From 7a35419d98ee61676b46aa0055fa951ff65e91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 14/85] fix: bounds of negatively scaled design variables and
 constraints

A negative scaler turns a lower bound into an upper bound.
---
 openmdao/core/driver.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index 4aa702a..dcbb7ea 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -21,6 +21,31 @@ trace = os.environ.get('OPENMDAO_TRACE')
 if trace:
     from openmdao.core.mpi_wrap import debug
 
+def _scale_bounds(lower, upper, adder, scaler):
+    """ Returns the scaled lower and upper bounds. They trade places wherever
+    the scaler is negative."""
+    negative = np.asarray(scaler) < 0
+    if negative.any() and not negative.all():
+        # some entries trade places, so both bounds have to be there.
+        if lower is None and upper is not None:
+            lower = -sys.float_info.max
+        elif upper is None and lower is not None:
+            upper = sys.float_info.max
+
+    if lower is not None:
+        lower = (lower + adder)*scaler
+    if upper is not None:
+        upper = (upper + adder)*scaler
+
+    if negative.all():
+        lower, upper = upper, lower
+    elif negative.any() and lower is not None:
+        lower, upper = (np.where(negative, upper, lower),
+                        np.where(negative, lower, upper))
+
+    return lower, upper
+
+
 class Driver(object):
     """ Base class for drivers in OpenMDAO. Drivers can only be placed in a
     Problem, and every problem has a Driver. Driver is the simplest driver that
@@ -348,14 +373,12 @@ class Driver(object):
         elif lower is None or lower == -float('inf'):
             lower = -sys.float_info.max
 
-        lower = (lower + adder)*scaler
-
         if isinstance(upper, np.ndarray):
             upper = upper.flatten()
         elif upper is None or upper == float('inf'):
             upper = sys.float_info.max
 
-        upper = (upper + adder)*scaler
+        lower, upper = _scale_bounds(lower, upper, adder, scaler)
 
         param = OrderedDict()
         param['lower'] = lower
@@ -694,10 +717,7 @@ class Driver(object):
             equals = equals.flatten()
 
         # Scale the lower and upper values
-        if lower is not None:
-            lower = (lower + adder)*scaler
-        if upper is not None:
-            upper = (upper + adder)*scaler
+        lower, upper = _scale_bounds(lower, upper, adder, scaler)
         if equals is not None:
             equals = (equals + adder)*scaler
 
-- 
2.43.0


From 777849e8873c1e52940756746a1a2fe9493212ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 15/85] fix: get_objectives returns an array when asked for one

---
 openmdao/core/driver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index dcbb7ea..d9cc497 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -627,6 +627,11 @@ class Driver(object):
         for key, meta in iteritems(self._objs):
             objs[key] = self._get_distrib_var(key, meta, 'objective')
 
+        if return_type == 'array':
+            if not objs:
+                return np.zeros(0)
+            return np.concatenate([np.ravel(val) for val in objs.values()])
+
         return objs
 
     def add_constraint(self, name, lower=None, upper=None, equals=None,
-- 
2.43.0


From 1d17fd6a4c3a289e70a27dc4a5447b4175bb536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 16/85] fix: scale rows of a finite difference gradient by
 their own entry of an array scaler

---
 openmdao/core/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 543ed53..24a68a1 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1464,7 +1464,7 @@ class Problem(object):
                     if ikey in dv_scale:
                         J[okey][ikey] *= dv_scale[ikey]
                     if okey in cn_scale:
-                        J[okey][ikey] *= cn_scale[okey]
+                        J[okey][ikey] *= np.reshape(cn_scale[okey], (-1, 1))
 
         else:
             usize = 0
@@ -1503,7 +1503,7 @@ class Problem(object):
                     if p in dv_scale:
                         J[ui:ui+rows, pi:pi+cols] *= dv_scale[p]
                     if u in cn_scale:
-                        J[ui:ui+rows, pi:pi+cols] *= cn_scale[u]
+                        J[ui:ui+rows, pi:pi+cols] *= np.reshape(cn_scale[u], (-1, 1))
 
                     pi += cols
                 ui += rows
-- 
2.43.0


From a9677b069864a3f2de3e7b9fbd778025c2c0d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 17/85] fix: finite difference gradient of an array design
 variable with respect to itself

---
 openmdao/core/system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a51c7f6..c3db837 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -770,11 +770,11 @@ class System(object):
                         if u_name == param_src:
                             if qoi_indices and u_name in qoi_indices:
                                 q_idxs = qoi_indices[u_name]
-                                if idx in q_idxs:
-                                    row = qoi_indices[u_name].index(idx)
-                                    jac[u_name, p_name][row][col] = 1.0
                             else:
-                                jac[u_name, p_name] = np.array([[1.0]])
+                                q_idxs = range(np.size(unknowns[u_name]))
+                            for row, q_idx in enumerate(q_idxs):
+                                if q_idx == idx:
+                                    jac[u_name, p_name][row, col] = 1.0
 
                     # Restore old residual
                     resultvec.vec[:] = cache1
-- 
2.43.0


From dfa91643dd35b9df9c209443c81bb2d6f2ac484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 18/85] fix: answer optimizer callbacks for the point they ask
 about

Constraint and gradient requests returned the values of the last objective
evaluation (Newton-CG for one asks for gradients elsewhere), and the model was
not left at the reported optimum.
---
 openmdao/drivers/scipy_optimizer.py | 33 +++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 58bd891..6460a9d 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -83,6 +83,8 @@ class ScipyOptimizer(Driver):
         self.exit_flag = 0
         self.grad_cache = None
         self.con_cache = None
+        self._x_model = None
+        self._x_grad = None
         self.con_idx = OrderedDict()
         self.cons = None
         self.objs = None
@@ -196,6 +198,10 @@ class ScipyOptimizer(Driver):
         else:
             jac = None
 
+        # The initial run was at the initial parameters.
+        self._x_model = x_init.copy()
+        self._x_grad = None
+
         # optimize
         self._problem = problem
         result = minimize(self._objfunc, x_init,
@@ -210,6 +216,9 @@ class ScipyOptimizer(Driver):
                           #callback=None,
                           options=self.opt_settings)
 
+        # Leave the model at the point that is reported.
+        self._update_model(result.x)
+
         self._problem = None
         self.result = result
         self.exit_flag = 1 if self.result.success else 0
@@ -255,6 +264,7 @@ class ScipyOptimizer(Driver):
             break
 
         self.con_cache = self.get_constraints()
+        self._x_model = np.array(x_new)
 
         # Record after getting obj and constraints to assure it has been
         # gathered in MPI.
@@ -266,10 +276,23 @@ class ScipyOptimizer(Driver):
 
         return f_new
 
+    def _update_model(self, x_new):
+        """ Runs the model at a design point, unless that is where it was
+        run last. The optimizers may ask for constraints and gradients at a
+        point where they have not asked for the objective.
+
+        Args
+        ----
+        x_new : ndarray
+            Array containing parameter values at new design point.
+        """
+        if self._x_model is None or not np.array_equal(x_new, self._x_model):
+            self._objfunc(x_new)
+
     def _confunc(self, x_new, name, idx):
         """ Function that returns the value of the constraint function
         requested in args. Note that this function is called for each
-        constraint, so the model is only run when the objective is evaluated.
+        constraint, so the model is only run when the design point has changed.
 
         Args
         ----
@@ -292,6 +315,7 @@ class ScipyOptimizer(Driver):
         else:
             dbl_side = False
 
+        self._update_model(x_new)
         cons = self.con_cache
         meta = self._cons[name]
 
@@ -330,9 +354,11 @@ class ScipyOptimizer(Driver):
             Gradient of objective with respect to parameter array.
         """
 
+        self._update_model(x_new)
         grad = self.calc_gradient(self.params, self.objs+self.cons,
                                   return_format='array')
         self.grad_cache = grad
+        self._x_grad = np.array(x_new)
 
         #print("Gradients calculated")
         #print(x_new)
@@ -343,7 +369,8 @@ class ScipyOptimizer(Driver):
     def _congradfunc(self, x_new, name, idx):
         """ Function that returns the cached gradient of the constraint
         function. Note, scipy calls the constraints one at a time, so the
-        gradient is cached when the objective gradient is called.
+        gradient is cached and only calculated when the design point has
+        changed.
 
         Args
         ----
@@ -366,6 +393,8 @@ class ScipyOptimizer(Driver):
         else:
             dbl_side = False
 
+        if self._x_grad is None or not np.array_equal(x_new, self._x_grad):
+            self._gradfunc(x_new)
         grad = self.grad_cache
         meta = self._cons[name]
         grad_idx = self.con_idx[name] + idx + 1
-- 
2.43.0


From 2690ad51d8d1a95cd382afd76546584b449ece1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 19/85] fix: do not hand constraint entries without a limit to
 scipy

---
 openmdao/core/driver.py             | 19 ++++++++-----------
 openmdao/drivers/scipy_optimizer.py | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index d9cc497..aa415bf 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -24,24 +24,21 @@ if trace:
 def _scale_bounds(lower, upper, adder, scaler):
     """ Returns the scaled lower and upper bounds. They trade places wherever
     the scaler is negative."""
-    negative = np.asarray(scaler) < 0
-    if negative.any() and not negative.all():
-        # some entries trade places, so both bounds have to be there.
-        if lower is None and upper is not None:
-            lower = -sys.float_info.max
-        elif upper is None and lower is not None:
-            upper = sys.float_info.max
-
     if lower is not None:
         lower = (lower + adder)*scaler
     if upper is not None:
         upper = (upper + adder)*scaler
 
+    negative = np.asarray(scaler) < 0
     if negative.all():
         lower, upper = upper, lower
-    elif negative.any() and lower is not None:
-        lower, upper = (np.where(negative, upper, lower),
-                        np.where(negative, lower, upper))
+    elif negative.any() and (lower is not None or upper is not None):
+        # only some entries trade places, so both bounds have to be there.
+        no_lower, no_upper = -sys.float_info.max, sys.float_info.max
+        lower, upper = (np.where(negative, no_lower if upper is None else upper,
+                                 no_lower if lower is None else lower),
+                        np.where(negative, no_upper if lower is None else lower,
+                                 no_upper if upper is None else upper))
 
     return lower, upper
 
diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 6460a9d..2974c69 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -4,6 +4,8 @@ OpenMDAO Wrapper for the scipy.optimize.minimize family of local optimizers.
 
 from __future__ import print_function
 
+import sys
+
 from six import itervalues, iteritems
 from six.moves import range
 
@@ -27,6 +29,13 @@ _constraint_grad_optimizers = ['SLSQP']
 _unsupported_optimizers = ['dogleg', 'trust-ncg']
 
 
+def _is_bounded(bound, idx):
+    """ Returns True if entry idx of this constraint bound is a limit."""
+    if isinstance(bound, np.ndarray):
+        bound = bound[idx]
+    return abs(bound) < sys.float_info.max
+
+
 class ScipyOptimizer(Driver):
     """ Driver wrapper for the scipy.optimize.minimize family of local
     optimizers. Inequality constraints are supported by COBYLA and SLSQP,
@@ -167,6 +176,10 @@ class ScipyOptimizer(Driver):
                 size = meta['size']
                 dblcon = meta['upper'] is not None and meta['lower'] is not None
                 for j in range(0, size):
+                    if meta['equals'] is None and \
+                       not _is_bounded(meta['upper' if meta['lower'] is None
+                                            else 'lower'], j):
+                        continue
                     con_dict = OrderedDict()
                     if meta['equals'] is not None:
                         con_dict['type'] = 'eq'
@@ -184,6 +197,8 @@ class ScipyOptimizer(Driver):
                 if dblcon:
                     name = '2bl-' + name
                     for j in range(0, size):
+                        if not _is_bounded(meta['upper'], j):
+                            continue
                         con_dict = OrderedDict()
                         con_dict['type'] = 'ineq'
                         con_dict['fun'] = self._confunc
-- 
2.43.0


From 06e49df265e70e63ac72d612bce4b55544a65bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 20/85] fix: tell scipy that unbounded design variables have no
 bounds

TNC took the largest float for a bound and reported success where it started.
---
 openmdao/core/driver.py             | 8 ++++++--
 openmdao/drivers/scipy_optimizer.py | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index aa415bf..b9464ec 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -368,14 +368,18 @@ class Driver(object):
         if isinstance(lower, np.ndarray):
             lower = lower.flatten()
         elif lower is None or lower == -float('inf'):
-            lower = -sys.float_info.max
+            lower = None
 
         if isinstance(upper, np.ndarray):
             upper = upper.flatten()
         elif upper is None or upper == float('inf'):
-            upper = sys.float_info.max
+            upper = None
 
         lower, upper = _scale_bounds(lower, upper, adder, scaler)
+        if lower is None:
+            lower = -sys.float_info.max
+        if upper is None:
+            upper = sys.float_info.max
 
         param = OrderedDict()
         param['lower'] = lower
diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index 2974c69..a304d7c 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -166,6 +166,12 @@ class ScipyOptimizer(Driver):
                     else:
                         p_high = meta_high
 
+                    # Scipy takes any finite value for an actual bound.
+                    if abs(p_low) >= sys.float_info.max:
+                        p_low = None
+                    if abs(p_high) >= sys.float_info.max:
+                        p_high = None
+
                     bounds.append((p_low, p_high))
 
         # Constraints
-- 
2.43.0


From 23d7e57e18c74efdd47baa9364a5ffdfbbe26d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 21/85] fix: solvers reported failure when they converged in
 the last iteration allowed

and success when the residual norm was infinite.
---
 openmdao/solvers/backtracking.py    | 4 ++--
 openmdao/solvers/newton.py          | 4 +++-
 openmdao/solvers/nl_gauss_seidel.py | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index 6a664f0..e1b330d 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -146,12 +146,12 @@ class BackTracking(LineSearch):
             self.print_norm(self.print_name, system, itercount,
                             fnorm, fnorm0, indent=1, solver='LS')
 
-        if itercount >= maxiter or isnan(fnorm):
+        if (base_norm - fnorm) < c*ls_alpha*base_norm or isnan(fnorm):
 
             if self.options['err_on_maxiter']:
                 msg = "Solve in '{}': BackTracking failed to converge after {} " \
                       "iterations."
-                raise AnalysisError(msg.format(system.pathname, maxiter))
+                raise AnalysisError(msg.format(system.pathname, itercount))
 
             msg = 'FAILED to converge after %d iterations' % itercount
             fail = True
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 2643281..825d58e 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -251,7 +251,9 @@ class Newton(NonLinearSolver):
         system.deriv_options['type'] = save_type
         system.deriv_options.locked = True
 
-        if self.iter_count >= maxiter or isnan(f_norm):
+        converged = f_norm <= atol or f_norm/f_norm0 <= rtol or u_norm <= utol
+
+        if self.iter_count >= maxiter or not converged or isnan(f_norm):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 83e28bf..5c59f3b 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -200,7 +200,10 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        if self.iter_count >= maxiter or isnan(normval):
+        converged = normval <= atol or normval/basenorm <= rtol or \
+                    u_norm <= utol
+
+        if not converged or isnan(normval):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
             fail = True
         else:
-- 
2.43.0


From f35a39feedccf0e919ccac237957fa6600af9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 22/85] fix: NLGaussSeidel with maxiter=1 ignored
 err_on_maxiter

---
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 5c59f3b..81ad377 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -117,7 +117,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.recorders.record_iteration(system, local_meta)
 
         # Bail early if the user wants to.
-        if maxiter == 1:
+        if maxiter == 1 and not self.options['err_on_maxiter']:
             return
 
         resids = system.resids
-- 
2.43.0


From ffe8054d457444148d1962ec182b5fff63aa14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 23/85] fix: Aitken relaxation started from the history of the
 previous solve

---
 openmdao/solvers/nl_gauss_seidel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 81ad377..7880bb7 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -106,6 +106,10 @@ class NLGaussSeidel(NonLinearSolver):
         # Initial run
         self.iter_count = 1
 
+        # The Aitken history of an earlier solve says nothing about this one.
+        self.delta_u_n_1 = 'None'
+        self.aitken_alpha = 1.0
+
         # Metadata setup
         local_meta = create_local_meta(metadata, system.pathname)
         system.ln_solver.local_meta = local_meta
-- 
2.43.0


From 22a5abaebae1d5d46842b7ec2f257bfbb9b6d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 24/85] fix: Brent left the model at the last point evaluated
 instead of the root

A root at the lower bound left it at the upper bound. Failures are also printed
with the default iprint now, as documented.
---
 openmdao/solvers/brent.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index d443ffc..b8d00c7 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -188,11 +188,16 @@ class Brent(NonLinearSolver):
                 raise
             failed = True
 
+        # The root is not always the point that was evaluated last.
+        if not failed and unknowns._dat[self.s_var_name].val[idx] != xstar:
+            self._eval(xstar, params, unknowns, resids)
+
         self.sys = None
 
         resid_norm = abs(resids._dat[self.s_var_name].val[idx])
 
-        if self.options['iprint'] > 0:
+        iprint = self.options['iprint']
+        if iprint > 0 or (failed and iprint > -1):
 
             if not failed:
                 msg = 'Converged'
-- 
2.43.0


From 4136dd83e061dfb7d7b02f7a1337e78c92594b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 25/85] fix: limit solver steps of multi-dimensional states,
 and of violated states that do not move

Bounds on a state with more than one dimension raised an error; a state
outside its bounds whose step is zero became nan.
---
 openmdao/core/vec_wrapper.py | 80 ++++++++----------------------------
 1 file changed, 18 insertions(+), 62 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index ea87137..e8321cb 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -898,68 +898,24 @@ class SrcVecWrapper(VecWrapper):
                 if 'remote' in meta or 'pass_by_obj' in meta:
                     continue
 
-                val = self[name]
-                idx = duvec._dat[name].slice[0]
-
-                upper = meta.get('upper')
-                if upper is not None:
-                    diff = upper - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
-
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff < 0.0:
-                            alpha[idx] = alpha_bound
-
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] < 0.0:
-                                alpha[idx+j] = new_val
-
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
-
-                lower = meta.get('lower')
-                if lower is not None:
-                    diff = lower - val
-                    alpha_bound = diff/duvec[name]
-                    if isinstance(alpha_bound, float):
-
-                        # If we are already violated for any reason,
-                        # bring it back to the boundary.
-                        if diff > 0.0:
-                            alpha[idx] = alpha_bound
-
-                        elif alpha_bound >= 0.0:
-                            if alpha_bound < alpha[idx]:
-                                alpha[idx] = alpha_bound
-
-                    else:
-                        j = 0
-                        for new_val in alpha_bound:
-
-                            # If we are already violated for any reason,
-                            # bring it back to the boundary.
-                            if diff[j] > 0.0:
-                                alpha[idx+j] = new_val
-
-                            elif new_val >= 0.0:
-                                if new_val < alpha[idx+j]:
-                                    alpha[idx+j] = new_val
-
-                            j += 1
+                val = self._dat[name].val
+                step = duvec._dat[name].val
+                start, end = duvec._dat[name].slice
+
+                for bound, sign in ((meta.get('upper'), 1.0),
+                                    (meta.get('lower'), -1.0)):
+                    if bound is None:
+                        continue
+
+                    diff = sign*(numpy.ravel(bound) - val)
+                    alpha_bound = diff/(sign*step)
+
+                    # If we are already violated for any reason, bring it
+                    # back to the boundary.
+                    limited = (diff < 0.0) | ((alpha_bound >= 0.0) &
+                                              (alpha_bound < alpha[start:end]))
+                    limited &= step != 0.0
+                    alpha[start:end][limited] = alpha_bound[limited]
 
         # Return numpy warn to what it was
         finally:
-- 
2.43.0


From 9ab5047e51dcf7cead77f8de56f06ba604855503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 26/85] fix: Brent read variable bounds before their sources
 had been run

With var_lower_bound or var_upper_bound naming a variable whose source is in
the same group, the first solve used the bounds of the parameters before any
data transfer, and later solves those of the previous run.
---
 openmdao/solvers/brent.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index b8d00c7..676eb1a 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -146,6 +146,19 @@ class Brent(NonLinearSolver):
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
+        # Brent's method
+        self.iter_count = 0
+
+        # initial run to compute initial_norm
+        self.sys.children_solve_nonlinear(self.local_meta)
+        self.recorders.record_iteration(system, self.local_meta)
+
+        # Evaluate Norm
+        self.sys.apply_nonlinear(params, unknowns, resids)
+        self.basenorm = resid_norm_0 = abs(resids._dat[self.s_var_name].val[idx])
+
+        # The bounds are read after the initial run, because their sources may be
+        # in this system.
         if self.var_lower_bound is not None:
             lower = params[self.var_lower_bound]
         else:
@@ -168,17 +181,6 @@ class Brent(NonLinearSolver):
         if self.options['rtol'] > 0:
             kwargs['rtol'] = self.options['rtol']
 
-        # Brent's method
-        self.iter_count = 0
-
-        # initial run to compute initial_norm
-        self.sys.children_solve_nonlinear(self.local_meta)
-        self.recorders.record_iteration(system, self.local_meta)
-
-        # Evaluate Norm
-        self.sys.apply_nonlinear(params, unknowns, resids)
-        self.basenorm = resid_norm_0 = abs(resids._dat[self.s_var_name].val[idx])
-
         failed = False
         try:
             xstar = brentq(self._eval, **kwargs)
-- 
2.43.0


From 649e34eae84d4a7e5210b673dad1d33d9fad375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 27/85] fix: Newton that does not solve its subsystems ignored
 residuals of explicit components

Explicit components that run after their sources are skipped when residuals
are evaluated, which is only right while every step reruns them. With
solve_subsystems off, Newton reported success although their equations were
not satisfied.
---
 openmdao/solvers/newton.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 825d58e..d26103d 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -154,6 +154,14 @@ class Newton(NonLinearSolver):
             system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count, 0))
 
+        # Explicit components that run after their sources have no residual as
+        # long as every step reruns them. If that is off, then they all have
+        # to report one.
+        if not self.options['solve_subsystems'] or \
+                (ls and not ls.options.get('solve_subsystems', True)):
+            for comp in system.components(recurse=True):
+                comp._run_apply = True
+
         # Perform an initial run to propagate srcs to targets.
         system.children_solve_nonlinear(local_meta)
         system.apply_nonlinear(params, unknowns, resids)
-- 
2.43.0


From dcc89dff07ef8fdf9441949aaad0a1e68780e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 28/85] fix: Newton went on with an infinite residual norm

The linear solve then failed with a ValueError instead of Newton reporting
that it did not converge.
---
 openmdao/solvers/newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index d26103d..b8d8c66 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -1,6 +1,6 @@
 """ Non-linear solver that implements a Newton's method."""
 
-from math import isnan
+from math import isinf, isnan
 
 import numpy as np
 
@@ -186,7 +186,8 @@ class Newton(NonLinearSolver):
         system.deriv_options['type'] = 'user'
 
         while self.iter_count < maxiter and f_norm > atol and \
-                f_norm/f_norm0 > rtol and u_norm > utol:
+                f_norm/f_norm0 > rtol and u_norm > utol and \
+                not isinf(f_norm):
 
             # Linearize Model with partial derivatives
             system._sys_linearize(params, unknowns, resids, total_derivs=False)
-- 
2.43.0


From a08815e9b5b0dd23a9bc0f65b0e6405074d71efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:54 +0000
Subject: [PATCH 29/85] fix: recorders on solvers two or more groups deep
 raised KeyError

Gauss-Seidel, Newton and Brent put the whole path of their group into the
iteration coordinate, which already names the enclosing groups.
---
 openmdao/solvers/backtracking.py    | 2 +-
 openmdao/solvers/brent.py           | 2 +-
 openmdao/solvers/newton.py          | 2 +-
 openmdao/solvers/nl_gauss_seidel.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openmdao/solvers/backtracking.py b/openmdao/solvers/backtracking.py
index e1b330d..6099bf0 100644
--- a/openmdao/solvers/backtracking.py
+++ b/openmdao/solvers/backtracking.py
@@ -101,7 +101,7 @@ class BackTracking(LineSearch):
         c = self.options['c']
         iprint = self.options['iprint']
         result = system.dumat[None]
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
 
         itercount = 0
         ls_alpha = alpha_scalar
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 676eb1a..3848c97 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -142,7 +142,7 @@ class Brent(NonLinearSolver):
         """
         self.sys = system
         self.metadata = metadata
-        self.local_meta = create_local_meta(self.metadata, self.sys.pathname)
+        self.local_meta = create_local_meta(self.metadata, self.sys.name)
         self.sys.ln_solver.local_meta = self.local_meta
         idx = self.options['state_var_idx']
 
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index b8d8c66..94a1e25 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -147,7 +147,7 @@ class Newton(NonLinearSolver):
 
         # Metadata setup
         self.iter_count = 0
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         if self.ln_solver:
             self.ln_solver.local_meta = local_meta
         else:
diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 7880bb7..31c7ae9 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -111,7 +111,7 @@ class NLGaussSeidel(NonLinearSolver):
         self.aitken_alpha = 1.0
 
         # Metadata setup
-        local_meta = create_local_meta(metadata, system.pathname)
+        local_meta = create_local_meta(metadata, system.name)
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
-- 
2.43.0


From 534dfc17221ee499697322287cdbbb258caa36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 30/85] fix: recorders on solvers took finite difference runs
 for iterations

Solvers below a finite differenced system raised KeyError as soon as they had
a recorder, and those of that system itself recorded perturbed values under
coordinates without a driver.
---
 openmdao/core/problem.py                |  1 +
 openmdao/core/system.py                 | 15 +++++++++++++--
 openmdao/recorders/recording_manager.py |  3 ++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 24a68a1..6445f30 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -48,6 +48,7 @@ class _ProbData(object):
     def __init__(self):
         self.top_lin_gs = False
         self.in_complex_step = False
+        self.in_fd = False
         self.precon_level = 0
         self.pathname = ''
 
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c3db837..c03d81b 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -583,11 +583,11 @@ class System(object):
 
         # Prepare for calculating partial derivatives or total derivatives
         if total_derivs:
-            run_model = self._sys_solve_nonlinear
+            run = self._sys_solve_nonlinear
             resultvec = unknowns
             states = ()
         else:
-            run_model = self._sys_apply_nonlinear
+            run = self._sys_apply_nonlinear
             resultvec = resids
             states = self.states
 
@@ -595,6 +595,17 @@ class System(object):
             if fd_states is not None:
                 states = fd_states
 
+        def run_model(*args):
+            """ Runs at a perturbed point, which is not an iteration to be
+            recorded."""
+            probdata = unknowns._probdata
+            in_fd = probdata.in_fd
+            probdata.in_fd = True
+            try:
+                run(*args)
+            finally:
+                probdata.in_fd = in_fd
+
         cache1 = resultvec.vec.copy()
 
         gather_jac = False
diff --git a/openmdao/recorders/recording_manager.py b/openmdao/recorders/recording_manager.py
index 319116b..8bd98b8 100644
--- a/openmdao/recorders/recording_manager.py
+++ b/openmdao/recorders/recording_manager.py
@@ -175,7 +175,8 @@ class RecordingManager(object):
             If True, this is a dummy iteration, so no data will be colllected
             from the model, but collective gather call will still be made.
         """
-        if not self._recorders:
+        # Runs at the perturbed points of a finite difference are no iterations.
+        if not self._recorders or root._probdata.in_fd:
             return
 
         if metadata is not None:
-- 
2.43.0


From 2c33b00f7c4da990b020a45a0e67755617a6e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 31/85] fix: DumpRecorder wrote a bare 'no' for an iteration
 that failed

---
 openmdao/recorders/dump_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/dump_recorder.py b/openmdao/recorders/dump_recorder.py
index 49167f4..7274852 100644
--- a/openmdao/recorders/dump_recorder.py
+++ b/openmdao/recorders/dump_recorder.py
@@ -158,7 +158,7 @@ class DumpRecorder(BaseRecorder):
         if latest iteration didn't succeed.
         """
         self.out.write("Iteration succeeded: %s\n" %
-                           'yes' if metadata['success'] else 'no')
+                           ('yes' if metadata['success'] else 'no'))
         if not metadata['success']:
             self.out.write("Error msg: %s\n" % metadata['msg'])
 
-- 
2.43.0


From 1a1ce5e27a0054035bedb0bbb5d440eebbdece80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 32/85] fix: cases of InMemoryRecorder changed with the model

Array values were stored as views of the model's vectors, so that all cases
ended up with the values of the last one.
---
 openmdao/recorders/inmem_recorder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openmdao/recorders/inmem_recorder.py b/openmdao/recorders/inmem_recorder.py
index 8ec23f4..e3e483e 100644
--- a/openmdao/recorders/inmem_recorder.py
+++ b/openmdao/recorders/inmem_recorder.py
@@ -5,6 +5,7 @@ and using it for real problems could use up large amounts of memory.
 """
 
 import sys
+from copy import deepcopy
 
 from six import string_types, iteritems
 
@@ -78,17 +79,17 @@ class InMemoryRecorder(BaseRecorder):
         data['msg'] = metadata['msg']
 
         if self.options['record_params']:
-            data['params'] = {p:v for p,v in
+            data['params'] = {p:deepcopy(v) for p,v in
                                  iteritems(self._filter_vector(params,'p',
                                                         iteration_coordinate))}
 
         if self.options['record_unknowns']:
-            data['unknowns'] = {u:v for u,v in
+            data['unknowns'] = {u:deepcopy(v) for u,v in
                                   iteritems(self._filter_vector(unknowns,'u',
                                                         iteration_coordinate))}
 
         if self.options['record_resids']:
-            data['resids'] = {r:v for r,v in
+            data['resids'] = {r:deepcopy(v) for r,v in
                                   iteritems(self._filter_vector(resids,'r',
                                                          iteration_coordinate))}
 
@@ -122,6 +123,6 @@ class InMemoryRecorder(BaseRecorder):
         timestamp = metadata['timestamp']
 
         data['timestamp'] = timestamp
-        data['Derivatives'] = derivs
+        data['Derivatives'] = deepcopy(derivs)
 
         self.deriv_iters.append(data)
-- 
2.43.0


From 66718c92a58b3d9db1154d8d606feca652ada0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:16 +0000
Subject: [PATCH 33/85] fix: a second run of an optimizer or DOE reused the
 iteration coordinates of the first

Its cases replaced those of the first run in Sqlite files, and HDF5Recorder
raised ValueError.
---
 openmdao/drivers/predeterminedruns_driver.py | 7 ++++---
 openmdao/drivers/pyoptsparse_driver.py       | 4 +++-
 openmdao/drivers/scipy_optimizer.py          | 4 +++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 4d77d9b..a5ae967 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -108,6 +108,7 @@ class PredeterminedRunsDriver(Driver):
         self._load_balance = load_balance
         self._respvars = []
         self._resp_recorder = None
+        self._next_lb_id = 0
 
     def _setup_communicators(self, comm, parent_dir):
         """
@@ -408,8 +409,6 @@ class PredeterminedRunsDriver(Driver):
         """Build a runlist and execute the Problem for each set of generated
         parameters.
         """
-        self.iter_count = 0
-
         if self._resp_recorder is not None:
             self._resp_recorder.reset()
 
@@ -598,7 +597,7 @@ class PredeterminedRunsDriver(Driver):
         for proc in procs:
             proc.start()
 
-        iter_count = 0
+        iter_count = self._next_lb_id
         num_active = 0
         empty = {}
         try:
@@ -648,6 +647,8 @@ class PredeterminedRunsDriver(Driver):
         for proc in procs:
             proc.join()
 
+        self._next_lb_id = iter_count
+
     def _get_case_w_nones(self, it):
         """A wrapper around a case generator that returns None cases if
         any of the other members of the MPI comm have any cases left to run,
diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 73b4c67..e7436ae 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -150,7 +150,9 @@ class pyOptSparseDriver(Driver):
 
         # Metadata Setup
         self.metadata = create_local_meta(None, self.options['optimizer'])
-        self.iter_count = 0
+        if self.iter_count > 0:
+            # Iteration coordinates of an earlier run must not be used again.
+            self.iter_count += 1
         update_local_meta(self.metadata, (self.iter_count,))
 
         # Initial Run
diff --git a/openmdao/drivers/scipy_optimizer.py b/openmdao/drivers/scipy_optimizer.py
index a304d7c..3015a1c 100644
--- a/openmdao/drivers/scipy_optimizer.py
+++ b/openmdao/drivers/scipy_optimizer.py
@@ -114,7 +114,9 @@ class ScipyOptimizer(Driver):
         # Metadata Setup
         opt = self.options['optimizer']
         self.metadata = create_local_meta(None, opt)
-        self.iter_count = 0
+        if self.iter_count > 0:
+            # Iteration coordinates of an earlier run must not be used again.
+            self.iter_count += 1
         update_local_meta(self.metadata, (self.iter_count,))
 
         # Initial Run
-- 
2.43.0


From 8261146ddd3c5b50737d344aa724fadd56650df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 34/85] fix: check_total_derivatives without output stream
 failed on a model not run yet

---
 openmdao/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 6445f30..ffdf425 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -2202,7 +2202,8 @@ class Problem(object):
         driver = self.driver
 
         if driver.iter_count < 1:
-            out_stream.write('Executing model to populate unknowns...\n\n')
+            if out_stream is not None:
+                out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
 
         if out_stream is not None:
-- 
2.43.0


From 7a371b275e266880441f346c3df20d95a5bf3439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 35/85] fix: finite difference of a group took its parameters
 for those of the root with the same name

---
 openmdao/core/system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c03d81b..c56abaf 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -624,7 +624,9 @@ class System(object):
 
             # If our input is connected to a IndepVarComp, then we need to twiddle
             # the unknowns vector instead of the params vector.
-            src = self.connections.get(p_name)
+            # Connections are keyed by absolute name, which p_name only is in
+            # the root.
+            src = None if self.pathname else self.connections.get(p_name)
             if src is not None:
                 param_src = src[0]  # just the name
 
-- 
2.43.0


From db4a9c9eb4ab059defeacd7e4de732868bb5460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 36/85] fix: run_once of a DOE driver and its cases used the
 same iteration coordinates

---
 openmdao/drivers/predeterminedruns_driver.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index a5ae967..132f0e3 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -424,6 +424,20 @@ class PredeterminedRunsDriver(Driver):
             else:
                 self._run_serial()
 
+    def run_once(self, problem):
+        """ Runs root's solve_nonlinear one time
+
+        Args
+        ----
+        problem : `Problem`
+            Our parent `Problem`.
+        """
+        # Cases are numbered starting with iter_count, so it always has to be
+        # a number that was not used yet.
+        self.iter_count = max(self.iter_count, self._next_lb_id)
+        super(PredeterminedRunsDriver, self).run_once(problem)
+        self.iter_count += 1
+
     def _save_case(self, case, meta=None):
         if self._num_par_doe > 1:
             if self._load_balance:
@@ -597,7 +611,7 @@ class PredeterminedRunsDriver(Driver):
         for proc in procs:
             proc.start()
 
-        iter_count = self._next_lb_id
+        iter_count = max(self._next_lb_id, self.iter_count)
         num_active = 0
         empty = {}
         try:
-- 
2.43.0


From 1592d45502a414cb60a2708aceca45b02f6d5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 37/85] fix: derivatives in Sqlite files were not given by the
 case reader

---
 openmdao/recorders/sqlite_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index 05eb986..e8373ee 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -90,6 +90,6 @@ class SqliteCaseReader(CaseReaderBase):
                 pass
             else:
                 if _case_id in derivs_db:
-                    case._derivs = derivs_db[_case_id].get('Derivatives', None)
+                    case.derivs = derivs_db[_case_id].get('Derivatives', None)
 
         return case
-- 
2.43.0


From db7b75f085c95c817393dd3581f3e52508d6d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 38/85] fix: case readers left their parameters and unknowns
 metadata None

---
 openmdao/recorders/hdf5_reader.py   | 12 ++++++------
 openmdao/recorders/sqlite_reader.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index aeacef7..09ac5f6 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -68,14 +68,14 @@ class HDF5CaseReader(CaseReaderBase):
         """ Load the metadata and iteration keys from the given file. """
         if self.format_version in (3, 4):
             with h5py.File(self.filename, 'r') as f:
-                self._parameters = f['metadata'].get('Parameters', None)
-                self._unknowns = f['metadata'].get('Unknowns', None)
+                self.parameters = f['metadata'].get('Parameters', None)
+                self.unknowns = f['metadata'].get('Unknowns', None)
 
-                if isinstance(self._parameters, h5py.Group):
-                    self._parameters = _group_to_dict(self._parameters)
+                if isinstance(self.parameters, h5py.Group):
+                    self.parameters = _group_to_dict(self.parameters)
 
-                if isinstance(self._unknowns, h5py.Group):
-                    self._unknowns = _group_to_dict(self._unknowns)
+                if isinstance(self.unknowns, h5py.Group):
+                    self.unknowns = _group_to_dict(self.unknowns)
 
                 self._case_keys = tuple([key for key in f.keys()
                                          if key != 'metadata'])
diff --git a/openmdao/recorders/sqlite_reader.py b/openmdao/recorders/sqlite_reader.py
index e8373ee..6560b6f 100644
--- a/openmdao/recorders/sqlite_reader.py
+++ b/openmdao/recorders/sqlite_reader.py
@@ -48,8 +48,8 @@ class SqliteCaseReader(CaseReaderBase):
         if self.format_version in (3, 4):
             # Read the metadata and save it in the reader
             with SqliteDict(self.filename, 'metadata', flag='r') as db:
-                self._parameters = db.get('Parameters', None)
-                self._unknowns = db.get('Unknowns', None)
+                self.parameters = db.get('Parameters', None)
+                self.unknowns = db.get('Unknowns', None)
 
             # Store the identifier for each iteration in _case_keys
             with SqliteDict(self.filename, 'iterations', flag='r') as db:
-- 
2.43.0


From 67a923d15758a0d0de7fe25e97bc5ddf790b18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 39/85] fix: HDF5 case reader failed on empty arrays

---
 openmdao/recorders/hdf5_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 09ac5f6..b02d076 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -1,7 +1,5 @@
 from __future__ import print_function, absolute_import
 
-import numpy as np
-
 try:
     import h5py
 except ImportError:
@@ -33,8 +31,7 @@ def _group_to_dict(grp):
             # Value is scalar
             val = grp[()]
         else:
-            val = np.zeros(grp.shape, dtype=grp.dtype)
-            grp.read_direct(val)
+            val = grp[...]
         return val
     elif isinstance(grp, dict):
         return grp
-- 
2.43.0


From 70ed1d0d08e91ea89368ce58256e6bb22344914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 40/85] fix: timestamp, success, msg and derivatives of HDF5
 cases were not given by the case reader

---
 openmdao/recorders/hdf5_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index b02d076..3e17fe6 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -102,4 +102,10 @@ class HDF5CaseReader(CaseReaderBase):
 
         with h5py.File(self.filename, 'r') as f:
             case_dict = _group_to_dict(f[_case_id])
+            case_dict.update(f[_case_id].attrs)
+
+            # derivatives are in a group of their own
+            if 'Derivs' in case_dict:
+                case_dict['Derivatives'] = case_dict['Derivs'].get('Derivatives')
+
             return Case(self.filename, _case_id, case_dict)
-- 
2.43.0


From b4d255c4ed555edf0a45335859ef09fe45e518d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 41/85] fix: HDF5 case reader gave cases in alphabetical order

---
 openmdao/recorders/hdf5_reader.py   | 6 ++++--
 openmdao/recorders/hdf5_recorder.py | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 3e17fe6..0c04457 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -74,8 +74,10 @@ class HDF5CaseReader(CaseReaderBase):
                 if isinstance(self.unknowns, h5py.Group):
                     self.unknowns = _group_to_dict(self.unknowns)
 
-                self._case_keys = tuple([key for key in f.keys()
-                                         if key != 'metadata'])
+                # h5py gives the keys in alphabetical order
+                cases = [(grp.attrs.get('order', 0), grp.attrs['timestamp'], key)
+                         for key, grp in f.items() if key != 'metadata']
+                self._case_keys = tuple([key for _, _, key in sorted(cases)])
         else:
             raise ValueError('HDF5CaseReader encountered an unhandled '
                              'format version: {0}'.format(self.format_version))
diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 1a85744..54d2f40 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -55,6 +55,8 @@ class HDF5Recorder(BaseRecorder):
 
         metadata_group.create_dataset('format_version', data = format_version)
 
+        self._num_cases = 0
+
     def record_metadata(self, group):
         """Stores the metadata of the given group in a HDF5 file using
         the variable name for the key.
@@ -128,6 +130,8 @@ class HDF5Recorder(BaseRecorder):
         group.attrs['timestamp'] = metadata['timestamp']
         group.attrs['success'] = metadata['success']
         group.attrs['msg'] = metadata['msg']
+        group.attrs['order'] = self._num_cases
+        self._num_cases += 1
 
         pairings = []
 
-- 
2.43.0


From bac7a5a887d69833367d7cf14d615f956beb89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 42/85] fix: HDF5Recorder failed when set up again, shared, or
 given derivatives twice in an iteration

---
 openmdao/recorders/hdf5_recorder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 54d2f40..b4f62f2 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -72,6 +72,11 @@ class HDF5Recorder(BaseRecorder):
 
         metadata_group = self.out['metadata']
 
+        # The recorder may be started again, or have several owners
+        for key in ('system_metadata', 'model_viewer_data', 'Parameters', 'Unknowns'):
+            if key in metadata_group:
+                del metadata_group[key]
+
         # The group metadata could be anything so need to pickle it
         # There are other ways of storing any kind of Python object in HDF5 but this is the simplest
         system_metadata_val = np.array(pickle.dumps(group.metadata, pickle.HIGHEST_PROTOCOL))
@@ -181,6 +186,10 @@ class HDF5Recorder(BaseRecorder):
         # Create a group under that called 'deriv'
         deriv_group = iteration_group.require_group('Derivs')
 
+        # The last derivatives of an iteration replace earlier ones
+        if 'Derivatives' in deriv_group:
+            del deriv_group['Derivatives']
+
         # Then add timestamp, success, msg as attributes
         deriv_group.attrs['timestamp'] = metadata['timestamp']
         deriv_group.attrs['success'] = metadata['success']
-- 
2.43.0


From 718f1fd664402ffcedf606e5c32922f4163158b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 43/85] fix: HDF5Recorder could not record derivatives of an
 iteration that was not recorded

---
 openmdao/recorders/hdf5_reader.py   | 2 +-
 openmdao/recorders/hdf5_recorder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 0c04457..5afc1c2 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -76,7 +76,7 @@ class HDF5CaseReader(CaseReaderBase):
 
                 # h5py gives the keys in alphabetical order
                 cases = [(grp.attrs.get('order', 0), grp.attrs['timestamp'], key)
-                         for key, grp in f.items() if key != 'metadata']
+                         for key, grp in f.items() if 'timestamp' in grp.attrs]
                 self._case_keys = tuple([key for _, _, key in sorted(cases)])
         else:
             raise ValueError('HDF5CaseReader encountered an unhandled '
diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index b4f62f2..9b24fe3 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -180,8 +180,8 @@ class HDF5Recorder(BaseRecorder):
         iteration_coordinate = metadata['coord']
         group_name = format_iteration_coordinate(iteration_coordinate)
 
-        # get the group for the iteration
-        iteration_group = self.out[group_name]
+        # get the group for the iteration, which may not have been recorded
+        iteration_group = self.out.require_group(group_name)
 
         # Create a group under that called 'deriv'
         deriv_group = iteration_group.require_group('Derivs')
-- 
2.43.0


From a8cec2eaaccf78121a0dd436416accaac426097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 44/85] fix: connected variables of size zero made setup fail

---
 openmdao/core/data_transfer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/data_transfer.py b/openmdao/core/data_transfer.py
index df6f930..e4a62e8 100644
--- a/openmdao/core/data_transfer.py
+++ b/openmdao/core/data_transfer.py
@@ -57,7 +57,9 @@ class DataTransfer(object):
             keyfunc = lambda l: l[1][0]
 
         scatters = []
-        for isrcs, itgts in sorted(zip(src_idxs, tgt_idxs), key=keyfunc):
+        # variables of size zero have nothing to transfer
+        idxs = [(s, t) for s, t in zip(src_idxs, tgt_idxs) if len(t) > 0]
+        for isrcs, itgts in sorted(idxs, key=keyfunc):
             srcs = to_slice(isrcs)
             tgts = to_slice(itgts)
 
-- 
2.43.0


From dc2f4b679d004cbcf57cfcb9645dc7f329c6e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 45/85] fix: HDF5Recorder could not record metadata without a
 native HDF5 type

---
 openmdao/recorders/hdf5_reader.py   | 4 ++++
 openmdao/recorders/hdf5_recorder.py | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/openmdao/recorders/hdf5_reader.py b/openmdao/recorders/hdf5_reader.py
index 5afc1c2..97a8c4c 100644
--- a/openmdao/recorders/hdf5_reader.py
+++ b/openmdao/recorders/hdf5_reader.py
@@ -1,5 +1,7 @@
 from __future__ import print_function, absolute_import
 
+import pickle
+
 try:
     import h5py
 except ImportError:
@@ -30,6 +32,8 @@ def _group_to_dict(grp):
         if not grp.shape:
             # Value is scalar
             val = grp[()]
+            if grp.attrs.get('pickled'):
+                val = pickle.loads(val)
         else:
             val = grp[...]
         return val
diff --git a/openmdao/recorders/hdf5_recorder.py b/openmdao/recorders/hdf5_recorder.py
index 9b24fe3..0d7f301 100644
--- a/openmdao/recorders/hdf5_recorder.py
+++ b/openmdao/recorders/hdf5_recorder.py
@@ -97,7 +97,12 @@ class HDF5Recorder(BaseRecorder):
                 meta_group = grp.create_group(key)
 
                 for mkey, mval in iteritems(val):
-                    meta_group.create_dataset(mkey, data=mval)
+                    try:
+                        meta_group.create_dataset(mkey, data=mval)
+                    except TypeError:
+                        # no native HDF5 type, so pickle it
+                        mval = np.array(pickle.dumps(mval, pickle.HIGHEST_PROTOCOL))
+                        meta_group.create_dataset(mkey, data=mval).attrs['pickled'] = True
                     # if isinstance(val, (np.ndarray, Number)):
                     #    grp.create_dataset(key, data=val)
                     #    # TODO: Compression/Checksum?
-- 
2.43.0


From de97291b1fc821feb32814a9392caf76f1f41e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 46/85] fix: Brent refused floats as xtol and rtol

---
 openmdao/solvers/brent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 3848c97..4ac40f0 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -44,7 +44,7 @@ class Brent(NonLinearSolver):
         if given, name of the variable to pull the lower bound value from.This variable must be a parameter on of of the child components of the containing system
     options['var_upper_bound'] :  str('')
         if given, name of the variable to pull the upper bound value from.This variable must be a parameter on of of the child components of the containing system
-    options['xtol'] :  int(0)
+    options['xtol'] :  float(0.0)
         The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. The routine modifies this to take into account the relative precision of doubles.
     """
 
@@ -52,11 +52,11 @@ class Brent(NonLinearSolver):
         super(Brent, self).__init__()
 
         opt = self.options
-        opt.add_option('xtol', 0,
+        opt.add_option('xtol', 0.,
             desc='The routine converges when a root is known to lie within xtol of the value return. Should be >= 0. '
                  'The routine modifies this to take into account the relative precision of doubles.')
 
-        opt.add_option('rtol', np.finfo(float).eps * 4.,
+        opt.add_option('rtol', float(np.finfo(float).eps * 4.),
             desc='The routine converges when a root is known to lie within rtol times the value returned of '
                  'the value returned. Should be >= 0. Defaults to np.finfo(float).eps * 4.')
 
-- 
2.43.0


From 9221d7c3da3a8d17457fd8c41ba84e102696b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 47/85] fix: after a setup, add was refused and a later setup
 kept the automatic order

---
 openmdao/core/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index ffdf425..dc1b4d7 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -653,6 +653,8 @@ class Problem(object):
                     if trace:
                         debug("problem setup order bcast DONE")
                 s.set_order(order)
+                # It's not the user who specified an order.
+                s._order_set = False
 
         # Mark every comp that is executed out-of-order so that we
         # rerun them during apply_nonlinear (explicit comps)
-- 
2.43.0


From f57d961968941574d17c90b8fe07d7f4a218e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 48/85] fix: derivative checks did not run a model that was set
 up again

---
 openmdao/core/problem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index dc1b4d7..5fbf63a 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -142,6 +142,9 @@ class Problem(object):
         self.pathname = ''
         self._parent_dir = None
 
+        # The iteration count of the driver at the last setup.
+        self._setup_iter_count = 0
+
         # Default numpy error behavior: we want to raise whenever we can, except for
         # underflow.
         if debug == True:
@@ -486,6 +489,7 @@ class Problem(object):
             s.pre_setup(self)
 
         self._setup_errors = []
+        self._setup_iter_count = self.driver.iter_count
 
         # if we modify the system tree, we'll need to call _init_sys_data,
         # _setup_variables and _setup_connections again
@@ -1926,7 +1930,8 @@ class Problem(object):
             msg += "vectors are allocated in that case."
             raise RuntimeError(msg)
 
-        if self.driver.iter_count < 1:
+        # Has the model been run since it was set up?
+        if self.driver.iter_count <= self._setup_iter_count:
             if out_stream is not None:
                 out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
@@ -2203,7 +2208,7 @@ class Problem(object):
         root = self.root
         driver = self.driver
 
-        if driver.iter_count < 1:
+        if driver.iter_count <= self._setup_iter_count:
             if out_stream is not None:
                 out_stream.write('Executing model to populate unknowns...\n\n')
             self.run_once()
-- 
2.43.0


From ac760fb64befec677f8c0cbf6ca2a76f19bd6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 49/85] fix: finite differences moved values, objects and
 inputs, and trusted outputs that did not belong to the inputs

---
 openmdao/core/component.py |  6 +++-
 openmdao/core/system.py    | 72 +++++++++++++++++++++++++++++++-------
 2 files changed, 65 insertions(+), 13 deletions(-)

diff --git a/openmdao/core/component.py b/openmdao/core/component.py
index 9c67408..cddd086 100644
--- a/openmdao/core/component.py
+++ b/openmdao/core/component.py
@@ -581,7 +581,8 @@ class Component(System):
 
         # Since explicit comps don't put anything in resids, we can use it to
         # cache the old values of the unknowns.
-        resids.vec[:] = -unknowns.vec
+        old_vals = unknowns.vec.copy()
+        resids.vec[:] = -old_vals
 
         self._sys_solve_nonlinear(params, unknowns, resids)
 
@@ -590,6 +591,9 @@ class Component(System):
         resids.vec[:] += unknowns.vec
         unknowns.vec[:] -= resids.vec
 
+        # The subtraction may be off by a rounding error.
+        unknowns.vec[:] = old_vals
+
     def _sys_solve_nonlinear(self, params, unknowns, resids):
         """
         Runs the component. This wraps solve_nonlinear and performs any
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index c56abaf..df9e71a 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -603,10 +603,22 @@ class System(object):
             probdata.in_fd = True
             try:
                 run(*args)
+            except:
+                self._restore_values(saved)
+                raise
             finally:
                 probdata.in_fd = in_fd
 
+        # The values that were there before have to be there afterwards.
+        saved = self._save_values(params, unknowns, resids)
+
+        # What was calculated last may not belong to the current inputs of this
+        # system.
+        if self.pathname:
+            run_model(params, unknowns, resids)
+
         cache1 = resultvec.vec.copy()
+        self._restore_values(saved)
 
         gather_jac = False
 
@@ -695,8 +707,11 @@ class System(object):
                 if fd_count % self._num_par_fds == self._par_fd_id:
                     if p_size == 0:
                         run_model(params, unknowns, resids)
+                        self._restore_values(saved)
                         continue
 
+                    base = target_input[idx]
+
                     # Relative or Absolute step size
                     if fdtype == 'relative':
                         step = target_input[idx] * fdstep
@@ -711,13 +726,15 @@ class System(object):
                         probdata.in_complex_step = True
 
                         inputs._dat[param_key].imag_val[idx] += fdstep
-                        run_model(params, unknowns, resids)
+                        try:
+                            run_model(params, unknowns, resids)
+                        finally:
+                            probdata.in_complex_step = False
                         inputs._dat[param_key].imag_val[idx] -= fdstep
 
                         # delta resid is delta unknown
                         resultvec.vec[:] = resultvec.imag_vec*(1.0/fdstep)
                         # Note: vector division is slower than vector mult.
-                        probdata.in_complex_step = False
 
                     elif fdform == 'forward':
 
@@ -725,8 +742,6 @@ class System(object):
 
                         run_model(params, unknowns, resids)
 
-                        target_input[idx] -= step
-
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
                         resultvec.vec[:] *= (1.0/step)
@@ -738,8 +753,6 @@ class System(object):
 
                         run_model(params, unknowns, resids)
 
-                        target_input[idx] += step
-
                         # delta resid is delta unknown
                         resultvec.vec[:] -= cache1
                         resultvec.vec[:] *= (-1.0/step)
@@ -752,8 +765,8 @@ class System(object):
                         run_model(params, unknowns, resids)
                         cache2 = resultvec.vec.copy()
 
-                        target_input[idx] -= step
-                        resultvec.vec[:] = cache1
+                        self._restore_values(saved)
+                        target_input[idx] = base
 
                         target_input[idx] -= step
 
@@ -764,8 +777,6 @@ class System(object):
                         resultvec.vec[:] *= (-0.5/step)
                         # Note: vector division is slower than vector mult.
 
-                        target_input[idx] += step
-
                     for u_name in fd_unknowns:
                         if qoi_indices and u_name in qoi_indices:
                             result = resultvec._dat[u_name].val[qoi_indices[u_name]]
@@ -789,8 +800,9 @@ class System(object):
                                 if q_idx == idx:
                                     jac[u_name, p_name][row, col] = 1.0
 
-                    # Restore old residual
-                    resultvec.vec[:] = cache1
+                    # Restore everything that the run has changed
+                    self._restore_values(saved)
+                    target_input[idx] = base
 
         if self._num_par_fds > 1:
             if trace:  # pragma: no cover
@@ -809,6 +821,42 @@ class System(object):
 
         return jac
 
+    def _save_values(self, params, unknowns, resids):
+        """ Remembers all values that a run of this system may change.
+
+        Returns
+        -------
+        tuple
+            For use by `_restore_values`.
+        """
+        vecs = [unknowns, resids]
+        if self.pathname:
+            # Groups below this one have their own copies of their inputs.
+            vecs.append(params)
+            vecs.extend(sub.params for sub in self.subsystems(local=True,
+                                                              recurse=True))
+
+        arrays = []
+        objects = []
+        for vec in vecs:
+            for acc in itervalues(vec._dat):
+                if acc.pbo:
+                    objects.append((acc.val, acc.val.val))
+                elif not acc.remote:
+                    arrays.append((acc.val, acc.val.copy()))
+                    if vec.alloc_complex:
+                        arrays.append((acc.imag_val, acc.imag_val.copy()))
+
+        return arrays, objects
+
+    def _restore_values(self, saved):
+        """ Puts the values back that were remembered by `_save_values`."""
+        arrays, objects = saved
+        for arr, val in arrays:
+            arr[:] = val
+        for wrapper, val in objects:
+            wrapper.val = val
+
     def _sys_apply_linear(self, mode, do_apply, vois=(None,), gs_outputs=None,
                           rel_inputs=None):
         """
-- 
2.43.0


From db880dcf7c1fd447ea9d647d7a3a9a5a1ef24b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:32 +0000
Subject: [PATCH 50/85] fix: the size of a relative finite difference step
 follows the magnitude of the value

---
 openmdao/core/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index df9e71a..a47b916 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -714,7 +714,7 @@ class System(object):
 
                     # Relative or Absolute step size
                     if fdtype == 'relative':
-                        step = target_input[idx] * fdstep
+                        step = abs(target_input[idx]) * fdstep
                         if step < fdstep:
                             step = fdstep
                     else:
-- 
2.43.0


From 18952a5b6e306d89b5b8a1307d6c1b68ea906135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:48 +0000
Subject: [PATCH 51/85] fix: finite difference options of a single variable
 also apply inside groups that are approximated

---
 openmdao/core/system.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index a47b916..0c1fdef 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -667,6 +667,11 @@ class System(object):
             # matching param.  If they differ, a warning has already been issued.
             if p_name in abs_pnames:
                 mydict = self._params_dict[abs_pnames[p_name][0]]
+            else:
+                # In a Group, it is the absolute name within that Group.
+                abs_pname = '.'.join((self.pathname, p_name)) \
+                                if self.pathname else p_name
+                mydict = self._params_dict.get(abs_pname, {})
 
             # Local settings for this var trump all
             fdstep = mydict.get('step_size', step_size)
-- 
2.43.0


From 1131714fbab8ca1a24deda429c732d275b87c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 52/85] fix: groups that are approximated provide derivatives
 wrt their own IndepVarComps, may contain states, and can be assembled

---
 openmdao/core/group.py  | 71 ++++++++++++++++++++++++++++++++++-------
 openmdao/core/system.py | 42 +++++++++++++++++++-----
 2 files changed, 94 insertions(+), 19 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 12c75b1..627106a 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -622,6 +622,27 @@ class Group(System):
 
         return self._fd_params
 
+    def _get_fd_indeps(self):
+        """
+        Get the outputs of all `IndepVarComps` that are part of this `Group`.
+
+        Returns
+        -------
+        dict
+            The name of each output, with a list of the names of all params of
+            this `Group` that are connected to it.
+        """
+        if not self._fd_indeps:
+            mypath = self.pathname + '.' if self.pathname else ''
+            for tgt in self._get_fd_params():
+                src = self.connections[mypath + tgt][0]
+                if src in self._sysdata.to_prom_name:
+                    name = self._sysdata.to_prom_name[src]
+                    if not self.unknowns._dat[name].pbo:
+                        self._fd_indeps.setdefault(name, []).append(tgt)
+
+        return self._fd_indeps
+
     def _get_fd_unknowns(self):
         """
         Get the list of unknowns that are needed to perform a
@@ -935,8 +956,17 @@ class Group(System):
         # Don't solve if user requests finite difference in this group.
         if self.deriv_options['type'] is not 'user':
             for voi in vois:
-                sol_vec[voi].vec[:] = -rhs_vec[voi].vec
-                return
+                sol, rhs = sol_vec[voi], rhs_vec[voi]
+                sol.vec[:] = -rhs.vec
+
+                # The outputs depend on our own IndepVarComps.
+                for (out, name), J in iteritems(self._jacobian_cache):
+                    if name in self._fd_indeps and out in sol and name in sol:
+                        if mode == 'fwd':
+                            sol._flat(out)[:] -= J.dot(rhs._flat(name))
+                        else:
+                            sol._flat(name)[:] -= J.T.dot(rhs._flat(out))
+            return
 
         # Solve Jacobian, df |-> du [fwd] or du |-> df [rev]
         rhs_buf = OrderedDict()
@@ -1034,11 +1064,15 @@ class Group(System):
 
             # Only explicit outputs own a diagonal of -1. The rows that belong
             # to states hold nothing but what their component provides.
-            for name in self.states:
-                start, end = u_vec._dat[name].slice
-                partials[start:end, start:end] = 0.0
+            for sub in self._linear_subsystems():
+                if sub._local_subsystems:
+                    continue
+                for name in sub.states:
+                    name = sys_prom_name['.'.join((sub.pathname, name))]
+                    start, end = u_vec._dat[name].slice
+                    partials[start:end, start:end] = 0.0
 
-            for sub in self.components(recurse=True):
+            for sub in self._linear_subsystems():
 
                 jac = sub._jacobian_cache
 
@@ -1056,17 +1090,17 @@ class Group(System):
                     o_var, i_var = key
                     key2 = (sub_name, key)
                     i_var_abs = '.'.join((sub_name, i_var))
-                    is_state = i_var in sub.states
+                    is_state = i_var in sub.states or i_var in sub._fd_indeps
 
                     # We cache the location of each variable in our jacobian
                     if key2 not in icache:
 
-                        o_var_abs = '.'.join((sub_name, o_var))
-                        i_var_pro = sys_prom_name[i_var_abs]
-                        o_var_pro = sys_prom_name[o_var_abs]
+                        o_var_pro = self._unknown_name(sub, o_var)
 
                         # States are fine, but inputs need to find their source.
-                        if not is_state:
+                        if is_state:
+                            i_var_pro = self._unknown_name(sub, i_var)
+                        else:
 
                             # Param is not relevant
                             if i_var_abs not in conn:
@@ -1114,6 +1148,21 @@ class Group(System):
 
         return partials, icache
 
+    def _linear_subsystems(self):
+        """ Yields all systems below this one that provide a Jacobian: Components
+        and those Groups that are finite differenced."""
+        for sub in self._local_subsystems:
+            if sub._local_subsystems and sub.deriv_options['type'] == 'user':
+                for subsub in sub._linear_subsystems():
+                    yield subsub
+            elif sub._local_subsystems or not isinstance(sub, Group):
+                yield sub
+
+    def _unknown_name(self, sub, name):
+        """ Returns the name that an unknown of a system below this one has in
+        the unknowns vector of this `Group`."""
+        return self._sysdata.to_prom_name[sub._sysdata.to_abs_uname[name]]
+
     def set_order(self, new_order):
         """ Specifies a new execution order for this system. This should only
         be called after all subsystems have been added.
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index 0c1fdef..d3015a2 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -211,6 +211,7 @@ class System(object):
 
         self._local_subsystems = []
         self._fd_params = None
+        self._fd_indeps = OrderedDict()
 
     def _promoted(self, name):
         """Determine if the given variable name is being promoted from this
@@ -631,8 +632,16 @@ class System(object):
 
         to_prom_name = self._sysdata.to_prom_name
 
+        # An IndepVarComp inside of this system isn't a function of anything, so
+        # it counts as an input.
+        indeps = {}
+        if total_derivs and self.pathname:
+            indeps = self._get_fd_indeps()
+            inner = set(chain.from_iterable(itervalues(indeps)))
+            fd_params = [name for name in fd_params if name not in inner]
+
         # Compute gradient for this param or state.
-        for p_name in chain(fd_params, states):
+        for p_name in chain(fd_params, states, indeps):
 
             # If our input is connected to a IndepVarComp, then we need to twiddle
             # the unknowns vector instead of the params vector.
@@ -650,7 +659,7 @@ class System(object):
                 param_key = param_src
             else:
                 # Cases where the IndepVarComp is somewhere above us.
-                if p_name in states:
+                if p_name in states or p_name in indeps:
                     inputs = unknowns
                 else:
                     inputs = params
@@ -661,16 +670,19 @@ class System(object):
             target_input = inputs._dat[param_key].val
 
             mydict = {}
+            # An IndepVarComp uses the options of what it is connected to.
+            opt_name = indeps[p_name][0] if p_name in indeps else p_name
+
             # since p_name is a promoted name, it could refer to multiple
             # params.  We've checked earlier to make sure that step_size,
             # step_calc, type, and form are not defined differently for each
             # matching param.  If they differ, a warning has already been issued.
-            if p_name in abs_pnames:
-                mydict = self._params_dict[abs_pnames[p_name][0]]
+            if opt_name in abs_pnames:
+                mydict = self._params_dict[abs_pnames[opt_name][0]]
             else:
                 # In a Group, it is the absolute name within that Group.
-                abs_pname = '.'.join((self.pathname, p_name)) \
-                                if self.pathname else p_name
+                abs_pname = '.'.join((self.pathname, opt_name)) \
+                                if self.pathname else opt_name
                 mydict = self._params_dict.get(abs_pname, {})
 
             # Local settings for this var trump all
@@ -826,6 +838,18 @@ class System(object):
 
         return jac
 
+    def _get_fd_indeps(self):
+        """
+        Get the outputs of all `IndepVarComps` that are part of this `System`.
+
+        Returns
+        -------
+        dict
+            The name of each output, with a list of the names of all params of
+            this `System` that are connected to it.
+        """
+        return self._fd_indeps
+
     def _save_values(self, params, unknowns, resids):
         """ Remembers all values that a run of this system may change.
 
@@ -885,7 +909,9 @@ class System(object):
             This list only includes interior connections and states.
         """
         force_fd = self.deriv_options['type'] is not 'user'
-        states = self.states
+        # All that a finite differenced Group calculates is an explicit function
+        # of its inputs.
+        states = () if force_fd and self._local_subsystems else self.states
         is_relevant = self._probdata.relevance.is_relevant_system
         fwd = mode == "fwd"
 
@@ -1045,7 +1071,7 @@ class System(object):
 
         for (unknown, param), J in iteritems(self._jacobian_cache):
 
-            if param in states:
+            if param in states or param in self._fd_indeps:
                 arg_vec = dunknowns
             else:
                 arg_vec = dparams
-- 
2.43.0


From ae520e2f25f878f17bb392ef7320fc9e4e15c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 53/85] fix: optimized Latin hypercubes lost samples when
 points were exchanged more than once, and never ended with a single sample

---
 openmdao/drivers/latinhypercube_driver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openmdao/drivers/latinhypercube_driver.py b/openmdao/drivers/latinhypercube_driver.py
index f62337b..f7697d8 100644
--- a/openmdao/drivers/latinhypercube_driver.py
+++ b/openmdao/drivers/latinhypercube_driver.py
@@ -225,6 +225,11 @@ class _LHC_Individual(object):
 
         new_doe = self.doe.copy()
         n, k = self.doe.shape
+
+        # There is nothing to interchange in a single point.
+        if n < 2:
+            mutation_count = 0
+
         for count in range(mutation_count):
             col = randint(0, k - 1)
 
@@ -234,8 +239,7 @@ class _LHC_Individual(object):
             while el1 == el2:
                 el2 = randint(0, n - 1)
 
-            new_doe[el1, col] = self.doe[el2, col]
-            new_doe[el2, col] = self.doe[el1, col]
+            new_doe[[el1, el2], col] = new_doe[[el2, el1], col]
 
         return _LHC_Individual(new_doe, self.q, self.p)
 
-- 
2.43.0


From 3a7d9243f5179dedff1f697cf0bcc5fc1dc265cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:55 +0000
Subject: [PATCH 54/85] fix: concurrent DOE runs answer every distributed case
 and stop together after a fatal failure

---
 openmdao/drivers/predeterminedruns_driver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openmdao/drivers/predeterminedruns_driver.py b/openmdao/drivers/predeterminedruns_driver.py
index 132f0e3..0727aab 100644
--- a/openmdao/drivers/predeterminedruns_driver.py
+++ b/openmdao/drivers/predeterminedruns_driver.py
@@ -43,16 +43,16 @@ def worker(problem, response_vars, case_queue, response_queue, worker_id): # pra
         driver = problem.driver
         root = driver.root
 
-        terminate = 0
         for case_id, case in iter(case_queue.get, 'STOP'):
             #logging.info("worker %d, case id %d, case %s" % (worker_id, case_id, case))
 
-            if terminate:
-                continue
-
-            metadata = driver._prep_case(case, case_id)
+            # the main process waits for an answer to every case that it
+            # distributed, so there has to be exactly one for each of them.
+            metadata = create_local_meta(None, 'Driver')
+            update_local_meta(metadata, (case_id,))
 
             try:
+                metadata = driver._prep_case(case, case_id)
                 terminate, exc = driver._try_case(root, metadata)
                 if terminate:
                     complete_case = (metadata, [])
@@ -513,7 +513,8 @@ class PredeterminedRunsDriver(Driver):
         for case in self._get_case_w_nones(self._distrib_build_runlist()):
             if case is None: # dummy cases have case == None
                 # must take part in collective Allreduce call
-                any_proc_is_true(self._full_comm, False)
+                if any_proc_is_true(self._full_comm, False):
+                    raise RuntimeError("an exception was raised by another MPI process.")
                 metadata = None
 
             else:  # case is not a dummy case
-- 
2.43.0


From a4d493fbe2dff7c4865f753eebfbb6b050868be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:55 +0000
Subject: [PATCH 55/85] fix: concurrent_eval_lb evaluates all cases with a
 single worker or a single process

---
 openmdao/util/concurrent.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/openmdao/util/concurrent.py b/openmdao/util/concurrent.py
index 76f7c08..8ddfa4b 100644
--- a/openmdao/util/concurrent.py
+++ b/openmdao/util/concurrent.py
@@ -19,14 +19,15 @@ def concurrent_eval_lb(func, cases, comm, broadcast=False):
 
     com : MPI communicator or None
         The MPI communicator that is shared between the master and workers.
-        If None, the function will be executed serially.
+        If None, or if it contains only one process, the function will be
+        executed serially.
 
     broadcast : bool, optional
         If True, the results will be broadcast out to the worker procs so
         that the return value of concurrent_eval_lb will be the full result
         list in every process.
     """
-    if comm is not None:
+    if comm is not None and comm.size > 1:
         if comm.rank == 0:  # master rank
             results = _concurrent_eval_lb_master(cases, comm)
         else:
@@ -85,11 +86,6 @@ def _concurrent_eval_lb_master(cases, comm):
             # store results
             results.append((retval, err))
 
-            # don't stop until we hear back from every worker process
-            # we sent a case to
-            if received == sent:
-                break
-
             try:
                 case = next(case_iter)
             except StopIteration:
@@ -99,6 +95,11 @@ def _concurrent_eval_lb_master(cases, comm):
                 comm.send(case, worker, tag=1)
                 sent += 1
 
+            # don't stop until we hear back from every worker process
+            # we sent a case to
+            if received == sent:
+                break
+
     # tell all workers to stop
     for rank in range(1, comm.size):
         comm.send((None, None), rank, tag=1)
-- 
2.43.0


From d37a03c0b0be360dafd0841ab3d75018f4efd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:10 +0000
Subject: [PATCH 56/85] fix: options read through deprecated names, and option
 values compared by value instead of identity

---
 openmdao/core/group.py     |  4 ++--
 openmdao/core/problem.py   |  6 +++---
 openmdao/core/system.py    |  7 +++++--
 openmdao/solvers/newton.py |  2 +-
 openmdao/util/options.py   | 11 +++++++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 627106a..531d722 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -891,7 +891,7 @@ class Group(System):
             for voi in vois:
                 self._transfer_data(deriv=True, var_of_interest=voi)  # Full Scatter
 
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             # parent class has the code to do the fd
             super(Group, self)._sys_apply_linear(mode, do_apply, vois, gs_outputs)
 
@@ -954,7 +954,7 @@ class Group(System):
             sol_vec, rhs_vec = drmat, dumat
 
         # Don't solve if user requests finite difference in this group.
-        if self.deriv_options['type'] is not 'user':
+        if self.deriv_options['type'] != 'user':
             for voi in vois:
                 sol, rhs = sol_vec[voi], rhs_vec[voi]
                 sol.vec[:] = -rhs.vec
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 5fbf63a..c451b27 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1035,7 +1035,7 @@ class Problem(object):
         # variable.
         if self.driver.__class__ is Driver or \
            self.driver.supports['gradients'] is False or \
-           self.root.deriv_options['type'] is not 'user':
+           self.root.deriv_options['type'] != 'user':
             return []
 
         vec = self.root.unknowns
@@ -1333,7 +1333,7 @@ class Problem(object):
 
         with self.root._dircontext:
             # Either analytic or finite difference
-            if mode == 'fd' or self.root.deriv_options['type'] is not 'user':
+            if mode == 'fd' or self.root.deriv_options['type'] != 'user':
                 return self._calc_gradient_fd(indep_list, unknown_list,
                                               return_format, dv_scale=dv_scale,
                                               cn_scale=cn_scale, sparsity=sparsity,
@@ -1924,7 +1924,7 @@ class Problem(object):
 
         # Can't run if root is set to 'fd' because no derivative vectors were
         # allocated.
-        if root.deriv_options['type'] is not 'user':
+        if root.deriv_options['type'] != 'user':
             msg = "You cannot run check_partial_derivatives when option 'type' "
             msg += "in `root` is set to 'fd' or 'cs' because no derivative "
             msg += "vectors are allocated in that case."
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index d3015a2..beac580 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -40,6 +40,9 @@ class DerivOptionsDict(OptionsDictionary):
         step_size has already been changed from default."""
         super(DerivOptionsDict, self).__setitem__(name, value)
 
+        if name not in self._options:
+            name = self._deprecations[name]
+
         if name == 'type':
             if self._options['step_size']['changed']:
                 return
@@ -908,7 +911,7 @@ class System(object):
             List of inputs that are relevant for linear solve in a subsystem.
             This list only includes interior connections and states.
         """
-        force_fd = self.deriv_options['type'] is not 'user'
+        force_fd = self.deriv_options['type'] != 'user'
         # All that a finite differenced Group calculates is an explicit function
         # of its inputs.
         states = () if force_fd and self._local_subsystems else self.states
@@ -1018,7 +1021,7 @@ class System(object):
                               self.pathname, DeprecationWarning,stacklevel=2)
                 warnings.simplefilter('ignore', DeprecationWarning)
 
-            if self.deriv_options['type'] is not 'user':
+            if self.deriv_options['type'] != 'user':
                 # fd should compute semi-totals across all children,
                 #    unless total_derivs=False is specifically requested
                 if self._local_subsystems and total_derivs is None:
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index 94a1e25..a491567 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -89,7 +89,7 @@ class Newton(NonLinearSolver):
 
             # Determine set of relevant inputs for local Newton solve if we
             # are not root.
-            if sub.name is not '':
+            if sub.name != '':
                 conns = sub.connections
                 all_tgt = [var for var in sub._params_dict if var in conns]
                 duvec = sub.dumat[None]
diff --git a/openmdao/util/options.py b/openmdao/util/options.py
index d7c3329..43b3221 100644
--- a/openmdao/util/options.py
+++ b/openmdao/util/options.py
@@ -156,8 +156,9 @@ class OptionsDictionary(object):
             return self._options[name]['val']
         elif name in self._deprecations:
             newname = self._deprecations[name]
-            _print_deprecation(name, newname)
-            return self._options[name]['val']
+            if newname in self._options:
+                _print_deprecation(name, newname)
+                return self._options[newname]['val']
         return default
 
     def iteritems(self):
@@ -277,6 +278,12 @@ class DeprecatedOptionsDictionary(object):
         if name == 'force_fd':
             return self.opt['type'] in ['fd', 'cs']
 
+        elif name == 'step_type':
+            name = 'step_calc'
+
+        elif name == 'extra_check_partials_form':
+            name = 'check_form'
+
         return self.opt[name]
 
     def __setitem__(self, name, value):
-- 
2.43.0


From d78069767a3021bc8d056bd18644e45991e27717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:56 +0000
Subject: [PATCH 57/85] fix: ExecComp takes only variables for variables, keeps
 colliding namespaced names apart, and differentiates partial, broadcast and
 object assignments

---
 openmdao/components/exec_comp.py | 145 ++++++++++++++++++++++---------
 1 file changed, 106 insertions(+), 39 deletions(-)

diff --git a/openmdao/components/exec_comp.py b/openmdao/components/exec_comp.py
index f688bdc..a396a26 100644
--- a/openmdao/components/exec_comp.py
+++ b/openmdao/components/exec_comp.py
@@ -1,36 +1,78 @@
 """ Class definition for ExecComp, a component that evaluates an expression."""
 
+import ast
 import math
 import cmath
 import re
 
 import numpy
-from numpy import ndarray, complex, imag
+from numpy import ndarray, complex, imag, iscomplexobj
 
-from six import string_types
+from six import string_types, iteritems
 
 from openmdao.core.component import Component
 from openmdao.util.array_util import array_idx_iter
 from collections import OrderedDict
 
-# regex to check for variable names.
-var_rgx = re.compile('([_a-zA-Z]\w*(?::[_a-zA-Z]\w*)*[ ]*\(?)')
+# regex to check for namespaced variable names, e.g., a:b:c.
+colon_rgx = re.compile(r'(?<![\w.:])[_a-zA-Z]\w*(?::[_a-zA-Z]\w*)+')
 
-def _parse_for_vars(s):
-    return set([x.strip() for x in re.findall(var_rgx, s)
-                    if not x.endswith('(') and x.strip() not in _expr_dict])
+def _parse_for_vars(exprs):
+    """Return the names of all of the variables found in the given assignment
+    statements and the names of those that are assigned to.
+    """
+    allvars, outs = set(), set()
+
+    for expr in exprs:
+        for stmt in ast.parse(expr).body:
+            if isinstance(stmt, ast.Assign):
+                targets = list(stmt.targets)
+            elif isinstance(stmt, ast.AugAssign):
+                targets = [stmt.target]
+            else:
+                raise ValueError("'%s' is not an assignment statement." % expr)
+
+            # assigned to, possibly only in part, e.g., y[0]=x
+            stored = []
+            while targets:
+                target = targets.pop()
+                if isinstance(target, (ast.Tuple, ast.List)):
+                    targets.extend(target.elts)
+                elif isinstance(target, ast.Name):
+                    stored.append(target)
+                else:
+                    targets.append(target.value)
+            outs.update(n.id for n in stored)
+
+            names = [n for n in ast.walk(stmt) if isinstance(n, ast.Name)]
+            funcs = [n.func for n in ast.walk(stmt) if isinstance(n, ast.Call)]
+
+            # loop variables of comprehensions
+            bound = set(n.id for n in names if isinstance(n.ctx, ast.Store) and
+                                               n not in stored)
+
+            allvars.update(n.id for n in names if n not in funcs and
+                                                  n.id not in bound)
 
-def _valid_name(s, exprs):
-    """Replace colons with numbers such that the new name does not exist in any
-    of the given expressions.
+    ignore = set(_expr_dict).union(['True', 'False', 'None'])
+    return allvars - ignore, outs - ignore
+
+def _from_colon_names(exprs):
+    """Return a dict that maps each namespaced name to a python name that does
+    not exist in any of the given expressions.
     """
-    i = 0
+    names = {}
     check = ' '.join(exprs)
-    while True:
-        n = s.replace(':','%d'%i)
-        if n not in check:
-            return n
-        i += 1
+    for name in sorted(set(colon_rgx.findall(check))):
+        i = 0
+        while True:
+            n = name.replace(':', '%d' % i)
+            if n not in check and n not in names.values():
+                break
+            i += 1
+        names[name] = n
+
+    return names
 
 class ExecComp(Component):
     """
@@ -117,16 +159,16 @@ class ExecComp(Component):
         if isinstance(exprs, string_types):
             exprs = [exprs]
 
-        self._exprs = exprs[:]
+        exprs = self._exprs = list(exprs)
 
-        outs = set()
-        self._allvars = allvars = set()
+        # python names of the namespaced variables
+        self._from_colons = _from_colon_names(exprs)
+        self._to_colons = {n: name for name, n in iteritems(self._from_colons)}
 
         # find all of the variables and which ones are outputs
-        for expr in exprs:
-            lhs, _ = expr.split('=', 1)
-            outs.update(_parse_for_vars(lhs))
-            allvars.update(_parse_for_vars(expr))
+        allvars, outs = _parse_for_vars(self._uncolon(exprs))
+        self._allvars = allvars = set(self._to_colons.get(n, n) for n in allvars)
+        outs = set(self._to_colons.get(n, n) for n in outs)
 
         if inits is not None:
             kwargs.update(inits)
@@ -161,27 +203,19 @@ class ExecComp(Component):
         self._non_pbo_unknowns = [u for u in self._init_unknowns_dict
                                       if u in allvars]
 
-        self._to_colons = {}
-        from_colons = self._from_colons = {}
         for n in allvars:
-            if ':' in n:
-                no_colon = _valid_name(n, exprs)
-            else:
-                no_colon = n
-            self._to_colons[no_colon] = n
-            from_colons[n] = no_colon
-
-        self._colon_names = { n for n in allvars if ':' in n }
+            self._from_colons.setdefault(n, n)
+            self._to_colons.setdefault(self._from_colons[n], n)
 
         self._codes = self._compile_exprs(exprs)
 
-    def _compile_exprs(self, exprs):
-        exprs = exprs[:]
-        for i in range(len(exprs)):
-            for n in self._colon_names:
-                exprs[i] = exprs[i].replace(n, self._from_colons[n])
+    def _uncolon(self, exprs):
+        """Replace namespaced names with their python names."""
+        return [colon_rgx.sub(lambda m: self._from_colons[m.group()], expr)
+                    for expr in exprs]
 
-        return [compile(expr, expr, 'exec') for expr in exprs]
+    def _compile_exprs(self, exprs):
+        return [compile(expr, expr, 'exec') for expr in self._uncolon(exprs)]
 
     def __getstate__(self):
         """ Returns state as a dict. """
@@ -245,6 +279,14 @@ class ExecComp(Component):
             pwrap = _TmpDict(params)
 
             pval = params[param]
+
+            # there are no derivatives wrt integers, strings or other objects
+            if isinstance(pval, ndarray):
+                if pval.dtype.kind not in 'fc':
+                    continue
+            elif not isinstance(pval, (float, complex)):
+                continue
+
             if isinstance(pval, ndarray):
                 # replace the param array with a complex copy
                 pwrap[param] = numpy.asarray(pval, complex)
@@ -319,6 +361,13 @@ class _TmpDict(object):
             return self._inner[name]
 
     def __setitem__(self, name, value):
+        if self._complex and isinstance(self._inner[name], ndarray):
+            # the value has the shape of the variable and may become complex
+            # later, when only some of its entries are assigned.
+            arr = numpy.zeros(self._inner[name].shape, dtype=complex)
+            arr.reshape(-1)[:] = numpy.ravel(value)
+            value = arr
+
         self._changed[name] = value
 
     def __contains__(self, name):
@@ -398,6 +447,24 @@ _expr_dict = {}
 _import_functs(math, _expr_dict,
                names=['factorial', 'fsum', 'lgamma', 'erf', 'erfc', 'gamma'])
 
+
+def _no_complex(name):
+    """Some complex args would be converted to float without an error, so that
+    the derivatives are lost.
+    """
+    funct = _expr_dict[name]
+
+    def wrapper(arg):
+        if iscomplexobj(arg):
+            raise TypeError("'%s' doesn't support complex args, so ExecComps "
+                            "that use it can't calculate derivatives." % name)
+        return funct(arg)
+
+    return wrapper
+
+for _name in ['factorial', 'fsum', 'lgamma', 'erf', 'erfc', 'gamma']:
+    _expr_dict[_name] = _no_complex(_name)
+
 _import_functs(numpy, _expr_dict,
                names=['cosh', 'ldexp', 'hypot', 'tan', 'isnan', 'log', 'fabs',
                       'floor', 'sqrt', 'frexp', 'degrees', 'pi', 'log10', 'modf',
-- 
2.43.0


From d2a10023db7e0c01c9b972bd4d0b5780703c387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:11 +0000
Subject: [PATCH 58/85] fix: train metamodels on exactly the supplied data

Array valued inputs overwrote each other, wrongly sized points were
broadcast, three fidelities could not be trained, rejected data was kept,
single scalar complex inputs lost their imaginary part, params whose name
starts with 'train' had no finite differences.
---
 openmdao/components/meta_model.py         | 181 +++++++++++++---------
 openmdao/components/multifi_meta_model.py | 118 +++-----------
 2 files changed, 125 insertions(+), 174 deletions(-)

diff --git a/openmdao/components/meta_model.py b/openmdao/components/meta_model.py
index 671a00e..a79b6e6 100644
--- a/openmdao/components/meta_model.py
+++ b/openmdao/components/meta_model.py
@@ -98,11 +98,18 @@ class MetaModel(Component):
         super(MetaModel, self).add_param(name, val, **kwargs)
         super(MetaModel, self).add_param('train:'+name, val=training_data, pass_by_obj=True)
 
-        input_size = self._init_params_dict[name]['size']
+        input_size = self._get_input_size(name)
 
         self._surrogate_param_names.append((name, input_size))
         self._input_size += input_size
 
+    def _get_input_size(self, name):
+        """Number of values that the given param has in a training point."""
+        meta = self._init_params_dict[name]
+        if meta.get('pass_by_obj'):
+            return np.size(meta['val'])
+        return meta['size']
+
     def add_output(self, name, val=_NotSet, training_data=None, **kwargs):
         """ Add an output to this component and a corresponding
         training output.
@@ -232,10 +239,10 @@ class MetaModel(Component):
             val = params[name]
             if isinstance(val, list):
                 val = np.array(val)
+            if array_real and np.iscomplexobj(val):
+                array_real = False
+                inputs = inputs.astype(complex)
             if isinstance(val, np.ndarray):
-                if array_real and np.issubdtype(val.dtype, complex):
-                    array_real = False
-                    inputs = inputs.astype(complex)
                 inputs[idx:idx + sz] = val.flat
                 idx += sz
             else:
@@ -285,86 +292,106 @@ class MetaModel(Component):
         Train the metamodel, if necessary, using the provided training data.
         """
 
+        inputs, outputs = self._merged_training_data(self._training_input,
+                                                     self._training_output)
+
+        for name, _ in self._surrogate_output_names:
+            surrogate = self._init_unknowns_dict[name].get('surrogate')
+            if surrogate is not None:
+                surrogate.train(inputs, outputs[name])
+
+        # The data is kept only once all of it was accepted.
+        self._training_input = inputs
+        self._training_output = outputs
+
+        self.train = False
+
+    def _merged_training_data(self, old_inputs, old_outputs, suffix=''):
+        """
+        Assemble the training points that are currently given, after those
+        that are already there when doing a warm restart.
+
+        Args
+        ----
+        old_inputs : ndarray
+            Inputs of the points used so far.
+
+        old_outputs : dict
+            Outputs of the points used so far.
+
+        suffix : str, optional
+            What the names of the training variables end with.
+
+        Returns
+        -------
+        ndarray
+            Inputs, with one row per training point.
+        dict of ndarray
+            For each output, its values, with one row per training point.
+        """
         num_sample = None
-        for name, sz in self._surrogate_param_names:
-            val = self.params['train:' + name]
-            if num_sample is None:
-                num_sample = len(val)
-            elif len(val) != num_sample:
-                msg = "MetaModel: Each variable must have the same number"\
-                      " of training points. Expected {0} but found {1} "\
-                      "points for '{2}'."\
-                      .format(num_sample, len(val), name)
-                raise RuntimeError(msg)
+        columns = []
+        outputs = {}
+
+        for name, size in self._surrogate_param_names:
+            data = self._get_training_data(name + suffix, size, num_sample)
+            num_sample = len(data)
+            columns.append(data)
 
         for name, shape in self._surrogate_output_names:
-            val = self.params['train:' + name]
-            if len(val) != num_sample:
-                msg = "MetaModel: Each variable must have the same number" \
-                      " of training points. Expected {0} but found {1} " \
-                      "points for '{2}'." \
-                    .format(num_sample, len(val), name)
-                raise RuntimeError(msg)
+            data = self._get_training_data(name + suffix, np.prod(shape),
+                                           num_sample)
+            num_sample = len(data)
+            if self.warm_restart and len(old_outputs[name]) > 0:
+                data = np.vstack((old_outputs[name], data))
+            outputs[name] = data
 
-        if self.warm_restart:
-            num_old_pts = self._training_input.shape[0]
-            inputs = np.zeros((num_sample + num_old_pts, self._input_size))
-            if num_old_pts > 0:
-                inputs[:num_old_pts, :] = self._training_input
-            new_input = inputs[num_old_pts:, :]
+        inputs = np.hstack(columns) if columns else np.zeros((num_sample or 0, 0))
+        if self.warm_restart and len(old_inputs) > 0:
+            inputs = np.vstack((old_inputs, inputs))
 
-        else:
-            inputs = np.zeros((num_sample, self._input_size))
-            new_input = inputs
+        return inputs, outputs
 
-        self._training_input = inputs
+    def _get_training_data(self, name, size, num_sample):
+        """
+        Get the training points given for one variable.
 
-        # add training data for each input
-        if num_sample > 0:
-            idx = 0
-            for name, sz in self._surrogate_param_names:
-                val = self.params['train:' + name]
-                if isinstance(val[0], float):
-                    new_input[:, idx] = val
-                    idx += 1
-                else:
-                    for row_idx, v in enumerate(val):
-                        if not isinstance(v, np.ndarray):
-                            v = np.array(v)
-                        new_input[row_idx, idx:idx+sz] = v.flat
-
-        # add training data for each output
-        for name, shape in self._surrogate_output_names:
-            if num_sample > 0:
-                output_size = np.prod(shape)
-
-                if self.warm_restart:
-                    outputs = np.zeros((num_sample + num_old_pts,
-                                        output_size))
-                    if num_old_pts > 0:
-                        outputs[:num_old_pts, :] = self._training_output[name]
-                    self._training_output[name] = outputs
-                    new_output = outputs[num_old_pts:, :]
-                else:
-                    outputs = np.zeros((num_sample, output_size))
-                    self._training_output[name] = outputs
-                    new_output = outputs
-
-                val = self.params['train:' + name]
-
-                if isinstance(val[0], float):
-                    new_output[:, 0] = val
-                else:
-                    for row_idx, v in enumerate(val):
-                        if not isinstance(v, np.ndarray):
-                            v = np.array(v)
-                        new_output[row_idx, :] = v.flat
+        Args
+        ----
+        name : str
+            Name of the variable.
 
-            surrogate = self._init_unknowns_dict[name].get('surrogate')
-            if surrogate is not None:
-                surrogate.train(self._training_input, self._training_output[name])
+        size : int
+            Size of the variable.
 
-        self.train = False
+        num_sample : int or None
+            Number of points that are expected.
+
+        Returns
+        -------
+        ndarray
+            Values of the variable, with one row per training point.
+        """
+        val = self.params['train:' + name]
+
+        if num_sample is not None and len(val) != num_sample:
+            msg = "MetaModel: Each variable must have the same number"\
+                  " of training points. Expected {0} but found {1} "\
+                  "points for '{2}'."\
+                  .format(num_sample, len(val), name)
+            raise RuntimeError(msg)
+
+        data = np.zeros((len(val), int(size)))
+        for row, v in zip(data, val):
+            v = np.ravel(v)
+            if v.size != row.size:
+                msg = "MetaModel: Each training point of '{0}' must have"\
+                      " {1} values, but one has {2}."\
+                      .format(name, row.size, v.size)
+                raise RuntimeError(msg)
+            row[:] = v
+
+        return data
 
     def _get_fd_params(self):
         """
@@ -377,7 +404,7 @@ class MetaModel(Component):
             List of names of params for this `Component` .
         """
         return [k for k, acc in iteritems(self.params._dat)
-                   if not (acc.pbo or k.startswith('train'))]
+                   if not (acc.pbo or k.startswith('train:'))]
 
     def _get_fd_unknowns(self):
         """
@@ -390,4 +417,4 @@ class MetaModel(Component):
             List of names of unknowns for this `Component`.
         """
         return [k for k, acc in iteritems(self.unknowns._dat)
-                   if not (acc.pbo or k.startswith('train'))]
+                   if not (acc.pbo or k.startswith('train:'))]
diff --git a/openmdao/components/multifi_meta_model.py b/openmdao/components/multifi_meta_model.py
index d6bec20..5570846 100644
--- a/openmdao/components/multifi_meta_model.py
+++ b/openmdao/components/multifi_meta_model.py
@@ -89,24 +89,22 @@ class MultiFiMetaModel(MetaModel):
         self._nfi = nfi
 
         # generalize MetaModel training inputs to a list of training inputs
-        self._training_input = nfi*[np.zeros(0)]
-        self._input_sizes = nfi*[0]
+        if nfi > 1:
+            self._training_input = nfi*[np.zeros(0)]
 
     def add_param(self, name, val=_NotSet, **kwargs):
         super(MultiFiMetaModel, self).add_param(name, val, **kwargs)
-        self._input_sizes[0]=self._input_size
 
         # Add train:<invar>_fi<n>
         for fi in range(self._nfi):
             if fi > 0:
                 name_with_fi = 'train:'+_get_name_fi(name, fi)
                 super(MetaModel, self).add_param(name_with_fi, val=[], pass_by_obj=True)
-                self._input_sizes[fi]+=self._init_params_dict[name]['size']
-
 
     def add_output(self, name, val=_NotSet, **kwargs):
         super(MultiFiMetaModel, self).add_output(name, val, **kwargs)
-        self._training_output[name]=self._nfi*[np.zeros(0)]
+        if self._nfi > 1:
+            self._training_output[name]=self._nfi*[np.zeros(0)]
 
         # Add train:<outvar>_fi<n>
         for fi in range(self._nfi):
@@ -124,99 +122,25 @@ class MultiFiMetaModel(MetaModel):
             super(MultiFiMetaModel, self)._train()
             return
 
-        num_sample = self._nfi*[None]
-        for name, sz in self._surrogate_param_names:
-            for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
-                if num_sample[fi] is None:
-                    num_sample[fi] = len(val)
-                elif len(val) != num_sample[fi]:
-                    msg = "MetaModel: Each variable must have the same number"\
-                          " of training points. Expected {0} but found {1} "\
-                          "points for '{2}'."\
-                          .format(num_sample[fi], len(val), name)
-                    raise RuntimeError(msg)
-
-        for name, shape in self._surrogate_output_names:
-            for fi in range(self._nfi):
-                name = _get_name_fi(name, fi)
-                val = self.params['train:' + name]
-                if len(val) != num_sample[fi]:
-                    msg = "MetaModel: Each variable must have the same number" \
-                          " of training points. Expected {0} but found {1} " \
-                          "points for '{2}'." \
-                        .format(num_sample[fi], len(val), name)
-                    raise RuntimeError(msg)
-
-        if self.warm_restart:
-            inputs = []
-            new_inputs = self._nfi*[None]
-            num_old_pts = self._nfi*[0]
-            for fi in range(self._nfi):
-                num_old_pts[fi] = self._training_input[fi].shape[0]
-                inputs.append(np.zeros((num_sample[fi] + num_old_pts[fi],
-                                        self._input_sizes[fi])))
-                if num_old_pts[fi] > 0:
-                    inputs[fi][:num_old_pts[fi], :] = self._training_input[fi]
-                new_inputs[fi] = inputs[fi][num_old_pts[fi]:, :]
-        else:
-            inputs = [np.zeros((num_sample[fi], self._input_sizes[fi]))
-                      for fi in range(self._nfi)]
-            new_inputs = inputs
-
-        self._training_input = inputs
-
-        # add training data for each input
-        idx = self._nfi*[0]
-        for name, sz in self._surrogate_param_names:
-            for fi in range(self._nfi):
-                if num_sample[fi] > 0:
-                    name = _get_name_fi(name, fi)
-                    val = self.params['train:' + name]
-                    if isinstance(val[0], float):
-                        new_inputs[fi][:, idx[fi]] = val
-                        idx[fi] += 1
-                    else:
-                        for row_idx, v in enumerate(val):
-                            if not isinstance(v, np.ndarray):
-                                v = np.array(v)
-                            new_inputs[fi][row_idx, idx[fi]:idx[fi]+sz] = v.flat
-
-        # add training data for each output
-        outputs=self._nfi*[None]
-        new_outputs=self._nfi*[None]
-        for name, shape in self._surrogate_output_names:
-            for fi in range(self._nfi):
-                name_fi = _get_name_fi(name, fi)
-                if num_sample[fi] > 0:
-                    output_size = np.prod(shape)
-                    if self.warm_restart:
-                        outputs[fi] = np.zeros((num_sample[fi] + num_old_pts[fi],
-                                                output_size))
-                        if num_old_pts[fi] > 0:
-                            outputs[fi][:num_old_pts[fi], :] = self._training_output[name][fi]
-                        self._training_output[name][fi] = outputs[fi]
-                        new_outputs[fi] = outputs[fi][num_old_pts[fi]:, :]
-                    else:
-                        outputs[fi] = np.zeros((num_sample[fi], output_size))
-                        self._training_output[name] = []
-                        self._training_output[name].extend(outputs)
-                        new_outputs = outputs
-
-                    val = self.params['train:' + name_fi]
-
-                    if isinstance(val[0], float):
-                        new_outputs[fi][:, 0] = val
-                    else:
-                        for row_idx, v in enumerate(val):
-                            if not isinstance(v, np.ndarray):
-                                v = np.array(v)
-                            new_outputs[fi][row_idx, :] = v.flat
+        inputs = []
+        outputs = dict((name, []) for name, _ in self._surrogate_output_names)
 
+        for fi in range(self._nfi):
+            old = dict((name, self._training_output[name][fi])
+                       for name in outputs)
+            fi_inputs, fi_outputs = self._merged_training_data(
+                self._training_input[fi], old, _get_name_fi('', fi))
+            inputs.append(fi_inputs)
+            for name in outputs:
+                outputs[name].append(fi_outputs[name])
+
+        for name, _ in self._surrogate_output_names:
             surrogate = self._init_unknowns_dict[name].get('surrogate')
             if surrogate is not None:
-                surrogate.train_multifi(self._training_input,
-                                        self._training_output[name])
+                surrogate.train_multifi(inputs, outputs[name])
+
+        # The data is kept only once all of it was accepted.
+        self._training_input = inputs
+        self._training_output = outputs
 
         self.train = False
-- 
2.43.0


From 999d6b1117c8938573bd518202cfdf0624c43b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:30 +0000
Subject: [PATCH 59/85] fix: surrogates predict their data and differentiate
 their predictions

Nearest neighbour interpolants changed the shape of the caller's array (so
that other surrogates of a metamodel failed), reused neighbours of other
points or numbers, mixed up several points or outputs, had NaN derivatives at
the data, wrong derivatives for two RBFs, failed for collinear neighbours.
Response surfaces dropped complex steps. Kriging RMSE mixed up points.
Co-kriging used parameters that did not belong to its theta, kept theta of an
earlier training, could not give floats or refuse predictions untrained.
---
 openmdao/surrogate_models/kriging.py          |  3 +-
 .../surrogate_models/multifi_cokriging.py     | 27 +++++++--
 .../nn_interpolators/linear_interpolator.py   | 42 ++++++--------
 .../nn_interpolators/nn_base.py               | 55 +++++++++++++++++++
 .../nn_interpolators/rbf_interpolator.py      | 34 +++---------
 .../nn_interpolators/weighted_interpolator.py | 50 +++++------------
 openmdao/surrogate_models/response_surface.py |  5 +-
 7 files changed, 119 insertions(+), 97 deletions(-)

diff --git a/openmdao/surrogate_models/kriging.py b/openmdao/surrogate_models/kriging.py
index 864efb8..0cc086a 100644
--- a/openmdao/surrogate_models/kriging.py
+++ b/openmdao/surrogate_models/kriging.py
@@ -191,7 +191,8 @@ class KrigingSurrogate(SurrogateModel):
         y = self.Y_mean + self.Y_std * y_t
 
         if self.eval_rmse:
-            mse = (1. - np.dot(np.dot(r, self.Vh.T), np.einsum('j,kj,lk->jl', self.S_inv, self.U, r))) * self.sigma2
+            mse = 1. - np.einsum('ij,j,ij->i', np.dot(r, self.Vh.T), self.S_inv, np.dot(r, self.U))
+            mse = mse[:, np.newaxis] * self.sigma2
 
             # Forcing negative RMSE to zero if negative due to machine precision
             mse[mse < 0.] = 0.
diff --git a/openmdao/surrogate_models/multifi_cokriging.py b/openmdao/surrogate_models/multifi_cokriging.py
index 9785e09..42e9dbe 100644
--- a/openmdao/surrogate_models/multifi_cokriging.py
+++ b/openmdao/surrogate_models/multifi_cokriging.py
@@ -303,6 +303,9 @@ References
 
         self._nfev = 0
 
+        # what the parameters were before they were replaced by a fit
+        self._replaced = {}
+
     def _build_R(self, lvl, theta):
         """
         Builds the correlation matrix with given theta for the specified level.
@@ -343,12 +346,25 @@ tol: float
     Optimizer terminates when the tolerance tol is reached.
 
 """
+        # Start with the parameters that were given, not with those found by
+        # an earlier fit
+        given = {}
+        for name in ('theta', 'theta0', 'thetaL', 'thetaU'):
+            value = getattr(self, name)
+            if name in self._replaced and value is self._replaced[name][1]:
+                value = self._replaced[name][0]
+            given[name] = value
+            setattr(self, name, value[:] if type(value) is list else value)
+
         # Run input checks
         # Transforms floats and arrays in lists to have a multifidelity structure
         self._check_list_structure(X, y)
         # Checks if all parameters are structured as required
         self._check_params()
 
+        for name in given:
+            self._replaced[name] = (given[name], getattr(self, name))
+
         X = self.X
         y = self.y
         nlevel = self.nlevel
@@ -409,7 +425,7 @@ tol: float
                 raise Exception(("Ordinary least squares problem is undetermined "
                                  "n_samples=%d must be greater than the regression"
                                  " model size p+q=%d.")
-                                 % (n_samples[i], self.p[lvl]+self.q[lvl]))
+                                 % (n_samples[lvl], self.p[lvl]+self.q[lvl]))
 
         # Set attributes
         self.X = X
@@ -423,7 +439,8 @@ tol: float
                 # Maximum Likelihood Estimation of the parameters
                 sol = self._max_rlf(lvl=lvl, initial_range=initial_range, tol=tol)
                 self.theta[lvl] = sol['theta']
-                self.rlf_value[lvl] = sol['rlf_value']
+                # The last evaluation was not necessarily the best one
+                self.rlf_value[lvl] = self.rlf(lvl=lvl)
 
                 if np.isinf(self.rlf_value[lvl]):
                     raise Exception("Bad parameter region. "
@@ -721,7 +738,7 @@ MSE: array_like, optional (if eval_MSE is True)
         n_samples_y = np.zeros(nlevel, dtype = int)
         for i in range(nlevel):
             n_samples[i], n_features[i] = X[i].shape
-            if i>1 and n_features[i] != n_features[i-1]:
+            if i>0 and n_features[i] != n_features[i-1]:
                 raise ValueError("All X must have the same number of columns.")
             y[i] = np.asarray(y[i]).ravel()[:, np.newaxis]
             n_samples_y[i] = y[i].shape[0]
@@ -837,6 +854,7 @@ class MultiFiCoKrigingSurrogate(MultiFiSurrogateModel):
         """Calculates a predicted value of the response based on the current
         trained model for the supplied list of inputs.
         """
+        super(MultiFiCoKrigingSurrogate, self).predict(new_x)
         Y_pred, MSE = self.model.predict([new_x])
         return Y_pred, np.sqrt(np.abs(MSE))
 
@@ -845,6 +863,7 @@ class MultiFiCoKrigingSurrogate(MultiFiSurrogateModel):
         """
         X, Y = self._fit_adapter(X, Y)
         self.model.fit(X, Y,tol=self.tolerance, initial_range=self.initial_range)
+        self.trained = True
 
     def _fit_adapter(self, X, Y):
         # Manage special case with one fidelity
@@ -865,7 +884,7 @@ class FloatMultiFiCoKrigingSurrogate(MultiFiCoKrigingSurrogate):
 
     def predict(self, new_x):
         dist = super(FloatMultiFiCoKrigingSurrogate, self).predict(new_x)
-        return dist.mu
+        return dist[0].item() if dist[0].size == 1 else dist[0]
 
 
 if __name__ == "__main__":
diff --git a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
index 9b2b7c4..3858d97 100644
--- a/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/linear_interpolator.py
@@ -48,22 +48,21 @@ class LinearInterpolator(NNBase):
 
         return normal, pc
 
+    @staticmethod
+    def _is_vertical(normal):
+        # Whether the neighbors do not determine a plane, up to round-off.
+        return np.abs(normal[:, -1, :]) < 1e-9
+
     def __call__(self, prediction_points):
         # This method uses linear interpolation by defining a plane with
         # a set number of nearest neighbors to the predicted
 
-        if len(prediction_points.shape) == 1:
-            # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
-
-        normalized_pts = (prediction_points - self._tpm) / self._tpr
+        normalized_pts = self._normalize(prediction_points)
 
         # Linear interp only uses as many neighbors as it has dimensions
         points_needed = self._indep_dims + 1
 
-        # KData query takes (data, #ofneighbors) to determine closest
-        # training points to predicted data
-        ndist, nloc = self._KData.query(normalized_pts.real, points_needed)
+        ndist, nloc = self._find_neighbors(normalized_pts, points_needed)
 
         normal, pc = self._find_hyperplane(nloc)
 
@@ -72,44 +71,35 @@ class LinearInterpolator(NNBase):
                                 normal[:, :self._indep_dims, :]) - pc
 
         # Check to see if there are any collinear points and replace them
-        n0 = np.where(normal[:, -1, :] == 0)
-        predictions[n0, :] = self._tv[nloc[0, n0], :]
+        vertical = self._is_vertical(normal)
+        rows, cols = np.where(vertical)
+        predictions[rows, cols] = self._tv[nloc[rows, 0], cols]
 
         # Finish computation for the good normals
-        n = np.where(normal[:, -1, :] != 0)
+        n = np.where(~vertical)
         predictions[n] /= -normal[:, -1, :][n]
 
         # Rescale to original units
         predictions = (predictions * self._tvr) + self._tvm
 
-        self._pt_cache = (normalized_pts, ndist, nloc)
-
         return predictions
 
     def gradient(self, PredPoints):
         # Extra method to find the gradient at each location of a set of
         # supplied predicted points.
 
-        if len(PredPoints.shape) == 1:
-            # Reshape vector to n x 1 array
-            PredPoints.shape = (1, PredPoints.shape[0])
-
-        normPredPts = (PredPoints - self._tpm) / self._tpr
+        normPredPts = self._normalize(PredPoints)
         nppts = normPredPts.shape[0]
         gradient = np.zeros((nppts, self._dep_dims, self._indep_dims), dtype="float")
         # Linear interp only uses as many neighbors as it has dimensions
         dims = self._indep_dims + 1
         # Find the neighbors
-        if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normPredPts):
-            ndist, nloc = self._pt_cache[1:]
-        else:
-                ndist, nloc = self._KData.query(normPredPts.real, dims)
+        ndist, nloc = self._find_neighbors(normPredPts, dims)
 
         normal, pc = self._find_hyperplane(nloc)
-        if np.any(normal[:, -1, :]) == 0:
-            return gradient
-        gradient[:] = (-normal[:, :-1, :] / normal[:, -1, :]).squeeze().T
+        rows, cols = np.where(~self._is_vertical(normal))
+        gradient[rows, cols, :] = (-normal[rows, :-1, cols] /
+                                   normal[rows, -1, cols][:, np.newaxis])
 
         grad = gradient * (self._tvr[:, np.newaxis] / self._tpr)
         return grad
diff --git a/openmdao/surrogate_models/nn_interpolators/nn_base.py b/openmdao/surrogate_models/nn_interpolators/nn_base.py
index 5b6333a..aaf35ea 100644
--- a/openmdao/surrogate_models/nn_interpolators/nn_base.py
+++ b/openmdao/surrogate_models/nn_interpolators/nn_base.py
@@ -51,3 +51,58 @@ class NNBase(object):
 
         # Cache for gradients
         self._pt_cache = None
+
+    def _normalize(self, prediction_points):
+        """
+        Scale prediction points as the training points.
+
+        Args
+        ----
+        prediction_points : array-like
+            One point, or one point per row.
+
+        Returns
+        -------
+        ndarray
+            Scaled points, with one point per row.
+        """
+        return (np.atleast_2d(prediction_points) - self._tpm) / self._tpr
+
+    def _find_neighbors(self, normalized_pts, n):
+        """
+        Find the training points that are closest to the given points.
+
+        Args
+        ----
+        normalized_pts : ndarray
+            Scaled points, with one point per row.
+
+        n : int
+            Number of neighbors.
+
+        Returns
+        -------
+        ndarray
+            Distances of the neighbors of each point.
+        ndarray
+            Indices of the neighbors of each point.
+        """
+        if self._pt_cache is not None and self._pt_cache[1].shape[1] == n and \
+                np.array_equal(self._pt_cache[0], normalized_pts):
+            return self._pt_cache[1:]
+
+        # KData query takes (data, #ofneighbors) to determine closest
+        # training points to predicted data
+        nppts = normalized_pts.shape[0]
+        ndist, nloc = self._KData.query(normalized_pts.real, n)
+        ndist = ndist.reshape((nppts, n))
+        nloc = nloc.reshape((nppts, n))
+
+        # The tree ignores the imaginary part of a complex step.
+        if np.iscomplexobj(normalized_pts) and np.any(normalized_pts.imag):
+            dimdiff = normalized_pts[:, np.newaxis, :] - self._tp[nloc]
+            ndist = np.sqrt(np.sum(dimdiff * dimdiff, axis=2))
+
+        self._pt_cache = (normalized_pts, ndist, nloc)
+
+        return ndist, nloc
diff --git a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
index 4f599e4..cd00768 100644
--- a/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/rbf_interpolator.py
@@ -9,7 +9,7 @@ from scipy.sparse.linalg import spsolve
 class RBFInterpolator(NNBase):
     # Compactly Supported Radial Basis Function
     def _find_R(self, npp, T, loc):
-        R = np.zeros((npp, self._ntpts), dtype="float")
+        R = np.zeros((npp, self._ntpts), dtype=T.dtype)
         # Choose type of CRBF R matrix
         if self.comp == -1:
             # Comp #1 - a
@@ -157,7 +157,7 @@ class RBFInterpolator(NNBase):
             #                             (216. * T * T) + (120. * T * T * T) +
             #                             (25. * T * T * T * T)))
         elif self.comp == -3:
-            frnt = T / np.sqrt((T * T) * 1.)
+            frnt = T / np.sqrt((T * T) + 1.)
             dRp_poly = [1.]
         else:
             dims = self._indep_dims + 1
@@ -170,7 +170,7 @@ class RBFInterpolator(NNBase):
                     # dRp = -1.
                 elif self.comp == 1:
                     frnt = 1.
-                    dRp_poly = [1., -2., 1., 0.]
+                    dRp_poly = [-1., 2., -1., 0.]
                     # dRp = -T * (1. - T) * (1. - T)
                 elif self.comp == 2:
                     frnt = np.power(1. - T, 4.) / -20.
@@ -288,20 +288,10 @@ class RBFInterpolator(NNBase):
 
     def __call__(self, prediction_points):
 
-        if len(prediction_points.shape) == 1:
-            # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
-
-        normalized_pts = (prediction_points - self._tpm) / self._tpr
+        normalized_pts = self._normalize(prediction_points)
         nppts = normalized_pts.shape[0]
         # Setup prediction points and find their radial neighbors
-        ndist, nloc = self._KData.query(normalized_pts, self.N)
-        # Check if complex step is being run
-        if np.any(np.abs(normalized_pts[0, :].imag)) > 0:
-            dimdiff = np.subtract(normalized_pts.reshape((nppts, 1, self._indep_dims)),
-                                  self._tp[nloc, :])
-            # KD Tree ignores imaginary part, muse redo ndist if complex
-            ndist = np.sqrt(np.sum((dimdiff * dimdiff), axis=2))
+        ndist, nloc = self._find_neighbors(normalized_pts, self.N)
 
         # Take farthest distance of each point
         Tp = ndist[:, :-1] / ndist[:, -1:]
@@ -309,23 +299,13 @@ class RBFInterpolator(NNBase):
         Rp = self._find_R(nppts, Tp, nloc)
         predz = ((np.dot(Rp, self.weights[..., 0]) * self._tvr) + self._tvm).reshape(nppts, self._dep_dims)
 
-        self._pt_cache = (normalized_pts, ndist, nloc)
-
         return predz
 
     def gradient(self, prediction_points):
 
-        if len(prediction_points.shape) == 1:
-            # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
-
-        normalized_pts = (prediction_points - self._tpm) / self._tpr
+        normalized_pts = self._normalize(prediction_points)
         # Setup prediction points and find their radial neighbors
-        if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normalized_pts):
-            pdist, ploc = self._pt_cache[1:]
-        else:
-            pdist, ploc = self._KData.query(normalized_pts, self.N)
+        pdist, ploc = self._find_neighbors(normalized_pts, self.N)
 
         # Find Gradient
         grad = self._find_dR(normalized_pts[:, np.newaxis, :], ploc,
diff --git a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
index da9be5c..5facef4 100644
--- a/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
+++ b/openmdao/surrogate_models/nn_interpolators/weighted_interpolator.py
@@ -35,23 +35,9 @@ class WeightedInterpolator(NNBase):
             # If default, use #dims + 1
             dist_eff = self._indep_dims + 1
 
-        if len(prediction_points.shape) == 1:
-            # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
-
-        normalized_pts = (prediction_points - self._tpm) / self._tpr
-        nppts = normalized_pts.shape[0]
+        normalized_pts = self._normalize(prediction_points)
         # Find them neigbors
-        # KData query takes (data, #ofneighbors) to determine closest
-        # training points to predicted data
-        ndist, nloc = self._KData.query(normalized_pts.real, n)
-
-        # Setup problem
-
-        # Reshape ndist for 1D problems.
-        if len(ndist.shape) == 1:
-            ndist.shape = (1, ndist.shape[0])
-            nloc.shape = (1, nloc.shape[0])
+        ndist, nloc = self._find_neighbors(normalized_pts, n)
 
         weights = self._get_weights(ndist, dist_eff)
 
@@ -60,8 +46,6 @@ class WeightedInterpolator(NNBase):
         wt = np.einsum('ijk,ij->ik', vals, weights)
         predz = ((wt / weight_sum[:, np.newaxis]) * self._tvr) + self._tvm
 
-        self._pt_cache = (normalized_pts, ndist, nloc)
-
         return predz
 
     def gradient(self, prediction_points, n=5, dist_eff=0):
@@ -75,35 +59,27 @@ class WeightedInterpolator(NNBase):
             # If default, use #dims + 1
             dist_eff = self._indep_dims + 1
 
-        if len(prediction_points.shape) == 1:
-            # Reshape vector to n x 1 array
-            prediction_points.shape = (1, prediction_points.shape[0])
-
-        normalized_pts = (prediction_points - self._tpm) / self._tpr
+        normalized_pts = self._normalize(prediction_points)
 
-        if self._pt_cache is not None and \
-                np.allclose(self._pt_cache[0], normalized_pts):
-            ndist, nloc = self._pt_cache[1:]
-        else:
-            ndist, nloc = self._KData.query(normalized_pts, n)
+        ndist, nloc = self._find_neighbors(normalized_pts, n)
 
-        # Reshape ndist for 1D problems.
-        if len(ndist.shape) == 1:
-            ndist.shape = (1, ndist.shape[0])
-            nloc.shape = (1, nloc.shape[0])
+        # The prediction is stationary at the training points
+        at_data = np.any(ndist == 0., axis=1)
+        ndist = np.where(at_data[:, np.newaxis], 1., ndist)
 
-        dimdiff = normalized_pts - self._tp[nloc]
+        dimdiff = normalized_pts[:, np.newaxis, :] - self._tp[nloc]
 
-        weights = np.power(ndist, -dist_eff)
-        dweights = -dist_eff * np.power(ndist[..., np.newaxis], -(dist_eff + 2)) * dimdiff
+        weights = np.power(ndist, -float(dist_eff))
+        dweights = -dist_eff * np.power(ndist[..., np.newaxis], -float(dist_eff + 2)) * dimdiff
 
-        weight_sum = np.sum(weights, axis=1)
+        weight_sum = np.sum(weights, axis=1)[:, np.newaxis, np.newaxis]
 
         vals = self._tv[nloc]
 
         gradient = (weight_sum * np.einsum('ikj,ikl->ilj', dweights, vals)
                     - (np.einsum('ij,ijk->ik', weights, vals)[..., np.newaxis]
-                    * np.sum(dweights, axis=1))) / np.power(weight_sum, 2)
+                    * np.sum(dweights, axis=1)[:, np.newaxis, :])) / np.power(weight_sum, 2)
+        gradient[at_data] = 0.
 
         grad = gradient * (self._tvr[..., np.newaxis] / self._tpr)
 
diff --git a/openmdao/surrogate_models/response_surface.py b/openmdao/surrogate_models/response_surface.py
index 3561de2..e614715 100644
--- a/openmdao/surrogate_models/response_surface.py
+++ b/openmdao/surrogate_models/response_surface.py
@@ -1,6 +1,6 @@
 """Surrogate Model based on second order response surface equations."""
 
-from numpy import zeros, einsum, squeeze
+from numpy import zeros, einsum, squeeze, asarray
 from numpy.dual import lstsq
 from openmdao.surrogate_models.surrogate_model import SurrogateModel
 from six.moves import range
@@ -67,9 +67,10 @@ class ResponseSurface(SurrogateModel):
 
         super(ResponseSurface, self).predict(x)
 
+        x = asarray(x).ravel()
         n = x.size
 
-        X = zeros(((self.n + 1) * (self.n + 2)) // 2)
+        X = zeros(((self.n + 1) * (self.n + 2)) // 2, dtype=x.dtype)
 
         # Modify X to include constant, squared terms and cross terms
 
-- 
2.43.0


From 6b38f55e02869f1777f7c446baa859c7b88e4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:30 +0000
Subject: [PATCH 60/85] fix: SubProblem in groups, with promoted, unconnected,
 state or converted variables, and its linearization after other points

---
 openmdao/components/subproblem.py | 102 ++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 20 deletions(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index 99a25c4..c04eb94 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -109,7 +109,7 @@ class SubProblem(Component):
         umap = OrderedDict()
 
         for key in self._prob_unknowns:
-            pkey = '.'.join((self.name, key))
+            pkey = '.'.join((self.pathname, key))
             if pkey in parent_proms:
                 umap[parent_proms[pkey]] = key
 
@@ -119,10 +119,7 @@ class SubProblem(Component):
         return self.params[name]
 
     def _rec_get_param_meta(self, name):
-        try:
-            return self._problem.root._rec_get_param_meta(name)
-        except:
-            _reraise(self.pathname,  sys.exc_info())
+        return self.params._dat[name].meta
 
     def _rec_set_param(self, name, value):
         self.params[name] = value
@@ -191,7 +188,13 @@ class SubProblem(Component):
             if name in subparams:
                 meta = subparams._dat[name].meta
             elif name in self._problem._dangling:
-                meta = self._rec_get_param_meta(name)
+                # name may be a promoted name, so look for the metadata
+                # using one of the absolute names that it stands for.
+                abs_name = sorted(self._problem._dangling[name])[0]
+                try:
+                    meta = self._problem.root._rec_get_param_meta(abs_name)
+                except:
+                    _reraise(self.pathname,  sys.exc_info())
             else:
                 meta = subunknowns._dat[name].meta
                 if not meta.get('_canset_'):
@@ -218,6 +221,12 @@ class SubProblem(Component):
             self._unknowns_dict[pathname] = meta
             meta['pathname'] = pathname
             del meta['top_promoted_name']
+
+            # our subproblem solves for its own states, so from the outside
+            # they are just explicit outputs.
+            meta.pop('state', None)
+            meta.pop('resid_scaler', None)
+
             to_prom_uname[pathname] = name
             to_abs_uname[name] = pathname
 
@@ -253,22 +262,48 @@ class SubProblem(Component):
         try:
             # set params into the subproblem
             prob = self._problem
-            for name in self._prob_params:
-                prob[name] = params[name]
+            self._set_params(params)
 
-            self._problem.run()
+            prob.run()
 
             # update our unknowns from subproblem
             for name in self._sysdata.to_abs_uname:
                 unknowns[name] = prob.root.unknowns[name]
-                resids[name] = prob.root.resids[name]
 
             # if params are really unknowns, they may have changed, so update
             for name in self._unknowns_as_params:
-                params[name] = prob.root.unknowns[name]
+                val = prob.root.unknowns[name]
+                conv = params.metadata(name).get('unit_conv')
+                if conv:
+                    # params are stored in the units of their source
+                    scale, offset = conv
+                    val = val / scale - offset
+                params[name] = val
         except:
             _reraise(self.pathname,  sys.exc_info())
 
+    def _set_params(self, params):
+        """Sets params into the sub-problem.
+
+        Args
+        ----
+        params : `VecWrapper`
+            `VecWrapper` containing parameters. (p)
+
+        Returns
+        -------
+        bool
+            True if any of the values in the sub-problem changed.
+        """
+        prob = self._problem
+        changed = False
+        for name in self._prob_params:
+            val = params[name]
+            if not (changed or params.metadata(name).get('pass_by_obj')):
+                changed = not numpy.array_equal(prob[name], val)
+            prob[name] = val
+        return changed
+
     def linearize(self, params, unknowns, resids):
         """
         Returns Jacobian. J is a dictionary whose keys are tuples
@@ -294,15 +329,42 @@ class SubProblem(Component):
         try:
             prob = self._problem
 
-            # set params into the subproblem
-            for name in self._prob_params:
-                prob[name] = params[name]
-
-            # have to convert jacobian returned from calc_gradient from a
-            # nested dict to a flat dict with tuple keys.
-            return _jac_to_flat_dict(prob.calc_gradient(self.params.keys(),
-                                                        self.unknowns.keys(),
-                                                        return_format='dict'))
+            # make sure that the subproblem is at the point where we are being
+            # linearized, e.g., it may still be at the last step of a finite
+            # difference.
+            if self._set_params(params):
+                prob.run()
+
+            names = [n for n in self._prob_unknowns
+                             if not unknowns.metadata(n).get('pass_by_obj')]
+            pnames = [n for n in self._prob_params
+                             if not params.metadata(n).get('pass_by_obj')]
+
+            # subproblem inputs that nothing in the subproblem supplies can't be
+            # handled by calc_gradient, so they are finite differenced.
+            fd_params = [n for n in pnames if n not in self._unknowns_as_params]
+            pnames = [n for n in pnames if n in self._unknowns_as_params]
+
+            jac = {}
+
+            if names and fd_params:
+                jac.update(self.fd_jacobian(params, unknowns, resids,
+                                            fd_params=fd_params,
+                                            fd_unknowns=names))
+                for (u_name, p_name), J in iteritems(jac):
+                    # fd steps are taken in the units of the source.
+                    J /= params.metadata(p_name).get('unit_conv', (1., 0.))[0]
+
+                # return the subproblem to the original point
+                if self._set_params(params):
+                    prob.run()
+
+            if names and pnames:
+                # have to convert jacobian returned from calc_gradient from a
+                # nested dict to a flat dict with tuple keys.
+                jac.update(_jac_to_flat_dict(prob.calc_gradient(pnames, names,
+                                                        return_format='dict')))
+            return jac
         except:
             _reraise(self.pathname,  sys.exc_info())
 
-- 
2.43.0


From cd5f5f2a2c2442e64304b542df5767a505cfeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:23 +0000
Subject: [PATCH 61/85] fix: ExternalCode runs commands given by relative path,
 reports undecodable error output and the right signal, and checks files where
 it runs

---
 openmdao/components/external_code.py | 29 ++++++++++++++++++++--------
 openmdao/util/shell_proc.py          |  2 +-
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/openmdao/components/external_code.py b/openmdao/components/external_code.py
index 3c801cf..be7ac38 100644
--- a/openmdao/components/external_code.py
+++ b/openmdao/components/external_code.py
@@ -1,6 +1,7 @@
 
 import sys
 import os
+import io
 
 import numpy.distutils
 from numpy.distutils.exec_command import find_executable
@@ -116,14 +117,15 @@ class ExternalCode(Component):
             out_stream.write( "The command cannot be empty")
         else:
             program_to_execute = self.options['command'][0]
-            command_full_path = find_executable( program_to_execute )
+            command_full_path = self._find_program(program_to_execute)
 
             if not command_full_path:
                 out_stream.write("The command to be executed, '%s', "
                                  "cannot be found" % program_to_execute)
 
         # Check for missing input files
-        missing = self._check_for_files(self.options['external_input_files'])
+        missing = self._check_for_files(self.options['external_input_files'],
+                                        self._sysdata.absdir or '')
         if missing:
             out_stream.write("The following input files are missing at setup "
                              " time: %s" % missing)
@@ -158,9 +160,9 @@ class ExternalCode(Component):
             elif return_code:
                 if isinstance(self.stderr, str):
                     if os.path.exists(self.stderr):
-                        stderrfile = open(self.stderr, 'r')
-                        error_desc = stderrfile.read()
-                        stderrfile.close()
+                        # what the command writes may not be valid text
+                        with io.open(self.stderr, 'r', errors='replace') as stderrfile:
+                            error_desc = stderrfile.read()
                         err_fragment = "\nError Output:\n%s" % error_desc
                     else:
                         err_fragment = "\n[stderr %r missing]" % self.stderr
@@ -178,9 +180,20 @@ class ExternalCode(Component):
         finally:
             self.return_code = -999999 if return_code is None else return_code
 
-    def _check_for_files(self, files):
+    def _check_for_files(self, files, directory=''):
         """ Check that specified files exist. """
-        return [path for path in files if not os.path.exists(path)]
+        return [path for path in files
+                     if not os.path.exists(os.path.join(directory, path))]
+
+    def _find_program(self, program):
+        """ Return the path of the given program, or None if there isn't one."""
+        if os.path.dirname(program):
+            # not searched for, and relative to the directory that we run in
+            path = os.path.join(self._sysdata.absdir or '', program)
+            if os.path.isfile(path) and os.access(path, os.X_OK):
+                return path
+
+        return find_executable(program)
 
     def _execute_local(self):
         """ Run command. """
@@ -194,7 +207,7 @@ class ExternalCode(Component):
         # suppress message from find_executable function, we'll handle it
         numpy.distutils.log.set_verbosity(-1)
 
-        command_full_path = find_executable( program_to_execute )
+        command_full_path = self._find_program(program_to_execute)
         if not command_full_path:
             raise ValueError("The command to be executed, '%s', cannot be found" % program_to_execute)
 
diff --git a/openmdao/util/shell_proc.py b/openmdao/util/shell_proc.py
index 0020943..64df901 100644
--- a/openmdao/util/shell_proc.py
+++ b/openmdao/util/shell_proc.py
@@ -174,7 +174,7 @@ class ShellProc(subprocess.Popen):
                 sig = -return_code
                 if sig < signal.NSIG:
                     for item in signal.__dict__.keys():
-                        if item.startswith('SIG'):
+                        if item.startswith('SIG') and not item.startswith('SIG_'):
                             if getattr(signal, item) == sig:
                                 error_msg = ': %s' % item
                                 break
-- 
2.43.0


From 66ad8efb5583f5f550407084f73738c62f62d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:54 +0000
Subject: [PATCH 62/85] fix: file wrappers and namelists read back the numbers,
 words, strings, flags and arrays they write

---
 openmdao/util/file_wrap.py     | 171 ++++++++++----------
 openmdao/util/namelist_util.py | 283 ++++++++++++++++-----------------
 2 files changed, 223 insertions(+), 231 deletions(-)

diff --git a/openmdao/util/file_wrap.py b/openmdao/util/file_wrap.py
index 3fe1bd9..43b4834 100644
--- a/openmdao/util/file_wrap.py
+++ b/openmdao/util/file_wrap.py
@@ -10,8 +10,8 @@ import re
 from six.moves import range
 
 from pyparsing import CaselessLiteral, Combine, OneOrMore, Optional, \
-                      TokenConverter, Word, nums, oneOf, printables, \
-                      ParserElement, alphanums
+                      TokenConverter, Word, alphas, nums, oneOf, printables, \
+                      ParserElement
 
 import numpy as np
 
@@ -25,7 +25,7 @@ def _getformat(val):
     # the floating point value is an integer, in which case a decimal point
     # followed by a single zero is used.
 
-    if int(val) == val:
+    if np.isfinite(val) and int(val) == val:
         return "%.1f"
     else:
         return "%.16g"
@@ -122,7 +122,49 @@ class ToInf(TokenConverter):
     """Converter for PyParsing that is used to turn a token into Python inf."""
     def postParse( self, instring, loc, tokenlist ):
         """Converter to make token into Python inf."""
-        return float('inf')
+        return float(tokenlist[0])
+
+
+def _row_index(current_row, row):
+    # Returns the index of a line that is given relative to the current
+    # anchor. Lines before the start of the file don't wrap to its end.
+
+    j = current_row + row
+    if j < 0:
+        raise IndexError("Row %d is before the start of the file" % row)
+    return j
+
+
+def _number_token(delimiter=''):
+    """Returns the pyparsing token for the numbers in a file. Floats and ints
+    are converted to their appropriate type. Words that merely start like a
+    number (e.g., 12abc, Information) are not numbers."""
+
+    digits = Word(nums)
+    dot = "."
+    sign = oneOf("+ -")
+    ee = CaselessLiteral('E') | CaselessLiteral('D')
+    wordchars = ''.join(c for c in alphas + '_' if c not in delimiter)
+    end = ~Word(wordchars)
+
+    num_int = ToInteger(Combine( Optional(sign) + digits +
+                                 ~Word(wordchars + '.') ))
+
+    num_float = ToFloat(Combine( Optional(sign) +
+                        ((digits + dot + Optional(digits)) |
+                         (dot + digits)) +
+                         Optional(ee + Optional(sign) + digits) + end
+                        ))
+
+    # special case for a float written like "3e5"
+    mixed_exp = ToFloat(Combine( Optional(sign) + digits + ee +
+                                 Optional(sign) + digits + end ))
+
+    nan = ToInf(Combine( oneOf("Inf +Inf -Inf inf +inf -inf") + end )) | \
+          ToNan(Combine( oneOf("NaN nan NaN%  NaNQ NaNS qNaN sNaN " + \
+                               "1.#SNAN 1.#QNAN -1.#IND") + end ))
+
+    return nan | num_float | mixed_exp | num_int
 
 
 class InputFileGenerator(object):
@@ -177,7 +219,7 @@ class InputFileGenerator(object):
             A string containing characters to be used as delimiters."""
 
         self.delimiter = delimiter
-        self.reg = re.compile('[^' + delimiter + '\n]+')
+        self.reg = re.compile('[^' + re.escape(delimiter) + '\n]+')
 
     def mark_anchor(self, anchor, occurrence=1):
         """Marks the location of a landmark, which lets you describe data by
@@ -270,7 +312,7 @@ class InputFileGenerator(object):
             Which word in line to replace, as denoted by delimiter(s)
         """
 
-        j = self.current_row + row
+        j = _row_index(self.current_row, row)
         line = self.data[j]
 
         sub = _SubHelper()
@@ -315,7 +357,7 @@ class InputFileGenerator(object):
         sub = _SubHelper()
         for row in range(row_start, row_end+1):
 
-            j = self.current_row + row
+            j = _row_index(self.current_row, row)
             line = self.data[j]
 
             if row == row_end:
@@ -334,7 +376,7 @@ class InputFileGenerator(object):
             for val in value[sub.counter:]:
                 newline = newline.rstrip() + sep + str(val)
 
-            self.data[j] = newline
+            self.data[j] = newline + "\n"
 
         # Sometimes an array is too small for the template
         # This is resolved by removing fields
@@ -344,8 +386,6 @@ class InputFileGenerator(object):
             # Ideally, we'd remove the extra field placeholders
             raise ValueError("Array is too small for the template.")
 
-        self.data[j] += "\n"
-
     def transfer_2Darray(self, value, row_start, row_end, field_start,
                        field_end):
         """Changes the values of a 2D array in the template relative to the
@@ -377,7 +417,7 @@ class InputFileGenerator(object):
         i = 0
         for row in range(row_start, row_end+1):
 
-            j = self.current_row + row
+            j = _row_index(self.current_row, row)
             line = self.data[j]
 
             sub.set_array(value[i, :], field_start, field_end)
@@ -400,7 +440,7 @@ class InputFileGenerator(object):
         row : integer
             Row number to clear, relative to current anchor."""
 
-        self.data[self.current_row + row] = "\n"
+        self.data[_row_index(self.current_row, row)] = "\n"
 
     def generate(self):
         """Use the template file to generate the input file."""
@@ -454,7 +494,9 @@ class FileParser(object):
             for line in inputfile :
                 if line[0] == self.full_line_comment_char:
                     continue
-                self.data.append( line.split( self.end_of_line_comment_char )[0] )
+                # Without an end-of-line character, the line is split on blanks.
+                fields = line.split( self.end_of_line_comment_char )
+                self.data.append( fields[0] if fields else line )
         inputfile.close()
 
     def set_delimiters(self, delimiter):
@@ -471,9 +513,16 @@ class FileParser(object):
             non-delimiters."""
 
         self.delimiter = delimiter
+
+        # The tokens keep the whitespace that is the default when they are
+        # made. All other users of pyparsing want the original default back.
+        whitespace = ParserElement.DEFAULT_WHITE_CHARS
         if delimiter != "columns":
             ParserElement.setDefaultWhitespaceChars(str(delimiter))
-        self._reset_tokens()
+        try:
+            self._reset_tokens()
+        finally:
+            ParserElement.setDefaultWhitespaceChars(whitespace)
 
     def mark_anchor(self, anchor, occurrence=1):
         """Marks the location of a landmark, which lets you describe data by
@@ -562,7 +611,7 @@ class FileParser(object):
         -------
             string : line at the location requested"""
 
-        return self.data[self.current_row + row].rstrip()
+        return self.data[_row_index(self.current_row, row)].rstrip()
 
     def transfer_var(self, row, field, fieldend=None):
         """Grabs a single variable relative to the current anchor.
@@ -587,7 +636,7 @@ class FileParser(object):
             string : data from the requested location in the file
         """
 
-        j = self.current_row + row
+        j = _row_index(self.current_row, row)
         line = self.data[j]
 
         if self.delimiter == "columns":
@@ -641,28 +690,15 @@ class FileParser(object):
             msg = "The value for occurrence must be a nonzero integer"
             raise ValueError(msg)
 
-        instance = 0
-        if occurrence > 0:
-            row = 0
-            for line in self.data[self.current_row:]:
-                if line.find(key) > -1:
-                    instance += 1
-                    if instance == occurrence:
-                        break
-
-                row += 1
-
-        elif occurrence < 0:
-            row = -1
-            for line in reversed(self.data[self.current_row:]):
-                if line.find(key) > -1:
-                    instance += -1
-                    if instance == occurrence:
-                        break
+        rows = [i for i in range(self.current_row, len(self.data))
+                if key in self.data[i]]
 
-                row -= 1
+        if len(rows) < abs(occurrence):
+            raise RuntimeError("Could not find pattern %s in output file %s" % \
+                               (key, self.filename))
 
-        j = self.current_row + row + rowoffset
+        j = _row_index(rows[occurrence-1 if occurrence > 0 else occurrence],
+                       rowoffset)
         line = self.data[j]
 
         fields = self._parse_line().parseString(line.replace(key,"KeyField"))
@@ -699,7 +735,7 @@ class FileParser(object):
             string : data from the requested location in the file
         """
 
-        j1 = self.current_row + rowstart
+        j1 = _row_index(self.current_row, rowstart)
 
         if rowend is None:
             j2 = j1 + 1
@@ -778,7 +814,7 @@ class FileParser(object):
             msg = "rowend must be greater than rowstart"
             raise ValueError(msg)
 
-        j1 = self.current_row + rowstart
+        j1 = _row_index(self.current_row, rowstart)
         j2 = self.current_row + rowend + 1
         lines = list(self.data[j1:j2])
 
@@ -817,12 +853,14 @@ class FileParser(object):
                 parsed = self._parse_line().parseString(line)
 
                 if fieldend:
-                    try:
-                        data[i+1, :] = np.array(parsed[(fieldstart-1):fieldend])
-                    except:
-                        print(data)
+                    row = np.array(parsed[(fieldstart-1):fieldend])
                 else:
-                    data[i+1, :] = np.array(parsed[(fieldstart-1):])
+                    row = np.array(parsed[(fieldstart-1):])
+
+                if len(row) != data.shape[1]:
+                    raise ValueError("Row %d has %d fields instead of %d" %
+                                     (rowstart+i+1, len(row), data.shape[1]))
+                data[i+1, :] = row
 
         return data
 
@@ -836,45 +874,14 @@ class FileParser(object):
     def _reset_tokens(self):
         """Sets up the tokens for pyparsing."""
 
-        # Somewhat of a hack, but we can only use printables if the delimiter is
-        # just whitespace. Otherwise, some seprators (like ',' or '=') potentially
-        # get parsed into the general string text. So, if we have non whitespace
-        # delimiters, we need to fall back to just alphanums, and then add in any
-        # missing but important symbols to parse.
-        if self.delimiter.isspace():
-            textchars = printables
-        else:
-            textchars = alphanums
-
-            symbols = ['.', '/', '+', '*', '^', '(', ')', '[', ']', '=',
-                       ':', ';', '?', '%', '&', '!', '#', '|', '<', '>',
-                       '{', '}', '-', '_', '@', '$', '~']
-
-            for symbol in symbols:
-                if symbol not in self.delimiter:
-                    textchars = textchars + symbol
-
-        digits = Word(nums)
-        dot = "."
-        sign = oneOf("+ -")
-        ee = CaselessLiteral('E') | CaselessLiteral('D')
-
-        num_int = ToInteger(Combine( Optional(sign) + digits ))
-
-        num_float = ToFloat(Combine( Optional(sign) +
-                            ((digits + dot + Optional(digits)) |
-                             (dot + digits)) +
-                             Optional(ee + Optional(sign) + digits)
-                            ))
-
-        # special case for a float written like "3e5"
-        mixed_exp = ToFloat(Combine( digits + ee + Optional(sign) + digits ))
-
-        nan = ToInf(oneOf("Inf -Inf")) | \
-              ToNan(oneOf("NaN nan NaN%  NaNQ NaNS qNaN sNaN " + \
-                            "1.#SNAN 1.#QNAN -1.#IND"))
+        # Every printable character that isn't a delimiter is part of the text.
+        delimiter = self.delimiter if self.delimiter != "columns" else ''
+        textchars = ''.join(c for c in printables if c not in delimiter)
 
         string_text = Word(textchars)
 
-        self.line_parse_token = ( OneOrMore( (nan | num_float | mixed_exp | num_int |
-                                              string_text) ) )
+        self.line_parse_token = OneOrMore(_number_token(delimiter) | string_text)
+
+        # By default, tabs are expanded to spaces.
+        if '\t' in self.delimiter:
+            self.line_parse_token.parseWithTabs()
diff --git a/openmdao/util/namelist_util.py b/openmdao/util/namelist_util.py
index 96b7a13..a238f79 100644
--- a/openmdao/util/namelist_util.py
+++ b/openmdao/util/namelist_util.py
@@ -9,14 +9,14 @@ from collections import OrderedDict
 from six import iteritems
 from six.moves import range
 
-from numpy import ndarray, array, append, vstack, zeros, \
-                 int32, int64, float32, float64
+from numpy import ndarray, array, append, vstack, zeros, isfinite, \
+                 bool_, integer, floating
 
-from pyparsing import CaselessLiteral, Combine, ZeroOrMore, Literal, \
-                      Optional, QuotedString, Suppress, Word, alphanums, \
-                      oneOf, nums, TokenConverter, Group
+from pyparsing import Combine, ZeroOrMore, Literal, Optional, \
+                      ParseException, QuotedString, StringEnd, Suppress, \
+                      Word, alphanums, oneOf, nums, TokenConverter, Group
 
-from openmdao.util.file_wrap import ToFloat, ToInteger
+from openmdao.util.file_wrap import ToInteger, _number_token
 
 #public symbols
 __all__ = ['Namelist']
@@ -28,7 +28,7 @@ def _floatfmt(val):
     the floating point value is an integer, in which case a decimal point
     followed by a single zero is used."""
 
-    if int(val) == val:
+    if isfinite(val) and int(val) == val:
         return "%.1f"
     else:
         return "%.16g"
@@ -52,6 +52,47 @@ def _boolfmt(val):
         return 'F%.0s'
 
 
+def _value_text(val):
+    """ Returns the text of a single value in the output file """
+
+    if isinstance(val, (bool, bool_)):
+        return _boolfmt(val) % val
+    elif isinstance(val, (int, integer)):
+        return _intfmt(val) % val
+    elif isinstance(val, (float, floating)):
+        return _floatfmt(val) % val
+    else:
+        # A quote in a string is doubled.
+        return _strfmt(val) % str(val).replace("'", "''")
+
+
+def _strip_comment(line):
+    """ Removes a comment, which starts with an exclamation mark outside of
+    a string. """
+
+    quote = None
+    for i, char in enumerate(line):
+        if quote:
+            if char == quote:
+                quote = None
+        elif char in ('"', "'"):
+            quote = char
+        elif char == '!':
+            return line[:i].rstrip()
+
+    return line
+
+
+def _parse(token, line):
+    """ Returns the parsed start of a line, or None if the token isn't
+    there. """
+
+    try:
+        return token.parseString(line)
+    except ParseException:
+        return None
+
+
 def _process_card_info(card):
     """ Function to extract info from a card as returned from PyParsing a
     namelist file. """
@@ -76,13 +117,13 @@ def _process_card_info(card):
     elif card.dimension:
         dim = card.dimension
         value = zeros(dim)
-        value.fill(card.value)
+        value.fill(card.value[0])
 
     # Comma-delimited arrays
     elif len(card) > 2:
         value = array(card[1:])
     else:
-        value = card.value
+        value = card.value[0]
 
     return name, value
 
@@ -250,68 +291,26 @@ class Namelist(object):
                 if card.is_comment:
                     line = "  %s\n" % (card.value)
 
-                elif isinstance(card.value, bool):
-                    fstring = "  %s = " + _boolfmt(card.value) + "\n"
-                    line = fstring % (card_name, card.value)
-
-                elif isinstance(card.value, int):
-                    fstring = "  %s = " + _intfmt(card.value) + "\n"
-                    line = fstring % (card_name, card.value)
-
-                elif isinstance(card.value, float):
-                    fstring = "  %s = " + _floatfmt(card.value) + "\n"
-                    line =  fstring % (card_name, card.value)
-
-                elif isinstance(card.value, str):
-                    fstring = "  %s = " + _strfmt(card.value) + "\n"
-                    line =  fstring % (card_name, card.value)
+                elif isinstance(card.value, (bool, int, float, str, bool_,
+                                             integer, floating)):
+                    line = "  %s = %s\n" % (card_name, _value_text(card.value))
 
                 # Lists are mainly supported for the Enum Array
                 elif isinstance(card.value, list):
                     line = "  %s = " % (card_name)
-                    sep = ""
-                    for val in card.value:
-
-                        # We can have integer, real, or string lists
-                        if isinstance(val, bool):
-                            fmt = _boolfmt
-                        elif isinstance(val, (int, int32, int64)):
-                            fmt = _intfmt
-                        elif isinstance(val, (float, float32, float64)):
-                            fmt = _floatfmt
-                        else:
-                            fmt = _strfmt
-
-                        fstring = sep + fmt(val)
-                        line += fstring % val
-                        sep = self.delimiter
-
-                    line += "\n"
+                    line += self.delimiter.join(_value_text(val)
+                                                for val in card.value) + "\n"
 
                 elif isinstance(card.value, (ndarray)):
 
-                    # We can have integer, real, or string arrays
-                    if card.value.dtype == bool:
-                        fmt = _boolfmt
-                    elif card.value.dtype in (int, int32, int64):
-                        fmt = _intfmt
-                    elif card.value.dtype in (float, float32, float64):
-                        fmt = _floatfmt
-                    else:
-                        fmt = _strfmt
-
                     # We don't need to output 0D arrays
                     if len(card.value) == 0:
                         continue
 
                     elif len(card.value.shape) == 1:
                         line = "  %s = " % (card_name)
-                        sep = ""
-                        for val in card.value:
-                            fstring = "%s" + fmt(val)
-                            line += fstring % (sep, val)
-                            sep = self.delimiter
-                        line += "\n"
+                        line += self.delimiter.join(_value_text(val)
+                                                    for val in card.value) + "\n"
 
                     elif len(card.value.shape) == 2:
 
@@ -320,8 +319,7 @@ class Namelist(object):
                             line += card_name + "(1," + str(row+1) + ") ="
                             for col in range(0, card.value.shape[1]):
                                 val = card.value[row, col]
-                                fstring = " " + fmt(val) + "%s"
-                                line += fstring % (val, self.delimiter)
+                                line += " " + _value_text(val) + self.delimiter
                             line += "\n"
 
                     else:
@@ -355,36 +353,26 @@ class Namelist(object):
         data = infile.readlines()
         infile.close()
 
-        # Lots of numerical tokens for recognizing various kinds of numbers
         digits = Word(nums)
-        dot = "."
         sign = oneOf("+ -")
-        ee = CaselessLiteral('E') | CaselessLiteral('D')
+        namechars = alphanums + '_'
 
         num_int = ToInteger(Combine( Optional(sign) + digits ))
-
-        num_float = ToFloat(Combine( Optional(sign) +
-                            ((digits + dot + Optional(digits)) |
-                             (dot + digits)) +
-                             Optional(ee + Optional(sign) + digits)
-                            ))
-
-        # special case for a float written like "3e5"
-        mixed_exp = ToFloat(Combine( digits + ee + Optional(sign) + digits ))
-
-        # I don't suppose we need these, but just in case (plus it's easy)
-        nan = ToFloat(oneOf("NaN Inf -Inf"))
-
-        numval = num_float | mixed_exp | num_int | nan
-        strval =  QuotedString(quoteChar='"') | QuotedString(quoteChar="'")
+        numval = _number_token()
+        strval =  QuotedString(quoteChar='"', escQuote='""',
+                               convertWhitespaceEscapes=False) | \
+                  QuotedString(quoteChar="'", escQuote="''",
+                               convertWhitespaceEscapes=False)
         b_list = "T TRUE True true F FALSE False false .TRUE. .FALSE. .T. .F."
-        boolval = ToBool(oneOf(b_list))
-        fieldval = Word(alphanums)
-
-        # Tokens for parsing a line of data
-        numstr_token = numval + ZeroOrMore(Suppress(',') + numval) \
-                   | strval
-        data_token = numstr_token | boolval
+        boolval = ToBool(Combine(oneOf(b_list) + ~Word(namechars)))
+        fieldval = Word(namechars)
+
+        # Tokens for parsing a line of data. After a comma, a name may look
+        # like a bool.
+        item_token = numval | strval | boolval
+        data_token = item_token + ZeroOrMore(Suppress(',') +
+                                             ~(fieldval + oneOf("= (")) +
+                                             item_token)
         index_token = Suppress('(') + num_int + Suppress(')')
 
         card_token = Group(fieldval("name") +
@@ -393,25 +381,26 @@ class Namelist(object):
                            Optional(num_int("dimension") + Suppress('*')) +
                            data_token("value") +
                            Optional(Suppress('*') + num_int("dimension")))
-        multi_card_token = (card_token + ZeroOrMore(Suppress(',') + card_token))
-        array_continuation_token = numstr_token.setResultsName("value")
-        array2D_token = fieldval("name") + Suppress("(") + \
-                        Suppress(num_int) + Suppress(',') + \
-                        num_int("index") + Suppress(')') + \
-                        Suppress('=') + numval + \
-                        ZeroOrMore(Suppress(',') + numval)
 
-        # Tokens for parsing the group head and tai
+        # Tokens for parsing the group head and tail
         group_end_token = Literal("/") | \
                           Literal("$END") | Literal("$end") | \
                           Literal("&END") | Literal("&end")
-        group_name_token = (Literal("$") | Literal("&")) + \
-                           Word(alphanums).setResultsName("name") + \
-                           Optional(multi_card_token) + \
-                           Optional(group_end_token)
+        tail_token = Optional(Suppress(',')) + Optional(group_end_token("end"))
+
+        multi_card_token = Group(card_token +
+                                 ZeroOrMore(Suppress(',') +
+                                            card_token))("cards") + tail_token
+        array_continuation_token = Group(data_token)("cards") + tail_token + \
+                                   StringEnd()
+        array2D_token = fieldval("name") + Suppress("(") + \
+                        Suppress(num_int) + Suppress(',') + \
+                        num_int("index") + Suppress(')') + \
+                        Suppress('=') + Group(data_token)("cards") + tail_token
 
-        # Comment Token
-        comment_token = Literal("!")
+        group_name_token = (Literal("$") | Literal("&")) + \
+                           fieldval("name") + \
+                           Optional(multi_card_token) + tail_token
 
         # Loop through each line and parse.
 
@@ -426,82 +415,72 @@ class Namelist(object):
 
             if current_group:
 
-                # Skip comment cards
-                if comment_token.searchString(line):
-                    pass
+                # Skip comments
+                line = _strip_comment(line)
+                if not line:
+                    continue
 
                 # Process orindary cards
-                elif multi_card_token.searchString(line):
-                    cards = multi_card_token.parseString(line)
-
-                    for card in cards:
+                parsed = _parse(multi_card_token, line)
+                if parsed is not None:
+                    for card in parsed.cards:
                         name, value = _process_card_info(card)
                         self.cards[-1].append(Card(name, value))
 
                 # Catch 2D arrays like -> X(1,1) = 3,4,5
-                elif array2D_token.searchString(line):
-                    card = array2D_token.parseString(line)
-
-                    name = card[0]
-                    index = card[1]
-                    value = array(card[2:])
-
-                    if index > 1:
-                        old_value = self.cards[-1][-1].value
-                        new_value = vstack((old_value, value))
-                        self.cards[-1][-1].value = new_value
-                    else:
-                        self.cards[-1].append(Card(name, value))
+                if parsed is None:
+                    parsed = _parse(array2D_token, line)
+                    if parsed is not None:
+                        value = array([parsed.cards[:]])
+
+                        if parsed.index > 1:
+                            old_value = self.cards[-1][-1].value
+                            new_value = vstack((old_value, value))
+                            self.cards[-1][-1].value = new_value
+                        else:
+                            self.cards[-1].append(Card(parsed.name, value))
 
                 # Arrays can be continued on subsequent lines
                 # The value of the most recent card must be turned into an
                 # array and appended
-                elif array_continuation_token.searchString(line):
-                    card = array_continuation_token.parseString(line)
-
-                    if len(card) > 1:
-                        element = array(card[0:])
-                    else:
-                        element = card.value
+                if parsed is None and self.cards[-1]:
+                    parsed = _parse(array_continuation_token, line)
+                    if parsed is not None:
+                        element = array(parsed.cards[:])
+                        self.cards[-1][-1].value = \
+                            append(self.cards[-1][-1].value, element)
 
-                    if isinstance(self.cards[-1][-1].value, ndarray):
-                        new_value = append(self.cards[-1][-1].value, element)
-                    else:
-                        new_value = array([self.cards[-1][-1].value, element])
+                # Lastly, look for the group footer
+                if parsed is None:
+                    if group_end_token.searchString(line):
+                        current_group = None
 
-                    self.cards[-1][-1].value = new_value
+                    # Everything else must be a pure comment
 
-                # Lastly, look for the group footer
-                elif group_end_token.searchString(line):
+                elif parsed.end:
                     current_group = None
 
-                # Everything else must be a pure comment
-
                 # Group ending '/' can also conclude a data line.
                 if line[-1] == '/':
                     current_group = None
 
             else:
-                group_name = group_name_token.searchString(line)
+                group_name = _parse(group_name_token, line)
 
                 # Group Header
-                if group_name:
-                    group_name = group_name_token.parseString(line)
+                if group_name is not None:
                     current_group = group_name.name
                     self.add_group(current_group)
 
                     # Sometimes, variable definitions are included on the
                     # same line as the namelist header
-                    if len(group_name) > 2:
-                        cards = group_name[2:]
+                    for card in group_name.cards:
+                        name, value = _process_card_info(card)
+                        self.cards[-1].append(Card(name, value))
 
-                        for card in cards:
-                            # Sometimes an end card is on the same line.
-                            if group_end_token.searchString(card):
-                                current_group = None
-                            else:
-                                name, value = _process_card_info(card)
-                                self.cards[-1].append(Card(name, value))
+                    # Sometimes an end card is on the same line.
+                    if group_name.end:
+                        current_group = None
 
                 # If there is an ungrouped card at the start, take it as the
                 # title for the analysis
@@ -640,13 +619,19 @@ class Namelist(object):
                 else:
 
                     # 1D arrays must become ndarrays
-                    target = params[varpath]
+                    if hasattr(self.comp.params, 'keys'):
+                        target = params[varpath]
+                    else:
+                        target = params[varpath]['val']
 
                     # Variables that are passed by array are arrays.
                     # Everythign else is an object.
                     if isinstance(target, ndarray) and \
-                       isinstance(value, (float, int)):
+                       isinstance(value, (float, int, str)):
                         value = array([value])
+                    elif isinstance(target, list) and \
+                         isinstance(value, (float, int, str)):
+                        value = [value]
 
                     if hasattr(self.comp.params, 'keys'):
                         params[varpath] = value
-- 
2.43.0


From 76064ca5cb568ff511cc6de6aba2684e2dfd0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:09 +0000
Subject: [PATCH 63/85] fix: variables whose names contain dots belong to their
 SubProblem

Relevance, differenced groups, derivative checks and setup checks took
's.b' as the owner of the output 'b.y' of the SubProblem 's'. Objects of
inner sources are not differenced either.
---
 openmdao/core/group.py       | 32 +++++++++++++++++++++++++++-----
 openmdao/core/problem.py     | 18 +++++++-----------
 openmdao/core/relevance.py   | 15 ++++++++-------
 openmdao/util/string_util.py | 23 +++++++++++++++++++++++
 4 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/openmdao/core/group.py b/openmdao/core/group.py
index 531d722..5434ad2 100644
--- a/openmdao/core/group.py
+++ b/openmdao/core/group.py
@@ -110,6 +110,28 @@ class Group(System):
             s = s._subsystems[part]
         return s
 
+    def _find_source(self, name):
+        """
+        Returns the `Component` that a variable belongs to. The names of the
+        variables of a `Component` may contain dots themselves.
+
+        Args
+        ----
+        name : str
+            Name of the variable, relative to this `Group`.
+
+        Returns
+        -------
+        `Component`
+            The owner of the variable.
+        """
+        s = self
+        for part in name.split('.'):
+            if not isinstance(s, Group):
+                break
+            s = s._subsystems[part]
+        return s
+
     def cleanup(self):
         """ Clean up resources prior to exit. """
         self.ln_solver.cleanup()
@@ -610,10 +632,10 @@ class Group(System):
             for tgt, (src, idxs) in iteritems(conns):
                 if mypath == tgt[:mplen]:
                     # look up the Component that contains the source variable
-                    scname = src.rsplit('.', 1)[0]
-                    if mypath == scname[:mplen]:
-                        src_comp = self.find_subsystem(scname[mplen:])
-                        if isinstance(src_comp, IndepVarComp):
+                    if mypath == src[:mplen]:
+                        src_comp = self._find_source(src[mplen:])
+                        if isinstance(src_comp, IndepVarComp) and \
+                                not self._unknowns_dict[src].get('pass_by_obj'):
                             params.append(tgt[mplen:])
                     else:
                         scoped_tgt = tgt[mplen:]
@@ -658,7 +680,7 @@ class Group(System):
         fd_unknowns = []
         for name, meta in iteritems(self.unknowns):
             # look up the subsystem containing the unknown
-            sub = self.find_subsystem(meta['pathname'].rsplit('.', 1)[0][len(mypath):])
+            sub = self._find_source(meta['pathname'][len(mypath):])
             if not isinstance(sub, IndepVarComp):
                 if not self.unknowns._dat[name].pbo:
                     fd_unknowns.append(name)
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index c451b27..4f78675 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -32,7 +32,8 @@ from openmdao.solvers.ln_direct import DirectSolver
 from openmdao.solvers.ln_gauss_seidel import LinearGaussSeidel
 
 from openmdao.units.units import get_conversion_tuple
-from openmdao.util.string_util import get_common_ancestor, nearest_child, name_relative_to
+from openmdao.util.string_util import get_common_ancestor, nearest_child, \
+                                      name_relative_to, owning_system
 from openmdao.util.graph import plain_bfs, OrderedDigraph
 from openmdao.util.options import OptionsDictionary
 from openmdao.util.dict_util import _jac_to_flat_dict
@@ -808,10 +809,7 @@ class Problem(object):
                     # solve_linear method
                     for s in states:
                         if s not in iterated_states:
-                            cname = s.rsplit('.', 1)[0]
-                            comp = self.root
-                            for name in cname.split('.'):
-                                comp = getattr(comp, name)
+                            comp = self.root._find_source(s)
                             if not _needs_iteration(comp):
                                 iterated_states.add(s)
 
@@ -890,13 +888,11 @@ class Problem(object):
 
     def _check_no_connect_comps(self, out_stream=sys.stdout):
         """ Check for unconnected components. """
-        conn_comps = set([t.rsplit('.', 1)[0]
-                          for t in self.root.connections])
-        conn_comps.update([s.rsplit('.', 1)[0]
+        comps = set([c.pathname for c in self.root.components(recurse=True, local=True)])
+        conn_comps = set([owning_system(t, comps) for t in self.root.connections])
+        conn_comps.update([owning_system(s, comps)
                            for s, i in itervalues(self.root.connections)])
-        noconn_comps = sorted([c.pathname
-                               for c in self.root.components(recurse=True, local=True)
-                               if c.pathname not in conn_comps])
+        noconn_comps = sorted([c for c in comps if c not in conn_comps])
         if noconn_comps:
             print("\nThe following components have no connections:", file=out_stream)
             for comp in noconn_comps:
diff --git a/openmdao/core/relevance.py b/openmdao/core/relevance.py
index 2fa553a..7d5f55a 100644
--- a/openmdao/core/relevance.py
+++ b/openmdao/core/relevance.py
@@ -8,6 +8,7 @@ from six import string_types, itervalues, iteritems
 
 import networkx as nx
 from openmdao.util.graph import OrderedDigraph
+from openmdao.util.string_util import owning_system
 
 
 class Relevance(object):
@@ -138,8 +139,8 @@ class Relevance(object):
         sgraph.add_nodes_from(s.pathname for s in group.subsystems(recurse=True))
 
         for target, (source, idxs) in iteritems(connections):
-            scomp = source.rsplit('.', 1)[0]
-            tcomp = target.rsplit('.', 1)[0]
+            scomp = owning_system(source, sgraph)
+            tcomp = owning_system(target, sgraph)
             weight = group._params_dict[target]['size']
             if sgraph.has_edge(scomp, tcomp):
                 sgraph[scomp][tcomp]['weight'] += weight
@@ -175,7 +176,7 @@ class Relevance(object):
             for node in nodes:
                 relevant[node] = set()
                 pnode = to_abs_uname[node]
-                comp = pnode.rsplit('.', 1)[0]
+                comp = owning_system(pnode, sgraph)
                 succs[node] = []
                 if comp in sgraph:
                     succs[node].append(comp)
@@ -185,7 +186,7 @@ class Relevance(object):
         for nodes in self.outputs:
             for node in nodes:
                 unode = to_abs_uname[node]
-                comp = unode.rsplit('.', 1)[0]
+                comp = owning_system(unode, sgraph)
                 relevant[node] = set()
                 if comp in sgraph:
                     preds = set((comp,))
@@ -200,7 +201,7 @@ class Relevance(object):
         # we have to determine the relevant variables based on those systems
         # and our connections
         relvars = {}
-        rcomps = [to_abs_uname[n].rsplit('.', 1)[0] for n in relevant]
+        rcomps = [owning_system(to_abs_uname[n], sgraph) for n in relevant]
 
         # make sure we don't miss any other VOIs that are relevant but are not
         # part of a connection
@@ -213,8 +214,8 @@ class Relevance(object):
         for tgt, (src, idxs) in iteritems(connections):
             prom_tgt = to_prom_name[tgt]
             prom_src = to_prom_name[src]
-            tcomp = tgt.rsplit('.', 1)[0]
-            scomp = src.rsplit('.', 1)[0]
+            tcomp = owning_system(tgt, sgraph)
+            scomp = owning_system(src, sgraph)
             for n, relcomps in iteritems(relevant):
                 if tcomp in relcomps and scomp in relcomps:
                     relvars[n].update((prom_tgt, prom_src))
diff --git a/openmdao/util/string_util.py b/openmdao/util/string_util.py
index 88c4943..b6055d4 100644
--- a/openmdao/util/string_util.py
+++ b/openmdao/util/string_util.py
@@ -33,6 +33,29 @@ def get_common_ancestor(name1, name2):
     else:
         return ''
 
+def owning_system(varpath, syspaths):
+    """
+    Returns the path of the innermost system that a variable belongs to. The
+    names of the variables of a component may contain dots themselves.
+
+    Args
+    ----
+    varpath : str
+        Absolute path of a variable.
+
+    syspaths : container of str
+        Absolute paths of systems.
+
+    Returns
+    -------
+    str
+        Path of the system, or the empty string if there is none.
+    """
+    path = varpath.rpartition('.')[0]
+    while path and path not in syspaths:
+        path = path.rpartition('.')[0]
+    return path
+
 def nearest_child(parent_abspath, child_abspath):
     """ Determine the relative name of the nearest child inside of the
     parent that contains or is the object specified by child_abspath.
-- 
2.43.0


From 7fc7368231b16bac39ea4940d8ab598406b12c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:09 +0000
Subject: [PATCH 64/85] fix: objects and files reach their consumers as they
 are

---
 openmdao/core/_checks.py                  | 17 ++++++++++-
 openmdao/core/fileref.py                  |  3 +-
 openmdao/core/problem.py                  | 35 ++++++++++++++++++++++-
 openmdao/core/vec_wrapper.py              |  9 +++++-
 openmdao/core/vec_wrapper_complex_step.py |  5 ++++
 5 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/openmdao/core/_checks.py b/openmdao/core/_checks.py
index 1aa5d9e..f6a49c8 100644
--- a/openmdao/core/_checks.py
+++ b/openmdao/core/_checks.py
@@ -32,7 +32,18 @@ def check_connections(connections, params_dict, unknowns_dict, to_prom_name):
         tmeta = params_dict[tgt]
         smeta = unknowns_dict[src]
         _check_types_match(smeta, tmeta, to_prom_name)
-        if 'pass_by_obj' not in smeta and 'pass_by_obj' not in smeta:
+        if smeta.get('pass_by_obj'):
+            # idxs is None unless the target takes part of the source
+            if idxs is not None:
+                errors.append("Target %s cannot have src_indices, because source "
+                              "%s is a 'pass_by_obj' variable." %
+                              (_both_names(tmeta, to_prom_name),
+                               _both_names(smeta, to_prom_name)))
+        elif tmeta.get('pass_by_obj'):
+            errors.append("Target %s is a 'pass_by_obj' variable, but its source "
+                          "%s is not." % (_both_names(tmeta, to_prom_name),
+                                          _both_names(smeta, to_prom_name)))
+        else:
             errors.extend(_check_shapes_match(smeta, tmeta, to_prom_name))
 
     # FileRefs require a separate check, because if multiple input FileRefs
@@ -78,6 +89,10 @@ def _check_types_match(src, tgt, to_prom_name):
     tval = tgt['val']
 
     if isinstance(sval, FileRef) or isinstance(tval, FileRef):
+        if not isinstance(tval, FileRef):
+            raise TypeError("Target %s of FileRef source %s is not a FileRef." %
+                            (_both_names(tgt, to_prom_name),
+                             _both_names(src, to_prom_name)))
         tval.validate(sval)
         return
 
diff --git a/openmdao/core/fileref.py b/openmdao/core/fileref.py
index ae6726f..d007361 100644
--- a/openmdao/core/fileref.py
+++ b/openmdao/core/fileref.py
@@ -89,5 +89,6 @@ class FileRef(object):
         if self._same_file(src_fref):
             return
 
-        with src_fref.open("r") as src, self.open("w") as dst:
+        # The bytes have to arrive as they are, so no text mode here.
+        with src_fref.open("rb") as src, self.open("wb") as dst:
             shutil.copyfileobj(src, dst)
diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 4f78675..69bea84 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -37,6 +37,7 @@ from openmdao.util.string_util import get_common_ancestor, nearest_child, \
 from openmdao.util.graph import plain_bfs, OrderedDigraph
 from openmdao.util.options import OptionsDictionary
 from openmdao.util.dict_util import _jac_to_flat_dict
+from openmdao.util.type_util import is_differentiable
 
 force_check = os.environ.get('OPENMDAO_FORCE_CHECK_SETUP')
 trace = os.environ.get('OPENMDAO_TRACE')
@@ -182,6 +183,27 @@ class Problem(object):
         """
         _set_root_var(self.root, name, val)
 
+    def _follow_source(self, meta):
+        """A target that is marked as pass_by_obj, but is connected to a
+        source that is not, receives its value through the vectors.
+
+        Args
+        ----
+
+        meta : dict
+            The metadata of the target, which is updated.
+        """
+        val = meta['val']
+        if isinstance(val, np.ndarray) and val.dtype.kind in 'biu':
+            val = val.astype(float)
+
+        if is_differentiable(val):
+            is_array = isinstance(val, np.ndarray)
+            meta['val'] = val
+            meta['shape'] = val.shape if is_array else 1
+            meta['size'] = val.size if is_array else 1
+            meta['pass_by_obj'] = False
+
     def _setup_connections(self, params_dict, unknowns_dict):
         """Generate a mapping of absolute param pathname to the pathname
         of its unknown.
@@ -537,6 +559,11 @@ class Problem(object):
 
         for tgt, (src, idxs) in iteritems(connections):
             tmeta = params_dict[tgt]
+
+            if tmeta.get('pass_by_obj') and \
+                    not unknowns_dict[src].get('pass_by_obj'):
+                self._follow_source(tmeta)
+
             if 'pass_by_obj' not in tmeta or not tmeta['pass_by_obj']:
 
                 # Allow the user to omit the size of a parameter and pull
@@ -545,8 +572,14 @@ class Problem(object):
 
                     smeta = unknowns_dict[src]
 
+                    # Objects have no size.
+                    if smeta.get('pass_by_obj'):
+                        tmeta['pass_by_obj'] = True
+                        tmeta['size'] = 0
+                        tmeta['val'] = smeta['val']
+
                     # Connected with src_indices specified
-                    if idxs is not None:
+                    elif idxs is not None:
                         size = len(idxs)
                         tmeta['shape'] = (size, )
                         tmeta['size'] = size
diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index e8321cb..d1e6598 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -321,6 +321,13 @@ class Accessor(object):
             self.val[0] = value
 
     def _set_pbo(self, value):
+        old = self.val.val
+        if isinstance(value, FileRef) and isinstance(old, FileRef):
+            # Setup gave these to the file that was declared.
+            if value.parent_dir is None:
+                value.parent_dir = old.parent_dir
+            if not value.meta:
+                value.meta = old.meta.copy()
         self.val.val = value
 
     def _remote_access_error(self, value=None):
@@ -895,7 +902,7 @@ class SrcVecWrapper(VecWrapper):
                 # Skip any remote vars. Also, skip any vars that are
                 # pass_by_obj. Gradients are undefined for objects, so we
                 # can't determine how far to go to the bound anyway.
-                if 'remote' in meta or 'pass_by_obj' in meta:
+                if 'remote' in meta or meta.get('pass_by_obj'):
                     continue
 
                 val = self._dat[name].val
diff --git a/openmdao/core/vec_wrapper_complex_step.py b/openmdao/core/vec_wrapper_complex_step.py
index 7a2f932..e3f478e 100644
--- a/openmdao/core/vec_wrapper_complex_step.py
+++ b/openmdao/core/vec_wrapper_complex_step.py
@@ -157,6 +157,11 @@ class ComplexStepSrcVecWrapper(object):
 
         # Make complex copies of every unknown or state
         for name, val in iteritems(vec):
+            # Objects are just passed along.
+            if val.get('pass_by_obj'):
+                self.vals[name] = vec[name]
+                continue
+
             self.vals[name] = np.zeros(val['shape'], dtype=np.complex)
             self.vals[name][:] = vec[name]
 
-- 
2.43.0


From c4adbe8d8499e9c9c211bba152d6d22dab451325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:09 +0000
Subject: [PATCH 65/85] fix: a failing component does not spoil later runs

Newton leaves the options of its system as they were, Brent passes errors
of components on, and a SubProblem whose run failed is run again before it
is differentiated.
---
 openmdao/components/subproblem.py | 19 ++++++++++++++-----
 openmdao/solvers/brent.py         | 15 ++++++---------
 openmdao/solvers/newton.py        | 18 +++++++++++++-----
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/openmdao/components/subproblem.py b/openmdao/components/subproblem.py
index c04eb94..5f5c89e 100644
--- a/openmdao/components/subproblem.py
+++ b/openmdao/components/subproblem.py
@@ -47,6 +47,7 @@ class SubProblem(Component):
     def __init__(self, problem, params=(), unknowns=()):
         super(SubProblem, self).__init__()
         self._problem = problem
+        self._stale = False
         self._prob_params = list(params)
         self._prob_unknowns = list(unknowns)
 
@@ -264,7 +265,7 @@ class SubProblem(Component):
             prob = self._problem
             self._set_params(params)
 
-            prob.run()
+            self._run_problem()
 
             # update our unknowns from subproblem
             for name in self._sysdata.to_abs_uname:
@@ -282,6 +283,13 @@ class SubProblem(Component):
         except:
             _reraise(self.pathname,  sys.exc_info())
 
+    def _run_problem(self):
+        """Runs the sub-problem, and remembers if it has failed to get to the
+        end."""
+        self._stale = True
+        self._problem.run()
+        self._stale = False
+
     def _set_params(self, params):
         """Sets params into the sub-problem.
 
@@ -293,10 +301,11 @@ class SubProblem(Component):
         Returns
         -------
         bool
-            True if any of the values in the sub-problem changed.
+            True if any of the values in the sub-problem changed, or if its
+            outputs don't belong to them because its last run failed.
         """
         prob = self._problem
-        changed = False
+        changed = self._stale
         for name in self._prob_params:
             val = params[name]
             if not (changed or params.metadata(name).get('pass_by_obj')):
@@ -333,7 +342,7 @@ class SubProblem(Component):
             # linearized, e.g., it may still be at the last step of a finite
             # difference.
             if self._set_params(params):
-                prob.run()
+                self._run_problem()
 
             names = [n for n in self._prob_unknowns
                              if not unknowns.metadata(n).get('pass_by_obj')]
@@ -357,7 +366,7 @@ class SubProblem(Component):
 
                 # return the subproblem to the original point
                 if self._set_params(params):
-                    prob.run()
+                    self._run_problem()
 
             if names and pnames:
                 # have to convert jacobian returned from calc_gradient from a
diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 4ac40f0..66ef7a6 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -172,7 +172,8 @@ class Brent(NonLinearSolver):
         kwargs = {'maxiter': self.options['maxiter'],
                   'a': lower,
                   'b': upper,
-                  'full_output': False, # False, because we don't use the info, so just wastes operations
+                  'full_output': True,
+                  'disp': False, # no error, but it's in the info
                   'args': (params, unknowns, resids)
                   }
 
@@ -181,14 +182,10 @@ class Brent(NonLinearSolver):
         if self.options['rtol'] > 0:
             kwargs['rtol'] = self.options['rtol']
 
-        failed = False
-        try:
-            xstar = brentq(self._eval, **kwargs)
-        except RuntimeError as err:
-            msg = str(err)
-            if 'different signs' in msg:
-                raise
-            failed = True
+        xstar, info = brentq(self._eval, **kwargs)
+        failed = not info.converged
+        if failed:
+            msg = 'Failed to converge after %d iterations.' % info.iterations
 
         # The root is not always the point that was evaluated last.
         if not failed and unknowns._dat[self.s_var_name].val[idx] != xstar:
diff --git a/openmdao/solvers/newton.py b/openmdao/solvers/newton.py
index a491567..61b4075 100644
--- a/openmdao/solvers/newton.py
+++ b/openmdao/solvers/newton.py
@@ -135,6 +135,19 @@ class Newton(NonLinearSolver):
         metadata : dict, optional
             Dictionary containing execution metadata (e.g. iteration coordinate).
         """
+        save_type = system.deriv_options['type']
+        try:
+            self._solve(params, unknowns, resids, system, metadata)
+
+        # Return system's FD status back to what it was, even if a component
+        # has failed.
+        finally:
+            if system.deriv_options['type'] != save_type:
+                system.deriv_options['type'] = save_type
+            system.deriv_options.locked = True
+
+    def _solve(self, params, unknowns, resids, system, metadata):
+        """ Does the work of `solve`, which takes the same arguments."""
 
         atol = self.options['atol']
         rtol = self.options['rtol']
@@ -181,7 +194,6 @@ class Newton(NonLinearSolver):
         u_norm = 1.0e99
 
         # Can't have the system trying to FD itself when it also contains Newton.
-        save_type = system.deriv_options['type']
         system.deriv_options.locked = False
         system.deriv_options['type'] = 'user'
 
@@ -256,10 +268,6 @@ class Newton(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count,
                             f_norm, f_norm0, u_norm=u_norm)
 
-        # Return system's FD status back to what it was
-        system.deriv_options['type'] = save_type
-        system.deriv_options.locked = True
-
         converged = f_norm <= atol or f_norm/f_norm0 <= rtol or u_norm <= utol
 
         if self.iter_count >= maxiter or not converged or isnan(f_norm):
-- 
2.43.0


From bda00db1d90d50d7bfca28fcb40a7fa786667a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 66/85] fix: derivative checks report the supplied and own
 approximated derivatives as they are

---
 openmdao/core/problem.py | 26 +++++++++++++++++++-------
 openmdao/core/system.py  | 22 ++++++++++++++++++++--
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 69bea84..2549c90 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1995,6 +1995,10 @@ class Problem(object):
 
             comps = [root.find_subsystem(c_name) for c_name in comps]
 
+        # Components in a group that is approximated weren't linearized above.
+        approx = [grp.pathname + '.' for grp in root.subgroups(recurse=True)
+                  if grp.deriv_options['type'] != 'user']
+
         for comp in comps:
 
             # IndepVarComps are just clutter.
@@ -2004,6 +2008,9 @@ class Problem(object):
             cname = comp.pathname
             opt = comp.deriv_options
 
+            if cname.startswith(tuple(approx)):
+                comp._sys_linearize(comp.params, comp.unknowns, comp.resids)
+
             ch_step_size = opt['check_step_size']
             ch_form = opt['check_form']
             ch_step_calc = opt['check_step_calc']
@@ -2190,8 +2197,7 @@ class Problem(object):
                 else:
                     fd_func = comp.fd_jacobian
 
-                jac_fd2 = fd_func(params, unknowns, resids,
-                                  option_overrides=global_options)
+                jac_fd2 = fd_func(params, unknowns, resids)
 
             # Assemble and Return all metrics.
             _assemble_deriv_data(chain(dparams, states), resids, data[cname],
@@ -2310,8 +2316,14 @@ class Problem(object):
                                       return_format='dict')
             Jrev = _jac_to_flat_dict(Jrev)
 
-        Jfd = self.calc_gradient(indep_list, unknown_list, mode='fd',
-                                 return_format='dict', use_check=True)
+        # The inputs have to be what they were afterwards.
+        saved = root._save_values(root.params, root.unknowns, root.resids,
+                                  inputs=True)
+        try:
+            Jfd = self.calc_gradient(indep_list, unknown_list, mode='fd',
+                                     return_format='dict', use_check=True)
+        finally:
+            root._restore_values(saved)
         Jfd = _jac_to_flat_dict(Jfd)
 
         # Assemble and Return all metrics.
@@ -2677,7 +2689,7 @@ def _assemble_deriv_data(params, resids, cdata, jac_fwd, jac_rev, jac_fd,
                                               _pad_name('check mag.', 10, quotes=False),
                                               _pad_name('a(fwd-chk)', 10, quotes=False),
                                               _pad_name('a(rev-chk)', 10, quotes=False),
-                                              _pad_name('r(fwd-rev)', 10, quotes=False),
+                                              _pad_name('r(fwd-chk)', 10, quotes=False),
                                               _pad_name('r(rev-chk)', 10, quotes=False)
                         )
                         out_stream.write(out_str)
@@ -2699,9 +2711,9 @@ def _assemble_deriv_data(params, resids, cdata, jac_fwd, jac_rev, jac_fd,
                             fd1string = 'fd'
 
                         out_str = tmp1.format(_pad_name('<unknown>'), _pad_name('<param>'),
-                                              _pad_name('%s mag.' % fd1string, 13,
+                                              _pad_name('check mag.', 13, quotes=False),
+                                              _pad_name('%s mag.' % fd1string, 12,
                                                         quotes=False),
-                                              _pad_name('check mag.', 12, quotes=False),
                                               _pad_name('ab(chk - %s)' % fd1string,
                                                         13, quotes=False),
                                               _pad_name('rel(chk - %s)' % fd1string,
diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index beac580..d9ad0ce 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -853,16 +853,34 @@ class System(object):
         """
         return self._fd_indeps
 
-    def _save_values(self, params, unknowns, resids):
+    def _save_values(self, params, unknowns, resids, inputs=None):
         """ Remembers all values that a run of this system may change.
 
+        Args
+        ----
+        params : `VecWrapper`
+            `VecWrapper` containing parameters. (p)
+
+        unknowns : `VecWrapper`
+            `VecWrapper` containing outputs and states. (u)
+
+        resids : `VecWrapper`
+            `VecWrapper` containing residuals. (r)
+
+        inputs : bool, optional
+            Whether to include the inputs, which by default all systems but
+            the root do.
+
         Returns
         -------
         tuple
             For use by `_restore_values`.
         """
+        if inputs is None:
+            inputs = bool(self.pathname)
+
         vecs = [unknowns, resids]
-        if self.pathname:
+        if inputs:
             # Groups below this one have their own copies of their inputs.
             vecs.append(params)
             vecs.extend(sub.params for sub in self.subsystems(local=True,
-- 
2.43.0


From 36349a29c6c6bd412dfba382681898168737adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 67/85] fix: an inactive member of a parallel derivative group
 does not zero the others

---
 openmdao/core/problem.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/openmdao/core/problem.py b/openmdao/core/problem.py
index 2549c90..90f7056 100644
--- a/openmdao/core/problem.py
+++ b/openmdao/core/problem.py
@@ -1768,29 +1768,33 @@ class Problem(object):
             # of interest.
             for i in range(len(in_idxs)):
 
-                # If this is a constraint, and it is inactive, don't do the
+                # If this is a constraint, and it is inactive, leave its right
+                # hand side empty. If all of them are inactive, don't do the
                 # linear solve. Instead, allocate zeros for the solution and
                 # let the remaining code partition that into the return array
                 # or dict.
-                if inactives and not fwd and voi in inactives and i in inactives[voi]:
-                    dx_mat = OrderedDict()
-                    for voi in params:
-                        vkey = self._get_voi_key(voi, params, reducible)
-                        dx_mat[vkey] = np.zeros((len(duvec.vec), ))
-
-                else:
-                    for voi in params:
-                        vkey = self._get_voi_key(voi, params, reducible)
-                        rhs[vkey][:] = 0.0
-                        # only set a -1.0 in the entry if that var is 'owned' by this rank
-                        # Note, we solve a slightly modified version of the unified
-                        # derivatives equations in OpenMDAO.
-                        # (dR/du) * (du/dr) = -I
-                        if self.root._owning_ranks[voi_srcs[vkey]] == iproc:
-                            rhs[vkey][voi_idxs[vkey][i]] = -1.0
-
+                active = False
+                for voi in params:
+                    vkey = self._get_voi_key(voi, params, reducible)
+                    rhs[vkey][:] = 0.0
+
+                    if inactives and not fwd and i in inactives.get(voi, ()):
+                        continue
+                    active = True
+
+                    # only set a -1.0 in the entry if that var is 'owned' by this rank
+                    # Note, we solve a slightly modified version of the unified
+                    # derivatives equations in OpenMDAO.
+                    # (dR/du) * (du/dr) = -I
+                    if self.root._owning_ranks[voi_srcs[vkey]] == iproc:
+                        rhs[vkey][voi_idxs[vkey][i]] = -1.0
+
+                if active:
                     # Solve the linear system
                     dx_mat = root.ln_solver.solve(rhs, root, mode)
+                else:
+                    dx_mat = OrderedDict((vkey, np.zeros(len(vec)))
+                                         for vkey, vec in iteritems(rhs))
 
                 for param, dx in iteritems(dx_mat):
                     vkey = self._get_voi_key(param, params, reducible)
-- 
2.43.0


From 89d18a64b041f663a32a32147342ba4f2c903228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 68/85] fix: pyOptSparse constraints are inactive only away
 from all of their bounds

---
 openmdao/drivers/pyoptsparse_driver.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index e7436ae..36d2407 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -225,6 +225,7 @@ class pyOptSparseDriver(Driver):
         con_meta = self.get_constraint_metadata()
         self.quantities += list(econs)
 
+        # Equality constraints are always active.
         self.active_tols = {}
         for name in self.get_constraints(ctype='eq'):
             meta = con_meta[name]
@@ -247,10 +248,6 @@ class pyOptSparseDriver(Driver):
                 opt_prob.addConGroup(name, size, lower=lower, upper=upper,
                                      wrt=wrt, jac=jac)
 
-            active_tol = meta.get('active_tol')
-            if active_tol:
-                self.active_tols[name] = active_tol
-
         # Add all inequality constraints
         incons = self.get_constraints(ctype='ineq', lintype='nonlinear')
         self.quantities += list(incons)
@@ -532,14 +529,14 @@ class pyOptSparseDriver(Driver):
                     inactive_idx = []
                     val = con.value
                     for j in range(len(val)):
-                        if isinstance(tols, float):
+                        if np.isscalar(tols):
                             tol = tols
                         else:
                             tol = tols[j]
+                        # Inactive only if it is away from all of its bounds.
                         lower, upper = con.lower[j], con.upper[j]
-                        if lower is not None and val[j] > lower + tol:
-                            inactive_idx.append(j)
-                        if upper is not None and val[j] < upper - tol:
+                        if (lower is None or val[j] > lower + tol) and \
+                                (upper is None or val[j] < upper - tol):
                             inactive_idx.append(j)
 
                     if inactive_idx:
-- 
2.43.0


From 44e216eae68388b1222e3338c0d50047e75f11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:24 +0000
Subject: [PATCH 69/85] fix: sparse Jacobians for pyOptSparse leave nothing out
 when inputs are promoted

---
 openmdao/drivers/pyoptsparse_driver.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/openmdao/drivers/pyoptsparse_driver.py b/openmdao/drivers/pyoptsparse_driver.py
index 36d2407..029c207 100644
--- a/openmdao/drivers/pyoptsparse_driver.py
+++ b/openmdao/drivers/pyoptsparse_driver.py
@@ -19,6 +19,7 @@ from pyoptsparse import Optimization
 from openmdao.core.driver import Driver
 from openmdao.core.system import AnalysisError
 from openmdao.util.record_util import create_local_meta, update_local_meta
+from openmdao.util.string_util import owning_system
 from collections import OrderedDict
 
 # names of optimizers that use gradients
@@ -244,7 +245,7 @@ class pyOptSparseDriver(Driver):
             else:
 
                 jac = self._build_sparse(name, wrt, size, param_vals,
-                                         sub_param_conns, full_param_conns, rels)
+                                         sub_param_conns, full_param_conns)
                 opt_prob.addConGroup(name, size, lower=lower, upper=upper,
                                      wrt=wrt, jac=jac)
 
@@ -272,7 +273,7 @@ class pyOptSparseDriver(Driver):
             else:
 
                 jac = self._build_sparse(name, wrt, size, param_vals,
-                                         sub_param_conns, full_param_conns, rels)
+                                         sub_param_conns, full_param_conns)
                 opt_prob.addConGroup(name, size, upper=upper, lower=lower,
                                      wrt=wrt, jac=jac)
 
@@ -348,7 +349,7 @@ class pyOptSparseDriver(Driver):
             self.exit_flag = 0
 
     def _build_sparse(self, name, wrt, consize, param_vals, sub_param_conns,
-                      full_param_conns, rels):
+                      full_param_conns):
         """ Build up the data structures that define a sparse Jacobian
         matrix. Called separately on each nonlinear constraint.
 
@@ -366,8 +367,6 @@ class pyOptSparseDriver(Driver):
             Parameter subindex connection info.
         full_param_conns : dict
             Parameter full connection info.
-        rels : set
-            Set of relevant nodes for this connstraint.
 
         Returns
         -------
@@ -376,6 +375,12 @@ class pyOptSparseDriver(Driver):
 
         jac = None
 
+        relevance = self.root._probdata.relevance
+        relevant_systems = relevance._relevant_systems[name]
+
+        def is_relevant(target):
+            return owning_system(target, relevance._sgraph) in relevant_systems
+
         # Additional sparsity for index connections
         for param in wrt:
 
@@ -385,7 +390,7 @@ class pyOptSparseDriver(Driver):
 
             # If we have a simultaneous full connection, then we move on
             full_conns = full_param_conns.get(param)
-            if full_conns.intersection(rels):
+            if any(is_relevant(target) for target in full_conns):
                 continue
 
             rel_idx = set()
@@ -394,7 +399,7 @@ class pyOptSparseDriver(Driver):
                 # If a target of the indexed desvar connection is
                 # in the relevant path for this constraint, then
                 # those indices are relevant.
-                if target in rels:
+                if is_relevant(target):
                     rel_idx.update(idx)
 
             nrel = len(rel_idx)
-- 
2.43.0


From f659ff54c599b77dd17d9c80ed635cd665e67a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:04 +0000
Subject: [PATCH 70/85] fix: view_connections shows current values,
 multi-dimensional sources and subsystems

---
 openmdao/util/viewconns.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/openmdao/util/viewconns.py b/openmdao/util/viewconns.py
index 51a5c13..4cf9d47 100644
--- a/openmdao/util/viewconns.py
+++ b/openmdao/util/viewconns.py
@@ -59,29 +59,38 @@ def view_connections(root, outfile='connections.html', show_browser=True,
     units = {n: m.get('units','') for n,m in chain(iteritems(system._unknowns_dict),
                                                    iteritems(system._params_dict))}
 
+    # the current values of the inputs, in their own units
+    pvals = {}
+    for comp in system.components(recurse=True, include_self=True):
+        for name, meta in iteritems(comp.params):
+            if not meta.get('remote'):
+                pvals[meta['pathname']] = comp.params[name]
+
     vals = {}
 
     with printoptions(precision=precision, suppress=True, threshold=10000):
         for t, tmeta in iteritems(system._params_dict):
             if t in connections:
                 s, idxs = connections[t]
-                if idxs is not None:
-                    val = system.unknowns[to_prom[s]][idxs]
+                if s not in system._unknowns_dict: # source is outside of system
+                    val = pvals.get(t, tmeta['val'])
                 else:
                     val = system.unknowns[to_prom[s]]
+                    if idxs is not None:
+                        val = numpy.ravel(val)[idxs]
 
-                # if there's a unit conversion, express the value in the
-                # units of the target
-                if 'unit_conv' in tmeta:
-                    scale, offset = tmeta['unit_conv']
-                    val = (val + offset) * scale
+                    # if there's a unit conversion, express the value in the
+                    # units of the target
+                    if 'unit_conv' in tmeta:
+                        scale, offset = tmeta['unit_conv']
+                        val = (val + offset) * scale
 
                 if s not in src2tgts:
                     src2tgts[s] = [t]
                 else:
                     src2tgts[s].append(t)
             else: # unconnected param
-                val = system._params_dict[t]['val']
+                val = pvals.get(t, tmeta['val'])
 
             if isinstance(val, numpy.ndarray):
                 val = numpy.array2string(val)
-- 
2.43.0


From 2bf5241e5814eb8a7233c5e305cb79a2b5e38665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:49 +0000
Subject: [PATCH 71/85] fix: negative indices count from the end of the
 variable in analytic gradients

---
 openmdao/core/vec_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/vec_wrapper.py b/openmdao/core/vec_wrapper.py
index d1e6598..7d44a6e 100644
--- a/openmdao/core/vec_wrapper.py
+++ b/openmdao/core/vec_wrapper.py
@@ -563,8 +563,11 @@ class VecWrapper(object):
 
         if name in idx_dict:
             #TODO: possible slice conversion
-            idxs = self.to_idx_array(idx_dict[name]) + start
-            if idxs.size > (end-start) or max(idxs) >= end:
+            idxs = self.to_idx_array(idx_dict[name])
+            # negative indices count from the end of this variable
+            idxs = numpy.where(idxs < 0, idxs + (end - start), idxs) + start
+            if idxs.size > (end-start) or max(idxs) >= end or \
+                    min(idxs) < start:
                 raise RuntimeError("Indices of interest specified for '%s'"
                                    "are too large" % name)
             return idxs
-- 
2.43.0


From fb64dd111d8675826c374892a68e91e010f3f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:37 +0000
Subject: [PATCH 72/85] fix: indices of an array passed by reference select
 from the flattened array when read, as when set

---
 openmdao/core/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openmdao/core/driver.py b/openmdao/core/driver.py
index b9464ec..6c3086d 100644
--- a/openmdao/core/driver.py
+++ b/openmdao/core/driver.py
@@ -438,6 +438,9 @@ class Driver(object):
 
         if isinstance(flatval, _ByObjWrapper):
             flatval = flatval.val
+            if 'indices' in meta and isinstance(flatval, np.ndarray):
+                # indices refer to the flattened variable
+                flatval = flatval.ravel()
 
         if 'indices' in meta and not (nproc > 1 and owner != iproc):
             # Make sure our indices are valid
@@ -448,7 +451,7 @@ class Driver(object):
                 msg += "Requested index: {}, "
                 msg += "shape: {}."
                 raise IndexError(msg.format(voi_type, name, meta['indices'],
-                                            uvec.metadata(name)['shape']))
+                                            uvec.metadata(name).get('shape')))
 
         if nproc > 1:
             # TODO: use Bcast for improved performance
-- 
2.43.0


From a94940cf71dee8230d7a1a9ea5d8bef70f0dc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:37 +0000
Subject: [PATCH 73/85] fix: a finite difference gradient finds a variable's
 own entry when its index is negative

---
 openmdao/core/system.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/core/system.py b/openmdao/core/system.py
index d9ad0ce..ac99e7e 100644
--- a/openmdao/core/system.py
+++ b/openmdao/core/system.py
@@ -812,12 +812,14 @@ class System(object):
                     # is needed.
                     for u_name in pass_unknowns:
                         if u_name == param_src:
+                            u_size = np.size(unknowns[u_name])
                             if qoi_indices and u_name in qoi_indices:
                                 q_idxs = qoi_indices[u_name]
                             else:
-                                q_idxs = range(np.size(unknowns[u_name]))
+                                q_idxs = range(u_size)
                             for row, q_idx in enumerate(q_idxs):
-                                if q_idx == idx:
+                                # either may count from the end
+                                if q_idx % u_size == idx % u_size:
                                     jac[u_name, p_name][row, col] = 1.0
 
                     # Restore everything that the run has changed
-- 
2.43.0


From 0bf3cf875a1ca9e49f0b17b80069ded314115802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:05 +0000
Subject: [PATCH 74/85] fix: complex step through NLGaussSeidel converges the
 imaginary part too

---
 openmdao/solvers/nl_gauss_seidel.py | 45 +++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/openmdao/solvers/nl_gauss_seidel.py b/openmdao/solvers/nl_gauss_seidel.py
index 31c7ae9..a7a2360 100644
--- a/openmdao/solvers/nl_gauss_seidel.py
+++ b/openmdao/solvers/nl_gauss_seidel.py
@@ -115,6 +115,11 @@ class NLGaussSeidel(NonLinearSolver):
         system.ln_solver.local_meta = local_meta
         update_local_meta(local_meta, (self.iter_count,))
 
+        # The imaginary part of a complex step has to converge as well. Its size
+        # is that of the step, so the change in it is judged relative to it.
+        complex_step = system._probdata.in_complex_step
+        imag_cache = unknowns.imag_vec.copy() if complex_step else None
+
         # Initial Solve
         system.children_solve_nonlinear(local_meta)
 
@@ -136,15 +141,20 @@ class NLGaussSeidel(NonLinearSolver):
         if iprint == 2:
             self.print_norm(self.print_name, system, 1, normval, basenorm)
 
+        imag_converged = self._imag_converged(unknowns, imag_cache)
+
         while self.iter_count < maxiter and \
-                normval > atol and \
-                normval/basenorm > rtol  and \
-                u_norm > utol:
+                (not imag_converged or \
+                 normval > atol and \
+                 normval/basenorm > rtol  and \
+                 u_norm > utol):
 
             # Metadata update
             self.iter_count += 1
             update_local_meta(local_meta, (self.iter_count,))
             unknowns_cache[:] = unknowns.vec
+            if complex_step:
+                imag_cache[:] = unknowns.imag_vec
 
             # Runs an iteration
             system.children_solve_nonlinear(local_meta)
@@ -154,6 +164,7 @@ class NLGaussSeidel(NonLinearSolver):
             system.apply_nonlinear(params, unknowns, resids)
             normval = resids.norm()
             u_norm = np.linalg.norm(unknowns.vec - unknowns_cache)
+            imag_converged = self._imag_converged(unknowns, imag_cache)
 
             if self.options['use_aitken']: # If Aitken acceleration is enabled
                 
@@ -204,8 +215,9 @@ class NLGaussSeidel(NonLinearSolver):
             self.print_norm(self.print_name, system, self.iter_count, normval,
                             basenorm, u_norm=u_norm)
 
-        converged = normval <= atol or normval/basenorm <= rtol or \
-                    u_norm <= utol
+        converged = imag_converged and (normval <= atol or
+                                        normval/basenorm <= rtol or
+                                        u_norm <= utol)
 
         if not converged or isnan(normval):
             msg = 'FAILED to converge after %d iterations' % self.iter_count
@@ -223,3 +235,26 @@ class NLGaussSeidel(NonLinearSolver):
         if fail and self.options['err_on_maxiter']:
             raise AnalysisError("Solve in '%s': NLGaussSeidel %s" %
                                 (system.pathname, msg))
+
+    def _imag_converged(self, unknowns, imag_cache):
+        """ Returns True if the imaginary part of the unknowns is no longer
+        changing.
+
+        Args
+        ----
+        unknowns : `VecWrapper`
+            `VecWrapper` containing outputs and states. (u)
+
+        imag_cache : ndarray or None
+            Imaginary part before the last iteration, or None if we are not
+            under complex step.
+
+        Returns
+        -------
+        bool
+        """
+        if imag_cache is None:
+            return True
+        change = np.linalg.norm(unknowns.imag_vec - imag_cache)
+        rtol = max(self.options['rtol'], 1e-15)
+        return change <= rtol*np.linalg.norm(unknowns.imag_vec)
-- 
2.43.0


From 9080e257e15fec193c0e7201b3232edb6fe27693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:05 +0000
Subject: [PATCH 75/85] fix: complex step through Brent solves for the
 imaginary part of the state

---
 openmdao/solvers/brent.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/openmdao/solvers/brent.py b/openmdao/solvers/brent.py
index 66ef7a6..9d53c5c 100644
--- a/openmdao/solvers/brent.py
+++ b/openmdao/solvers/brent.py
@@ -191,6 +191,9 @@ class Brent(NonLinearSolver):
         if not failed and unknowns._dat[self.s_var_name].val[idx] != xstar:
             self._eval(xstar, params, unknowns, resids)
 
+        if system._probdata.in_complex_step:
+            self._solve_imag(xstar, params, unknowns, resids)
+
         self.sys = None
 
         resid_norm = abs(resids._dat[self.s_var_name].val[idx])
@@ -227,3 +230,35 @@ class Brent(NonLinearSolver):
                             self.basenorm)
 
         return resids._dat[self.s_var_name].val[idx]
+
+    def _solve_imag(self, x, params, unknowns, resids):
+        """Solves for the imaginary part of the state under complex step. The
+        imaginary part of the residual is linear in it.
+
+        Args
+        ----
+        x : float
+            Value of the state, which has been solved for.
+
+        params : `VecWrapper`
+            `VecWrapper` containing parameters. (p)
+
+        unknowns : `VecWrapper`
+            `VecWrapper` containing outputs and states. (u)
+
+        resids : `VecWrapper`
+            `VecWrapper` containing residuals. (r)
+        """
+        idx = self.options['state_var_idx']
+        state = unknowns._dat[self.s_var_name].imag_val
+        resid = resids._dat[self.s_var_name].imag_val
+
+        state[idx] = 0.0
+        self._eval(x, params, unknowns, resids)
+        resid0 = resid[idx]
+
+        if resid0 != 0.0:
+            state[idx] = resid0
+            self._eval(x, params, unknowns, resids)
+            state[idx] = -resid0*resid0/(resid[idx] - resid0)
+            self._eval(x, params, unknowns, resids)
-- 
2.43.0


From f896eddfa50ccd7f8af98718fa8de9093ede46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:05 +0000
Subject: [PATCH 76/85] fix: a failing call leaves the profile's stack and is
 recorded

---
 openmdao/util/profile.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/openmdao/util/profile.py b/openmdao/util/profile.py
index a31aa95..b46da42 100644
--- a/openmdao/util/profile.py
+++ b/openmdao/util/profile.py
@@ -290,18 +290,19 @@ class _profile_dec(object):
                     _profile_funcs_dict[path] = len(_profile_funcs_dict)
 
                 start = etime()
-                ret = fn(*args[1:], **kwargs)
-                end = etime()
-
-                stack.pop()
-
-                _profile_struct.t = end - start
-                _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
-                _profile_struct.tstamp = start
-                _profile_struct.id = _profile_funcs_dict[path]
-                _profile_out.write(_profile_struct)
-
-                return ret
+                try:
+                    return fn(*args[1:], **kwargs)
+                finally:
+                    # A call that fails has to be left as well.
+                    end = etime()
+
+                    stack.pop()
+
+                    _profile_struct.t = end - start
+                    _profile_struct.ovr = start - ovr # keep track of overhead for later subtraction
+                    _profile_struct.tstamp = start
+                    _profile_struct.id = _profile_funcs_dict[path]
+                    _profile_out.write(_profile_struct)
             else:
                 return fn(*args[1:], **kwargs)
 
-- 
2.43.0


From 21949d094b8ac540f38d04ba537d33a7568a0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:59 +0000
Subject: [PATCH 77/85] fix: update_library works under Python 3

---
 openmdao/units/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 7c02ad7..41523a5 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -19,7 +19,7 @@ Justin Gray."""
 import re
 import os.path
 from collections import OrderedDict
-from six import iteritems
+from six import iteritems, string_types
 from six.moves.configparser import RawConfigParser as ConfigParser
 
 # pylint: disable=E0611, F0401
@@ -780,8 +780,8 @@ def update_library(filename):
     filename: string or file
         Source of units configuration data.
     """
-    if isinstance(filename, basestring):
-        inp = open(filename, 'rU')
+    if isinstance(filename, string_types):
+        inp = open(filename)
     else:
         inp = filename
     try:
-- 
2.43.0


From 00791a047992d1667adbf1b2540f453f097c3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:59 +0000
Subject: [PATCH 78/85] fix: add_unit leaves the name of the unit it is given
 alone

---
 openmdao/units/units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 41523a5..1238c72 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -706,7 +706,8 @@ def add_unit(name, unit, comment=''):
     if isinstance(unit, str):
         unit = eval(unit, {'__builtins__':None, 'pi':pi},
                            _UNIT_LIB.unit_table)
-    unit.set_name(name)
+    # a unit of its own: the given one keeps its name
+    unit = PhysicalUnit(name, unit.factor, unit.powers, unit.offset)
     if name in _UNIT_LIB.unit_table:
         if (_UNIT_LIB.unit_table[name].factor!=unit.factor or \
             _UNIT_LIB.unit_table[name].powers!=unit.powers):
-- 
2.43.0


From d8f46e23fc834aa1ad3cd874c0dcef74cd4bcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 79/85] fix: a unit is not redefined with another offset

---
 openmdao/units/units.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 1238c72..107c0aa 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -690,7 +690,8 @@ def add_offset_unit(name, baseunit, factor, offset, comment=''):
     unit.set_name(name)
     if name in _UNIT_LIB.unit_table:
         if (_UNIT_LIB.unit_table[name].factor!=unit.factor or \
-            _UNIT_LIB.unit_table[name].powers!=unit.powers):
+            _UNIT_LIB.unit_table[name].powers!=unit.powers or \
+            _UNIT_LIB.unit_table[name].offset!=unit.offset):
             raise KeyError("Unit %s already defined with " % name +
                             "different factor or powers")
     _UNIT_LIB.unit_table[name] = unit
@@ -710,7 +711,8 @@ def add_unit(name, unit, comment=''):
     unit = PhysicalUnit(name, unit.factor, unit.powers, unit.offset)
     if name in _UNIT_LIB.unit_table:
         if (_UNIT_LIB.unit_table[name].factor!=unit.factor or \
-            _UNIT_LIB.unit_table[name].powers!=unit.powers):
+            _UNIT_LIB.unit_table[name].powers!=unit.powers or \
+            _UNIT_LIB.unit_table[name].offset!=unit.offset):
             raise KeyError("Unit %s already defined with " % name +
                             "different factor or powers")
 
-- 
2.43.0


From 6ef9a60f95e89894dd93d5b83aadbf8fb170da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 80/85] fix: a unit with an offset may be defined before the
 unit it is based on

---
 openmdao/units/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 107c0aa..7a7efd0 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -811,7 +811,7 @@ def _update_library(cfg):
             try:
                 add_offset_unit(name, baseunit, float(factor), float(offset),
                                 comment)
-            except NameError:
+            except (NameError, ValueError):
                 retry1.add((name, baseunit, float(factor), float(offset),
                             comment))
         else:
@@ -836,7 +836,7 @@ def _update_library(cfg):
                     name, factor, baseunit, offset, comment = data
                     add_offset_unit(name, factor, baseunit, offset, comment)
                     retry1.remove(data)
-                except NameError:
+                except (NameError, ValueError):
                     retry_count += 1
     if retry1:
         raise ValueError('The following units were not defined because they'
-- 
2.43.0


From 02af5eb391aedd40c52c1ede14cd70b1bd36a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 81/85] fix: roots of units have whole powers under Python 3

---
 openmdao/units/units.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 7a7efd0..4c2c938 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -485,9 +485,10 @@ class PhysicalUnit(object):
 
                 if all([x%rounded==0 for x in self.powers]):
                     f = self.factor**other
-                    p = [x/rounded for x in self.powers]
+                    p = [x//rounded for x in self.powers]
                     if all([x%rounded==0 for x in self.names.values()]):
-                        names = self.names/rounded
+                        names = NumberDict((k, v//rounded) for k, v
+                                           in iteritems(self.names))
                     else:
                         names = NumberDict()
                         if f != 1.:
-- 
2.43.0


From 05fce1cdd1ea64682b8b617560f8341aecc4ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 82/85] fix: in_base_units accounts for the offset

---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 4c2c938..cdf57ad 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -301,7 +301,7 @@ class PhysicalQuantity(object):
             The same quantity converted to base units,
             i.e., SI units in most cases.
         """
-        new_value = self.value * self.unit.factor
+        new_value = (self.value + self.unit.offset) * self.unit.factor
         num = ''
         denom = ''
         for unit, power in zip(_UNIT_LIB.base_names, self.unit.powers):
-- 
2.43.0


From 8aea7f1f60fb72223fac0494ad2bacfd2a290615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 83/85] fix: quantities are compared by what they measure when
 their units have an offset

---
 openmdao/units/units.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index cdf57ad..7b699cb 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -147,8 +147,10 @@ class PhysicalQuantity(object):
                 repr(self.unit.name()) + ')')
 
     def __eq__(self, other):
+        if not isinstance(other, PhysicalQuantity):
+            return False
         try:
-            return self.value == other.value*other.unit.conversion_factor_to(self.unit)
+            return self.value == other.convert_value(self.unit)
         except TypeError:
             return False
 
@@ -172,8 +174,9 @@ class PhysicalQuantity(object):
         return self._sum(other, -1, 1)
 
     def __lt__(self, other):
-        diff = self._sum(other, 1, -1)
-        return diff.value < 0
+        if not isinstance(other, PhysicalQuantity):
+            raise TypeError('Incompatible types')
+        return self.value < other.convert_value(self.unit)
 
     def __mul__(self, other):
         if not isinstance(other, PhysicalQuantity):
-- 
2.43.0


From 8147b45ae045124b9e8fcb853c886895cd19abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:00 +0000
Subject: [PATCH 84/85] fix: a quantity of zero is false under Python 3

---
 openmdao/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 7b699cb..9d23158 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -234,6 +234,8 @@ class PhysicalQuantity(object):
     def __nonzero__(self):
         return self.value != 0
 
+    __bool__ = __nonzero__  # for python 3
+
     def convert_value(self, target_unit):
         """Converts the values of the PQ to the target_unit."""
         (factor, offset) = self.unit.conversion_tuple_to(target_unit)
-- 
2.43.0


From d8f0d7023c5500885915b8a468d7039750653533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:26 +0000
Subject: [PATCH 85/85] fix: a unit may be defined before the units it is based
 on under Python 3

---
 openmdao/units/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openmdao/units/units.py b/openmdao/units/units.py
index 9d23158..7fecb24 100644
--- a/openmdao/units/units.py
+++ b/openmdao/units/units.py
@@ -711,7 +711,7 @@ def add_unit(name, unit, comment=''):
     if comment:
         _UNIT_LIB.help.append((name, comment, unit))
     if isinstance(unit, str):
-        unit = eval(unit, {'__builtins__':None, 'pi':pi},
+        unit = eval(unit, {'__builtins__':{}, 'pi':pi},
                            _UNIT_LIB.unit_table)
     # a unit of its own: the given one keeps its name
     unit = PhysicalUnit(name, unit.factor, unit.powers, unit.offset)
-- 
2.43.0

