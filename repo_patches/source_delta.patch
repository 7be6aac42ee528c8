From 5553ae4a06d34e3ba0cfe590b0fac8032f1bd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 01/57] fix: keep an assignment made identically in both
 branches of an if

---
 verse/parser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..d5fb0da 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -617,7 +617,9 @@ def merge_if_single(
 
     for var in set(true.keys()).union(set(false.keys())):
         var_true, var_false = true.get(var), false.get(var)
-        if ControllerIR.ir_eq(var_true, var_false):
+        if ControllerIR.ir_eq(var_true, var_false) and ControllerIR.ir_eq(
+            var_true, lookup(scope, var)
+        ):
             continue
         if var_true != None and var_false != None:
             assert isinstance(var_true, dict) == isinstance(var_false, dict)
-- 
2.43.0


From c3c49f4fb7eb508143bf72d37f1dcd6cd6d8f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 02/57] fix: simulation keeps alternatives that share a
 destination mode but differ in resets

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..7e04cae 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -771,7 +771,7 @@ class Simulator:
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
                 break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {aid: dedup(v, lambda p: (tuple(p[1]), tuple(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From e12a65d9defd2b2f2d824dc791091da682881887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 03/57] fix: parse filter clauses of any/all reductions

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index d5fb0da..a9ca995 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -928,7 +928,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            ifs = [proc(cond, env) for cond in ifs]
+            expr = cond_trans(expr, merge_conds(ifs)) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From 6b8d1d96120924ccc08f47ce4f88ec96055999c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 04/57] fix: simulation continues past transitions that the map
 does not permit

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 7e04cae..cb5049c 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -770,7 +770,9 @@ class Simulator:
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
-                break
+                # Keep going when the map permits none of the transitions
+                if transitions:
+                    break
         transitions = {aid: dedup(v, lambda p: (tuple(p[1]), tuple(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
-- 
2.43.0


From c899eb1a2523ea06ab8ca1aa8b36a6aad3a1a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 05/57] fix: do not ask the map about transitions of agents
 without a track mode

---
 verse/analysis/simulator.py | 2 +-
 verse/analysis/verifier.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index cb5049c..3ede82d 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -756,7 +756,7 @@ class Simulator:
                     src_track = node.get_track(agent_idx, node.mode[agent_idx])
                     dest_mode = node.get_mode(agent_idx, dest)
                     dest_track = node.get_track(agent_idx, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+                    map_modes = [src_mode, src_track, dest_mode, dest_track]
 
                     # NOTE: propagating change from get_transition_verify_opt from verifier to allow transitions that aren't necessarily map transitions to be allowed
                     # NOTE CONT: as before, want to make sure that map transitions are valid with the 'dest_track != track_map.h(src_track, src_mode, dest_mode)' line,
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..23a0637 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1256,7 +1256,7 @@ class Verifier:
                     src_track = node.get_track(agent, node.mode[agent])
                     dest_mode = node.get_mode(agent, dest)
                     dest_track = node.get_track(agent, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+                    map_modes = [src_mode, src_track, dest_mode, dest_track]
 
                     # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
                     # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-- 
2.43.0


From 13a5ee3884f647dff1b6eee7b37dae4649639a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 06/57] fix: simulation checks assertions of agents that have
 no transitions

---
 verse/analysis/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 3ede82d..45d2284 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -707,6 +707,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # Agents without any transitions still need to have their assertions checked
+        for agent in node.agent.values():
+            if len(agent.decision_logic.asserts) > 0:
+                agent_guard_dict[agent.id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
-- 
2.43.0


From ea986710970397cb8c2c613ea28051337dad6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 07/57] fix: simulation reports assertion violations of nodes
 computed in parallel tasks

---
 verse/analysis/simulator.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 45d2284..9e48f5a 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -204,7 +204,14 @@ class Simulator:
         later: int,
         remain_time: float,
         consts: SimConsts,
-    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], list]:
+    ) -> Tuple[
+        int,
+        int,
+        List[AnalysisTreeNode],
+        Dict[str, TraceType],
+        Optional[Dict[str, List[str]]],
+        list,
+    ]:
         if config.print_level >= 1:
             print("=============================================================")
             print(f"node {node.id} start: {node.start_time}")
@@ -252,6 +259,7 @@ class Simulator:
                 later,
                 [], 
                 node.trace,
+                asserts,
                 cache_updates
             )
 
@@ -267,7 +275,7 @@ class Simulator:
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
         if asserts != None:  # FIXME
-            return (node.id, later, [], node.trace, cache_updates)
+            return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
@@ -288,7 +296,7 @@ class Simulator:
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
-                return (node.id, later, [], node.trace, cache_updates)
+                return (node.id, later, [], node.trace, asserts, cache_updates)
 
             transit_agents = transitions.keys()
             # pp(("transit agents", transit_agents))
@@ -347,14 +355,15 @@ class Simulator:
                 next_nodes.append(tmp)
             # print(len(next_nodes))
             # print(f"node {node.id} dur {timeit.default_timer() - t}")
-            return (node.id, later, next_nodes, node.trace, cache_updates)
+            return (node.id, later, next_nodes, node.trace, asserts, cache_updates)
 
-    def proc_result(self, id, later, next_nodes, traces, cache_updates):
+    def proc_result(self, id, later, next_nodes, traces, assert_hits, cache_updates):
         t = timeit.default_timer()
         # print("got id:", id)
         done_node = self.nodes[id]
         done_node.child = next_nodes
         done_node.trace = traces
+        done_node.assert_hits = assert_hits
         last_id = self.nodes[-1].id
         # assert max(n.id for n in self.nodes) == last_id
         for i, node in enumerate(next_nodes):
@@ -489,8 +498,8 @@ class Simulator:
                 break
             if wait:
                 [res], remaining = ray.wait(self.result_refs)
-                id, later, next_nodes, traces, cache_updates = ray.get(res)
-                self.proc_result(id, later, next_nodes, traces, cache_updates)
+                id, later, next_nodes, traces, assert_hits, cache_updates = ray.get(res)
+                self.proc_result(id, later, next_nodes, traces, assert_hits, cache_updates)
                 self.result_refs = remaining
         # print("cached", self.num_cached)
         # pp(self.cache.get_cached_inits(3))
-- 
2.43.0


From b995b8b7148ca22b971e17347b279937097f631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 08/57] fix: verification combines resets of different
 variables only where their guards hold together

---
 verse/analysis/verifier.py | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 23a0637..6f3d4ef 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1191,8 +1191,22 @@ class Verifier:
                     break
                 if combine_len == 1:
                     # Perform combination over all possible resets to generate all possible real resets
-                    combined_reset_list = list(itertools.product(*resets.values()))
-                    if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
+                    def can_combine(taken, skipped):
+                        conds = [p.cond_veri for p in taken]
+                        conds += [ast.UnaryOp(ast.Not(), p.cond_veri) for p in skipped]
+                        ge = GuardExpressionAst(conds)
+                        tmp_cont, tmp_disc = copy.deepcopy(cont_vars), copy.deepcopy(disc_vars)
+                        cont_var_updater = ge.parse_any_all_new(tmp_cont, tmp_disc, len_dict)
+                        Verifier.apply_cont_var_updater(tmp_cont, cont_var_updater)
+                        stars = config.reachability_method == ReachabilityMethod.STAR_SETS
+                        return (
+                            ge.evaluate_guard_disc(agent, tmp_disc, tmp_cont, track_map)
+                            and ge.evaluate_guard_hybrid(agent, tmp_disc, tmp_cont, track_map, stars)
+                            and ge.evaluate_guard_cont(agent, tmp_cont, track_map, stars)[0]
+                        )
+
+                    combined_reset_list = Verifier._combine_resets(resets, can_combine)
+                    if not combined_reset_list:
                         continue
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
@@ -1277,6 +1291,28 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def _combine_resets(resets, can_combine):
+        """
+        Combine the resets of different variables whose guards are satisfied somewhere in the set. The guards of
+        different variables may be satisfied by different states: a variable is left unchanged in the states that
+        satisfy none of its guards, and resets are combined only if some state satisfies all of their guards.
+
+        :param resets: for each variable, the list of its possible resets; the last element of a reset is its path
+        :param can_combine: whether some state satisfies the guards of the first list of paths and none of the second
+        """
+        if len(resets) <= 1:
+            return list(itertools.product(*resets.values())) if resets else []
+        combined_reset_list = []
+        for choice in itertools.product(*[lst + [None] for lst in resets.values()]):
+            taken = tuple(reset for reset in choice if reset is not None)
+            skipped = [
+                reset[-1] for reset, lst in zip(choice, resets.values()) if reset is None for reset in lst
+            ]
+            if taken and can_combine([reset[-1] for reset in taken], skipped):
+                combined_reset_list.append(taken)
+        return combined_reset_list
+
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
         for variable in updater:
-- 
2.43.0


From 793919d233062041565692ab685fa9b0910933e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 09/57] fix: verification substitutes whole variables when it
 evaluates resets

---
 verse/analysis/verifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 6f3d4ef..a5a8758 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from dataclasses import dataclass
 from collections import defaultdict
-import copy, itertools, functools, pprint
+import copy, itertools, functools, pprint, re
 from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
@@ -1401,7 +1401,10 @@ class Verifier:
                     val_dict = {}
                     tmp = copy.deepcopy(expr)
                     for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                        # substitute whole variables only (ego.x is not part of ego.x2), as one operand
+                        tmp = re.sub(
+                            rf"(?<![\w.]){re.escape(symbol)}(?!\w)", f"({comb[symbol_idx]})", tmp
+                        )
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
-- 
2.43.0


From 4b512eb71c5a712699ab975379d4bc2e910f2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 10/57] fix: verification checks assertions whose path
 condition holds in part of the reachable set

---
 verse/analysis/verifier.py | 44 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index a5a8758..5eb039d 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1108,36 +1108,36 @@ class Verifier:
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     pre_expr = a.pre
 
-                    def eval_expr(expr):
-                        ge = GuardExpressionAst([copy.deepcopy(expr)])
+                    def possible(exprs):
+                        """Whether some state in the set satisfies all the expressions"""
+                        ge = GuardExpressionAst(exprs)
                         cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
                         Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
                         sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
                         if sat:
                             sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                             if sat:
-                                sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                                sat = sat and contained
+                                sat, _ = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # The assertion is violated if some state on its path does not satisfy the condition
+                    if possible([pre_expr, ast.UnaryOp(ast.Not(), a.cond)]):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From e9417e68a5a0a7c269698c69382defe2994677e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 11/57] fix: verification with unsafe_continue no longer fails
 at a violated assertion

---
 verse/analysis/verifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 5eb039d..ca04304 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -571,9 +571,12 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
+            # no transitions are computed past an unsafe state; to continue keeps the rest of the tube
             asserts, idx = asserts
-            if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
+            if config.unsafe_continue:
+                pass
+            elif not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             else:
-- 
2.43.0


From a70f04e36bf6e2449533e9ba307a886f05df50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 12/57] fix: verification looks past guard hits until the last
 initial set entered the mode

---
 verse/analysis/verifier.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index ca04304..203a07a 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1052,6 +1052,11 @@ class Verifier:
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
         guard_hits = []
         guard_hit = False
+        # initial sets later in the list enter the tube at later segments: nothing is decided before the last did
+        last_entry = max(
+            (len(inits) - 1) // config.init_seg_length * config.init_seg_length
+            for inits in node.init.values()
+        )
         reduction_rate = 10
         reduction_queue = []
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1226,9 +1231,9 @@ class Verifier:
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
-            elif guard_hit:
+            elif guard_hit and idx >= last_entry:
                 break
-            if any_contained:
+            if any_contained and idx >= last_entry:
                 break
         reset_func = Verifier.apply_reset
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
-- 
2.43.0


From 8c0014b1e070a58a354909d8f80eb3be9594cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 13/57] fix: verification enters successor modes at the
 segments of the transitions

---
 verse/analysis/verifier.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 203a07a..8cba32a 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -635,6 +635,8 @@ class Verifier:
             #     pp(("weird trans", transition))
             transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
             start_idx, end_idx = idx[0], idx[-1]
+            if consts.reachability_method != ReachabilityMethod.STAR_SETS:
+                next_init = Verifier._align_inits(next_init, idx)
 
             truncated_trace = {}
             if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1299,6 +1301,23 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def _align_inits(inits, idx):
+        """
+        The initial sets of a successor mode, one for each segment from the first to the last hit: the position in the
+        list is the time at which a set enters the mode. Sets of the same segment are combined.
+        """
+        aligned = {}
+        for rect, i in zip(inits, idx):
+            lb, ub = np.array(rect[0]), np.array(rect[1])
+            if i in aligned:
+                lb, ub = np.minimum(lb, aligned[i][0]), np.maximum(ub, aligned[i][1])
+            aligned[i] = [lb, ub]
+        res = []
+        for i in range(min(aligned), max(aligned) + 1):
+            res.append(aligned.get(i, res[-1] if res else None))
+        return res
+
     @staticmethod
     def _combine_resets(resets, can_combine):
         """
-- 
2.43.0


From ec08f710f824eeb427e147ded46b9a155d3dfa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 14/57] fix: verification keeps resets with different values
 apart

---
 verse/analysis/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 8cba32a..ea8c08c 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1219,10 +1219,10 @@ class Verifier:
                     if not combined_reset_list:
                         continue
                     for i in range(len(combined_reset_list)):
-                        # Compute reset_idx
+                        # Compute reset_idx: the same reset of different guards is one transition
                         reset_idx = []
                         for reset_info in combined_reset_list[i]:
-                            reset_idx.append(reset_info[3])
+                            reset_idx.append((reset_info[0].var, reset_info[0].expr))
                         # a list of reset expression
                         hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
 
-- 
2.43.0


From ba9201421b271841b7b8a9da4174e58bd1c66416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 15/57] fix: verification gives the same map function call the
 same value within a guard

---
 verse/automaton/guard.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..6703623 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -365,6 +365,8 @@ class GuardExpressionAst:
         variables. We can then handle these using what we already have for the continous variables
         """
         res = True
+        # The same call in different places has the same value
+        self.hybrid_vars = {}
         agent_vars = {}
         if stars:
             cont_variables = {}
@@ -421,6 +423,9 @@ class GuardExpressionAst:
         elif isinstance(root, ast.Call):
             if isinstance(root.func, ast.Attribute):
                 func = root.func
+                call = unparse(root)
+                if call in self.hybrid_vars:
+                    return True, ast.parse(self.hybrid_vars[call]).body[0].value
                 if "map" in func.value.id:
                     if func.attr == "get_lateral_distance":
                         # Get function arguments
@@ -486,6 +491,7 @@ class GuardExpressionAst:
                         # Add the tmp variable to the cont var dict
                         # KB - here is whwere you could add a dimension to the tmp variable or make it a star
                         cont_var_dict[tmp_var_name] = lateral_set
+                        self.hybrid_vars[call] = tmp_var_name
                         # Replace the corresponding function call in ast
                         root = ast.parse(tmp_var_name).body[0].value
                         return True, root
@@ -560,6 +566,7 @@ class GuardExpressionAst:
                         tmp_var_name = f"tmp_variable{len(cont_var_dict)+1}"
                         # Add the tmp variable to the cont var dict
                         cont_var_dict[tmp_var_name] = longitudinal_set
+                        self.hybrid_vars[call] = tmp_var_name
                         # Replace the corresponding function call in ast
                         root = ast.parse(tmp_var_name).body[0].value
                         return True, root
-- 
2.43.0


From 6da2fde30279d29e92f449c189b285d9aa5bc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 16/57] fix: incremental runs only reuse cached results that
 hold in the current run

---
 verse/analysis/incremental.py | 129 +++++++++++--------------
 verse/analysis/simulator.py   |  52 +++++++---
 verse/analysis/verifier.py    | 174 +++++++++++++++++-----------------
 3 files changed, 181 insertions(+), 174 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..1fd0bbe 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -1,16 +1,16 @@
 from collections import defaultdict
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pprint import pp
 from typing import Any, DefaultDict, List, Tuple, Optional, Dict, Set
 from verse.agents.base_agent import BaseAgent
 from verse.analysis import AnalysisTreeNode
 from intervaltree import IntervalTree
-import itertools, copy, numpy.typing as nptyp, numpy as np
+import numpy.typing as nptyp, numpy as np
 
 from verse.analysis.dryvr import _EPSILON
 
 # from verse.analysis.simulator import PathDiffs
-from verse.parser.parser import ControllerIR, ModePath
+from verse.parser.parser import ModePath
 
 
 @dataclass
@@ -20,6 +20,7 @@ class CachedTransition:
     disc: List[str]
     cont: List[float]
     paths: List[ModePath]
+    node_id: Tuple[int, int]  # run_num, node_id
 
 
 @dataclass
@@ -39,6 +40,7 @@ class CachedReachTrans:
     reset: List[float]
     reset_idx: List[int]
     paths: List[ModePath]
+    node_id: Tuple[int, int]  # run_num, node_id
 
 
 @dataclass
@@ -48,61 +50,27 @@ class CachedRTTrans:
     node_ids: Set[Tuple[int, int]]  # run_num, node_id
 
 
-def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedSegment],
-) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
-    assert set(old_agents.keys()) == set(new_agents.keys())
-    new_cache = {}
-    total_added_paths = []
-    for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
-            continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
-
-
-def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
+def reuse_transitions(node_id: Tuple[int, int], cached: Dict[str, Any]) -> Dict[str, Any]:
+    """The cached segments of all agents with the transitions that were found in the node `node_id`"""
+    return {
+        agent_id: replace(
+            segment, transitions=[t for t in segment.transitions if t.node_id == node_id]
+        )
+        for agent_id, segment in cached.items()
+    }
+
+
+def cache_key(agent_id: str, node: AnalysisTreeNode, span: Tuple[float, float]):
+    """Agents behave the same in the same mode with the same static parameters. `span` is the time
+    step and the remaining time, which determine the samples of a segment"""
+    return (agent_id,) + tuple(node.mode[agent_id]) + (tuple(node.static[agent_id]), span)
+
+
+def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
             CachedTransition(
-                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths
+                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths, node_id
             )
             for _id, mode, init, paths in transition
         ]
@@ -110,10 +78,10 @@ def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
         return []
 
 
-def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
+def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind, node_id):
     if agent_id in transit_agents:
         return [
-            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths)
+            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths, node_id)
             for _id, mode, dest, reset, reset_idx, paths in transition
         ]
     else:
@@ -161,7 +129,7 @@ class CachedTube:
     def __eq__(self, other) -> bool:
         if other is None:
             return False
-        return (self.tube == other.tube).all()
+        return np.array_equal(self.tube, other.tube)
 
 
 class SimTraceCache:
@@ -177,8 +145,9 @@ class SimTraceCache:
         transition,
         trans_ind: int,
         run_num: int,
+        span: Tuple[float, float],
     ):
-        key = (agent_id,) + tuple(node.mode[agent_id])
+        key = cache_key(agent_id, node, span)
         init = node.init[agent_id]
         tree = self.cache[key]
         assert_hits = node.assert_hits or {}
@@ -186,7 +155,7 @@ class SimTraceCache:
         for i, val in enumerate(init):
             if i == len(init) - 1:
                 transitions = convert_sim_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id, transit_agents, node.init, transition, trans_ind, (run_num, node.id)
                 )
                 entry = CachedSegment(
                     trace, assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
@@ -241,9 +210,10 @@ class SimTraceCache:
             ]
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[float], inits: Dict[str, List[float]]
+        self, agent_id: str, node: AnalysisTreeNode, span: Tuple[float, float]
     ) -> Optional[CachedSegment]:
-        key = (agent_id,) + tuple(mode)
+        init, inits = node.init[agent_id], node.init
+        key = cache_key(agent_id, node, span)
         if key not in self.cache:
             return None
         tree = self.cache[key]
@@ -270,8 +240,9 @@ class TubeCache:
         mode: Tuple[str],
         init: List[List[float]],
         trace: List[List[List[float]]],
+        time_step: float,
     ):
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + (time_step,)
         init = list(map(list, zip(*init)))
         tree = self.cache[key]
         for i, (low, high) in enumerate(init):
@@ -286,15 +257,27 @@ class TubeCache:
         raise Exception("???")
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[List[float]]
+        self,
+        agent_id: str,
+        mode: Tuple[str],
+        init: List[List[float]],
+        time_step: float,
+        duration: float,
     ) -> Optional[CachedTube]:
-        key = (agent_id,) + tuple(mode)
+        """A tube from a set that contains init, which is at least `duration` long"""
+        key = (agent_id,) + tuple(mode) + (time_step,)
         if key not in self.cache:
             return None
         tree = self.cache[key]
+
+        def usable(data) -> bool:
+            return not isinstance(data, CachedTube) or data.tube[-1][0] > duration - _EPSILON * time_step
+
         for low, high in list(map(list, zip(*init))):
             next_level_entries = [
-                t for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end
+                t
+                for t in tree[low : high + _EPSILON]
+                if t.begin <= low and high <= t.end and usable(t.data)
             ]
             if len(next_level_entries) == 0:
                 return None
@@ -316,8 +299,9 @@ class ReachTubeCache:
         transition,
         trans_ind: int,
         run_num: int,
+        span: Tuple[float, float],
     ):
-        key = (agent_id,) + tuple(node.mode[agent_id])
+        key = cache_key(agent_id, node, span)
         tree = self.cache[key]
         # pp(('add seg', agent_id, node.mode[agent_id], init))
         assert_hits = node.assert_hits or {}
@@ -325,7 +309,7 @@ class ReachTubeCache:
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
                 transitions = convert_reach_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
+                    agent_id, transit_agents, node.init, transition, trans_ind, (run_num, node.id)
                 )
                 entry = CachedRTTrans(
                     assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
@@ -357,11 +341,12 @@ class ReachTubeCache:
     def check_hit(
         self,
         agent_id: str,
-        mode: Tuple[str],
-        init: List[float],
-        inits: Dict[str, List[List[List[float]]]],
+        node: AnalysisTreeNode,
+        init: List[List[float]],
+        span: Tuple[float, float],
     ) -> Optional[CachedRTTrans]:
-        key = (agent_id,) + tuple(mode)
+        inits = node.init
+        key = cache_key(agent_id, node, span)
         if key not in self.cache:
             return None
         tree = self.cache[key]
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 9e48f5a..2e9f768 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -14,7 +14,7 @@ from enum import Enum
 import numpy as np
 
 from verse.agents.base_agent import BaseAgent
-from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, to_simulate
+from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, reuse_transitions
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import ModePath, find, unparse
@@ -188,6 +188,7 @@ class Simulator:
     def __init__(self, config):
         self.simulation_tree = None
         self.cache = SimTraceCache()
+        self.run_logics: Dict[int, Dict[str, str]] = {}
         self.config = config
         self.cache_hits = (0, 0)
         if self.config.parallel:
@@ -221,7 +222,9 @@ class Simulator:
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    trace = cached_segments[agent_id].trace.copy()
+                    trace[:, 0] += node.start_time - trace[0, 0]
+                    node.trace[agent_id] = trace
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -237,12 +240,7 @@ class Simulator:
         # something to combine results from different nodes in the future
         new_cache, paths_to_sim = {}, []
         if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
+            new_cache = reuse_transitions(old_node_id, cached_segments)
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
             new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
@@ -381,27 +379,46 @@ class Simulator:
             transition_idx,
             run_num,
         ) in cache_updates:
-            cached = self.cache.check_hit(
-                aid, done_node.mode[aid], done_node.init[aid], done_node.init
-            )
+            cached = self.cache.check_hit(aid, done_node, self.span(done_node))
             if new and not cached:
                 self.cache.add_segment(
-                    aid, done_node, transit_agents, full_trace, transition, transition_idx, run_num
+                    aid,
+                    done_node,
+                    transit_agents,
+                    full_trace,
+                    transition,
+                    transition_idx,
+                    run_num,
+                    self.span(done_node),
                 )
                 self.num_cached += 1
             else:
                 assert cached != None
                 cached.transitions.extend(
                     convert_sim_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                        aid,
+                        transit_agents,
+                        done_node.init,
+                        transition,
+                        transition_idx,
+                        (run_num, done_node.id),
                     )
                 )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
                 cached.node_ids.add((run_num, done_node.id))
             # pre_len = len(cached_segments[aid].transitions)
             # pp(("dedup!", pre_len, len(cached_segments[aid].transitions)))
         # print(f"proc dur {timeit.default_timer() - t}")
 
+    def span(self, node: AnalysisTreeNode) -> Tuple[float, float]:
+        """The time step and the remaining time of a node in the current run"""
+        return self.time_step, round(self.time_horizon - node.start_time, 10)
+
+    def reusable(self, run_num: int, past_run_num: int) -> bool:
+        """Whether transitions found in a past run are still valid: every agent has the same decision logic"""
+        return (
+            past_run_num != run_num and self.run_logics[past_run_num] == self.run_logics[run_num]
+        )
+
     def simulate(
         self,
         root: AnalysisTreeNode,
@@ -421,6 +438,10 @@ class Simulator:
         self.result_refs = []
         self.nodes = [root]
         self.num_cached = 0
+        self.time_horizon, self.time_step = time_horizon, time_step
+        self.run_logics[run_num] = {
+            aid: agent.decision_logic.controller_code for aid, agent in root.agent.items()
+        }
         # Perform BFS through the simulation tree to loop through all possible transitions
         consts = SimConsts(time_step, lane_map, run_num, past_runs, sensor, root.agent)
         if self.config.parallel:
@@ -447,7 +468,7 @@ class Simulator:
                     init = node.init[agent_id]
                     if self.config.incremental:
                         # pp(("check hit", agent_id, mode, init))
-                        cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        cached = self.cache.check_hit(agent_id, node, self.span(node))
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                         else:
@@ -459,6 +480,7 @@ class Simulator:
                 if len(cached_segments) == len(node.agent):
                     all_node_ids = [s.node_ids for s in cached_segments.values()]
                     node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
+                    node_ids = [i for i in node_ids if self.reusable(run_num, i[0])]
                     if len(node_ids) > 0:
                         old_node_id = node_ids[0]
                     # else:
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index ea8c08c..08c18ad 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -15,7 +15,7 @@ from verse.analysis.incremental import (
     ReachTubeCache,
     TubeCache,
     convert_reach_trans,
-    to_simulate,
+    reuse_transitions,
     combine_all,
 )
 from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
@@ -60,6 +60,7 @@ class Verifier:
         self.trans_cache = ReachTubeCache()
         self.tube_cache_hits = (0, 0)
         self.trans_cache_hits = (0, 0)
+        self.run_logics: Dict[int, Dict[str, str]] = {}
         self.config = config
         self.compute_full_reachtube_step_remote = ray.remote(Verifier.compute_full_reachtube_step)
 
@@ -93,7 +94,9 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(
+                    agent_id, mode_label, combined_rect, self.time_step, self.time_horizon
+                )
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -240,59 +243,32 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        time_horizon,
+        time_step,
         combine_seg_length=1000,
     ):
         """
         Check the bloated tubes cached already
 
         :param TBA
-        :return:    the combined bloated tube with all cached tube segs
-                    a list of indexs of missing segs
+        :return:    the cached tubes, by the index of their segment in the initial sets
         """
-        missing_seg_idx_list = []
-        res_tube = None
-        tube_length = 0
+        cached_tubes = {}
         for combine_seg_idx in range(0, len(initial_set), combine_seg_length):
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
-            if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
-                if cached != None:
-                    self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
-                    # print('cache', agent_id, time_horizon, self.tube_cache_hits )
-                else:
-                    self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
-                    # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
-            else:
-                cached = None
+            combined_rect = combine_all(rect_seg)
+            cached = self.cache.check_hit(
+                agent_id, mode_label, combined_rect, time_step, time_horizon
+            )
             if cached != None:
-                cur_bloated_tube = cached.tube
-            else:
-                missing_seg_idx_list.append(combine_seg_idx)
-                continue
-            # FIXME
-            if res_tube is None:
-                res_tube = cur_bloated_tube
-                tube_length = cur_bloated_tube.shape[0]
+                self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
+                # print('cache', agent_id, time_horizon, self.tube_cache_hits )
+                in_time = cached.tube[::2, 0] < time_horizon - 1e-6 * time_step
+                cached_tubes[combine_seg_idx] = cached.tube[np.repeat(in_time, 2)]
             else:
-                cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
-                # Handle Lower Bound
-                res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
-                    res_tube[combine_seg_idx * 2 :: 2, 1:], cur_bloated_tube[::2, 1:]
-                )
-                # Handle Upper Bound
-                res_tube[combine_seg_idx * 2 + 1 :: 2, 1:] = np.maximum(
-                    res_tube[combine_seg_idx * 2 + 1 :: 2, 1:], cur_bloated_tube[1::2, 1:]
-                )
-        return res_tube, missing_seg_idx_list
+                self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
+                # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
+        return cached_tubes
 
     @staticmethod
     def calculate_full_bloated_tube_simple(
@@ -324,18 +300,12 @@ class Verifier:
         if "bloating_method" in params:
             bloating_method = params["bloating_method"]
         cache_tube_updates = []
-        if incremental:
-            cached_tube, missing_seg_idx_list = cached_tube_info
-        else:
-            cached_tube, missing_seg_idx_list = None, range(0, len(initial_set), combine_seg_length)
-        res_tube = cached_tube
-        if res_tube is None:
-            tube_length = 0
-        else:
-            tube_length = res_tube.shape[0]
+        cached_tubes = cached_tube_info if incremental else {}
+        res_tube = None
+        tube_length = 0
         # print(f'{len(missing_seg_idx_list)} inits to combine')
         # for combine_seg_idx in tqdm(missing_seg_idx_list): # NOTE: is it possible to parallelize this
-        for combine_seg_idx in missing_seg_idx_list: # NOTE: is it possible to parallelize this
+        for combine_seg_idx in range(0, len(initial_set), combine_seg_length): # NOTE: is it possible to parallelize this
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
             combined_rect = None
             for rect in rect_seg:
@@ -346,19 +316,24 @@ class Verifier:
                     combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
-            cur_bloated_tube = calc_bloated_tube(
-                mode_label,
-                combined_rect,
-                time_horizon,
-                time_step,
-                sim_func,
-                bloating_method,
-                kvalue,
-                sim_trace_num,
-                lane_map=lane_map,
-            )
-            if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+            if combine_seg_idx in cached_tubes:
+                cur_bloated_tube = cached_tubes[combine_seg_idx]
+            else:
+                cur_bloated_tube = calc_bloated_tube(
+                    mode_label,
+                    combined_rect,
+                    time_horizon,
+                    time_step,
+                    sim_func,
+                    bloating_method,
+                    kvalue,
+                    sim_trace_num,
+                    lane_map=lane_map,
+                )
+                if incremental:
+                    cache_tube_updates.append(
+                        (agent_id, mode_label, combined_rect, cur_bloated_tube.copy())
+                    )
             if res_tube is None:
                 res_tube = cur_bloated_tube
                 tube_length = cur_bloated_tube.shape[0]
@@ -554,15 +529,7 @@ class Verifier:
         # pp(("cached tubes", cached_tubes.keys()))
         new_cache, paths_to_sim = {}, []
         if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
-                )
-                # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
+            new_cache = reuse_transitions(old_node_id, cached_trans_tubes)
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
@@ -734,9 +701,7 @@ class Verifier:
             transition_idx,
             run_num,
         ) in cache_trans_tube_updates:
-            cached = self.trans_cache.check_hit(
-                aid, done_node.mode[aid], combine_all(done_node.init[aid]), done_node.init
-            )
+            cached = self.trans_cache.check_hit(aid, done_node, combined_inits[aid], self.span(done_node))
             if new and not cached:
                 self.trans_cache.add_tube(
                     aid,
@@ -746,21 +711,41 @@ class Verifier:
                     transition,
                     transition_idx,
                     run_num,
+                    self.span(done_node),
                 )
                 self.num_cached += 1
             else:
                 assert cached != None
                 cached.transitions.extend(
                     convert_reach_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
+                        aid,
+                        transit_agents,
+                        done_node.init,
+                        transition,
+                        transition_idx,
+                        (run_num, done_node.id),
                     )
                 )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
                 cached.node_ids.add((run_num, done_node.id))
         for agent_id, mode_label, combined_rect, cur_bloated_tube in cache_tube_updates:
-            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube)
+            self.cache.add_tube(
+                agent_id, mode_label, combined_rect, cur_bloated_tube, self.time_step
+            )
         # print(f"proc dur {timeit.default_timer() - t}")
 
+    def span(self, node: AnalysisTreeNode) -> Tuple[float, float]:
+        """The time step and the remaining time of a node in the current run"""
+        return self.time_step, round(self.time_horizon - node.start_time, 10)
+
+    def reusable(self, run_num: int, past_run_num: int) -> bool:
+        """Whether transitions found in a past run are still valid: every agent has the same decision logic,
+        and the initial sets of a mode are combined into one"""
+        return (
+            past_run_num != run_num
+            and self.run_logics[past_run_num] == self.run_logics[run_num]
+            and self.init_seg_length * self.time_step >= self.time_horizon
+        )
+
     def compute_full_reachtube(
         self,
         root: AnalysisTreeNode,
@@ -782,6 +767,11 @@ class Verifier:
         self.result_refs = []
         self.nodes = [root]
         self.num_cached = 0
+        self.time_horizon, self.time_step = time_horizon, time_step
+        self.init_seg_length = init_seg_length
+        self.run_logics[run_num] = {
+            aid: agent.decision_logic.controller_code for aid, agent in root.agent.items()
+        }
         num_calls = 0
         num_transitions = 0
         consts = ReachConsts(
@@ -819,7 +809,7 @@ class Verifier:
                     combined = combine_all(inits, reachability_method == ReachabilityMethod.STAR_SETS)
                     if self.config.incremental:
                         # CachedRTTrans
-                        cached = self.trans_cache.check_hit(agent_id, mode, combined, node.init)
+                        cached = self.trans_cache.check_hit(agent_id, node, combined, self.span(node))
                         if cached != None:
                             self.trans_cache_hits = (
                                 self.trans_cache_hits[0] + 1,
@@ -847,16 +837,21 @@ class Verifier:
                         elif agent_id not in node.trace and reachability_method == ReachabilityMethod.DRYVR:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
-                            cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                            cached_tubes[agent_id] = self.check_cache_bloated_tube(
+                                agent_id,
+                                mode,
+                                inits,
+                                remain_time,
+                                time_step,
+                                combine_seg_length=init_seg_length,
                             )
-                            cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                 # FIXME
                 old_node_id = None
                 if len(cached_trans_tubes) == len(node.agent):
                     all_node_ids = [s.node_ids for s in cached_trans_tubes.values()]
                     # print('all_node_ids', all_node_ids)
                     node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
+                    node_ids = [i for i in node_ids if self.reusable(run_num, i[0])]
                     # print('node_ids', node_ids)
                     if len(node_ids) > 0:
                         old_node_id = node_ids[0]
@@ -962,7 +957,7 @@ class Verifier:
                 # TODO: check for asserts
                 cached_trans = [
                     (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
+                    for aid, tran in _transitions
                     if tran.transition == min_trans_ind
                 ]
                 if len(paths) == 0:
@@ -1602,6 +1597,11 @@ class Verifier:
         self.result_refs = []
         self.nodes = [root]
         self.num_cached = 0
+        self.time_horizon, self.time_step = time_horizon, time_step
+        self.init_seg_length = init_seg_length
+        self.run_logics[run_num] = {
+            aid: agent.decision_logic.controller_code for aid, agent in root.agent.items()
+        }
         num_calls = 0
         num_transitions = 0
         consts = ReachConsts(
-- 
2.43.0


From a36613ecc9a305841ed9cdd6879b91974d610715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 17/57] fix: a lane's segment at a position is the one with the
 smallest lateral distance, on either side

---
 verse/map/lane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..63b6a86 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -29,10 +29,10 @@ class Lane:
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                if abs(lateral) < min_lateral:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_lateral = abs(lateral)
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
-- 
2.43.0


From 41d87a5a77a9dcf3bb1fd5e7e16bb2e1848642bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 18/57] fix: maps with computed lane changes answer h_exist and
 offer the change to the left

---
 verse/map/example_map/intersection.py | 7 +++++++
 verse/map/example_map/simple_map2.py  | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/verse/map/example_map/intersection.py b/verse/map/example_map/intersection.py
index 9f856f9..d15dbc2 100644
--- a/verse/map/example_map/intersection.py
+++ b/verse/map/example_map/intersection.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Dict, Optional
 
 from verse.map.lane import Lane
@@ -97,7 +98,13 @@ class Intersection(LaneMap):
         )
         return
 
+    def h_exist(self, lane_idx: str, mode_src: str, mode_dest: str) -> bool:
+        return self.h(lane_idx, mode_src, mode_dest) is not None
+
     def h(self, lane_idx: str, mode_src: str, mode_dest: str) -> Optional[str]:
+        lane_idx, mode_src, mode_dest = (
+            i.name if isinstance(i, Enum) else i for i in (lane_idx, mode_src, mode_dest)
+        )
         #     ret = self._h(lane_idx, mode_src, mode_dest)
         #     if ret != None and ret != lane_idx:
         #         print("H", lane_idx, mode_src, mode_dest, "->", ret)
diff --git a/verse/map/example_map/simple_map2.py b/verse/map/example_map/simple_map2.py
index 3bc84dd..59dd4c9 100644
--- a/verse/map/example_map/simple_map2.py
+++ b/verse/map/example_map/simple_map2.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Optional
 from verse.map import LaneMap, LaneSegment, StraightLane, CircularLane, Lane
 
@@ -101,7 +102,13 @@ class SimpleMap4Switch2(LaneMap):
             ]
         )
 
+    def h_exist(self, lane_idx: str, mode_src: str, mode_dest: str) -> bool:
+        return self.h(lane_idx, mode_src, mode_dest) is not None
+
     def h(self, lane_idx: str, mode_src: str, mode_dest: str) -> Optional[str]:
+        lane_idx, mode_src, mode_dest = (
+            i.name if isinstance(i, Enum) else i for i in (lane_idx, mode_src, mode_dest)
+        )
         src_sw, dst_sw = mode_src.startswith("Switch"), mode_dest.startswith("Switch")
         if src_sw:
             if dst_sw:
@@ -114,7 +121,7 @@ class SimpleMap4Switch2(LaneMap):
                 ind = int(lane_idx[1])
                 if typ == "Left" and ind > 0:
                     new_ind = ind - 1
-                if typ == "Left2" and ind > 1:
+                elif typ == "Left2" and ind > 1:
                     new_ind = ind - 2
                 elif typ == "Right" and ind < 4:
                     new_ind = ind + 1
-- 
2.43.0


From 2d7223b8c1f997d228bdbeca06a49aff3722fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 19/57] fix: lane functions in guards cover every segment and
 angle that the set of positions reaches

---
 verse/automaton/guard.py | 130 ++++++++++++++++++++-------------------
 1 file changed, 67 insertions(+), 63 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 6703623..52e6acc 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -468,19 +468,10 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
                         # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
-
-                        # Use the union of two sets as the set of possible lateral positions
-                        lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
-                        ]
+                        lateral_set = self._handle_lane_set(
+                            track_map, vehicle_lane, np.array(vehicle_pos), "lateral"
+                        )
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
                             import polytope as pc
@@ -539,23 +530,10 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
                         # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
+                        longitudinal_set = self._handle_lane_set(
+                            track_map, vehicle_lane, np.array(vehicle_pos), "longitudinal"
                         )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
-                        )
-                        # Use the union of two sets as the set of possible longitudinal positions
-                        longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
-                        ]
-
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
                             import polytope as pc
@@ -602,7 +580,40 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
-    def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
+    def _handle_lane_set(
+        self, track_map, vehicle_lane, position: np.ndarray, coordinate: str
+    ) -> List[float]:
+        """
+        Range of a lane coordinate over a set of positions, with respect to all the segments of
+        the lane that some position of the set can be on
+        """
+        lane = track_map.lane_dict[track_map.get_phys_lane(vehicle_lane)]
+        candidates = []
+        # Lateral distance beyond which no position of the set is considered to be on a segment
+        nearest = float("inf")
+        for lane_seg in lane.segment_list:
+            begin = lane_seg.longitudinal_start - lane.COMPENSATE
+            end = lane_seg.longitudinal_start + lane_seg.length
+            lateral = self._handle_lateral_set(lane_seg, position)
+            ranges = self._handle_longitudinal_set(lane_seg, position)
+            if all(begin <= low and high < end for low, high in ranges):
+                nearest = min(nearest, max(abs(lateral[0]), abs(lateral[1])))
+            for low, high in ranges:
+                if begin <= high and low < end:
+                    candidates.append(((max(low, begin), min(high, end)), lateral))
+        res = []
+        for longitudinal, lateral in candidates:
+            if max(lateral[0], -lateral[1]) <= nearest:
+                res.append(longitudinal if coordinate == "longitudinal" else lateral)
+        return [min(low for low, _ in res), max(high for _, high in res)]
+
+    def _handle_longitudinal_set(
+        self, lane_seg: AbstractLane, position: np.ndarray
+    ) -> List[Tuple[float, float]]:
+        """
+        Ranges of the longitudinal coordinate over a set of positions (two when the set is where
+        the coordinate wraps around)
+        """
         if lane_seg.type == "Straight":
             # Delta lower
             delta0 = position[0, :] - lane_seg.start
@@ -619,49 +630,42 @@ class GuardExpressionAst:
             longitudinal_high += lane_seg.longitudinal_start
 
             assert longitudinal_high >= longitudinal_low
-            return longitudinal_low, longitudinal_high
+            return [(longitudinal_low, longitudinal_high)]
         elif lane_seg.type == "Circular":
             # Delta lower
             delta0 = position[0, :] - lane_seg.center
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
+            if np.all(delta0 <= 0) and np.all(delta1 >= 0):
+                # The set is around the center of the segment
+                phi_ranges = [(-np.pi, np.pi)]
+            else:
+                # Angles of the corners are less than pi apart
+                phi_mid = np.arctan2(delta0[1] + delta1[1], delta0[0] + delta1[0])
+                phi = [
+                    wrap_to_pi(np.arctan2(y, x) - phi_mid)
+                    for x in (delta0[0], delta1[0])
+                    for y in (delta0[1], delta1[1])
                 ]
-            )
-
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
-            longitudinal_low = (
-                min(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
-            )
-            longitudinal_high = (
-                max(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
+                phi_mid = wrap_to_pi(phi_mid - lane_seg.start_phase)
+                phi0, phi1 = phi_mid + min(phi), phi_mid + max(phi)
+                if phi0 < -np.pi:
+                    phi_ranges = [(phi0 + 2 * np.pi, np.pi), (-np.pi, phi1)]
+                elif phi1 > np.pi:
+                    phi_ranges = [(phi0, np.pi), (-np.pi, phi1 - 2 * np.pi)]
+                else:
+                    phi_ranges = [(phi0, phi1)]
+            ranges = []
+            for phi_range in phi_ranges:
+                longitudinal = [lane_seg.direction * phi * lane_seg.radius for phi in phi_range]
+                ranges.append(
+                    (
+                        min(longitudinal) + lane_seg.longitudinal_start,
+                        max(longitudinal) + lane_seg.longitudinal_start,
+                    )
                 )
-                + lane_seg.longitudinal_start
-            )
-
-            assert longitudinal_high >= longitudinal_low
-            return longitudinal_low, longitudinal_high
+            return ranges
         else:
             raise ValueError(f"Lane segment with type {lane_seg.type} is not supported")
 
-- 
2.43.0


From 3bb6c47dc46a75898bd8e5283893c622096f2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 20/57] fix: every reachability method covers all the sets that
 enter a mode

---
 verse/analysis/verifier.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 08c18ad..821f93e 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -442,9 +442,7 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
+                    init = combine_all(inits)
                     cur_bloated_tube = calc_bloated_tube_dryvr(
                         mode,
                         init,
@@ -489,7 +487,7 @@ class Verifier:
                     # pylint: enable=E0401
                     cur_bloated_tube = postCont(
                         mode,
-                        inits[0],
+                        combine_all(inits),
                         remain_time,
                         consts.time_step,
                         node.agent[agent_id].TC_simulate,
@@ -502,7 +500,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_cont(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
@@ -515,7 +513,7 @@ class Verifier:
                     )
                     cur_bloated_tube = calculate_bloated_tube_mixmono_disc(
                         mode,
-                        inits,
+                        [combine_all(inits)],
                         uncertain_param,
                         remain_time,
                         consts.time_step,
-- 
2.43.0


From 91ec0707b9f8176126ca5be32c8593d41e19c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 21/57] fix: global discrepancy handles dimensions without
 width in tubes of one step

---
 verse/analysis/dryvr.py      | 4 ++++
 verse/analysis/dryvr_disc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verse/analysis/dryvr.py b/verse/analysis/dryvr.py
index 1af652d..c4eaf11 100644
--- a/verse/analysis/dryvr.py
+++ b/verse/analysis/dryvr.py
@@ -75,6 +75,10 @@ def get_reachtube_segment(
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
+            if initial_radii[dim_ind - 1] == 0 and trace_len == 2:
+                # without the initial set, there is a single point and nothing to separate
+                df[1, dim_ind] = np.exp(points[dim_ind - 1, 1, 1])
+                continue
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
                 new_points: np.ndarray = np.row_stack(
diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..31ee13b 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -60,6 +60,10 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
+            if initial_radii[dim_ind - 1] == 0 and trace_len == 2:
+                # without the initial set, there is a single point and nothing to separate
+                df[1, dim_ind] = np.exp(points[dim_ind - 1, 1, 1])
+                continue
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
                 new_points: np.ndarray = np.row_stack(
-- 
2.43.0


From c50fd06cd439fd8ca80485947ed1f36ec4b685c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 22/57] fix: mixed monotone dynamics may have constant parts
 and variables named like sympy functions

---
 verse/analysis/mixmonotone.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index fcdeea5..864870d 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -34,6 +34,8 @@ def find_max(expr_func, jac_func, var_range, num_var, args, idx):
 def find_min_symbolic(expr, var_range):
     bounds = []
     vars = list(expr.free_symbols)
+    if not vars:
+        return float(expr)
     x0 = []
     jac = []
     for var in vars:
@@ -244,17 +246,8 @@ def calculate_bloated_tube_mixmono_disc(
 
         symbol_x = [Symbol(elem, real=True) for elem in x_var]
         symbol_w = [Symbol(elem, real=True) for elem in w_var]
-        dt = Symbol("dt", real=True)
-
-        tmp = [sympify(elem).subs("dt", time_step) for elem in text_exprs]
-        expr_symbol = []
-        for expr in tmp:
-            for symbol in symbol_x:
-                expr = expr.subs(symbol.name, symbol)
-            for symbol in symbol_w:
-                expr = expr.subs(symbol.name, symbol)
-            expr_symbol.append(expr)
-        exprs = expr_symbol
+        symbols = {symbol.name: symbol for symbol in symbol_x + symbol_w}
+        exprs = [sympify(elem, locals=symbols).subs("dt", time_step) for elem in text_exprs]
 
         def computeD(x, w, x_hat, w_hat, dt):
             d = []
-- 
2.43.0


From a00be97ec53609ea638435c1b1e0234a931a92eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 23/57] fix: NPC agents wrap their heading error to (-pi, pi]

---
 verse/agents/example_agent/car_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index ba817bf..fcb789f 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -41,7 +41,7 @@ class NPCAgent(BaseAgent):
         vehicle_lane = mode[1]
         vehicle_pos = np.array([x, y])
         d = -lane_map.get_lateral_distance(vehicle_lane, vehicle_pos)
-        psi = lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta
+        psi = wrap_to_pi(lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta)
         steering = psi + np.arctan2(0.45 * d, v)
         steering = np.clip(steering, -0.61, 0.61)
         a = 0
-- 
2.43.0


From a26869ce83ea37ac832a0f20d1534183d1f35780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 24/57] fix: Ball_g_agent dynamics are a method, not a static
 method

---
 verse/agents/example_agent/ballg_agent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verse/agents/example_agent/ballg_agent.py b/verse/agents/example_agent/ballg_agent.py
index ceca9c1..834e250 100644
--- a/verse/agents/example_agent/ballg_agent.py
+++ b/verse/agents/example_agent/ballg_agent.py
@@ -24,7 +24,6 @@ class Ball_g_agent(BaseAgent):
         super().__init__(id, code, file_name)
         self.g_acc = g_acc_val
 
-    @staticmethod
     def dynamics(self, t, state):
         """Defines the RHS of the ODE used to simulate trajectories"""
         x, y, vx, vy = state
-- 
2.43.0


From 99e8dc6a0fcead9e1532562adda1909ecbf89ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 25/57] fix: the number of samples of a trajectory does not
 depend on rounding of horizon / step

---
 verse/agents/example_agent/car_agent.py    | 4 ++--
 verse/agents/example_agent/origin_agent.py | 6 +++---
 verse/agents/example_agent/robot_agent.py  | 2 +-
 verse/agents/example_agent/sign_agent.py   | 2 +-
 verse/analysis/mixmonotone.py              | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index fcb789f..374227b 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -51,7 +51,7 @@ class NPCAgent(BaseAgent):
         self, mode: Tuple[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
@@ -125,7 +125,7 @@ class CarAgent(BaseAgent):
         self, mode: List[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
diff --git a/verse/agents/example_agent/origin_agent.py b/verse/agents/example_agent/origin_agent.py
index 34ac93f..286cbed 100644
--- a/verse/agents/example_agent/origin_agent.py
+++ b/verse/agents/example_agent/origin_agent.py
@@ -26,7 +26,7 @@ class vanderpol_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
         # note: digit of time
         init = initialCondition
@@ -70,7 +70,7 @@ class thermo_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
@@ -163,7 +163,7 @@ class craft_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/robot_agent.py b/verse/agents/example_agent/robot_agent.py
index 4832ddd..f72c8c7 100644
--- a/verse/agents/example_agent/robot_agent.py
+++ b/verse/agents/example_agent/robot_agent.py
@@ -22,7 +22,7 @@ class RobotAgent(BaseAgent):
         # TODO: P1. Should TC_simulate really be part of the agent definition or should it be something more generic?
         # TODO: P2. Looks like this should be a global parameter; some config file should be setting this.
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/sign_agent.py b/verse/agents/example_agent/sign_agent.py
index 2f79580..fa0b44d 100644
--- a/verse/agents/example_agent/sign_agent.py
+++ b/verse/agents/example_agent/sign_agent.py
@@ -9,7 +9,7 @@ class SignAgent(BaseAgent):
         self.decision_logic = ControllerIR.empty()
 
     def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
-        number_points = int(np.ceil(float(time_horizon) / time_step))
+        number_points = int(np.ceil(round(float(time_horizon) / time_step, 8)))
         t = [i * time_step for i in range(0, number_points)]
         trace = [[0] + init] + [[i + time_step] + init for i in t]
         return np.array(trace)
diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index 864870d..5bb77e2 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -58,7 +58,7 @@ def compute_reachtube_mixmono_disc(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
     initial_set = initial_set[0]
-    number_points = int(np.ceil(time_horizon / time_step))
+    number_points = int(np.ceil(round(time_horizon / time_step, 8)))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     trace = [[0] + initial_set[0] + initial_set[1]]
     num_var = len(initial_set[0])
@@ -112,7 +112,7 @@ def compute_reachtube_mixmono_cont(
         return np.concatenate((d, dhat))
 
     time_bound = float(time_horizon)
-    number_points = int(np.ceil(time_bound / time_step))
+    number_points = int(np.ceil(round(time_bound / time_step, 8)))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     init = initial_set[0] + initial_set[1]
     uncertain = uncertain_var_bound[0] + uncertain_var_bound[1]
-- 
2.43.0


From a16dc4e4e9983402a7d1431ad3485c19351f8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 26/57] fix: comparing trees compares simulations as such and
 reach tubes over time, whatever their shape

---
 verse/analysis/analysis_tree.py | 117 ++++++++++----------------------
 1 file changed, 34 insertions(+), 83 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..9c61d3a 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,5 +1,4 @@
 from enum import Enum, auto
-from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
 import json
 import numpy.typing as nptyp, numpy as np, portion
@@ -335,14 +334,19 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:
             if len(self.nodes) != len(other.nodes):
                 return False
 
             def sim_seg_contains(a: Dict[str, TraceType], b: Dict[str, TraceType]) -> bool:
+                # NOTE: nodes that are not explored have no trace
                 return all(
-                    a[aid].shape == b[aid].shape
-                    and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
+                    (aid in a) == (aid in b)
+                    and (
+                        aid not in a
+                        or a[aid].shape == b[aid].shape
+                        and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
+                    )
                     for aid in min_agents
                 )
 
@@ -364,89 +368,36 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
-            cont_num = len(other.nodes[0].trace[min_agents[0]][0])
-
             def collect_ranges(
-                n: AnalysisTreeNode,
-            ) -> Dict[str, List[List[portion.Interval]]]:
-                trace_len = len(n.trace[min_agents[0]])
-                cur = {
-                    aid: [
-                        [
-                            portion.closed(n.trace[aid][i][j], n.trace[aid][i + 1][j])
-                            for j in range(cont_num)
-                        ]
-                        for i in range(0, trace_len, 2)
-                    ]
-                    for aid in min_agents
-                }
-                if len(n.child) == 0:
-                    return {aid: cur[aid] for aid in other_agents}
-                else:
-                    children = [collect_ranges(c) for c in n.child]
-                    child_num = len(children)
-                    time_step = round(
-                        n.trace[min_agents[0]][-1][0] - n.trace[min_agents[0]][-2][0],
-                        10,
-                    )
-                    start_time_list = [c.start_time for c in n.child]
-                    min_start_time = min(start_time_list)
-                    bias_list = [
-                        round((c.start_time - min_start_time) / time_step) for c in n.child
-                    ]
-                    trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
-                    combined = {
-                        aid: [
-                            [
-                                reduce(
-                                    portion.Interval.union,
-                                    (
-                                        children[k][aid][i - bias_list[k]][j]
-                                        if i - bias_list[k] >= 0
-                                        and i - bias_list[k] < trace_len_list[k]
-                                        else portion.empty()
-                                        for k in range(child_num)
-                                    ),
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(trace_len)
-                        ]
-                        for aid in other_agents
-                    }
-                    overlap_len = round(
-                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
-                    )
-                    overlap = {
-                        aid: [
-                            [
-                                portion.Interval.union(
-                                    cur[aid][i][j], combined[aid][overlap_len + i][j]
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(-overlap_len, 0)
-                        ]
-                        for aid in other_agents
-                    }
-                    return {
-                        aid: cur[aid][:-overlap_len] + overlap[aid] + combined[aid][overlap_len:]
-                        for aid in other_agents
-                    }
-
-            this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
-            total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+                tree: "AnalysisTree",
+            ) -> Dict[str, Dict[float, List[portion.Interval]]]:
+                """Collects, for each agent, the union of the ranges of all nodes per time segment"""
+                ranges = {aid: {} for aid in min_agents}
+                for n in tree.nodes:
+                    for aid in min_agents:
+                        # NOTE: nodes that are not explored have no trace
+                        trace = n.trace.get(aid, [])
+                        for lower, upper in zip(trace[0::2], trace[1::2]):
+                            segment = [portion.closed(l, u) for l, u in zip(lower, upper)]
+                            start = round(float(lower[0]), 8)
+                            if start in ranges[aid]:
+                                segment = [a | b for a, b in zip(ranges[aid][start], segment)]
+                            ranges[aid][start] = segment
+                return ranges
+
+            this_tree, other_tree = collect_ranges(self), collect_ranges(other)
             # bloat and containment
             return all(
-                other_tree[aid][i][j]
-                in this_tree[aid][i][j].apply(
-                    lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                start in this_tree[aid]
+                and all(
+                    b
+                    in a.apply(
+                        lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                    )
+                    for a, b in zip(this_tree[aid][start], segment)
                 )
-                for aid in other_agents
-                for i in range(total_len)
-                for j in range(cont_num)
+                for aid in min_agents
+                for start, segment in other_tree[aid].items()
             )
 
     @staticmethod
-- 
2.43.0


From 37af9e4fb337d436014154d79ddc3fdd4f355180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 27/57] fix: verification trees and trees with unexplored nodes
 can be saved and loaded

---
 verse/analysis/analysis_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 9c61d3a..f0abb35 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -226,7 +226,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(trace) for aid, trace in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
@@ -295,7 +295,8 @@ class AnalysisTree:
                 queue.append(child_node)
 
         with open(fn, "w+") as f:
-            json.dump(res_dict, f, indent=4, sort_keys=True)
+            # NOTE: initial sets and traces can contain numpy arrays and numbers
+            json.dump(res_dict, f, indent=4, sort_keys=True, default=lambda x: x.tolist())
 
     @staticmethod
     def load(fn: str) -> "AnalysisTree":
-- 
2.43.0


From 80ce426dcfe93cda5239a137f63dd9284b11fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 28/57] fix: simulate_simple runs every controller, with
 unlabeled assertions and maps of any parameter name

---
 verse/analysis/simulator.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 2e9f768..5c1e81f 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -821,23 +821,8 @@ class Simulator:
     ]:
         trace_length = len(list(node.trace.values())[0])
 
-        # For each agent
-        agent_guard_dict = defaultdict(list)
-
-        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
-
-        for agent, path in paths:
-            # Get guard
-            if len(agent.decision_logic.args) == 0:
-                continue
-            agent_id = agent.id
-            state_dict = {
-                aid: (node.trace[aid][0], node.mode[aid], node.static[aid]) for aid in node.agent
-            }
-            cont_var_dict_template, discrete_variable_dict, len_dict = sensor.sense(
-                agent, state_dict, track_map
-            )
-            agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # NOTE: all controllers are executed, including those that only have assertions
+        agent_ids = [aid for aid, a in node.agent.items() if len(a.decision_logic.args) > 0]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
@@ -847,7 +832,7 @@ class Simulator:
             }
             satisfied_guard = []
             all_asserts = defaultdict(list)
-            for agent_id in agent_guard_dict:
+            for agent_id in agent_ids:
                 # Get agent controller
                 # Reference: https://stackoverflow.com/questions/55905240/python-dynamically-import-modules-code-from-string-with-importlib
                 agent: BaseAgent = node.agent[agent_id]
@@ -866,7 +851,7 @@ class Simulator:
                         ego = env[EGO]
                         ego = convertStrToEnum(ego, agent, dl)
                         arg_list.append(ego)
-                    elif arg.name == "track_map":
+                    elif "map" in arg.name:
                         arg_list.append(track_map)
                     else:
                         if isinstance(env[arg.name], list):
@@ -901,7 +886,8 @@ class Simulator:
                     # If assertion error happen, means assert hit happen
                     # Get the which assert hit happen and return
                     _, error, _ = sys.exc_info()
-                    assertion_label = error.args[0]
+                    # NOTE: labels are optional
+                    assertion_label = error.args[0] if error.args else "<assert>"
                     all_asserts[agent_id] = assertion_label
                     continue
 
-- 
2.43.0


From 499e5a06333434c5b3103f33aea45d7117eb24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 29/57] fix: scenarios do not share their default configuration

---
 verse/scenario/scenario.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..8f9cc5f 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -52,7 +52,10 @@ class ScenarioConfig:
 class Scenario:
     """A simulation/verification scenario."""
 
-    def __init__(self, config=ScenarioConfig()):
+    def __init__(self, config: ScenarioConfig = None):
+        # NOTE: a default argument would be shared between all scenarios
+        if config is None:
+            config = ScenarioConfig()
         self.agent_dict: Dict[str, BaseAgent] = {}
         self.simulator = Simulator(config)
         self.verifier = Verifier(config)
-- 
2.43.0


From 7b8f897e40d978ccd076f77b6d07936ec0b2ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 30/57] fix: verification takes initial sets from the agents as
 simulation does

---
 verse/scenario/scenario.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 8f9cc5f..2975d14 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -340,6 +340,7 @@ class Scenario:
     def verify(self, time_horizon, time_step, max_height=None, params={}) -> AnalysisTree:
         '''Compute the set of reachable states, starting from a set of initial states states.'''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
@@ -387,6 +388,7 @@ class Scenario:
         :return: AnalysisTree with branching preserved.
         '''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
-- 
2.43.0


From 9d0bc9e16935477fafedea17cf8fe1c7424a971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 31/57] fix: reuse cached transitions only from a node whose
 initial sets contain the current ones

---
 verse/analysis/verifier.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 821f93e..b38a691 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -61,6 +61,8 @@ class Verifier:
         self.tube_cache_hits = (0, 0)
         self.trans_cache_hits = (0, 0)
         self.run_logics: Dict[int, Dict[str, str]] = {}
+        # the combined initial sets of the nodes whose transitions are cached
+        self.node_inits: Dict[Tuple[int, int], Dict[str, List[List[List[float]]]]] = {}
         self.config = config
         self.compute_full_reachtube_step_remote = ray.remote(Verifier.compute_full_reachtube_step)
 
@@ -699,6 +701,7 @@ class Verifier:
             transition_idx,
             run_num,
         ) in cache_trans_tube_updates:
+            self.node_inits[run_num, done_node.id] = {a: [r] for a, r in combined_inits.items()}
             cached = self.trans_cache.check_hit(aid, done_node, combined_inits[aid], self.span(done_node))
             if new and not cached:
                 self.trans_cache.add_tube(
@@ -849,7 +852,17 @@ class Verifier:
                     all_node_ids = [s.node_ids for s in cached_trans_tubes.values()]
                     # print('all_node_ids', all_node_ids)
                     node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    node_ids = [i for i in node_ids if self.reusable(run_num, i[0])]
+                    # transitions of a smaller set that only shares the cached tube are not enough
+                    combined_inits = {
+                        a: [combine_all(i, reachability_method == ReachabilityMethod.STAR_SETS)]
+                        for a, i in node.init.items()
+                    }
+                    node_ids = [
+                        i
+                        for i in node_ids
+                        if self.reusable(run_num, i[0])
+                        and reach_trans_suit(self.node_inits[i], combined_inits)
+                    ]
                     # print('node_ids', node_ids)
                     if len(node_ids) > 0:
                         old_node_id = node_ids[0]
-- 
2.43.0


From a576798ff736a49f15466b730a99b996f7d623fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 32/57] fix: transitions the map does not permit no longer end
 the search for permitted ones in verification

---
 verse/analysis/verifier.py | 95 ++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 44 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index b38a691..143b67b 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1065,6 +1065,9 @@ class Verifier:
             (len(inits) - 1) // config.init_seg_length * config.init_seg_length
             for inits in node.init.values()
         )
+        reset_func = Verifier.apply_reset
+        if config.reachability_method == ReachabilityMethod.STAR_SETS:
+            reset_func = Verifier.apply_reset_stars
         reduction_rate = 10
         reduction_queue = []
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1120,6 +1123,7 @@ class Verifier:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
                 resets = defaultdict(list)
+                contained_paths = []
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     pre_expr = a.pre
@@ -1180,8 +1184,8 @@ class Verifier:
                     guard_satisfied, is_contained = one_step_guard.evaluate_guard_cont(
                         agent, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS
                     )
-                    if combine_len == 1:
-                        any_contained = any_contained or is_contained
+                    if combine_len == 1 and is_contained:
+                        contained_paths.append(path)
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
                     if guard_satisfied and combine_len == 1:
                         reset_expr = ResetExpression((path.var, path.val_veri))
@@ -1224,13 +1228,26 @@ class Verifier:
                     combined_reset_list = Verifier._combine_resets(resets, can_combine)
                     if not combined_reset_list:
                         continue
-                    for i in range(len(combined_reset_list)):
+                    forbidden_paths = []
+                    for reset_list in combined_reset_list:
                         # Compute reset_idx: the same reset of different guards is one transition
-                        reset_idx = []
-                        for reset_info in combined_reset_list[i]:
-                            reset_idx.append((reset_info[0].var, reset_info[0].expr))
-                        # a list of reset expression
-                        hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
+                        reset_idx = tuple((r[0].var, r[0].expr) for r in reset_list)
+                        dest_list, reset_rect = reset_func(agent, reset_list, state_dict, track_map)
+                        if not dest_list:
+                            warnings.warn(
+                                f"Guard hit for mode {node.mode[agent_id]} for agent {agent_id} without available next mode"
+                            )
+                        permitted = [
+                            d for d in dest_list if Verifier._permitted(node, agent_id, d, track_map)
+                        ]
+                        if len(permitted) < max(len(dest_list), 1):
+                            forbidden_paths.extend(r[-1] for r in reset_list)
+                        if permitted:
+                            hits.append((agent_id, reset_idx, reset_list, permitted, reset_rect))
+                    # the agent leaves the mode if all the outcomes of some guard that contains the set are permitted
+                    any_contained = any_contained or any(
+                        not any(p is f for f in forbidden_paths) for p in contained_paths
+                    )
 
             if reduction_needed or combine_len > 1:
                 continue
@@ -1243,24 +1260,11 @@ class Verifier:
                 break
             if any_contained and idx >= last_entry:
                 break
-        reset_func = Verifier.apply_reset
-        if config.reachability_method == ReachabilityMethod.STAR_SETS:
-            reset_func = Verifier.apply_reset_stars
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
         for hits, all_agent_state, hit_idx in guard_hits:
-            for agent_id, reset_idx, reset_list in hits:
-                # TODO: Need to change this function to handle the new reset expression and then I am done
-                dest_list, reset_rect = reset_func(
-                    node.agent[agent_id], reset_list, all_agent_state, track_map
-                )
-                # pp(("dests", dest_list, *[astunparser.unparse(reset[-1].val_veri) for reset in reset_list]))
+            for agent_id, reset_idx, reset_list, dest_list, reset_rect in hits:
                 if agent_id not in reset_dict:
                     reset_dict[agent_id] = {}
-                if not dest_list:
-                    warnings.warn(
-                        f"Guard hit for mode {node.mode[agent_id]} for agent {agent_id} without available next mode"
-                    )
-                    dest_list.append(None)
                 if reset_idx not in reset_dict[agent_id]:
                     reset_dict[agent_id][reset_idx] = {}
                 for dest in dest_list:
@@ -1282,31 +1286,34 @@ class Verifier:
                     # paths = [r[-1] for r in reset_data[-1]]
                     paths = [r[-1] for r in reset_data[-1][0]]
                     transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
-                    src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
-                    src_track = node.get_track(agent, node.mode[agent])
-                    dest_mode = node.get_mode(agent, dest)
-                    dest_track = node.get_track(agent, dest)
-                    map_modes = [src_mode, src_track, dest_mode, dest_track]
-
-                    # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
-                    # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-                    # could potentially change to be any transition that changes both trackmode and agentmode 
-                    if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
-                        continue
-                    else:
-                        if config.print_level >= 2:
-                            print(count)
-                        count += 1
-                        if config.print_level >= 2:
-                            print(agent, src_mode, src_track, "->", dest_mode, dest_track)
-                            print("start_time: ", node.start_time)
-                            print("cond_veri", unparse(paths[0].cond_veri))
-                            print("val_veri", unparse(paths[0].val_veri))
-                        possible_transitions.append(transition)
-                        # print(transition[4])
+                    if config.print_level >= 2:
+                        print(count)
+                        print(agent, node.mode[agent], "->", dest)
+                        print("start_time: ", node.start_time)
+                        print("cond_veri", unparse(paths[0].cond_veri))
+                        print("val_veri", unparse(paths[0].val_veri))
+                    count += 1
+                    possible_transitions.append(transition)
+                    # print(transition[4])
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def _permitted(node: AnalysisTreeNode, agent_id: str, dest, track_map) -> bool:
+        """
+        Whether the map permits a transition to `dest`. A map transition for now is defined as any transition that
+        changes either the trackmode or agentmode; could potentially change to be any transition that changes both.
+        """
+        src_mode = node.get_mode(agent_id, node.mode[agent_id])  # this is explicitly the AgentMode mode
+        src_track = node.get_track(agent_id, node.mode[agent_id])
+        dest_mode = node.get_mode(agent_id, dest)
+        dest_track = node.get_track(agent_id, dest)
+        if any(mode is None for mode in (src_mode, src_track, dest_mode, dest_track)):
+            return True
+        if src_mode == dest_mode and src_track == dest_track:
+            return True
+        return dest_track == track_map.h(src_track, src_mode, dest_mode)
+
     @staticmethod
     def _align_inits(inits, idx):
         """
-- 
2.43.0


From 290f5f8f53c48d8a201ef367894d577ad0ea0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 33/57] fix: map calls in guards and resets confused fields
 whose names start with another field's name

---
 verse/analysis/verifier.py |  6 +++---
 verse/automaton/guard.py   |  6 +++---
 verse/utils/utils.py       | 11 +++++++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 143b67b..37ec66e 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -19,7 +19,7 @@ from verse.analysis.incremental import (
     combine_all,
 )
 from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
-from verse.utils.utils import dedup
+from verse.utils.utils import dedup, replace_variable
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
 from verse.agents.base_agent import BaseAgent
@@ -1396,7 +1396,7 @@ class Verifier:
                     tmp = expr.split(".")
                     if "map" in tmp[0]:
                         for var in disc_var_dict:
-                            expr = expr.replace(var, f"'{disc_var_dict[var]}'")
+                            expr = replace_variable(expr, var, f"'{disc_var_dict[var]}'")
                         res = eval(expr)
                         if not isinstance(res, list):
                             res = [res]
@@ -1503,7 +1503,7 @@ class Verifier:
                     tmp = expr.split(".")
                     if "map" in tmp[0]:
                         for var in disc_var_dict:
-                            expr = expr.replace(var, f"'{disc_var_dict[var]}'")
+                            expr = replace_variable(expr, var, f"'{disc_var_dict[var]}'")
                         res = eval(expr)
                         if not isinstance(res, list):
                             res = [res]
diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 52e6acc..a59bffc 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -834,8 +834,8 @@ class GuardExpressionAst:
             root.args = new_args_list
             expr = unparse(root)
             # Check if the root is a function
-            if any([var in expr for var in disc_var_dict]) and all(
-                [var not in expr for var in cont_var_dict]
+            if any([mentions_variable(expr, var) for var in disc_var_dict]) and all(
+                [not mentions_variable(expr, var) for var in cont_var_dict]
             ):
                 # tmp = re.split('\(|\)',expr)
                 # while "" in tmp:
@@ -845,7 +845,7 @@ class GuardExpressionAst:
                 #         expr = expr.replace(arg,f'"{disc_var_dict[arg]}"')
                 # res = eval(expr)
                 for arg in disc_var_dict:
-                    expr = expr.replace(arg, f'"{disc_var_dict[arg]}"')
+                    expr = replace_variable(expr, arg, f'"{disc_var_dict[arg]}"')
                 res = eval(expr)
                 if isinstance(res, bool):
                     if res:
diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index c7ad013..a0afdbf 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -1,6 +1,7 @@
 import copy
 import importlib
 import itertools
+import re
 from typing import Any, Tuple, Dict, Callable, List, Optional, Type, TypeVar, Union, Sequence
 
 import numpy as np
@@ -435,3 +436,13 @@ def dedup(l: List[T], f: Callable[[T], Any] = (lambda a: a)) -> List[T]:
         else:
             o.append((i, k))
     return [i for i, _ in o]
+
+
+def mentions_variable(expr: str, var: str) -> bool:
+    """Whether `var` occurs as a whole variable (ego.t does not occur in ego.track_mode)"""
+    return re.search(rf"(?<![\w.]){re.escape(var)}(?!\w)", expr) is not None
+
+
+def replace_variable(expr: str, var: str, val: str) -> str:
+    """Replace the whole variable `var`"""
+    return re.sub(rf"(?<![\w.]){re.escape(var)}(?!\w)", lambda _: val, expr)
-- 
2.43.0


From 9a5fd39db2979b3c3683cc150dc56245c71ca633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 34/57] fix: verify_partitioned lost the executions that take a
 transition after the first segment that hits its guard

---
 verse/analysis/verifier.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 37ec66e..1682388 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1772,12 +1772,13 @@ class Verifier:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
-                
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
-                
+                # The guard is hit somewhere in the segments from start_idx to end_idx
+                start_idx, end_idx = idx[0], idx[-1]
+                hitting_rects = {
+                    aid: combine_rect(node.trace[aid][start_idx * 2 : (end_idx + 1) * 2]) for aid in node.agent
+                }
+                hitting_rect = hitting_rects[transit_agent_idx]
+
                 # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
                 partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
                 
@@ -1786,7 +1787,7 @@ class Verifier:
                 for part in partitions:
                     # Update state_dict with the partition for transit_agent_idx
                     state_dict = {
-                        aid: (node.trace[aid][start_idx * 2 : start_idx * 2 + 2], node.mode[aid], node.static.get(aid, []))
+                        aid: (hitting_rects[aid], node.mode[aid], node.static.get(aid, []))
                         for aid in node.agent
                     }
                     state_dict[transit_agent_idx] = ([part[0], part[1]], node.mode[transit_agent_idx], node.static.get(transit_agent_idx, []))
-- 
2.43.0


From 2d60f423dc276bff8b1e947568ebeb03d4053ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 35/57] fix: verify_partitioned reported assertion hits with
 their index when continuing past unsafe states

---
 verse/analysis/verifier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 1682388..c00add2 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1753,10 +1753,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
-            for agent in node.agent:
-                node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
+            if not config.unsafe_continue:
+                for agent in node.agent:
+                    node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
                 node.id,
                 later,
-- 
2.43.0


From 1e688e5369c37eda2bb537e84001b17fa94b50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 36/57] fix: the fixed point test looked at the wrong last
 segment when a leaf ends early, is unexplored or its times are rounded, and
 mixed up the rows of DRYVR_DISC

---
 verse/utils/fixed_points.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..7503981 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -27,10 +27,9 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
     sim_enum: Dict[str, Dict[str, int]] = {} #indexed by agent and then by mode -- simulates the enum class 
     for agent in agents:
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
-    T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
+    T = 0 # the last time that is reached; leaf nodes may end before it (unsafe) or have no trace (not explored)
     if t_lower is None or t_upper is None:
-        last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        T = max(trace[-1][0] for node in nodes for trace in node.trace.values() if len(trace) > 0)
     for node in nodes:
         reached[node_counter] = None
         modes = node.mode 
@@ -47,9 +46,8 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
             if t_lower is not None and t_upper is not None: ### may want to seperate this out into a seperate function
                 if agent not in node.trace: # NOTE: not all agents present in all modes -- is this desired? 
                     continue 
-                loop_step = 1 if node.trace[agent][0][0] == node.trace[agent][1][0] else 2 # NOTE: so that 
-                # FIXME: the loop below only makes sense for dryvr, not dryvr_disc -- not important if solely using dryvr, but important to mention
-                for i in range(0, len(node.trace[agent])-1, loop_step): # just check the upper bound, time difference between lower and upper known to be time step of scenario
+                # both for dryvr and dryvr_disc, rows come in pairs of lower and upper bounds
+                for i in range(0, len(node.trace[agent])-1, 2): # just check the upper bound, time difference between lower and upper known to be time step of scenario
                     if node.trace[agent][i][0]<t_lower: # first, use the time of the lower bound to see if we can add current node
                         continue
                     if node.trace[agent][i+1][0]>t_upper: # then, use the time of the upper bound to do the same thing
@@ -63,7 +61,9 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
                         upper.append(sim_enum[agent][mode]) 
                     reach_node[agent] += [lower, upper]
             else: ### for now, just assume if t_lower and t_upper not supplied, we just want last node 
-                if node.trace[agent][-1][0]==T:
+                if agent not in node.trace or len(node.trace[agent]) < 2:
+                    continue
+                if abs(node.trace[agent][-1][0] - T) < 1e-6: # times of different nodes may differ by rounding
                     lower = list(node.trace[agent][-2][1:])
                     upper = list(node.trace[agent][-1][1:])
                     for mode in modes[agent]: # assume that size of modes[agent] doesn't change between nodes
-- 
2.43.0


From 2318edb4f6a771c64a193a09d8e8fb93f6794ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 37/57] fix: the default sensor failed for controllers whose
 other agents are called differently or are a single one

---
 verse/sensor/base_sensor.py                  | 10 ++++++++--
 verse/sensor/example_sensor/single_sensor.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/verse/sensor/base_sensor.py b/verse/sensor/base_sensor.py
index 32672bc..32b827d 100644
--- a/verse/sensor/base_sensor.py
+++ b/verse/sensor/base_sensor.py
@@ -55,6 +55,9 @@ class BaseSensor:
         cont = {}
         disc = {}
         len_dict = {"others": len(state_dict) - 1}
+        for arg in agent.decision_logic.args:
+            if arg.is_list:  # the parameter for the other agents may have any name
+                len_dict[arg.name] = len(state_dict) - 1
         tmp = np.array(list(state_dict.values())[0][0])
         if simulate:
             for agent_id in state_dict:
@@ -90,7 +93,9 @@ class BaseSensor:
                     cont_var = agent.decision_logic.state_defs[arg_type].cont
                     disc_var = agent.decision_logic.state_defs[arg_type].disc
                     stat_var = agent.decision_logic.state_defs[arg_type].static
-                    add_states_2d(
+                    # a parameter that is not a list is the only other agent itself
+                    put_states = add_states_2d if arg.is_list else set_states_2d
+                    put_states(
                         cont, disc, arg_name, state_dict[agent_id], cont_var, disc_var, stat_var
                     )
 
@@ -128,7 +133,8 @@ class BaseSensor:
                     cont_var = agent.decision_logic.state_defs[arg_type].cont
                     disc_var = agent.decision_logic.state_defs[arg_type].disc
                     stat_var = agent.decision_logic.state_defs[arg_type].static
-                    add_states_3d(
+                    put_states = add_states_3d if arg.is_list else set_states_3d
+                    put_states(
                         cont, disc, arg_name, state_dict[agent_id], cont_var, disc_var, stat_var
                     )
 
diff --git a/verse/sensor/example_sensor/single_sensor.py b/verse/sensor/example_sensor/single_sensor.py
index da462e7..f22bdc9 100644
--- a/verse/sensor/example_sensor/single_sensor.py
+++ b/verse/sensor/example_sensor/single_sensor.py
@@ -89,7 +89,7 @@ class SingleSensor:
                     cont_var = agent.decision_logic.state_defs[arg_type].cont
                     disc_var = agent.decision_logic.state_defs[arg_type].disc
                     stat_var = agent.decision_logic.state_defs[arg_type].static
-                    add_states_2d(
+                    set_states_2d(
                         cont, disc, arg_name, state_dict[agent_id], cont_var, disc_var, stat_var
                     )
 
-- 
2.43.0


From a0228dea48c32a90afb532f7854bdf0b403a6fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 38/57] fix: emptiness, half spaces, extents and centers of
 star sets are right for any generators and coefficients

---
 verse/stars/starset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verse/stars/starset.py b/verse/stars/starset.py
index ea0dbf5..26c9be9 100644
--- a/verse/stars/starset.py
+++ b/verse/stars/starset.py
@@ -272,7 +272,7 @@ class StarSet:
             raise Exception("constraint_mat vectors should be of length n")
         if not (len(rhs) == len(constraint_mat)):
             raise Exception("constraint_mat should be length of rhs")
-        new_c = np.matmul(constraint_mat, self.basis)
+        new_c = np.matmul(constraint_mat, self.basis.transpose())
         conj_c = np.vstack((self.C, new_c))
         new_g = np.subtract(rhs, np.matmul(constraint_mat, self.center))
         conj_g = np.append(self.g, new_g) 
@@ -463,11 +463,11 @@ class StarSet:
     def maximize(self, opt_direction):
         """return the point that maximizes the direction"""
 
-        opt_direction *= -1
+        opt_direction = -1 * np.array(opt_direction)
 
         # convert opt_direction to domain
         #print(self.basis)
-        domain_direction = opt_direction.T @ self.basis
+        domain_direction = (self.basis @ opt_direction).flatten()
 
 
         # use LP to optimize the constraints
@@ -496,7 +496,7 @@ class StarSet:
         pt = []
         for i in range(0,self.n):
             min, max = self.get_max_min(i)
-            pt.append(max - min / 2)
+            pt.append((max + min) / 2)
             #maxes.append(max)
             #mins.append(min)
         return pt
@@ -531,13 +531,13 @@ class StarSet:
 #        return None
 
     def is_empty(self):
-        feasible = StarSet.is_feasible(self.n,self.C,self.g)
+        feasible = StarSet.is_feasible(self.m,self.C,self.g)
         if feasible:
             return False
         return True
 
     def is_feasible(n, constraint_mat, rhs, equal_mat=None, equal_rhs=None):
-        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs)
+        results = linprog(c=np.zeros(n),A_ub=constraint_mat,b_ub=rhs,A_eq=equal_mat, b_eq=equal_rhs, bounds=(None, None))
         if results.status == 0:
             return True
         if results.status == 2:
-- 
2.43.0


From 7fec3a932a01bc29fb558443d33d57644a7e7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 39/57] fix: verification with star sets hands successor nodes
 the star of the other agents at the entry

---
 verse/analysis/verifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index c00add2..b372d39 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -629,6 +629,9 @@ class Verifier:
             for agent_idx in next_node_agent:
                 if agent_idx == transit_agent_idx:
                     next_node_init[agent_idx] = next_init
+                elif consts.reachability_method == ReachabilityMethod.STAR_SETS:
+                    next_node_init[agent_idx] = [truncated_trace[agent_idx][0][1]]
+                    next_node_trace[agent_idx] = truncated_trace[agent_idx]
                 else:
                     next_node_init[agent_idx] = [
                         [truncated_trace[agent_idx][0][1:], truncated_trace[agent_idx][1][1:]]
-- 
2.43.0


From dc9c4d63bfa63767a70e4c6d39e0543b9c69e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 40/57] fix: resets of star sets replaced variable names that
 are prefixes of others (ego.x in ego.x2)

---
 verse/analysis/verifier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index b372d39..289eb68 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1554,8 +1554,10 @@ class Verifier:
                 val_dict = {}
                 tmp_exp = copy.deepcopy(expr_list[idx])
                 for i in range(0, len(state)):
-                    if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
+                    # substitute whole variables only (ego.x is not part of ego.x2), as one operand
+                    tmp_exp = re.sub(
+                        rf"(?<![\w.]){re.escape(statevec[i])}(?!\w)", f"({state[i]})", tmp_exp
+                    )
                 #print(tmp_exp)
                 result = eval(tmp_exp, {}, val_dict)
                 for i in range(0, len(state)):
-- 
2.43.0


From 5af08f603d95ee97bc811aa6515aa37976f6ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 41/57] fix: verification with star sets starts a node from all
 its initial sets when they are more than one segment holds

---
 verse/analysis/verifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 289eb68..1c7544c 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -162,7 +162,7 @@ class Verifier:
         if incremental:
             cached_tube, missing_seg_idx_list = cached_tube_info
         else:
-            cached_tube, missing_seg_idx_list = None, range(0, len(initial_set), combine_seg_length)
+            cached_tube, missing_seg_idx_list = None, [0]
         res_tube = cached_tube
         if res_tube is None:
             tube_length = 0
@@ -172,7 +172,8 @@ class Verifier:
         print(missing_seg_idx_list)
 
         for combine_seg_idx in missing_seg_idx_list:
-            rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
+            # one tube is returned: it starts from all the initial sets, however many a segment holds
+            rect_seg = initial_set
             # print("len of rect_sec:")
             # print(len(rect_seg))
             #combined_rect = None
-- 
2.43.0


From b9c6be18b6cb49209814e8a5882562e27c689070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 42/57] fix: star sets find the variables of other agents
 whatever they are called, and the star sensor accepts a single other agent

---
 verse/automaton/guard.py          | 66 ++++++++++++-------------------
 verse/sensor/base_sensor_stars.py | 10 ++++-
 2 files changed, 33 insertions(+), 43 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index a59bffc..3423ccc 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -130,53 +130,37 @@ class GuardExpressionAst:
             if "tmp_variable" in agent:
                 agent_vars[agent] = [(Real(agent))]
             else:
-                other_agents = agent.split("_")
-                if len(other_agents) == 1:
-                    agent_vars[agent] = [v for k, v in self.varDict.items() if agent in k]
-                if len(other_agents) > 1:
-                    #agent_vars[agent] = [Real(str(k)) for k in continuous_variable_dict.keys() if agent in k]
-                    agent_vars[agent] = []
-                    #go through and find the other possible values
-                    for var_string, value in continuous_variable_dict.items():
-                        if isinstance(value, list): 
-                            variable_name = var_string.split(".")[1]
-                            if not agent + "_" + variable_name in self.varDict.keys():
-                                agent_vars[agent].append(Real(agent + "_" + variable_name))
-                            else:
-                                agent_vars[agent].append(self.varDict[agent + "_" + variable_name])
+                agent_vars[agent] = [
+                    Real(var.replace(".", "_"))
+                    for var in self._state_variables(agent, continuous_variable_dict)
+                ]
 
         return agent_states, agent_vars
     
 
+    @staticmethod
+    def _state_variables(agent, continuous_variable_dict):
+        """
+        The names of the continuous variables of an agent (ego, other, others_0, ...), in the order of its state
+        """
+        # others_0 stands for the first element of others: its variables are those of the list
+        base = agent.rsplit("_", 1)[0]
+        for name, is_list in ((base, True), (agent, False)):
+            fields = [
+                var.split(".", 1)[1]
+                for var, value in continuous_variable_dict.items()
+                if var.startswith(name + ".") and isinstance(value, list) == is_list
+            ]
+            if fields:
+                return [f"{agent}.{field}" for field in fields]
+        return []
+
     def get_agent_variable_indices(self, symbols, continuous_variable_dict):
-        #breakpoint()
-        agents = []
-        for var in symbols.values():
-            agent = var.split(".")[0]
-            if not (agent in agents):
-                if not isinstance(continuous_variable_dict[var], list):
-                    agents.append(agent)
         agent_vars = {}
-        for agent in agents:
-            other_agents = agent.split("_")
-            if len(other_agents) == 1:
-                agent_vars[agent] = [str(k) for k in continuous_variable_dict.keys() if agent in k] # [v for k, v in self.varDict.items() if agent in k]
-            if len(other_agents) > 1:
-                    #agent_vars[agent] = [Real(str(k)) for k in continuous_variable_dict.keys() if agent in k]
-                agent_vars[agent] = []
-                    #go through and find the other possible values
-                for var_string, value in continuous_variable_dict.items():
-                        if not isinstance(value, list): 
-                            variable_name = var_string.split(".")[1]
-                            variable = str(agent) + "." + variable_name
-                            if variable not in agent_vars[agent]:
-                                agent_vars[agent].append(variable)
-        #for agent in agent_vars.keys():
-        #    if agent_vars[agent] == []:
-        #        breakpoint()
-        #if "ego" in agent_vars.keys() and "others_0" in agent_vars.keys():
-        #    if agent_vars['ego'] == [] and len(agent_vars['others_0']) > 1:
-        #        breakpoint()
+        for var in symbols.values():
+            if "." in var and not isinstance(continuous_variable_dict[var], list):
+                agent = var.split(".")[0]
+                agent_vars[agent] = self._state_variables(agent, continuous_variable_dict)
         return agent_vars
 
     def evaluate_guard_cont(self, agent, continuous_variable_dict, track_map, stars):
diff --git a/verse/sensor/base_sensor_stars.py b/verse/sensor/base_sensor_stars.py
index 8bf0fb5..17876a3 100644
--- a/verse/sensor/base_sensor_stars.py
+++ b/verse/sensor/base_sensor_stars.py
@@ -78,6 +78,9 @@ class BaseStarSensor:
         cont = {}
         disc = {}
         len_dict = {"others": len(state_dict) - 1}
+        for arg in agent.decision_logic.args:
+            if arg.is_list:  # the parameter for the other agents may have any name
+                len_dict[arg.name] = len(state_dict) - 1
         tmp = np.array(list(state_dict.values())[0][0])
         if simulate:
             for agent_id in state_dict:
@@ -114,7 +117,9 @@ class BaseStarSensor:
                     cont_var = agent.decision_logic.state_defs[arg_type].cont
                     disc_var = agent.decision_logic.state_defs[arg_type].disc
                     stat_var = agent.decision_logic.state_defs[arg_type].static
-                    add_states_2d(
+                    # a parameter that is not a list is the only other agent itself
+                    put_states = add_states_2d if arg.is_list else set_states_2d
+                    put_states(
                         cont, disc, arg_name, state_dict[agent_id], cont_var, disc_var, stat_var
                     )
 
@@ -152,7 +157,8 @@ class BaseStarSensor:
                     cont_var = agent.decision_logic.state_defs[arg_type].cont
                     disc_var = agent.decision_logic.state_defs[arg_type].disc
                     stat_var = agent.decision_logic.state_defs[arg_type].static
-                    add_states_3d(
+                    put_states = add_states_3d if arg.is_list else set_states_3d
+                    put_states(
                         cont, disc, arg_name, state_dict[agent_id], cont_var, disc_var, stat_var
                     )
 
-- 
2.43.0


From 4f10d6e2495452915ca7b64b09cb314fd381ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 43/57] fix: plotting leaves the tree as it is, and sampled
 reachtubes enclose the segments they stand for

---
 verse/plotter/plotter2D.py     | 42 +++++++++++++++-------------------
 verse/plotter/plotter3D_new.py | 29 +----------------------
 verse/plotter/plotterStar.py   | 33 ++++++++------------------
 3 files changed, 30 insertions(+), 74 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 7b57484..9072d58 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2364,30 +2364,26 @@ def get_text_pos(veh_mode):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    """Sample the traces of a tree. The tree itself is left as it is.
+
+    Of a simulation every ``sample_rate``-th point is kept. The segments of a reachtube are taken
+    together in groups of ``sample_rate``, as the rectangles that enclose them."""
+    root = copy.copy(root)
     queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node: AnalysisTreeNode = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
+    while queue != []:
+        node = queue.pop()
+        sampled = {}
+        for agent_id, trace in node.trace.items():
+            if str(node.type) == "reachtube":
+                sampled[agent_id] = []
+                for i in range(0, len(trace), sample_rate * 2):
+                    group = np.array(trace[i : i + sample_rate * 2])
+                    sampled[agent_id] += [group[0::2].min(axis=0), group[1::2].max(axis=0)]
+            else:
+                sampled[agent_id] = [trace[i] for i in range(0, len(trace), sample_rate)]
+        node.trace = sampled
+        node.child = [copy.copy(child) for child in node.child]
+        queue += node.child
     return root
 
 
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index d3be486..b24a08f 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -14,6 +14,7 @@ import math
 
 # import time
 from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode
+from verse.plotter.plotter2D import sample_trace
 from verse.map.lane_map_3d import LaneMap_3d
 from verse.map.lane_segment_3d import StraightLane_3d, CircularLane_3d_v1
 
@@ -476,34 +477,6 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, z_dim: int = 3, prin
     return True
 
 
-def sample_trace(root, sample_rate: int = 1):
-    queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
-    return root
-
-
 def update_style(fig: go.Figure() = go.Figure(), x_title=None, y_title=None, z_title=None):
     # fig.update_traces(line={'width': 3})
     fig.update_layout(
diff --git a/verse/plotter/plotterStar.py b/verse/plotter/plotterStar.py
index d163885..5b977b9 100644
--- a/verse/plotter/plotterStar.py
+++ b/verse/plotter/plotterStar.py
@@ -78,28 +78,15 @@ def reachtube_tree_single(root,agent_id,x_dim,y_dim, color):
 
 
 def sample_trace(root, sample_rate: int = 1):
+    """Keep every ``sample_rate``-th star of each trace of a tree. The tree itself is left as it is."""
+    root = copy.copy(root)
     queue = [root]
-    # print(root.trace)
-    if root.type == "reachtube":
-        sample_rate = sample_rate * 2
-        while queue != []:
-            node = queue.pop()
-            for agent_id in node.trace:
-                trace_length = len(node.trace[agent_id])
-                tmp = []
-                for i in range(0, trace_length, sample_rate):
-                    if i + sample_rate - 1 < trace_length:
-                        tmp.append(node.trace[agent_id][i])
-                        tmp.append(node.trace[agent_id][i + sample_rate - 1])
-                node.trace[agent_id] = tmp
-            queue += node.child
-    else:
-        while queue != []:
-            node: AnalysisTreeNode = queue.pop()
-            for agent_id in node.trace:
-                node.trace[agent_id] = [
-                    node.trace[agent_id][i]
-                    for i in range(0, len(node.trace[agent_id]), sample_rate)
-                ]
-            queue += node.child
+    while queue != []:
+        node = queue.pop()
+        node.trace = {
+            agent_id: [trace[i] for i in range(0, len(trace), sample_rate)]
+            for agent_id, trace in node.trace.items()
+        }
+        node.child = [copy.copy(child) for child in node.child]
+        queue += node.child
     return root
-- 
2.43.0


From 96720aaa1a0c12a5f6820cbdf26a3bb285e73e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 44/57] fix: plots go on after a node without a trace (one the
 analysis did not explore)

---
 verse/plotter/plotter2D.py     | 9 +++++++--
 verse/plotter/plotter3D_new.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 9072d58..b52576b 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -1810,7 +1810,8 @@ def reachtube_tree_single(
         node = queue.pop(0)
         traces = node.trace
         if agent_id not in traces:
-            break
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1
         if (
@@ -2047,7 +2048,8 @@ def simulation_tree_single(
         node = queue.pop(0)
         traces = node.trace
         if agent_id not in traces.keys():
-            return fig
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         start = list(trace[0])
         end = list(trace[-1])
@@ -2577,6 +2579,9 @@ def reachtube_tree_single_slice(
     while queue != []:
         node = queue.pop(0)
         traces = node.trace
+        if agent_id not in traces:
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1 
 
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index b24a08f..0188d31 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -260,7 +260,8 @@ def simulation_tree_single_3d(
         node = queue.pop(0)
         traces = node.trace
         if agent_id not in traces.keys():
-            return fig
+            queue += node.child
+            continue
         trace = np.array(traces[agent_id])
         start = list(trace[0])
         end = list(trace[-1])
-- 
2.43.0


From 5a074caa997cf6b8a09e5d367785f491fc3a207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 45/57] fix: the plot of a reachtube of one segment is its
 rectangle, not its lower corner

---
 verse/plotter/plotter2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index b52576b..8db605e 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -1815,8 +1815,8 @@ def reachtube_tree_single(
         trace = np.array(traces[agent_id])
         max_id = len(trace) - 1
         if (
-            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id)]))) == 1
-            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id)]))) == 1
+            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id + 1)]))) == 1
+            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id + 1)]))) == 1
         ):
             fig.add_trace(
                 go.Scatter(
@@ -2586,8 +2586,8 @@ def reachtube_tree_single_slice(
         max_id = len(trace) - 1 
 
         if (
-            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id)]))) == 1
-            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id)]))) == 1
+            len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id + 1)]))) == 1
+            and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id + 1)]))) == 1
         ):
             fig.add_trace(
                 go.Scatter(
-- 
2.43.0


From 0664453df02e0974b96aebb1682c97f37f50d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 46/57] fix: a plot made without a figure starts from an empty
 one, not from the previous plot

---
 verse/plotter/plotter2D.py     | 44 +++++++++++++++++++++++++---------
 verse/plotter/plotter3D_new.py | 28 ++++++++++++++++------
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 8db605e..938d0a4 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -61,7 +61,7 @@ duration = 1
 def simulation_tree(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -83,6 +83,8 @@ def simulation_tree(
         Returns:
             fig (plotly.graph_objects): Figure which includes the plots.
     '''
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -173,7 +175,7 @@ def simulation_tree(
 def simulation_anime(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -188,6 +190,8 @@ def simulation_anime(
 ):
     """Normal: It gives the animation of the simulation without trail but is faster."""
     """Trail: It gives the animation of the simulation with trail."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if time_step != None:
@@ -481,7 +485,7 @@ def simulation_anime(
 def reachtube_tree(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -493,6 +497,8 @@ def reachtube_tree(
     plot_color=None,
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if plot_color is None:
         plot_color = colors
     if isinstance(root, AnalysisTree):
@@ -589,7 +595,7 @@ def reachtube_tree(
 def reachtube_anime(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -602,6 +608,8 @@ def reachtube_anime(
     combine_rect=None,
 ):
     """It gives the animation of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if time_step != None:
@@ -765,7 +773,7 @@ def reachtube_anime(
 def reachtube_tree_video(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -843,6 +851,8 @@ def reachtube_tree_video(
     go.Figure
         Figure with cumulative animation frames.
     """
+    if fig is None:
+        fig = go.Figure()
     # NOTE: Normalize root, time rounding, and sample the tree 
     if plot_color is None:
         plot_color = colors
@@ -1785,7 +1795,7 @@ def _export_reachtube_video_direct(
 def reachtube_tree_single(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -1794,6 +1804,8 @@ def reachtube_tree_single(
     plot_color=None,
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if plot_color is None:
@@ -2023,7 +2035,7 @@ def reachtube_tree_single(
 def simulation_tree_single(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig: go.Figure() = go.Figure(),
+    fig: go.Figure = None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -2031,6 +2043,8 @@ def simulation_tree_single(
     plot_color = None
 ):
     """It statically shows the simulation traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     global color_cnt
@@ -2093,9 +2107,11 @@ def simulation_tree_single(
 
 
 def draw_map(
-    map: LaneMap, color="rgba(0,0,0,0.5)", fig: go.Figure() = go.Figure(), fill_type="lines"
+    map: LaneMap, color="rgba(0,0,0,0.5)", fig: go.Figure = None, fill_type="lines"
 ):
     """It draws the the map"""
+    if fig is None:
+        fig = go.Figure()
     x_min, x_max = float("inf"), -float("inf")
     y_min, y_max = float("inf"), -float("inf")
     if map is None:
@@ -2403,8 +2419,10 @@ def num_digits(val: float):
 # fig.update_traces(line={'width':5})
 
 
-def update_style(fig: go.Figure() = go.Figure()):
+def update_style(fig: go.Figure = None):
     # fig.update_traces(line={'width': 3})
+    if fig is None:
+        fig = go.Figure()
     fig.update_layout(
         # paper_bgcolor="rgba(0,0,0,0)",
         plot_bgcolor="rgba(0,0,0,0)"
@@ -2433,7 +2451,7 @@ def update_style(fig: go.Figure() = go.Figure()):
 def reachtube_tree_slice(
     root: Union[AnalysisTree, AnalysisTreeNode],
     map=None,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     print_dim_list=None,
@@ -2447,6 +2465,8 @@ def reachtube_tree_slice(
     t_upper: float = None
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if plot_color is None:
         plot_color = colors
     if isinstance(root, AnalysisTree):
@@ -2553,7 +2573,7 @@ def reachtube_tree_slice(
 def reachtube_tree_single_slice(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     color=None,
@@ -2564,6 +2584,8 @@ def reachtube_tree_single_slice(
     t_upper: float = None
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if plot_color is None:
diff --git a/verse/plotter/plotter3D_new.py b/verse/plotter/plotter3D_new.py
index 0188d31..7c952ce 100644
--- a/verse/plotter/plotter3D_new.py
+++ b/verse/plotter/plotter3D_new.py
@@ -35,7 +35,7 @@ color_array_def = [
 
 def simulation_tree_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -52,6 +52,8 @@ def simulation_tree_3d(
     zrange=[],
 ):
     """It statically shows all the traces of the simulation."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -100,7 +102,7 @@ def simulation_tree_3d(
 
 def reachtube_tree_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -118,6 +120,8 @@ def reachtube_tree_3d(
     combine_rect=None,
 ):
     """It statically shows all the traces of the verfication."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     root = sample_trace(root, sample_rate)
@@ -166,7 +170,9 @@ def reachtube_tree_3d(
     return fig
 
 
-def draw_map_3d(map: LaneMap_3d, fig=go.Figure(), fill_type="outline", color="rgba(0,0,0,1)"):
+def draw_map_3d(map: LaneMap_3d, fig=None, fill_type="outline", color="rgba(0,0,0,1)"):
+    if fig is None:
+        fig = go.Figure()
     if map is None:
         return fig
     num = 100
@@ -233,7 +239,7 @@ def draw_map_3d(map: LaneMap_3d, fig=go.Figure(), fill_type="outline", color="rg
 def simulation_tree_single_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig: go.Figure() = go.Figure(),
+    fig: go.Figure = None,
     x_dim: int = 1,
     y_dim: int = 2,
     z_dim: int = 3,
@@ -242,6 +248,8 @@ def simulation_tree_single_3d(
     print_dim_list=None,
 ):
     """It statically shows the simulation traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if color_array is None:
@@ -330,7 +338,7 @@ def simulation_tree_single_3d(
 def reachtube_tree_single_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
     agent_id,
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     y_dim: int = 2,
     z_dim: int = 3,
@@ -340,6 +348,8 @@ def reachtube_tree_single_3d(
     combine_rect=None,
 ):
     """It statically shows the verfication traces of one given agent."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
     if color_array is None:
@@ -478,8 +488,10 @@ def check_dim(num_dim: int, x_dim: int = 1, y_dim: int = 2, z_dim: int = 3, prin
     return True
 
 
-def update_style(fig: go.Figure() = go.Figure(), x_title=None, y_title=None, z_title=None):
+def update_style(fig: go.Figure = None, x_title=None, y_title=None, z_title=None):
     # fig.update_traces(line={'width': 3})
+    if fig is None:
+        fig = go.Figure()
     fig.update_layout(
         # paper_bgcolor="rgba(0,0,0,0)",
         plot_bgcolor="rgba(0,0,0,0)"
@@ -568,7 +580,7 @@ duration = 1
 
 def reachtube_anime_3d(
     root: Union[AnalysisTree, AnalysisTreeNode],
-    fig=go.Figure(),
+    fig=None,
     x_dim: int = 1,
     x_title: str = None, 
     y_dim: int = 2,
@@ -583,6 +595,8 @@ def reachtube_anime_3d(
     name = "animation.gif"
 ):
     """It gives the animation of the verification traces in 3D."""
+    if fig is None:
+        fig = go.Figure()
     if isinstance(root, AnalysisTree):
         root = root.root
 
-- 
2.43.0


From a392fe7aa6a685d11c0cf9b0e6a24fcafc94f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 47/57] fix: detailed maps are drawn when lanes have no speed
 limit or all have the same one

---
 verse/plotter/plotter2D.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index 938d0a4..d4806be 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2119,8 +2119,9 @@ def draw_map(
     if fill_type == "detailed":
         speed_dict = map.get_all_speed_limit()
         speed_list = list(filter(None, speed_dict.values()))
-        speed_min = min(speed_list)
-        speed_max = max(speed_list)
+        speed_min = min(speed_list, default=0)
+        speed_max = max(speed_list, default=0)
+        speed_range = max(speed_max - speed_min, 1e-6)
         start_color = [255, 255, 255, 0.2]
         end_color = [0, 0, 0, 0.2]
         curr_color = [0, 0, 0, 0]
@@ -2137,12 +2138,12 @@ def draw_map(
                     curr_color[j] = int(
                         start_color[j]
                         + (speed_limit - speed_min)
-                        / (speed_max - speed_min)
+                        / speed_range
                         * (end_color[j] - start_color[j])
                     )
-                curr_color[lens] = start_color[lens] + (speed_limit - speed_min) / (
-                    speed_max - speed_min
-                ) * (end_color[lens] - start_color[lens])
+                curr_color[lens] = start_color[lens] + (speed_limit - speed_min) / speed_range * (
+                    end_color[lens] - start_color[lens]
+                )
         for lane_seg in lane.segment_list:
             if lane_seg.type == "Straight":
                 start1 = lane_seg.start + lane_seg.width / 2 * lane_seg.direction_lateral
@@ -2213,7 +2214,7 @@ def draw_map(
                 y_min = min(y_min, min(trace_y))
                 x_max = max(x_max, max(trace_x))
                 y_max = max(y_max, max(trace_y))
-                if fill_type == "lines":
+                if fill_type == "lines" or (fill_type == "detailed" and speed_limit is None):
                     fig.add_trace(
                         go.Scatter(
                             x=trace_x,
@@ -2254,7 +2255,7 @@ def draw_map(
                     )
             else:
                 raise ValueError(f"Unknown lane segment type {lane_seg.type}")
-    if fill_type == "detailed":
+    if fill_type == "detailed" and speed_list:
         fig.add_trace(
             go.Scatter(
                 x=[0],
-- 
2.43.0


From a1b261e61312b9206bb285790775d8f0c660ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 48/57] fix: slices of reachtubes leave out tubes at a point
 outside the time interval

---
 verse/plotter/plotter2D.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/verse/plotter/plotter2D.py b/verse/plotter/plotter2D.py
index d4806be..46ad741 100644
--- a/verse/plotter/plotter2D.py
+++ b/verse/plotter/plotter2D.py
@@ -2612,20 +2612,23 @@ def reachtube_tree_single_slice(
             len(np.unique(np.array([trace[i][x_dim] for i in range(0, max_id + 1)]))) == 1
             and len(np.unique(np.array([trace[i][y_dim] for i in range(0, max_id + 1)]))) == 1
         ):
-            fig.add_trace(
-                go.Scatter(
-                    x=[trace[0][x_dim]],
-                    y=[trace[0][y_dim]],
-                    mode="markers+lines",
-                    #  fill='toself',
-                    #  fillcolor=fillcolor,
-                    #  opacity=0.5,
-                    marker={"size": 5},
-                    line_color=linecolor,
-                    line={"width": 1},
-                    showlegend=show_legend,
+            if any(
+                trace[i][0] >= t_lower and trace[i + 1][0] <= t_upper for i in range(0, max_id, 2)
+            ):
+                fig.add_trace(
+                    go.Scatter(
+                        x=[trace[0][x_dim]],
+                        y=[trace[0][y_dim]],
+                        mode="markers+lines",
+                        #  fill='toself',
+                        #  fillcolor=fillcolor,
+                        #  opacity=0.5,
+                        marker={"size": 5},
+                        line_color=linecolor,
+                        line={"width": 1},
+                        showlegend=show_legend,
+                    )
                 )
-            )
         elif combine_rect == None:
             ### may have to modify if statements
             max_id = len(trace) - 1
-- 
2.43.0


From 250ae9a5dc0e9a66efba61e2490242be9069aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 49/57] fix: star plots show the dimensions asked for

---
 verse/plotter/plotterStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/plotter/plotterStar.py b/verse/plotter/plotterStar.py
index 5b977b9..301d03a 100644
--- a/verse/plotter/plotterStar.py
+++ b/verse/plotter/plotterStar.py
@@ -63,7 +63,7 @@ def reachtube_tree_single(root,agent_id,x_dim,y_dim, color):
             for i in range(0, len(trace)):
                 #trace[i][1].show()
                 #print(trace[i][1])
-                x, y = np.array(trace[i][1].get_verts())
+                x, y = np.array(trace[i][1].get_verts(x_dim, y_dim))
                 #print(verts)
                 #x=[verts[:,0]]
                 #print(x)
-- 
2.43.0


From ba0311928cd02ef97b99024a25282158f4de9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 50/57] fix: 3D example maps take lanes and modes as enum
 members, as the other maps do

---
 verse/map/example_map/simple_map_3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verse/map/example_map/simple_map_3d.py b/verse/map/example_map/simple_map_3d.py
index facee2a..e69ed42 100644
--- a/verse/map/example_map/simple_map_3d.py
+++ b/verse/map/example_map/simple_map_3d.py
@@ -188,10 +188,10 @@ class SimpleMap6(LaneMap_3d):
             ("M21", "MoveUp", "Normal"): "T1",
         }
 
-    def h(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
+    def h_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
         return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
 
-    def h_exist(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
+    def h_exist_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
             return True
         else:
@@ -237,10 +237,10 @@ class SimpleMap7(LaneMap_3d):
             ("M21", "MoveUp", "Normal"): "T1",
         }
 
-    def h(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
+    def h_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
         return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
 
-    def h_exist(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
+    def h_exist_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
             return True
         else:
-- 
2.43.0


From ab0e8744b2b60ca2c0200b3075c33d31c7e90278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 51/57] fix: 3D arcs between two points turn by the angle
 given, also if it is not 3/2 pi

---
 verse/map/lane_segment_3d.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 0f43223..94a0ce6 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -622,17 +622,9 @@ def func_b(n):
 def get_center_radius(start, end, n, phase, right_rotate=True):
     n, end, start = np.array(n), np.array(end), np.array(start)
     assert 2 * pi > phase > 0 and np.any(start != end)
-    if right_rotate:
-        l_n = np.cross(n, start - end)
-    else:
-        l_n = np.cross(n, end - start)
+    # the lane turns counter-clockwise about n, so that the center is to its left if it turns by less than pi
+    l_n = np.cross(n, end - start)
     l_n = l_n / np.linalg.norm(l_n)
     mid = (end + start) / 2
     l = np.linalg.norm(end - start) / 2
-    if phase > pi:
-        theta = (phase - pi) / 2
-    elif phase < pi:
-        theta = phase / 2
-    else:
-        return mid, l / 2
-    return mid + l / tan(theta) * l_n, l / sin(theta)
+    return mid + l / tan(phase / 2) * l_n, l / sin(phase / 2)
-- 
2.43.0


From cc342dcaa1b498188bce810a7afc5bced5b13f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 52/57] fix: angles around 3D lanes are found for directions
 that are not unit vectors or almost parallel to an axis

---
 verse/map/lane_segment_3d.py | 107 +++++++++--------------------------
 1 file changed, 26 insertions(+), 81 deletions(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 94a0ce6..692af33 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -2,7 +2,7 @@ import numpy as np
 from typing import List
 from abc import ABCMeta, abstractmethod
 from typing import Tuple, List, Optional, Union
-from math import pi, cos, sin, acos, asin, atan, tan
+from math import pi, cos, sin, acos, asin, atan, atan2, tan
 
 from verse.utils.utils import (
     wrap_to_pi,
@@ -313,20 +313,7 @@ class CircularLane_3d_v1(AbstractLane_3d):
         self.center = np.array(center)
         self.radius = radius
         self.norm_vec = norm_vec / np.linalg.norm(norm_vec)
-        n = self.norm_vec
-        l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-        if l1 != 0:
-            l2 = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
-            self.a = np.array([n[1] / l1, -n[0] / l1, 0])
-            self.b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
-        else:
-            self.a = np.array([1, 0, 0])
-            if n[2] > 0:
-                self.b = np.array([0, 1, 0])
-            elif n[2] < 0:
-                self.b = np.array([0, -1, 0])
-            else:
-                raise ValueError
+        self.a, self.b = func_a(self.norm_vec), func_b(self.norm_vec)
         if not right_rotate:
             self.b = -self.b
         self.start_phase = start_phase
@@ -526,24 +513,10 @@ class CircularLane_3d_v2(CircularLane_3d_v1):
 
 
 def get_coor_by_rt(r, theta, n, center, right_rotate=True):
-    l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-    if l1 != 0:
-        l2 = 1.0
-        l2 = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
-        a = np.array([n[1] / l1, -n[0] / l1, 0])
-        b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
-        if not right_rotate:
-            b = -b
-        point = center + r * (a * cos(theta) + b * sin(theta))
-    else:
-        a = np.array([1, 0, 0])
-        b = np.array([0, 1, 0])
-        if n[2] < 0:
-            b = np.array([0, -1, 0])
-        if not right_rotate:
-            b = -b
-        point = center + r * (a * cos(theta) + b * sin(theta))
-    return point
+    a, b = func_a(n), func_b(n)
+    if not right_rotate:
+        b = -b
+    return center + r * (a * cos(theta) + b * sin(theta))
 
 
 def get_rtp_by_coor(point, n, center, radius, right_rotate=True):
@@ -553,7 +526,7 @@ def get_rtp_by_coor(point, n, center, radius, right_rotate=True):
     tang = tang / np.linalg.norm(tang) * radius
     outer_center = center + tang
     rget = np.linalg.norm(point - outer_center)
-    theta = get_theta_by_coor(point, norm, outer_center, rget, right_rotate)
+    theta = get_theta_by_coor(point, norm, outer_center, rget)
     phase = get_theta_by_coor(outer_center, n, center, radius, right_rotate)
     return rget, theta, phase
 
@@ -561,62 +534,34 @@ def get_rtp_by_coor(point, n, center, radius, right_rotate=True):
 def get_theta_by_coor(point, n, center, r, right_rotate=True):
     if round(r, 3) == 0:
         return 0
-    delta2 = (point - center) / r
-    num_digit1 = 5
-    l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-    if l1 != 0:
-        l2 = 1.0
-        a = np.array([n[1] / l1, -n[0] / l1, 0])
-        b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
-        if not right_rotate:
-            b = -b
-        sinx = round(delta2[2] / b[2], num_digit1)
-        if n[0] != 0:
-            cosx = round((delta2[1] - b[1] * sinx) / a[1], num_digit1)
-        if n[1] != 0:
-            cosx = round((delta2[0] - b[0] * sinx) / a[0], num_digit1)
-    else:
-        sinx = round(delta2[1], num_digit1)
-        if n[2] < 0:
-            sinx = -sinx
-        elif n[2] == 0:
-            raise ValueError
-        if not right_rotate:
-            sinx = -sinx
-        cosx = round(delta2[0], num_digit1)
-    if round(cosx, 5) == 0:
-        if sinx > 0:
-            theta = pi / 2
-        elif sinx < 0:
-            theta = 1.5 * pi
-        else:
-            theta = 0
-    else:
-        theta = atan(sinx / cosx)
-        if cosx < 0:
-            theta = pi + theta
-        elif theta < 0 and cosx > 0:
-            theta = 2 * pi + theta
-    return theta
+    delta = point - center
+    a, b = func_a(n), func_b(n)
+    if not right_rotate:
+        b = -b
+    theta = atan2(np.dot(delta, b), np.dot(delta, a))
+    if theta < -1e-9:
+        return 2 * pi + theta
+    return max(theta, 0)
 
 
 def func_a(n):
+    """The direction of angle 0 around n"""
     l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-    if l1 != 0:
-        a = np.array([n[1] / l1, -n[0] / l1, 0])
-    else:
-        a = np.array([1, 0, 0])
-    return a
+    if l1 > 1e-9 * abs(n[2]):
+        return np.array([n[1] / l1, -n[0] / l1, 0.0])
+    # n is vertical, up to rounding
+    return np.array([1.0, 0.0, 0.0])
 
 
 def func_b(n):
+    """The direction of angle pi/2 around n"""
     l1 = (n[0] ** 2 + n[1] ** 2) ** 0.5
-    if l1 != 0:
+    if l1 > 1e-9 * abs(n[2]):
         l2 = (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** 0.5
-        b = np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
-    else:
-        b = np.array([0, 1, 0])
-    return b
+        return np.array([n[0] * n[2] / l1 / l2, n[1] * n[2] / l1 / l2, -l1 / l2])
+    if n[2] == 0:
+        raise ValueError
+    return np.array([0.0, 1.0, 0.0]) if n[2] > 0 else np.array([0.0, -1.0, 0.0])
 
 
 def get_center_radius(start, end, n, phase, right_rotate=True):
-- 
2.43.0


From c2e81b969a7c85672cefd1c2ab16da0b2ef0ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 53/57] fix: lane configurations of segments keep the id

---
 verse/map/lane_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..5a7ab69 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -218,6 +218,7 @@ class StraightLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -295,6 +296,7 @@ class CircularLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
                 "start_phase": self.start_phase,
-- 
2.43.0


From 47a7b06147c57b6b5ac62b86552eff31cdabca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 54/57] fix: the craft star sensor reports agents that are not
 in a star of six dimensions

---
 verse/sensor/example_sensor/craft_star_sensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/verse/sensor/example_sensor/craft_star_sensor.py b/verse/sensor/example_sensor/craft_star_sensor.py
index a90020f..2ff9ce3 100644
--- a/verse/sensor/example_sensor/craft_star_sensor.py
+++ b/verse/sensor/example_sensor/craft_star_sensor.py
@@ -40,8 +40,6 @@ def set_states_2d_ball(cnts, disc, thing, val):
 
 def set_states_3d_ball(cnts, disc, thing, val):
     state, mode, static = val
-    transp = np.transpose(np.array(state)[:, 1:7])
-    #assert len(transp) == 6
     sets(cnts, thing, ["xp", "yp", "xd", "yd", "total_time", "cycle_time"], state[1], True)
     sets(disc, thing, ["craft_mode"], mode, False)
 
@@ -54,8 +52,6 @@ def add_states_2d_ball(cont, disc, thing, val):
 
 def add_states_3d_ball(cont, disc, thing, val):
     state, mode, static = val
-    transp = np.transpose(np.array(state)[:, 1:7])
-    #assert len(transp) == 6
     adds(cont, thing, ["xp", "yp", "xd", "yd", "total_time", "cycle_time"], state[1], True)
     adds(disc, thing, ["craft_mode"], mode, False)
 
-- 
2.43.0


From 39d12afe375cef474eace99cb516f34cbffbe4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 55/57] fix: simulate_simple keeps the types of agents apart
 from their states

---
 verse/analysis/simulator.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 5c1e81f..5adf697 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -149,9 +149,12 @@ def convertStrToEnum(inp, agent: BaseAgent, dl):
     res = inp
     for field in res.__dict__:
         for state_def_name in agent.decision_logic.state_defs:
-            if field in agent.decision_logic.state_defs[state_def_name].disc:
-                idx = agent.decision_logic.state_defs[state_def_name].disc.index(field)
-                field_type = agent.decision_logic.state_defs[state_def_name].disc_type[idx]
+            state_def = agent.decision_logic.state_defs[state_def_name]
+            if field in state_def.disc or field in state_def.static:
+                if field in state_def.disc:
+                    field_type = state_def.disc_type[state_def.disc.index(field)]
+                else:
+                    field_type = state_def.static_type[state_def.static.index(field)]
                 enum_class = getattr(dl, field_type)
                 setattr(res, field, enum_class[getattr(res, field)])
     return res
@@ -174,6 +177,10 @@ def disc_field(field: str, agent: BaseAgent):
     return False
 
 
+def static_field(field: str, agent: BaseAgent):
+    return any(field in d.static for d in agent.decision_logic.state_defs.values())
+
+
 @dataclass
 class SimConsts:
     time_step: float
@@ -879,7 +886,7 @@ class Simulator:
                         for field in env[EGO].__dict__:
                             if disc_field(field, agent):
                                 pure_dest.append(getattr(output, field))
-                            else:
+                            elif not static_field(field, agent):
                                 next_init.append(getattr(output, field))
                         satisfied_guard.append((agent_id, pure_dest, next_init, []))
                 except AssertionError:
-- 
2.43.0


From 1a621bb01ef70d0f032d34ffe495e7d819195d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 56/57] fix: tree graphs of trees with unexplored nodes

---
 verse/analysis/analysis_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index f0abb35..7032b2d 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -403,7 +403,8 @@ class AnalysisTree:
 
     @staticmethod
     def _get_len(node: AnalysisTreeNode, lens: Dict[int, int]) -> int:
-        res = len(next(iter(node.trace.values()))) + (
+        # NOTE: nodes that are not explored have no trace
+        res = max((len(trace) for trace in node.trace.values()), default=1) + (
             0 if len(node.child) == 0 else max(AnalysisTree._get_len(c, lens) for c in node.child)
         )
         lens[node.id] = res
-- 
2.43.0


From b95fcdbd388484b7dd862850218631301f1983d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:25 +0000
Subject: [PATCH 57/57] fix: predicates and configurations of 3D lane segments

---
 verse/map/lane_segment_3d.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 692af33..ca6859c 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -124,7 +124,7 @@ class AbstractLane_3d(object):
         :return: is the position on the lane?
         """
         if longitudinal is None or lateral is None:
-            longitudinal, lateral = self.local_coordinates(position)
+            longitudinal, lateral, _ = self.local_coordinates(position)
         is_on = (
             np.abs(lateral) <= self.width_at(longitudinal) / 2 + margin
             and -self.VEHICLE_LENGTH <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -140,7 +140,7 @@ class AbstractLane_3d(object):
         """
         if self.forbidden:
             return False
-        longitudinal, lateral = self.local_coordinates(position)
+        longitudinal, lateral, _ = self.local_coordinates(position)
         is_close = (
             np.abs(lateral) <= 2 * self.width_at(longitudinal)
             and 0 <= longitudinal < self.length + self.VEHICLE_LENGTH
@@ -151,12 +151,12 @@ class AbstractLane_3d(object):
         self, position: np.ndarray, longitudinal: float = None, lateral: float = None
     ) -> bool:
         if not longitudinal:
-            longitudinal, _ = self.local_coordinates(position)
+            longitudinal, _, _ = self.local_coordinates(position)
         return longitudinal > self.length - self.VEHICLE_LENGTH / 2
 
     def distance(self, position: np.ndarray):
         """Compute the L1 distance [m] from a position to the lane."""
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0)
 
     def distance_with_heading(
@@ -165,7 +165,7 @@ class AbstractLane_3d(object):
         """Compute a weighted distance in position and heading to the lane."""
         if heading is None:
             return self.distance(position)
-        s, r = self.local_coordinates(position)
+        s, r, _ = self.local_coordinates(position)
         angle = np.abs(wrap_to_pi(heading - self.heading_at(s)))
         return abs(r) + max(s - self.length, 0) + max(0 - s, 0) + heading_weight * angle
 
@@ -279,6 +279,7 @@ class StraightLane_3d(AbstractLane_3d):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -461,10 +462,13 @@ class CircularLane_3d_v1(AbstractLane_3d):
 
     def to_config(self) -> dict:
         return {
-            "class_path": get_class_path(self.__class__),
+            # NOTE: also a lane that was given by its ends is described by its center
+            "class_path": get_class_path(CircularLane_3d_v1),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
+                "norm_vec": to_serializable(self.norm_vec),
                 "start_phase": self.start_phase,
                 "end_phase": self.end_phase,
                 "right_rotate": self.right_rotate,
-- 
2.43.0

