From 3b625b8956cfd40141c6cc8de8104b6edf802b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 01/50] fix: evaluate stamps and residuals at the supplied
 state instead of a stale one

Inputs were only refreshed when the iteration number changed, so the residual of
iteration k was computed for the previous iterate (and a solve following another
one that stopped at iteration 0 started from the wrong state).
---
 src/logic/stamping/matrixstamper.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..4df36c5 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -261,9 +261,6 @@ class InputBuilder():
         self.inputs: Dict[str, StampInput]
 
         self.input_indexes = []
-
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
     
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
@@ -307,14 +304,9 @@ class InputBuilder():
             instance_idx += 1
 
     def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
-        
+
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
             self.args[self.tx_factor_index][:] = tx_factor
-- 
2.43.0


From cd9dbdc564258a77204fdbb6b747224fda729779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 02/50] fix: initialise the imaginary voltage multiplier of a
 bus at its own index

---
 src/models/components/bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/components/bus.py b/src/models/components/bus.py
index 8860183..3cc7849 100644
--- a/src/models/components/bus.py
+++ b/src/models/components/bus.py
@@ -71,7 +71,7 @@ class Bus:
         return (self.node_lambda_Vr, 1e-4)
 
     def get_Li_init(self):
-        return (self.node_lambda_Vr, 1e-4)
+        return (self.node_lambda_Vi, 1e-4)
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.node_Vr = next(node_index)
-- 
2.43.0


From fb9c9ec6b79be3b0407d9dd569e797e8807dee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 03/50] fix: leave loads unscaled when no load factor is given
 on the command line

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From 2641d2ef1a57ccddd297ecfbc3263472529b1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 04/50] fix: drop stale matrix entries when the builder is
 cleared

---
 src/logic/stamping/matrixbuilder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..47dfa89 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -39,7 +39,13 @@ class MatrixBuilder:
         self._index += 1
         
     def clear(self, retain_idx = 0):
+        #Drop everything past the retained entries, otherwise a stamping pass that
+        #produces fewer entries than the last one would leave stale values behind.
+        del self._row[retain_idx:]
+        del self._col[retain_idx:]
+        del self._val[retain_idx:]
         self._index = retain_idx
+        self._max_index = retain_idx
 
     def to_matrix(self) -> csc_matrix:
         if self.settings.debug and self._max_index != self._index:
-- 
2.43.0


From 56281292cac4ec6c5f24d038a9a3ec9d9ea4aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 05/50] fix: report a homotopy factor of zero after a completed
 homotopy

---
 src/logic/homotopycontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..18eb254 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -36,7 +36,7 @@ class HomotopyController:
             iterations = iteration_num + 1
             v_next = v_final
 
-            if not is_success:
+            if not is_success or tx_factor == 0:
                 break
 
             tx_factor -= 1
-- 
2.43.0


From bf1244ceb6cffa01b2f715888ffd6dcbe4689874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 06/50] fix: report complex power V*conj(I) for slacks,
 transformers and infeasibility sources

---
 src/logic/powerflowresults.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..3846752 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
@@ -177,11 +177,12 @@ class PowerFlowResults:
             elif isinstance(self.network.optimization, L1InfeasibilityOptimization):
                 inf_Ir = self.v_final[infeasibility_current.node_Ir_plus_inf] - self.v_final[infeasibility_current.node_Ir_minus_inf]
                 inf_Ii = self.v_final[infeasibility_current.node_Ii_plus_inf] - self.v_final[infeasibility_current.node_Ii_minus_inf]
-            P = Vr * inf_Ir
-            if P < 1e-5:
+            #The infeasibility current leaves the bus, so the power supplied to the network is negated.
+            P = -(Vr * inf_Ir + Vi * inf_Ii)
+            if abs(P) < 1e-5:
                 P = 0
-            Q = Vi * inf_Ii
-            if Q < 1e-5:
+            Q = -(Vi * inf_Ir - Vr * inf_Ii)
+            if abs(Q) < 1e-5:
                 Q = 0
 
             total_P += P
@@ -312,11 +313,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From 8b890879c2dfadccdfef3501a06fba78b3cc3be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 07/50] fix: combine several generators or shunts regulating
 one RAW bus instead of crashing

---
 src/logic/network/parsers/raw/parser.py | 30 +++++++------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..81c3984 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -199,21 +199,12 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
-                        integrated_data['generators'][idx].RMPCT += gen.rmpct
+                        #Generators hold the power they draw, which is the negative of what they supply.
+                        integrated_data['generators'][idx].P -= gen.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= gen.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= gen.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= gen.qg / global_vars.MVAbase
                         # check for discrepencies
-                        if integrated_data['generators'][idx].RemoteBus != gen.ireg:
-                            print("Discrepancy found in remote bus (%d, %d) for generators on the same bus: %i" % (
-                                integrated_data['generators'][idx].RemoteBus, gen.ireg, gen.i))
-                            # If the new generator is controlling self. Make everyone control that
-                            # if gen.ireg == 0 or gen.ireg == gen.i:
-                            #    integrated_data['generators'][idx].RemoteBus = gen.ireg
-                            #    # TODO Remove voltage controlled node and add new
                         if integrated_data['generators'][idx].Vset != gen.vs:
                             print("Discrepancy found in Vset (%f, %f) for generators on the same bus: %i" % (
                                 integrated_data['generators'][idx].Vset, gen.vs, gen.i))
@@ -273,14 +264,9 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].RMPCT += rmpct
-                    if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
-                        print("Discrepency between control buses in shunts for bus ", ss.i)
-                        # if integrated_data['generators'][gen_id].RemoteBus ==0:
-                        #    integrated_data['generators'][gen_id].RemoteBus = ss.swrem
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
 
                 else:
                     Pmax = 0
-- 
2.43.0


From 936f36522423b344c27d283e5891f4f65782b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 08/50] fix: attach RAW branch shunts to the buses of the
 branch

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..d498faf 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -320,10 +320,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 81c3984..b0e7d13 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -354,10 +354,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(br.i)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(br.j)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From 99a4dc2d89502425c5d1e9ad921557c2cb0c080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 09/50] fix: build the star bus of RAW three-winding
 transformers

---
 src/logic/network/parsers/raw/data_classes.py |  2 +-
 src/logic/network/parsers/raw/parser.py       | 23 ++++++++-----------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d498faf..d36a96b 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -484,5 +484,5 @@ class Three_xfmr_data:
 
 def integrate_3xfmrs(xfmr_data, sbase, busData, starNode, all_bus_key: typing.Dict[int, Bus]):
     # send in system sbase
-    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, -1, busData)
+    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, starNode, busData)
     return (new_3xfmr.createXfmrObject(all_bus_key))
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index b0e7d13..e8037de 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -10,6 +10,7 @@
 
 """
 
+import math
 import time
 from logic.network.parsers.raw.global_vars import global_vars
 
@@ -435,20 +436,16 @@ def parse_raw(rawfile):
         all_case_data['all_three_xfmrs'].append(x3)
         search_case_data['three_xfmrs'][(x3.i, x3.j, x3.k, x3.ckt)] = x3
         if x3.stat != 0:
-            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], -1, all_bus_key)
+            area = search_case_data['buses'][x3.i].area
+            if int(x.stat) == 4:
+                area = search_case_data['buses'][x3.j].area
+
+            #The windings all meet in an additional star bus.
+            star_bus = Bus(startNodeThreeWinding, 1, x.vmstar, x.anstar * math.pi / 180, area)
+            all_bus_key[startNodeThreeWinding] = star_bus
+            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], startNodeThreeWinding, all_bus_key)
             if new_xfmr3 != []:
-                busType = 1
-                vmInit = x.vmstar
-                vaInit = x.anstar
-                'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
-                area = search_case_data['buses'][x3.i].area
-                if int(x.stat) == 4:
-                    area = search_case_data['buses'][x3.j].area
-
-                integrated_data['buses'].append(Bus(startNodeThreeWinding, busType,
-                                                      vmInit, vaInit, area))
-                for ele in new_xfmr3:
-                    ele.to_bus = startNodeThreeWinding
+                integrated_data['buses'].append(star_bus)
                 startNodeThreeWinding += 1
                 integrated_data['xfmrs'] += new_xfmr3
 
-- 
2.43.0


From 748da73802a90b578c88645b63ca09c40cdbe253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 10/50] fix: include the constant-admittance part of RAW loads

---
 src/logic/network/parsers/raw/data_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d36a96b..f00bf1a 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,9 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        y = complex(self.yp, self.yq) / 100
+        z = 1 / y if y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, z, self.ip, self.iq)
         return (new_load)
 
 
-- 
2.43.0


From b20ac565741e97ffeff7d1c338d0912b7855b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 11/50] fix: do not report a converged iterate as a failure
 when the residual trend is checked

---
 src/logic/nrsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/nrsolver.py b/src/logic/nrsolver.py
index 5e76de6..4fc9589 100644
--- a/src/logic/nrsolver.py
+++ b/src/logic/nrsolver.py
@@ -63,7 +63,7 @@ class NRSolver:
             print(colored(f"The maximum residual for iteration {iteration_num} is {residual_max} at {residual_max_attr}", 'green')) 
             max_residual_history.append(residual_max)
 
-            if len(max_residual_history) % 50 == 0:
+            if residual_max >= self.settings.tolerance and len(max_residual_history) % 50 == 0:
                 #We check regularly if the solver is making progress and bail if not.
                 x = np.array(range(len(max_residual_history)))
                 A = np.vstack([x, np.ones(len(x))]).T
-- 
2.43.0


From b5656b5877b0eb7c6a75758f599826351b69fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 12/50] fix: print residuals in the verbose result display

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 3846752..91070b3 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -203,8 +203,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx, residual in enumerate(self.residuals.residuals):
+                print(f'Residual {idx}: {residual:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From e907a25f535bd2ac121d5f55e8ff53f20b2c9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 13/50] fix: compare nominal voltages across every
 non-transformer connection of two nodes

---
 src/logic/graphanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/graphanalyzer.py b/src/logic/graphanalyzer.py
index 9ecd8c0..c8664f6 100644
--- a/src/logic/graphanalyzer.py
+++ b/src/logic/graphanalyzer.py
@@ -77,7 +77,7 @@ class GraphAnalyzer:
                         raise Exception(f"Node {bus.NodeName} nominal voltage is not consistent with other nominal voltages in voltage region.")
 
     def get_nominal_voltage_islands(self):
-        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if type(e['element_list'][0]) not in [CenterTapTransformer, Transformer, Regulator]]
+        non_xfmr_edges = [(u,v) for u,v,e in self.G.edges(data=True) if any(type(element) not in [CenterTapTransformer, Transformer, Regulator] for element in e['element_list'])]
 
         xfmr_islands = self.G.edge_subgraph(non_xfmr_edges)
 
-- 
2.43.0


From d13909df043dc149fa2d0c896149b715c66db659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 14/50] fix: tolerate another process creating the derivative
 cache directory

---
 src/logic/stamping/lagrangepickler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 67d32c9..2b98836 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -8,8 +8,7 @@ class LagrangePickler:
         dill.settings['recurse'] = True
 
         self.pickle_dir = os.path.join(tempfile.gettempdir(), "combined-txds-lagrange-pickler")
-        if not os.path.exists(self.pickle_dir):
-            os.makedirs(self.pickle_dir)
+        os.makedirs(self.pickle_dir, exist_ok=True)
 
     def _get_pickle_file(self, lagrange_key):
         sha1 = hashlib.sha1()
-- 
2.43.0


From 59a8c2f44e1b6ba717d3fc24c65e4f3ccb0cb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 15/50] fix: use the conductor radius in feet for overhead line
 charging, and none without earth distances

---
 src/ditto/readers/gridlabd/line_impedance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..ebe262d 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -497,9 +497,12 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
             has_neutral = True
 
         i = rev_lookup[i_wire.phase]
+        if distances[i][earth_index] == -1:
+            return None
+
         indexes.append(i)
         S[i, i] = 2 * distances[i][i]
-        RD[i] = i_wire.diameter / 2
+        RD[i] = i_wire.diameter / (2 * 12) #Convert from inches to feet
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
-- 
2.43.0


From 3e91ab1d127fd7e927d5c8ab866f4a5b361a3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 16/50] fix: close GLM switches and fuses by default and honour
 per-phase and blown states

---
 src/ditto/readers/gridlabd/read.py            | 111 ++++--------------
 .../parsers/threephase/threephaseparser.py    |   4 +-
 2 files changed, 24 insertions(+), 91 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..1116554 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -701,54 +701,21 @@ class Reader(AbstractReader):
                     pass
 
                 wires = []
-                try:
-                    status = obj["phase_A_status"]
+                for p in phases:
                     api_wire = Wire(model)
-                    api_wire.phase = "A"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
+                    api_wire.phase = p
 
-                try:
-                    status = obj["phase_B_status"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "B"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
+                    #Phases without a state of their own follow the overall status, and are closed by default.
+                    status = "CLOSED"
+                    for prop in [f"phase_{p}_status", "status"]:
+                        try:
+                            status = obj[prop]
+                            break
+                        except AttributeError:
+                            pass
 
-                try:
-                    status = obj["phase_C_status"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "C"
-                    if status == "BLOWN" or status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
+                    api_wire.is_open = status == "BLOWN" or status == "OPEN"
                     wires.append(api_wire)
-                except AttributeError:
-                    pass
-
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
 
                 api_line.wires = wires
 
@@ -772,53 +739,21 @@ class Reader(AbstractReader):
                     pass
 
                 wires = []
-                try:
-                    status = obj["phase_A_state"]
+                for p in phases:
                     api_wire = Wire(model)
-                    api_wire.phase = "A"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
-                try:
-                    status = obj["phase_B_state"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "B"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
+                    api_wire.phase = p
 
-                try:
-                    status = obj["phase_C_state"]
-                    api_wire = Wire(model)
-                    api_wire.phase = "C"
-                    if status == "OPEN":
-                        api_wire.is_open = True
-                    else:
-                        api_wire.is_open = False
-                    wires.append(api_wire)
-                except AttributeError:
-                    pass
+                    #Phases without a state of their own follow the overall status, and are closed by default.
+                    status = "CLOSED"
+                    for prop in [f"phase_{p}_state", "status"]:
+                        try:
+                            status = obj[prop]
+                            break
+                        except AttributeError:
+                            pass
 
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
+                    api_wire.is_open = status == "OPEN"
+                    wires.append(api_wire)
 
                 api_line.wires = wires
 
diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..ab6302a 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -287,9 +287,7 @@ class ThreePhaseParser:
 
                 current_limit = float(model.current_limit)
 
-                fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                fuse_status = FuseStatus.BLOWN if wire.is_open else FuseStatus.GOOD
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From dab611ada87a34b97bf93e18354c483404fd2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 17/50] fix: use only the conductors of a GLM line's own
 phases, at their own distances

---
 src/ditto/readers/gridlabd/line_impedance.py |  6 ++++++
 src/ditto/readers/gridlabd/read.py           | 22 +++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index ebe262d..294e835 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -597,6 +597,12 @@ def compute_underground_capacitance(wire_list):
 
     return capacitance_matrix
 
+#Selects and orders the rows and columns of the distance matrix by the phase of each wire.
+def select_wire_distances(wire_list, distances):
+    indexes = [rev_lookup[wire.phase] for wire in wire_list]
+
+    return distances[:, indexes][indexes, :]
+
 def compute_overhead_impedance(wire_list, distances, phases, has_neutral, freq=60, resistivity=100, kron_reduce=True):
     matrix = np.zeros((4,4)).astype(complex)
 
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1116554..e8ec2f6 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -812,6 +812,12 @@ class Reader(AbstractReader):
                     except AttributeError:
                         pass
 
+                    #The configuration can have conductors for phases that the line does not have.
+                    conductors = {
+                        api_wire: cond_name for api_wire, cond_name in conductors.items()
+                        if api_wire.phase in phases or (api_wire.phase == "N" and has_neutral)
+                    }
+
                     # Pass by reference so the conductors are updated in dictionary when api_wire is changed
                     for api_wire in conductors:
                         cond_name = conductors[api_wire]
@@ -872,8 +878,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix == None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
-                    impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
+                    wire_distances = select_wire_distances(wire_list, distances)
+                    impedance_matrix = compute_overhead_impedance(wire_list, wire_distances, phases, has_neutral)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
@@ -1078,6 +1084,12 @@ class Reader(AbstractReader):
                     except AttributeError:
                         pass
 
+                    #The configuration can have conductors for phases that the line does not have.
+                    conductors = {
+                        api_wire: cond_name for api_wire, cond_name in conductors.items()
+                        if api_wire.phase in phases or (api_wire.phase == "N" and has_neutral)
+                    }
+
                     # Neutral may be concentric for underground cables or may be a separate wire
                     # TODO: consider other attributes of underground cables?
                     for api_wire in conductors:
@@ -1172,8 +1184,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix is None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
-                    impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
+                    wire_distances = select_wire_distances(wire_list, distances)
+                    impedance_matrix = compute_underground_impedance(wire_list, wire_distances)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-- 
2.43.0


From 8326a09d11eccd564d00aa1cab74205cbbc737dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 18/50] fix: do not reuse the previous line's spacing for a GLM
 line without one

---
 src/ditto/readers/gridlabd/read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index e8ec2f6..74770ea 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, select_wire_distances, num_dists, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -862,6 +862,7 @@ class Reader(AbstractReader):
                         except AttributeError:
                             pass
 
+                    distances = np.full((num_dists, num_dists), -1)
                     spacing_name = None
                     try:
                         spacing_name = config["spacing"]
@@ -1165,6 +1166,7 @@ class Reader(AbstractReader):
                         except AttributeError:
                             pass
 
+                    distances = np.full((num_dists, num_dists), -1)
                     spacing_name = None
                     try:
                         spacing_name = config["spacing"]
-- 
2.43.0


From e6fbdb49125ec6fa10e2fa04f0548b3e8b118cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 19/50] fix: keep GLM conductor data intact when several lines
 share it

---
 src/ditto/readers/gridlabd/read.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 74770ea..a791ccd 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -832,8 +832,8 @@ class Reader(AbstractReader):
 
                         try:
                             if conductor["geometric_mean_radius"].find('cm') != -1:
-                                conductor["geometric_mean_radius"] = remove_nonnum.sub('', conductor["geometric_mean_radius"])
-                                api_wire.gmr = float(conductor["geometric_mean_radius"]) / 30.48 # convert cm to feet
+                                gmr = remove_nonnum.sub('', conductor["geometric_mean_radius"])
+                                api_wire.gmr = float(gmr) / 30.48 # convert cm to feet
                             else:
                                 api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
@@ -841,10 +841,10 @@ class Reader(AbstractReader):
                         try:
                             if conductor["resistance"].find('Ohm/km') != -1:
                                 # Convert Ohm/km into Ohm/mi
-                                conductor["resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["resistance"])
                                 api_wire.resistance = float(
-                                    conductor["resistance"]) * 1.609344
+                                    resistance) * 1.609344
                             else:
                                 api_wire.resistance = float(conductor["resistance"])
                         except AttributeError:
@@ -1127,10 +1127,10 @@ class Reader(AbstractReader):
                         # set resistance to be the conductor resistance for underground cables
                         try:
                             if conductor["conductor_resistance"].find('Ohm/km') != -1:
-                                conductor["conductor_resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["conductor_resistance"])
                                 api_wire.resistance = float(
-                                    conductor["conductor_resistance"]) * 1.609344
+                                    resistance) * 1.609344
                             else:
                                 # NOTE: There doesn't seem to be inclusion of taped shielding GMR or resistance here
                                 # They seem to be assumed to be zero
-- 
2.43.0


From f978810bdb9ce63888454e49e8ce0f10ee976b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 20/50] fix: read kV secondary voltages of GLM centre-tap
 transformers

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index a791ccd..8c3c3bc 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -459,7 +459,7 @@ class Reader(AbstractReader):
                                     winding2.nominal_voltage = float(
                                         low_voltage)
                                 if num_windings == 3:
-                                    winding3.nominal_voltage = -float(low_voltage) # To indicate the 180 degree phase shift
+                                    winding3.nominal_voltage = -winding2.nominal_voltage # To indicate the 180 degree phase shift
                             except AttributeError:
                                 pass
 
-- 
2.43.0


From 61a13a0aff420f186fa2c043f69b442c96a8f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 21/50] fix: map GLM child nodes to their parents in any file
 order

---
 .../parsers/threephase/threephaseparser.py    | 91 +++++++++++--------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index ab6302a..0745671 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -88,47 +88,58 @@ class ThreePhaseParser:
     # GridlabD buses default to being "PQ" constant power buses (aka loads)
     # They could also be "PV" voltage-controlled magnitude buses (aka generators)
     def create_buses(self, network_model: DxNetworkModel):
-        for model in self.ditto_store.models:
+        node_types = (ditto.models.node.Node, ditto.models.power_source.PowerSource)
+        nodes = [model for model in self.ditto_store.models if isinstance(model, node_types)]
+        parents = {model.name: model.parent for model in nodes}
+
+        def count_ancestors(model):
+            ancestors = []
+            parent = model.parent
+            while parent is not None and parent not in ancestors:
+                ancestors.append(parent)
+                parent = parents.get(parent)
+            return len(ancestors)
+
+        #Parents can be defined after their children.
+        for model in sorted(nodes, key=count_ancestors):
+            isSlack = False
+            if isinstance(model, ditto.models.power_source.PowerSource) or (hasattr(model, "bustype") and model._bustype == "SWING"):
+                isSlack = True
+
+            for phase in model.phases:
+                if phase in self._phase_to_angle:
+                    if model.parent != None:
+                        #For now, just map any child nodes back to their parent.
+                        bus = network_model.bus_name_map[model.parent + "_" + phase]
+                        network_model.bus_name_map[model.name + "_" + phase] = bus
+                    elif model.connecting_element != None:
+                        bus = network_model.bus_name_map[model.connecting_element + "_" + phase]
+                    else:
+                        v_mag = model.nominal_voltage
+                        v_ang = self._phase_to_angle[phase]
+
+                        try:
+                            #For L1 and L2 on triplex, we always use the nominal magnitude and phase for v_init.
+                            if not phase in ["1", "2"]:
+                                voltage = getattr(model, "voltage_" + phase)
+                                v_mag = abs(voltage)
+                                v_ang = cmath.phase(voltage)
+                        except:
+                            pass
+
+                        bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
 
-            if isinstance(model, ditto.models.node.Node) or isinstance(model, ditto.models.power_source.PowerSource):
-                isSlack = False
-                if isinstance(model, ditto.models.power_source.PowerSource) or (hasattr(model, "bustype") and model._bustype == "SWING"):
-                    isSlack = True
-
-                for phase in model.phases:
-                    if phase in self._phase_to_angle:
-                        if model.parent != None:
-                            #For now, just map any child nodes back to their parent.
-                            bus = network_model.bus_name_map[model.parent + "_" + phase]
-                            network_model.bus_name_map[model.name + "_" + phase] = bus
-                        elif model.connecting_element != None:
-                            bus = network_model.bus_name_map[model.connecting_element + "_" + phase]
-                        else:
-                            v_mag = model.nominal_voltage
-                            v_ang = self._phase_to_angle[phase]
-
-                            try:
-                                #For L1 and L2 on triplex, we always use the nominal magnitude and phase for v_init.
-                                if not phase in ["1", "2"]:
-                                    voltage = getattr(model, "voltage_" + phase)
-                                    v_mag = abs(voltage)
-                                    v_ang = cmath.phase(voltage)
-                            except:
-                                pass
-
-                            bus = self.create_bus(network_model, v_mag, v_ang, model.name, phase, False)
-
-                            if phase == "1":
-                                bus.Vr_init = -60.0
-                                bus.Vi_init = 103.92
-                            elif phase == "2":
-                                bus.Vr_init = 60.0
-                                bus.Vi_init = -103.92
-
-                        if isSlack:
-                            # Create this phase of the slack bus
-                            slack = Slack(bus, v_mag, v_ang, 0, 0)
-                            network_model.slack.append(slack)
+                        if phase == "1":
+                            bus.Vr_init = -60.0
+                            bus.Vi_init = 103.92
+                        elif phase == "2":
+                            bus.Vr_init = 60.0
+                            bus.Vi_init = -103.92
+
+                    if isSlack:
+                        # Create this phase of the slack bus
+                        slack = Slack(bus, v_mag, v_ang, 0, 0)
+                        network_model.slack.append(slack)
 
     def create_bus(self, network_model, v_mag, v_ang, node_name, node_phase, is_virtual):
         bus_id = next(self._bus_index)
-- 
2.43.0


From 130f2f527951badbc7bd771e96c2bf6c4b8e5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 22/50] fix: let GLM capacitors without a control setting be
 switched manually

---
 src/logic/network/parsers/threephase/threephaseparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 0745671..327533f 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -203,7 +203,8 @@ class ThreePhaseParser:
             if not phase_capacitor.phase in model.connected_phases:
                 continue
 
-            mode = CapacitorMode[gld_cap._control]
+            #Gridlabd defaults to manual control.
+            mode = CapacitorMode[getattr(gld_cap, "_control", "MANUAL")]
             if mode == CapacitorMode.VOLT and (model.high == None or model.low == None):
                 #https://github.com/gridlab-d/gridlab-d/blob/9f0a09853280bb3515f8236b8af3192304759650/powerflow/capacitor.cpp#L320-L325
                 mode = CapacitorMode.MANUAL
-- 
2.43.0


From f037167090cf6ec00647b0da172516901a80c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 23/50] fix: accept GLM delta loads that name phase pairs

---
 src/ditto/readers/gridlabd/load_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 298cdfb..cb3a650 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -196,6 +196,8 @@ class LoadParser:
                 phaseload.phase = "BC"
             elif phase == "C":
                 phaseload.phase = "CA"
+            else:
+                phaseload.phase = phase
         else:
             phaseload.phase = phase
         phaseload.p = 0  # Default value
-- 
2.43.0


From 9493969db68ae170c52f83a246a338e1118e3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 24/50] fix: keep exponents when stripping units from GLM
 numbers

---
 src/ditto/readers/gridlabd/line_impedance.py | 2 +-
 src/ditto/readers/gridlabd/read.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 294e835..f376947 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -5,7 +5,7 @@ import math
 
 logger = logging.getLogger(__name__)
 
-remove_nonnum = re.compile(r'[^\d.]+')
+remove_nonnum = re.compile(r'[^\d.]+$')
 
 lookup = ["A", "B", "C", "N", "E"]
 num_dists = len(lookup)
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 8c3c3bc..c91eeed 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -26,7 +26,7 @@ from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
 
 logger = logging.getLogger(__name__)
 
-remove_nonnum = re.compile(r'[^\d.]+')
+remove_nonnum = re.compile(r'[^\d.]+$')
 
 meters_per_mile = 1609.344
 
-- 
2.43.0


From 76513ab03199e1c5c965680afec88d00257007b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 25/50] fix: convert GLM values with separated units to the
 default units

---
 src/ditto/readers/gridlabd/read.py | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index c91eeed..f72841a 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -65,6 +65,43 @@ shared_config_objects = [
     'overhead_line_conductor'
 ]
 
+# The units of values that are given without a unit.
+default_units = {
+    "length": "ft",
+    "nominal_voltage": "V",
+    "primary_voltage": "V",
+    "secondary_voltage": "V",
+    "cap_nominal_voltage": "V",
+    "power_rating": "kVA",
+    "powerA_rating": "kVA",
+    "powerB_rating": "kVA",
+    "powerC_rating": "kVA",
+    "resistance": "Ohm/mile",
+    "conductor_resistance": "Ohm/mile",
+    "neutral_resistance": "Ohm/mile",
+    "geometric_mean_radius": "ft",
+    "conductor_gmr": "ft",
+    "neutral_gmr": "ft",
+    "capacitor_A": "VAr",
+    "capacitor_B": "VAr",
+    "capacitor_C": "VAr",
+}
+
+# Factors from a given unit to the default unit.
+unit_factors = {
+    ("mile", "ft"): 5280.0,
+    ("km", "ft"): 1e3 / 0.3048,
+    ("m", "ft"): 1 / 0.3048,
+    ("cm", "ft"): 1 / 30.48,
+    ("in", "ft"): 1 / 12,
+    ("kV", "V"): 1e3,
+    ("MVA", "kVA"): 1e3,
+    ("VA", "kVA"): 1e-3,
+    ("Ohm/km", "Ohm/mile"): 1.609344,
+    ("ohm/km", "Ohm/mile"): 1.609344,
+    ("kVAr", "VAr"): 1e3,
+}
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -134,6 +171,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                     if len(entries) > 2:
                         units = entries[2]
                         # TODO: Deal with units correctly
+                        factor = unit_factors.get((units, default_units.get(element)))
+                        if factor is not None:
+                            value = str(float(value) * factor)
                         if obj_class == "line_spacing" and units == "in":
                             value = str(float(value) / 12)
                         if obj_class == "capacitor" and units == "MVAr":
-- 
2.43.0


From d92b7ab175fc670510eb2feace125be5a437ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 26/50] fix: use the image distance between conductors of
 unequal height

---
 src/ditto/readers/gridlabd/line_impedance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index f376947..7e6915c 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -518,8 +518,9 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
                 _horizDist = 0
                 _vertDist = 2 * phase_earth_dist
             if phasepair in ["AB", "BA", "AC", "CA", "BC", "CB"]:
-                _horizDist = phase_phase_dist
-                _vertDist = 2 * phase_earth_dist
+                other_earth_dist = distances[j][earth_index]
+                _horizDist = (phase_phase_dist ** 2 - (phase_earth_dist - other_earth_dist) ** 2) ** 0.5
+                _vertDist = phase_earth_dist + other_earth_dist
             elif phasepair in ["AN", "NA", "BN", "NB", "CN", "NC"]:
                 _horizDist = (phase_neutral_dist ** 2 - (phase_earth_dist - neutral_earth_dist) ** 2) ** 0.5
                 _vertDist = phase_earth_dist + neutral_earth_dist
-- 
2.43.0


From 5da447cf70b85915d141a26778a6f92be2f144f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 27/50] fix: do not let objects nested in a GLM object
 overwrite its properties

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index f72841a..317faa4 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -164,7 +164,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 if len(row) > 0 and row.find(";") != -1:	
                     row = row[:row.find(";")]
                 entries = row.split()
-                if len(entries) > 1:
+                if len(entries) > 1 and not ignore_elements:
                     element = entries[0]
                     value = entries[1].replace('"', "")
 
-- 
2.43.0


From b448f37d2c828ae01ca483fe3fb117d02d0b0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 28/50] fix: read constant-current loads of GLM triplex nodes

---
 src/ditto/readers/gridlabd/load_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index cb3a650..62b19ea 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -135,6 +135,16 @@ class LoadParser:
         except AttributeError:
             pass
 
+        try:
+            phaseload = self.__create_phaseload(model, phase, is_delta)
+            complex_current = complex(obj[f"current_{phase}"])
+            if abs(complex_current) != 0:
+                phaseload.i_const = complex_current
+                phaseload.model = 5  # The opendss model number (specifying constant current)
+                yield phaseload
+        except AttributeError:
+            pass
+
         try:
             phaseload = self.__create_phaseload(model, phase, is_delta)
             complex_current = complex(obj[f"constant_current_{phase}"])
-- 
2.43.0


From 68f1e53c9721f8624e09b7db19e7934fadf32223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 29/50] fix: keep loads and capacitors connected to ground when
 selecting an island

---
 src/logic/network/timeseriesprocessor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..d768ff3 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -86,9 +87,11 @@ class TimeSeriesProcessor:
         for idx in generator_to_remove:
             del self.powerflow.network.generators[idx]
 
+        remaining_buses = self.powerflow.network.buses + [GROUND]
+
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if load.from_bus not in remaining_buses or load.to_bus not in remaining_buses:
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -117,7 +120,7 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if capacitor.from_bus not in remaining_buses or capacitor.to_bus not in remaining_buses:
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
-- 
2.43.0


From 73b46233bda83e5f52db194b9e083bcc722aa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 30/50] fix: drop the infeasibility currents of discarded buses
 when selecting an island

---
 src/logic/network/timeseriesprocessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index d768ff3..56e53cf 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -125,6 +125,10 @@ class TimeSeriesProcessor:
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
 
+        optimization = self.powerflow.network.optimization
+        if optimization is not None:
+            optimization.infeasibility_currents = [current for current in optimization.infeasibility_currents if current.bus in self.powerflow.network.buses]
+
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
-- 
2.43.0


From 90f265743a2cb1aa677f833b5a2fb523aeefeede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 31/50] fix: keep a load's power factor angle through hours
 with zero or negative load

---
 src/logic/network/timeseriesprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 56e53cf..f62de88 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -21,6 +21,7 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -133,6 +134,8 @@ class TimeSeriesProcessor:
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
             self.powerflow.network.load_name_map[load_name] = phase_load
+            # The load data only scales a load's magnitude, so each load keeps the power factor angle it was defined with
+            self.load_angles[load_name] = math.atan2(phase_load.Q, phase_load.P)
 
     def get_load_name(self, phase_load):
         if phase_load.phase.isalpha():
@@ -158,7 +161,7 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            angle = self.load_angles[load_name]
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From 08db50eb14b05a94fe523691b405ac679e99e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:56 +0000
Subject: [PATCH 32/50] fix: stop adjusting the generating loads when the power
 flow failed

---
 src/logic/network/timeseriesprocessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index f62de88..b154d05 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -169,6 +169,10 @@ class TimeSeriesProcessor:
     def adjust_generator_output(self, snapshot_results: PowerFlowResults):
         if self.settings.artificialswingbus is None or self.settings.negativeloads is None:
             return False
+
+        if not snapshot_results.is_success:
+            # A power flow that failed gives no swing bus output to adjust by
+            return False
         
         swingbusoutputs = [(gen_result.generator.bus.NodePhase, gen_result.P, gen_result.Q) for gen_result in snapshot_results.generator_results if gen_result.generator.bus.NodeName == self.settings.artificialswingbus]
         if sum(abs(complex(p, q)) for phase,p,q in swingbusoutputs) < self.THRESHOLD:
-- 
2.43.0


From f37fae0c5a80c542dd0cff979a1b30f670bff575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 33/50] fix: write the results of a run with an artificial
 swing bus to the output file

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 505fc0f..6230077 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -84,7 +84,7 @@ def main():
 
         if results is not None:
             results.display(verbose=False)
-            # results.output(outputfile)
+            results.output(outputfile)
             return
     except Exception as e:
         print(e)
-- 
2.43.0


From 297211768d14eb1086ef66c3856cb0fcb06b8300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:29 +0000
Subject: [PATCH 34/50] fix: write derivative cache entries atomically

---
 src/logic/stamping/lagrangepickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 2b98836..f5dcc6c 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -33,4 +33,8 @@ class LagrangePickler:
 
     def try_pickle(self, lagrange_key, derivatives):
         pickle_file = self._get_pickle_file(lagrange_key)
-        dill.dump(derivatives, open(pickle_file, "wb" ) )
\ No newline at end of file
+        # Other processes may be reading or writing the same entry, so only ever expose a complete file.
+        temp_file = f"{pickle_file}.{os.getpid()}"
+        with open(temp_file, "wb") as f:
+            dill.dump(derivatives, f)
+        os.replace(temp_file, pickle_file)
\ No newline at end of file
-- 
2.43.0


From b015c8974be896cc82011a8134b8a04340da8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 35/50] fix: tell cached derivatives apart by their whole
 digest

---
 src/logic/stamping/lagrangepickler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index f5dcc6c..4c804f1 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -14,7 +14,6 @@ class LagrangePickler:
         sha1 = hashlib.sha1()
         sha1.update(lagrange_key.encode('utf8'))
         hash = sha1.hexdigest()
-        hash = hash[:10]
         return os.path.join(self.pickle_dir, f"{hash}.p")
 
     def has_pickle(self, lagrange_key):
-- 
2.43.0


From 561ee37289db15ba7eeea4b55f24855c83ce8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:50 +0000
Subject: [PATCH 36/50] fix: tell the network file format by the file's name
 only

---
 src/logic/network/networkloader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/networkloader.py b/src/logic/network/networkloader.py
index 713e88c..51b9e89 100644
--- a/src/logic/network/networkloader.py
+++ b/src/logic/network/networkloader.py
@@ -42,9 +42,12 @@ class NetworkLoader:
         print(f"Loading network file: {network_uri}")
         network_file = pull_network_file(network_uri)
 
-        if ".glm" in network_file:
+        #The directories of the path say nothing about the format.
+        file_name = os.path.basename(network_file)
+
+        if ".glm" in file_name:
             network = self.__parse_glm_network(network_file)
-        elif ".RAW" in network_file:
+        elif ".RAW" in file_name:
             network =  self.__parse_RAW_network(network_file)
         else:
             raise Exception("Unknown network file format")
-- 
2.43.0


From f996d0f1237bd5d37729380ac79fba5c5c08ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:22 +0000
Subject: [PATCH 37/50] fix: include the coupling of the other phases in the
 line currents checked against ratings

---
 src/logic/network/timeseriesprocessor.py |  4 ++--
 src/logic/powerflowresults.py            | 21 +++++++++++++--------
 src/models/components/unbalanced_line.py | 10 +++++++---
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index b154d05..813f1d2 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -193,8 +193,8 @@ class TimeSeriesProcessor:
         exceeds_rating = False
         # Ensure that no lines have current flowing through them that exceeds their rating
         for line in self.powerflow.network.lines:
-            for (idx, g, b, phase_line) in line.loop_lines():
-                line_result = LineResult(phase_line, snapshot_results, g, b)
+            for (idx, couplings, phase_line) in line.loop_lines():
+                line_result = LineResult(phase_line, snapshot_results, couplings)
                 line_current = complex(line_result.get_Ir(), line_result.get_Ii())
                 if (line.ampacities[idx] is not None and abs(line_current) > line.ampacities[idx]):
                     print(f"Line current {line_current} exceeds emergency ampacity {line.ampacities[idx]}")
diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 91070b3..a95c56c 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -346,21 +346,26 @@ class CenterTapTransformerResult:
     def csv_string(self) -> str:
         return f'{self.from_bus.Bus},CenterTapTransformer,{"{:.2f}".format(self.get_P())},{"{:.2f}".format(self.get_Q())}\n'
 
-# BROKEN, THIS HAS TO USE __loop_line_stampers INSTEAD I THINK
-
 class LineResult:
-    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, g, b):
+    def __init__(self, line: UnbalancedLinePhase, snapshot_results: PowerFlowResults, couplings):
         self.line = line
-        self.v_final = snapshot_results.v_final
+        v_final = snapshot_results.v_final
         self.from_bus, self.to_bus = line.get_nodes(snapshot_results.network)
-        self.g = g
-        self.b = b
+
+        self.Ir = 0
+        self.Ii = 0
+        for (g, b, coupled_line) in couplings:
+            coupled_from, coupled_to = coupled_line.get_nodes(snapshot_results.network)
+            Vr = v_final[coupled_from.node_Vr] - v_final[coupled_to.node_Vr]
+            Vi = v_final[coupled_from.node_Vi] - v_final[coupled_to.node_Vi]
+            self.Ir += Vr * g - Vi * b
+            self.Ii += Vr * b + Vi * g
 
     def get_Ir(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.g - (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.b
+        return self.Ir
 
     def get_Ii(self):
-        return (self.v_final[self.from_bus.node_Vr] - self.v_final[self.to_bus.node_Vr]) * self.b + (self.v_final[self.from_bus.node_Vi] - self.v_final[self.to_bus.node_Vi]) * self.g
+        return self.Ii
 
     def __str__(self) -> str:
         return f'Line from bus {self.from_bus.Bus} to {self.to_bus.Bus} I: complex({"{:.2f}".format(self.get_Ir())}, {"{:.2f}".format(self.get_Ii())})'
diff --git a/src/models/components/unbalanced_line.py b/src/models/components/unbalanced_line.py
index 0495732..21627ea 100644
--- a/src/models/components/unbalanced_line.py
+++ b/src/models/components/unbalanced_line.py
@@ -225,6 +225,10 @@ class UnbalancedLine():
     def loop_lines(self):
         # Go through all phases
         for idx, line in enumerate(self.lines):
-            g = np.real(self.admittances[idx][idx])
-            b = np.imag(self.admittances[idx][idx])
-            yield (idx, g, b, line)
+            # The current of a phase depends on the voltage drops of every phase of the line
+            couplings = []
+            for idx2, line2 in enumerate(self.lines):
+                g = np.real(self.admittances[idx][idx2])
+                b = np.imag(self.admittances[idx][idx2])
+                couplings.append((g, b, line2))
+            yield (idx, couplings, line)
-- 
2.43.0


From c1d2d25edc09da007b5a1c735a840c3ce133fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:08 +0000
Subject: [PATCH 38/50] fix: compare the power of a transformer phase with its
 share of the rating

---
 src/logic/network/parsers/threephase/transformerparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/threephase/transformerparser.py b/src/logic/network/parsers/threephase/transformerparser.py
index d7d349e..ed47343 100644
--- a/src/logic/network/parsers/threephase/transformerparser.py
+++ b/src/logic/network/parsers/threephase/transformerparser.py
@@ -149,7 +149,7 @@ class TransformerParser:
                 phase_shift, 
                 g_shunt,
                 b_shunt,
-                winding1.rated_power
+                winding1.rated_power / len(phase_list) #The rating is that of all phases together.
                 )
             
             network_model.transformers.append(xfmr)
-- 
2.43.0


From 7b9323a910015934af602af5170c9d74a63cf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:16 +0000
Subject: [PATCH 39/50] fix: read the impedance matrix a GLM line configuration
 gives directly

z11 ... z33 were looked up under a name the configuration object never
has, so a configuration with conductors had its matrix ignored and one
without conductors was refused as singular.
---
 src/ditto/readers/gridlabd/line_impedance.py | 23 +++++++++-----
 src/ditto/readers/gridlabd/read.py           | 33 ++++++++++++++------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 7e6915c..dcdd957 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -776,24 +776,31 @@ def compute_triplex_impedance(wire_list, freq=60, resistivity=100, kron_reduce=T
 
     return matrix
 
-def try_load_direct_line_impedance(line_config):
+def try_load_direct_line_impedance(line_config, phases):
     #It is possible to specify the line impedance directly in Z matrix form:
     #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
 
     impedance_matrix = None
     for property_number in line_direct_lookup.keys():
-        prop_name = f"z{property_number}"
-        if not hasattr(line_config, prop_name):
+        try:
+            value = line_config[f"z{property_number}"]
+        except AttributeError:
             continue
 
-        if impedance_matrix == None:
+        if impedance_matrix is None:
             impedance_matrix = np.zeros((3,3)).astype(complex)
-        
+
         i, j = line_direct_lookup[property_number]
 
-        impedance_matrix[i][j] = complex(line_config[prop_name])
-    
-    return impedance_matrix
+        impedance_matrix[i][j] = complex(value.split()[0]) #The unit can follow the value.
+
+    if impedance_matrix is None:
+        return None
+
+    #The configuration has a row and a column for each phase, whether or not the line has it.
+    indices = [rev_lookup[phase] if phase in rev_lookup else int(phase) - 1 for phase in phases]
+
+    return impedance_matrix[np.ix_(indices, indices)]
 
 def try_load_direct_line_capacitance(line_config):
     #It is possible to specify the line capacitance directly in Z matrix form:
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 317faa4..8f6d5b7 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -255,6 +255,15 @@ def convert_Z_matrix_per_mile_to_per_meter(z_matrix):
 
     return z_matrix.tolist()
 
+def create_wires(model, phases):
+    #A configuration that specifies the line matrices directly has no need for conductors.
+    wires = []
+    for phase in sorted(phases):
+        api_wire = Wire(model)
+        api_wire.phase = phase
+        wires.append(api_wire)
+    return wires
+
 class Reader(AbstractReader):
     """
     The schema is read in gridlabd.py which is imported as a module here.
@@ -914,11 +923,12 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = list(conductors.keys()) or create_wires(model, phases)
+                wire_phases = [api_wire.phase for api_wire in wire_list if api_wire.phase != "N"]
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_phases)
 
-                if impedance_matrix == None:
+                if impedance_matrix is None:
                     wire_distances = select_wire_distances(wire_list, distances)
                     impedance_matrix = compute_overhead_impedance(wire_list, wire_distances, phases, has_neutral)
 
@@ -926,7 +936,7 @@ class Reader(AbstractReader):
 
                 capacitance_matrix = try_load_direct_line_capacitance(config)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and conductors:
                     capacitance_matrix = compute_overhead_capacitance(wire_list, distances)
                 
                 if capacitance_matrix is not None:
@@ -1058,9 +1068,10 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = list(conductors.keys()) or create_wires(model, ["1", "2"])
+                wire_phases = [api_wire.phase for api_wire in wire_list if api_wire.phase != "N"]
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_phases)
 
                 if impedance_matrix is None:
                     impedance_matrix = compute_triplex_impedance(wire_list)
@@ -1221,9 +1232,10 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                wire_list = list(conductors.keys()) or create_wires(model, phases)
+                wire_phases = [api_wire.phase for api_wire in wire_list if api_wire.phase != "N"]
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, wire_phases)
 
                 if impedance_matrix is None:
                     wire_distances = select_wire_distances(wire_list, distances)
@@ -1233,10 +1245,11 @@ class Reader(AbstractReader):
 
                 capacitance_matrix = try_load_direct_line_capacitance(config)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and conductors:
                     capacitance_matrix = compute_underground_capacitance(wire_list)
                 
-                api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
+                if capacitance_matrix is not None:
+                    api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
 
                 api_line.wires = wire_list
 
-- 
2.43.0


From 34f20466b11d47486ef89f09399264e1a0edf535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 40/50] fix: use the winding impedances a GLM centre-tapped
 transformer gives

impedance1 and impedance2 were only looked at (for the reactance alone)
when reactance was given instead of impedance; otherwise the three
windings got the approximate split of impedance.
---
 src/ditto/readers/gridlabd/read.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 8f6d5b7..3fe0f3d 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -538,25 +538,16 @@ class Reader(AbstractReader):
                                     reactance1
                                 )  # TODO: Change documentation to reflect that we aren't indicating the from-to relation in reactances.
                                 # reactances.append((0,1,reactance1))
-                                if (
-                                    num_windings == 3
-                                ):  # TODO: Change documentation to reflect that we aren't indicating the from-to relation in reactances.
-                                    reactance2 = complex(config["impedance1"])
-                                    reactances.append(reactance2.imag)
-                                    reactance3 = complex(config["impedance2"])
-                                    reactances.append(reactance3.imag)
-
-                            except AttributeError:
-                                if (
-                                    not failed_reactance
-                                ):  # Should only fail if there are three windings in the system
-                                    reactance = float(config["reactance"])
+                                if num_windings == 3:
                                     reactances[0] = 0.8 * reactance
                                     reactances.append(
                                         0.4 * reactance
                                     )  # Using power flow approximation from "Electric Power Distribution Handbook" by Short page 188 of transformer with no center tap
                                     reactances.append(0.4 * reactance)
 
+                            except AttributeError:
+                                pass
+
                             if failed_reactance:
                                 try:
                                     impedance = complex(config["impedance"])
@@ -582,6 +573,18 @@ class Reader(AbstractReader):
                                 except AttributeError:
                                     pass
 
+                            if num_windings == 3 and len(reactances) > 0:
+                                # No approximation is needed if each winding has its own impedance.
+                                try:
+                                    impedance1 = complex(config["impedance1"])
+                                    impedance2 = complex(config["impedance2"])
+                                    winding1.resistance = winding2.resistance
+                                    winding2.resistance = impedance1.real
+                                    winding3.resistance = impedance2.real
+                                    reactances = [reactance, impedance1.imag, impedance2.imag]
+                                except AttributeError:
+                                    pass
+
                             if len(reactances) > 0:
                                 for x in reactances:
                                     api_transformer.reactances.append(x)
-- 
2.43.0


From 3ff6e14ea74fe11b6920513d20030ea487817fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:53 +0000
Subject: [PATCH 41/50] fix: tell the buses of a RAW case apart even if they
 share a name

Connectivity is judged by node name, but the names of a RAW case need
not be unique (and default to blanks), so that a case in several islands
was accepted and solved to nonsense when buses of different islands had
the same name.
---
 src/logic/network/parsers/raw/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index e8037de..3caddeb 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -12,6 +12,7 @@
 
 import math
 import time
+from collections import Counter
 from logic.network.parsers.raw.global_vars import global_vars
 
 from models.components.bus import Bus
@@ -101,7 +102,12 @@ def parse_raw(rawfile):
     search_case_data['buses'] = {}
     integrated_data['buses'] = []
     offline_bus = set()
+    name_counts = Counter(bus.name for bus in data.raw.get_buses())
     for bus in data.raw.get_buses():
+        # nodes are told apart by their name, which several buses of a case may share
+        if name_counts[bus.name] > 1:
+            bus.name = f"{bus.name.rstrip()} ({bus.i})"
+
         # adding all the info to a generic data class
         if version in (32, 30):
             b = data_classes.Bus_data(bus.i, bus.name, bus.baskv, bus.ide, bus.area, bus.zone,
-- 
2.43.0


From 96e6779386910c3ae2a27f94ca6fd07b1f492613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:18 +0000
Subject: [PATCH 42/50] fix: find GLM include files next to the file that
 includes them, also in included files

---
 src/ditto/readers/gridlabd/read.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 3fe0f3d..101a157 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -4,6 +4,7 @@ from datetime import timedelta
 from croniter import croniter
 import logging
 import math
+import os
 import re
 import numpy as np
 from ditto.models.node import Node
@@ -102,6 +103,22 @@ unit_factors = {
     ("kVAr", "VAr"): 1e3,
 }
 
+def read_rows_with_includes(input_file):
+    with open(input_file, "r") as f:
+        rows = f.readlines()
+
+    included_rows = []
+    for row in rows:
+        if row[:8] == "#include":
+            location = row.split()[1].strip('";')
+            #Included files are given relative to the file that includes them.
+            sibling = os.path.join(os.path.dirname(input_file), location)
+            if os.path.isfile(sibling):
+                location = sibling
+            included_rows += read_rows_with_includes(location)
+
+    return rows + included_rows
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -113,20 +130,9 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
     curr_schedule = None
     ignore_elements = False
     found_schedule = False
-    all_includes = []
     all_schedules = {}
 
-    inputfile = open(input_file, "r")
-    all_rows = inputfile.readlines()
-
-    for row in all_rows:
-        if row[:8] == "#include":
-            entries = row.split()
-            location = entries[1].strip('";')
-            include_file = open(location, "r")
-            include_rows = include_file.readlines()
-            all_includes = all_includes + include_rows
-    all_rows = all_rows + all_includes
+    all_rows = read_rows_with_includes(input_file)
 
     for row in all_rows:
         row = row.strip()
-- 
2.43.0


From 0de68b64851cfe81f781310d7da5fb887221a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:25 +0000
Subject: [PATCH 43/50] fix: read GLM statements that share a line and
 properties after deeper nested objects

---
 src/ditto/readers/gridlabd/read.py | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 101a157..2b844eb 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -119,6 +119,21 @@ def read_rows_with_includes(input_file):
 
     return rows + included_rows
 
+#A statement ends with ; or with a brace, except inside of quotes and macros.
+statement_regex = re.compile(r'(?:"[^"]*"|\$\{[^}]*\}|[^;{}])*(?:[;{}]|$)')
+
+def split_statements(rows):
+    for row in rows:
+        row = row.strip()
+
+        # Deal with comments
+        if row.find("//") != -1:
+            row = row[:row.find("//")]
+
+        for statement in statement_regex.findall(row):
+            if statement.strip():
+                yield statement.strip()
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -128,26 +143,19 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
     curr_object = None
     curr_schedule = None
-    ignore_elements = False
+    ignored_depth = 0
     found_schedule = False
     all_schedules = {}
 
     all_rows = read_rows_with_includes(input_file)
 
-    for row in all_rows:
-        row = row.strip()
+    for row in split_statements(all_rows):
         units = None
 
-        # Deal with comments
-        if row[:2] == "//":
-            continue
-        if row.find("//") != -1:
-            row = row[:row.find("//")]
-
         entries = row.split()
         if len(entries) > 0 and entries[0] == "object":
             if curr_object is None:
-                obj = entries[1].split(":")
+                obj = entries[1].rstrip("{").split(":")
                 obj_class = obj[0]
                 if obj_class in skipped_objects:
                     continue
@@ -155,7 +163,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 if len(obj) > 1:
                     curr_object["name"] = obj_class + ":" + obj[1]
             else:
-                ignore_elements = True
+                ignored_depth += 1
 
         elif len(entries) > 0 and entries[0] == "schedule":
             if curr_schedule is None:
@@ -170,7 +178,7 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 if len(row) > 0 and row.find(";") != -1:	
                     row = row[:row.find(";")]
                 entries = row.split()
-                if len(entries) > 1 and not ignore_elements:
+                if len(entries) > 1 and ignored_depth == 0:
                     element = entries[0]
                     value = entries[1].replace('"', "")
 
@@ -193,8 +201,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
                 if len(row) >= 1:
                     if row[-1] == "}" or row[-2:] == "};":
-                        if ignore_elements:  # Assumes only one layer of nesting
-                            ignore_elements = False
+                        if ignored_depth > 0:
+                            ignored_depth -= 1
                         else:
                             try:
                                 all_gld_objects[
-- 
2.43.0


From 1498dde6ce428995c8c3770269950b632135c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:39 +0000
Subject: [PATCH 44/50] fix: take over a GLM child's nominal voltage only if it
 has one, in any file order

---
 src/ditto/readers/gridlabd/read.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 2b844eb..5886845 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -297,6 +297,8 @@ class Reader(AbstractReader):
     def parse(self, model, origin_datetime="2017 Jun 1 2:00PM"):
         self.all_gld_objects, all_schedules = read_gld_objects_and_schedules(self.input_file, origin_datetime)
 
+        child_nodes = []
+
         for name, obj in self.all_gld_objects.items():
             obj_type = type(obj).__name__
 
@@ -352,13 +354,7 @@ class Reader(AbstractReader):
 
                 try:
                     api_node.parent = obj["parent"]
-
-                    #Meter nominal voltages are sometimes incorrect, so we use
-                    #the child's nominal voltage if it exists.
-                    for element in model.model_store:
-                        if type(element) == Node and element.name == api_node.parent:
-                            element.nominal_voltage = api_node.nominal_voltage
-                            break
+                    child_nodes.append(api_node)
                 except AttributeError:
                     pass
 
@@ -1607,3 +1603,13 @@ class Reader(AbstractReader):
             else:
                 raise Exception(f"Unhandled object type {obj_type}!")
 
+        #Meter nominal voltages are sometimes incorrect, so we use
+        #the child's nominal voltage if it exists. Either can be defined first.
+        for child in child_nodes:
+            if child.nominal_voltage is None:
+                continue
+            for element in model.model_store:
+                if type(element) == Node and element.name == child.parent:
+                    element.nominal_voltage = child.nominal_voltage
+                    break
+
-- 
2.43.0


From a091927273ecc390c83dc03d742b88ee9e70e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:01 +0000
Subject: [PATCH 45/50] fix: read GLM phases as a set whatever their order and
 separators

---
 src/ditto/readers/gridlabd/helpers.py                     | 3 +++
 src/ditto/readers/gridlabd/load_parser.py                 | 2 +-
 src/logic/network/parsers/threephase/transformerparser.py | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/helpers.py b/src/ditto/readers/gridlabd/helpers.py
index d75b0ea..364f639 100644
--- a/src/ditto/readers/gridlabd/helpers.py
+++ b/src/ditto/readers/gridlabd/helpers.py
@@ -21,6 +21,9 @@ def parse_phases(phase_str: str, obj_name: str) -> Tuple[List[str], bool, bool]:
         elif phase_char == "D":
             #Because delta is the default, the D is redundant.
             continue
+        elif phase_char == "|":
+            #The phases can be given as a set, e.g. A|B|N.
+            continue
         elif phase_char == "G":
             #todo: we don't handle ground phase today...
             continue
diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 62b19ea..0c526d5 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -52,7 +52,7 @@ class LoadParser:
 
             if "S" in phase_str:
                 #S means that it's split phase/triplex
-                api_load.triplex_phase = phase_str[0]
+                api_load.triplex_phase = phase_str.strip("S|")[0]
                 phase_str = "12"
             elif "D" in phase_str:
                 is_delta = True
diff --git a/src/logic/network/parsers/threephase/transformerparser.py b/src/logic/network/parsers/threephase/transformerparser.py
index ed47343..f1f77f6 100644
--- a/src/logic/network/parsers/threephase/transformerparser.py
+++ b/src/logic/network/parsers/threephase/transformerparser.py
@@ -117,7 +117,8 @@ class TransformerParser:
             g_shunt = 0
             b_shunt = 0
 
-        phase_list = get_phase_list(primary_coil, secondary_coil, phases)
+        #The delta windings connect the phases in rotation, in whatever order the object lists them.
+        phase_list = get_phase_list(primary_coil, secondary_coil, sorted(phases))
 
         for (pos_phase_1, neg_phase_1, pos_phase_2, neg_phase_2) in phase_list:
             from_bus_pos = primary_coil.phase_connections[pos_phase_1]
-- 
2.43.0


From 9451e081b737982fdd5b3dd0f18010e77194c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:14 +0000
Subject: [PATCH 46/50] fix: keep GLM objects without a name apart

---
 src/ditto/readers/gridlabd/read.py | 42 ++++++++++++++----------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 5886845..942fe6f 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -134,6 +134,21 @@ def split_statements(rows):
             if statement.strip():
                 yield statement.strip()
 
+def get_default_name(gld_object, all_gld_objects):
+    #Objects do not need a name, but several of them can be of the same type or between the same nodes.
+    if hasattr(gld_object, "_from") and hasattr(gld_object, "_to"):
+        name = gld_object["from"] + "-" + gld_object["to"]
+    else:
+        name = type(gld_object).__name__
+
+    default_name = name
+    suffix = 1
+    while default_name in all_gld_objects:
+        suffix += 1
+        default_name = f"{name}_{suffix}"
+
+    return default_name
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -204,29 +219,10 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                         if ignored_depth > 0:
                             ignored_depth -= 1
                         else:
-                            try:
-                                all_gld_objects[
-                                    curr_object["name"]
-                                ] = curr_object
-                                curr_object = None
-                            except:
-
-                                if (
-                                    curr_object["from"] != None
-                                    and curr_object["to"] != None
-                                ):
-                                    curr_object["name"] = (
-                                        curr_object["from"]
-                                        + "-"
-                                        + curr_object["to"]
-                                    )
-                                    all_gld_objects[
-                                        curr_object["name"]
-                                    ] = curr_object
-
-                                else:
-                                    logger.debug("Warning object missing a name")
-                                curr_object = None
+                            if not hasattr(curr_object, "_name"):
+                                curr_object["name"] = get_default_name(curr_object, all_gld_objects)
+                            all_gld_objects[curr_object["name"]] = curr_object
+                            curr_object = None
 
             if curr_schedule != None:
                 row = row.strip(";")
-- 
2.43.0


From a7455adcfc3cfacb6801ecad9757f5a4db82c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:35 +0000
Subject: [PATCH 47/50] fix: dump the final state also when the solver gives up
 early

---
 src/logic/nrsolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/nrsolver.py b/src/logic/nrsolver.py
index 4fc9589..191a9b4 100644
--- a/src/logic/nrsolver.py
+++ b/src/logic/nrsolver.py
@@ -70,6 +70,9 @@ class NRSolver:
                 y = np.array(max_residual_history)
                 m, _ = np.linalg.lstsq(A, y, rcond=None)[0]
                 if m > 0:
+                    if self.settings.dump_matrix:
+                        dump_v(v_next)
+
                     return (False, v_next, iteration_num)
             
             if residual_max < self.settings.tolerance:
-- 
2.43.0


From 666e46ff9df4e1688e34699ce1c76c3a539b409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:27 +0000
Subject: [PATCH 48/50] fix: let the slack hold the voltage of its bus when a
 continuous switched shunt is there too

---
 src/logic/network/parsers/raw/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 3caddeb..796443f 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -266,7 +266,10 @@ def parse_raw(rawfile):
                 Qmin = bmin * (sshunt.vswhi ** 2)
                 Qinit = sshunt.binit * (sshunt.vswhi ** 2)
                 rmpct = sshunt.rmpct
-                if sshunt.i in voltage_controlling_bus:
+                if sshunt.i in search_case_data['slack_generators']:
+                    #The slack generator already holds the voltage of the bus and supplies what it takes.
+                    pass
+                elif sshunt.i in voltage_controlling_bus:
                     # print(voltage_controlling_bus)
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
-- 
2.43.0


From 7825891b39811726957c498e23aa0055ae43f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:00 +0000
Subject: [PATCH 49/50] fix: read a RAW generator's wind control mode by its
 place in the record

With the last field left out (WPF, default 1) WMOD was read from F4 and
WPF from WMOD.
---
 src/logic/network/parsers/raw/Data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logic/network/parsers/raw/Data.py b/src/logic/network/parsers/raw/Data.py
index 10a1297..ad95d3a 100644
--- a/src/logic/network/parsers/raw/Data.py
+++ b/src/logic/network/parsers/raw/Data.py
@@ -1025,12 +1025,12 @@ class Generator:
         if len(row) < 16:
             print('error: data missing from generator')
         else:
-            if rev != 30 and len(row)>26:
-                self.wmod = parse_token(row[-2], int, 0, True)
-                self.wpf = parse_token(row[-1], float, 0)
             if len(row)<28:
                 diff = 28-len(row)
                 row += ['']*diff
+            if rev != 30:
+                self.wmod = parse_token(row[26], int, 0, True)
+                self.wpf = parse_token(row[27], float, 1.0)
             #row = pad_row(row, 28)
             self.i = parse_token(row[0], int, default=None)
             self.id = parse_token(row[1], str, default='1').strip()
-- 
2.43.0


From f81f2da53cac5e40f9d08042ddc67b4842f58094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:44 +0000
Subject: [PATCH 50/50] fix: read GLM schedules with several blocks

Only the first block of a schedule was read, so a load that follows
another block of it had no power. A schedule was also lost if there is no
space between its name and the brace.
---
 src/ditto/readers/gridlabd/read.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 942fe6f..276486f 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -182,8 +182,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
 
         elif len(entries) > 0 and entries[0] == "schedule":
             if curr_schedule is None:
-                schedule = entries[1]
-                schedule_bracket_cnt = 1
+                schedule = entries[1].rstrip("{")
+                schedule_bracket_cnt = 1 if row[-1] == "{" else 0
             curr_schedule = schedule
 
         else:
@@ -238,7 +238,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                 if len(row) >= 1:
                     if row[-1] == "}":
                         schedule_bracket_cnt = schedule_bracket_cnt - 1
-                    if row[0] == "{":
+                    if row[-1] == "{":
+                        #Schedules can group their values in blocks.
                         schedule_bracket_cnt = schedule_bracket_cnt + 1
                     if schedule_bracket_cnt == 0:
                         curr_schedule = None
-- 
2.43.0

