From 2c758c4ba943b2980d00afb035b933f60c03ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:43 +0000
Subject: [PATCH 01/29] fix: evaluate residuals and linearisation at the
 supplied voltage vector

---
 src/logic/stamping/matrixstamper.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..9879f4d 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -261,9 +261,6 @@ class InputBuilder():
         self.inputs: Dict[str, StampInput]
 
         self.input_indexes = []
-
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
     
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
@@ -307,13 +304,8 @@ class InputBuilder():
             instance_idx += 1
 
     def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
         
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
-- 
2.43.0


From cb1eabda9da47adaa00f7a8169ced4104e469fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 02/29] fix: leave loads unscaled when no load factor is given
 on the command line

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From dddd0252cf75bd0fa467cd031772a36ad3e42e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 03/29] fix: initialise the imaginary lagrange multiplier of a
 bus at its own index

---
 src/models/components/bus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/components/bus.py b/src/models/components/bus.py
index 8860183..3cc7849 100644
--- a/src/models/components/bus.py
+++ b/src/models/components/bus.py
@@ -71,7 +71,7 @@ class Bus:
         return (self.node_lambda_Vr, 1e-4)
 
     def get_Li_init(self):
-        return (self.node_lambda_Vr, 1e-4)
+        return (self.node_lambda_Vi, 1e-4)
 
     def assign_nodes(self, node_index, optimization_enabled):
         self.node_Vr = next(node_index)
-- 
2.43.0


From 2c281efe48d7ffe2279d96f1c92638e780350430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 04/29] fix: report a homotopy factor of zero after a completed
 homotopy

---
 src/logic/homotopycontroller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..0ce4963 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -41,4 +41,7 @@ class HomotopyController:
 
             tx_factor -= 1
 
+        #A completed homotopy ends at the original problem.
+        tx_factor = max(tx_factor, 0)
+
         return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
-- 
2.43.0


From 363dc5f0d0df1ea5b5e56fb59a2f31c0b03e39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 05/29] fix: drop stale matrix entries when the matrix is
 cleared

---
 src/logic/stamping/matrixbuilder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..8da79ee 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -41,6 +41,12 @@ class MatrixBuilder:
     def clear(self, retain_idx = 0):
         self._index = retain_idx
 
+        #Entries that aren't retained must never reach the matrix, even if fewer entries are stamped the next time around.
+        del self._row[retain_idx:]
+        del self._col[retain_idx:]
+        del self._val[retain_idx:]
+        self._max_index = retain_idx
+
     def to_matrix(self) -> csc_matrix:
         if self.settings.debug and self._max_index != self._index:
             raise Exception("Solver was not fully utilized. Garbage data remains")
-- 
2.43.0


From 914346b7fe38acb837fc2e3f0fc32a3692559279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:20 +0000
Subject: [PATCH 06/29] fix: check every equation of a model definition for
 undeclared symbols

---
 src/logic/stamping/lagrangesegment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logic/stamping/lagrangesegment.py b/src/logic/stamping/lagrangesegment.py
index dabb4e7..6ac5a2c 100644
--- a/src/logic/stamping/lagrangesegment.py
+++ b/src/logic/stamping/lagrangesegment.py
@@ -253,7 +253,7 @@ class TwoTerminalModelDefinition(LagrangeSegment):
         check_missing_symbols(declared_symbols, self.kcl_r_from.constraint_eqn)
         lambdas.append(Lr_from)
         lagrange += Lr_from * self.kcl_r_from.constraint_eqn
-        check_missing_symbols(declared_symbols, self.kcl_r_from.constraint_eqn)
+        check_missing_symbols(declared_symbols, self.kcl_i_from.constraint_eqn)
         lambdas.append(Li_from)
         lagrange += Li_from * self.kcl_i_from.constraint_eqn
 
@@ -282,11 +282,11 @@ class ModelDefinition(LagrangeSegment):
         lagrange = 0
 
         if objective != None:
-            self.check_missing_symbols(declared_symbols, objective.eqn)
+            check_missing_symbols(declared_symbols, objective.eqn)
             lagrange += objective.eqn
 
         for equality in equalities:
-            self.check_missing_symbols(declared_symbols, equality.constraint_eqn)
+            check_missing_symbols(declared_symbols, equality.constraint_eqn)
             lambda_sym = Symbol(f"lambda_{next(_lambda_ids)}")
             lambdas.append(lambda_sym)
             lagrange += lambda_sym * equality.constraint_eqn
-- 
2.43.0


From a28b11700ce4dd52c20fb8e90db77f33df865342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 07/29] fix: report slack and transformer power as complex
 power

---
 src/logic/powerflowresults.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..90f19b7 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
@@ -312,11 +312,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From 76043afd092317a6955b94a2e1a5e62d2bebc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 08/29] fix: display residuals of the residual details in
 verbose output

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 90f19b7..c83520d 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -202,8 +202,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx in range(len(self.residuals.residuals)):
+                print(f'Residual {idx}: {self.residuals.residuals[idx]:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From edbaaa3a3c79994b42aa05de8702c90c293135b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 09/29] fix: keep each load's own power factor across the hours
 of a time series

---
 src/logic/network/timeseriesprocessor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..842782a 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -20,6 +20,7 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -151,7 +152,10 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            # The power factor belongs to the load, not to the magnitude of the hour before (which may be zero or negative)
+            if load_name not in self.load_angles:
+                self.load_angles[load_name] = math.atan2(load_obj.Q,load_obj.P)
+            angle = self.load_angles[load_name]
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From c1602d010d77ea19a6b3b84915e847470c12e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 10/29] fix: keep the loads and capacitors to ground of the
 selected island

---
 src/logic/network/timeseriesprocessor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index 842782a..7380b1c 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -89,7 +90,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if not self.is_on_island(load.from_bus) or not self.is_on_island(load.to_bus):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -118,11 +119,15 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if not self.is_on_island(capacitor.from_bus) or not self.is_on_island(capacitor.to_bus):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
 
+    # Ground is not listed among the buses of the network, but belongs to every island
+    def is_on_island(self, bus):
+        return bus == GROUND or bus in self.powerflow.network.buses
+
     def set_load_names(self):
         for phase_load in self.powerflow.network.loads:
             load_name = self.get_load_name(phase_load)
-- 
2.43.0


From 9c18e681e45bcbb7e2da2d59188b31bcc61d9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 11/29] fix: merge further generators and continuous shunts at
 a bus into its generator

---
 src/logic/network/parsers/raw/parser.py | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..63cbc69 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -141,6 +141,7 @@ def parse_raw(rawfile):
     slack_dic = {}
 
     gen_dic = {}
+    remote_bus_dic = {}
 
     # set of voltge control buses
     voltage_controlling_bus = set()
@@ -199,17 +200,15 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
-                        integrated_data['generators'][idx].RMPCT += gen.rmpct
+                        # A generator stores its injections with the sign of a load.
+                        integrated_data['generators'][idx].P -= g.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= g.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= g.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= g.qg / global_vars.MVAbase
                         # check for discrepencies
-                        if integrated_data['generators'][idx].RemoteBus != gen.ireg:
+                        if remote_bus_dic[g.i] != gen.ireg:
                             print("Discrepancy found in remote bus (%d, %d) for generators on the same bus: %i" % (
-                                integrated_data['generators'][idx].RemoteBus, gen.ireg, gen.i))
+                                remote_bus_dic[g.i], gen.ireg, gen.i))
                             # If the new generator is controlling self. Make everyone control that
                             # if gen.ireg == 0 or gen.ireg == gen.i:
                             #    integrated_data['generators'][idx].RemoteBus = gen.ireg
@@ -220,6 +219,7 @@ def parse_raw(rawfile):
                     else:
                         gen_dic[g.i] = len(integrated_data['generators'])
                         integrated_data['generators'].append(g.integrate(all_bus_key))
+                        remote_bus_dic[g.i] = gen.ireg
                         voltage_controlling_bus.add(g.i)
 
                     if gen.ireg == 0:
@@ -273,11 +273,10 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].RMPCT += rmpct
-                    if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
+                    if remote_bus_dic[sshunt.i] != ss.swrem:
                         print("Discrepency between control buses in shunts for bus ", ss.i)
                         # if integrated_data['generators'][gen_id].RemoteBus ==0:
                         #    integrated_data['generators'][gen_id].RemoteBus = ss.swrem
@@ -304,6 +303,7 @@ def parse_raw(rawfile):
                                                      wmod, wpf)
                     gen_dic[sshunt.i] = len(integrated_data['generators'])
                     integrated_data['generators'].append(ss.integrate(all_bus_key))
+                    remote_bus_dic[sshunt.i] = remoteBus
 
                     voltage_controlling_bus.add(sshunt.i)
                     if ss.ireg == 0:
-- 
2.43.0


From 96ede3b88801e283bd6353b92852a03636c239c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 12/29] fix: attach the line shunts of a branch to its terminal
 buses

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..d498faf 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -320,10 +320,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 63cbc69..cef5994 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -368,10 +368,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(shunt_i.bus.Bus)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(shunt_j.bus.Bus)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From e9ba3de8cf4a26ba2962128126f110202444d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 13/29] fix: convert constant current and constant admittance
 loads of RAW files to per unit

---
 src/logic/network/parsers/raw/data_classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d498faf..91ec105 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,10 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        # The admittance and current parts are given as power at unit voltage, a positive iq being inductive.
+        y = complex(self.yp, self.yq) / 100
+        z = 1 / y if y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, z, self.ip / 100, -self.iq / 100)
         return (new_load)
 
 
-- 
2.43.0


From ab2495dba51006d8399db6a5ad96d5142333fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:31 +0000
Subject: [PATCH 14/29] fix: connect the windings of a three-winding
 transformer to its star bus

---
 src/logic/network/parsers/raw/data_classes.py |  2 +-
 src/logic/network/parsers/raw/parser.py       | 25 +++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 91ec105..5cddbf4 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -487,5 +487,5 @@ class Three_xfmr_data:
 
 def integrate_3xfmrs(xfmr_data, sbase, busData, starNode, all_bus_key: typing.Dict[int, Bus]):
     # send in system sbase
-    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, -1, busData)
+    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, starNode, busData)
     return (new_3xfmr.createXfmrObject(all_bus_key))
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index cef5994..a4322cc 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -10,6 +10,7 @@
 
 """
 
+import math
 import time
 from logic.network.parsers.raw.global_vars import global_vars
 
@@ -449,20 +450,18 @@ def parse_raw(rawfile):
         all_case_data['all_three_xfmrs'].append(x3)
         search_case_data['three_xfmrs'][(x3.i, x3.j, x3.k, x3.ckt)] = x3
         if x3.stat != 0:
-            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], -1, all_bus_key)
+            # The windings meet at a star bus of their own.
+            # Stat 2 - Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service
+            area = search_case_data['buses'][x3.i].area
+            if int(x.stat) == 4:
+                area = search_case_data['buses'][x3.j].area
+            star_bus = Bus(startNodeThreeWinding, 1, x3.vmstar, math.radians(x3.anstar), area)
+            all_bus_key[startNodeThreeWinding] = star_bus
+
+            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], startNodeThreeWinding,
+                                                      all_bus_key)
             if new_xfmr3 != []:
-                busType = 1
-                vmInit = x.vmstar
-                vaInit = x.anstar
-                'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
-                area = search_case_data['buses'][x3.i].area
-                if int(x.stat) == 4:
-                    area = search_case_data['buses'][x3.j].area
-
-                integrated_data['buses'].append(Bus(startNodeThreeWinding, busType,
-                                                      vmInit, vaInit, area))
-                for ele in new_xfmr3:
-                    ele.to_bus = startNodeThreeWinding
+                integrated_data['buses'].append(star_bus)
                 startNodeThreeWinding += 1
                 integrated_data['xfmrs'] += new_xfmr3
 
-- 
2.43.0


From a95ed4aab0f41f7c5ae84729f095d66f5e0d3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 15/29] fix: apply the reactive limits of wind machines given
 by a power factor

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 5cddbf4..93bd818 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -205,8 +205,8 @@ class Generator_data:
         # Wind machine with Q limits determined from P and WPF
         if (self.wmod == 2):
             qlim = math.sqrt(math.pow(pg / wpf, 2) - math.pow(pg, 2))
-            self.qT = qlim
-            self.qB = -qlim
+            self.qt = qlim
+            self.qb = -qlim
 
         # Fixed reactive power setting determined from P and WPF
         elif (self.wmod == 3):
-- 
2.43.0


From ba83d3da799124a9847df15e89f66f7e1d7f7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 16/29] fix: create the fixed shunts of revision 30 bus records

---
 src/logic/network/parsers/raw/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index a4322cc..1bcf3bc 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -334,6 +334,14 @@ def parse_raw(rawfile):
             non_empty_bus_set.add(fs.i)
             integrated_data['shunts'].append(fs.integrate(all_bus_key))
 
+    # Revision 30 files give the fixed shunt with its bus.
+    if version == 30:
+        for bus in data.raw.get_buses():
+            if (bus.i not in offline_bus) and (bus.gl != 0 or bus.bl != 0):
+                fs = data_classes.Fixed_shunt_data(bus.i, '1', 1, bus.gl, bus.bl)
+                non_empty_bus_set.add(fs.i)
+                integrated_data['shunts'].append(fs.integrate(all_bus_key))
+
     # ---------- loads ----------
     for load in data.raw.get_loads():
 
-- 
2.43.0


From 923c0c344e5635eeb58b67c382ff21ef5bcbeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 17/29] fix: give delta loads named by a pair of phases their
 phases

---
 src/ditto/readers/gridlabd/load_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ditto/readers/gridlabd/load_parser.py b/src/ditto/readers/gridlabd/load_parser.py
index 298cdfb..cb3a650 100644
--- a/src/ditto/readers/gridlabd/load_parser.py
+++ b/src/ditto/readers/gridlabd/load_parser.py
@@ -196,6 +196,8 @@ class LoadParser:
                 phaseload.phase = "BC"
             elif phase == "C":
                 phaseload.phase = "CA"
+            else:
+                phaseload.phase = phase
         else:
             phaseload.phase = phase
         phaseload.p = 0  # Default value
-- 
2.43.0


From 9e0f76ea8bb39e4396a6402f1f9cfb4e13db36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 18/29] fix: apply the units that are written after a value

---
 src/ditto/readers/gridlabd/read.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..b506ee2 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -30,6 +30,10 @@ remove_nonnum = re.compile(r'[^\d.]+')
 
 meters_per_mile = 1609.344
 
+#Factors from the units that may follow a value to the units it is read in.
+unit_factors = {"kV": 1e3, "kW": 1e3, "kVA": 1e3, "kVAr": 1e3, "MW": 1e6, "MVA": 1e6}
+feet_per_unit = {"m": 1 / 0.3048, "km": 1e3 / 0.3048, "mi": 5280, "mile": 5280}
+
 #These objects we ignore entirely for the purpose of the simulator.
 skipped_objects = [
     "house",
@@ -138,6 +142,12 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                             value = str(float(value) / 12)
                         if obj_class == "capacitor" and units == "MVAr":
                             value = str(float(value) * 1e6)
+                        if units in unit_factors:
+                            # Power ratings are read in kVA
+                            factor = unit_factors[units] / (1e3 if element.endswith("_rating") else 1)
+                            value = str((complex(value) if "j" in value else float(value)) * factor)
+                        if element == "length" and units in feet_per_unit:
+                            value = str(float(value) * feet_per_unit[units])
                         # print element,value,units
                         # if units[0] =='k':
                         #    value = value/1000.0
-- 
2.43.0


From 969baca2f69253b39dfcafd8c186467658ec1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 19/29] fix: use the converted low voltage for the second half
 of a center-tapped winding

---
 src/ditto/readers/gridlabd/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index b506ee2..0380c9b 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -469,7 +469,7 @@ class Reader(AbstractReader):
                                     winding2.nominal_voltage = float(
                                         low_voltage)
                                 if num_windings == 3:
-                                    winding3.nominal_voltage = -float(low_voltage) # To indicate the 180 degree phase shift
+                                    winding3.nominal_voltage = -winding2.nominal_voltage # To indicate the 180 degree phase shift
                             except AttributeError:
                                 pass
 
-- 
2.43.0


From d40458abe96b1ce9de02f0cbd25069995f61e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 20/29] fix: give phases of switches and fuses without a state
 of their own the overall one

---
 src/ditto/readers/gridlabd/read.py | 38 +++++++++++-------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 0380c9b..35d8306 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -747,18 +747,13 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
+                # Phases without a state of their own have that of the whole, closed by default
+                for p in phases:
+                    if p not in [w.phase for w in wires]:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        api_wire.is_open = getattr(obj, "_status", "CLOSED") == "OPEN"
+                        wires.append(api_wire)
 
                 api_line.wires = wires
 
@@ -817,18 +812,13 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
-                except AttributeError:
-                    pass
+                # Phases without a state of their own have that of the whole, closed by default
+                for p in phases:
+                    if p not in [w.phase for w in wires]:
+                        api_wire = Wire(model)
+                        api_wire.phase = p
+                        api_wire.is_open = getattr(obj, "_status", "CLOSED") == "OPEN"
+                        wires.append(api_wire)
 
                 api_line.wires = wires
 
-- 
2.43.0


From 04fa012062eae1742a15db6fa1e0972493335164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 21/29] fix: create open fuses as blown

---
 src/logic/network/parsers/threephase/threephaseparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..e451c43 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -288,8 +288,8 @@ class ThreePhaseParser:
                 current_limit = float(model.current_limit)
 
                 fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                if wire.is_open:
+                    fuse_status = FuseStatus.BLOWN
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From 5fdc41a71aad553dd2dd4788775a5fe58607dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 22/29] fix: take conductor radii in feet in the overhead
 capacitance

---
 src/ditto/readers/gridlabd/line_impedance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..bfba237 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -499,7 +499,7 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
         i = rev_lookup[i_wire.phase]
         indexes.append(i)
         S[i, i] = 2 * distances[i][i]
-        RD[i] = i_wire.diameter / 2
+        RD[i] = i_wire.diameter / 2 / 12 # convert inches to feet
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
-- 
2.43.0


From b65606595c165980185f1f254a4b2de46ad76fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 23/29] fix: leave out the capacitance of overhead lines whose
 height is not given

---
 src/ditto/readers/gridlabd/line_impedance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index bfba237..d07196c 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -497,6 +497,10 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
             has_neutral = True
 
         i = rev_lookup[i_wire.phase]
+        if distances[i][earth_index] == -1:
+            # The height above ground is needed
+            return None
+
         indexes.append(i)
         S[i, i] = 2 * distances[i][i]
         RD[i] = i_wire.diameter / 2 / 12 # convert inches to feet
-- 
2.43.0


From f13a4483a2e571134b8543a87c41e4dbe02bcace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 24/29] fix: use the distance between a wire and the image of
 the other in the overhead capacitance

---
 src/ditto/readers/gridlabd/line_impedance.py | 22 ++------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index d07196c..43b3c8c 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -480,7 +480,6 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
     return np.array(distances)
 
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
-    neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
 
     #See definitions below eqn 5.5
@@ -502,30 +501,13 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
             return None
 
         indexes.append(i)
-        S[i, i] = 2 * distances[i][i]
         RD[i] = i_wire.diameter / 2 / 12 # convert inches to feet
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
 
-            phase_phase_dist = distances[i][j]
-            phase_neutral_dist = distances[i][neutral_index]
-            phase_earth_dist = distances[i][earth_index]
-            neutral_earth_dist = distances[neutral_index][earth_index]
-
-            phasepair = i_wire.phase + j_wire.phase 
-
-            if i == j:
-                _horizDist = 0
-                _vertDist = 2 * phase_earth_dist
-            if phasepair in ["AB", "BA", "AC", "CA", "BC", "CB"]:
-                _horizDist = phase_phase_dist
-                _vertDist = 2 * phase_earth_dist
-            elif phasepair in ["AN", "NA", "BN", "NB", "CN", "NC"]:
-                _horizDist = (phase_neutral_dist ** 2 - (phase_earth_dist - neutral_earth_dist) ** 2) ** 0.5
-                _vertDist = phase_earth_dist + neutral_earth_dist
-
-            S[i, j] = (_horizDist ** 2 + _vertDist ** 2) ** 0.5
+            # Distance to the image of the other wire below ground
+            S[i, j] = (distances[i][j] ** 2 + 4 * distances[i][earth_index] * distances[j][earth_index]) ** 0.5
 
     #See eqn's 5.9 and 5.10.
     reduced_distances = distances[:, indexes][indexes, :]
-- 
2.43.0


From b580ffef15cadec1ea7e2ce3133f40a34de8b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 25/29] fix: use the number of strands of each cable in the
 underground impedance

---
 src/ditto/readers/gridlabd/line_impedance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 43b3c8c..a67cebb 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -633,9 +633,11 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
     neutral_resistances = []
     conductor_gmrs = []
     neutral_gmrs = []
+    strands = []
     num_non_neutral = 0
 
     for wire in wire_list:
+        strands.append(getattr(wire, "concentric_neutral_nstrand", None) or 1)
         if wire.phase == "N":
             conductor_own_neutral_distances.append(0)
             neutral_resistances.append(wire.resistance)
@@ -664,6 +666,7 @@ def compute_underground_impedance(wire_list, distances, freq=60, resistivity=100
             if i == j:
                 temp.append(conductor_own_neutral_distances[i])
             else:
+                k = strands[j]
                 temp.append((distances[i][j]**k - conductor_own_neutral_distances[j]**k)**(1/k))
         conductor_neutral_distances.append(temp)
 
-- 
2.43.0


From a8d13ef13fc05233ec918b55c55d43980f5e7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 26/29] fix: take the distances of the wires a line has from
 its spacing

---
 src/ditto/readers/gridlabd/read.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 35d8306..1c3c712 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -19,7 +19,7 @@ from ditto.models.phase_winding import PhaseWinding
 from ditto.formats.gridlabd import gridlabd
 from ditto.formats.gridlabd import base
 from ditto.models.base import Unicode
-from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance
+from ditto.readers.gridlabd.line_impedance import compute_overhead_capacitance, compute_overhead_impedance, compute_underground_impedance, compute_triplex_impedance, compute_overhead_spacing, compute_underground_spacing, try_load_direct_line_impedance, try_load_direct_line_capacitance, compute_underground_capacitance, rev_lookup
 from ditto.readers.gridlabd.load_parser import LoadParser
 from ditto.readers.abstract_reader import AbstractReader
 from ditto.readers.gridlabd.helpers import parse_phases, triplex_phases
@@ -937,7 +937,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix == None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    indexes = [rev_lookup[w.phase] for w in wire_list]
+                    striped_distances = distances[indexes][:, indexes]
                     impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
@@ -1237,7 +1238,8 @@ class Reader(AbstractReader):
                 impedance_matrix = try_load_direct_line_impedance(config)
 
                 if impedance_matrix is None:
-                    striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
+                    indexes = [rev_lookup[w.phase] for w in wire_list]
+                    striped_distances = distances[indexes][:, indexes]
                     impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
-- 
2.43.0


From b99a724610e06fa797135da9e3d71b994179c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:10 +0000
Subject: [PATCH 27/29] fix: convert the metric units of a conductor for every
 wire that uses it

---
 src/ditto/readers/gridlabd/read.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1c3c712..0a6e9bb 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -891,8 +891,8 @@ class Reader(AbstractReader):
 
                         try:
                             if conductor["geometric_mean_radius"].find('cm') != -1:
-                                conductor["geometric_mean_radius"] = remove_nonnum.sub('', conductor["geometric_mean_radius"])
-                                api_wire.gmr = float(conductor["geometric_mean_radius"]) / 30.48 # convert cm to feet
+                                gmr = remove_nonnum.sub('', conductor["geometric_mean_radius"])
+                                api_wire.gmr = float(gmr) / 30.48 # convert cm to feet
                             else:
                                 api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
@@ -900,10 +900,9 @@ class Reader(AbstractReader):
                         try:
                             if conductor["resistance"].find('Ohm/km') != -1:
                                 # Convert Ohm/km into Ohm/mi
-                                conductor["resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["resistance"])
-                                api_wire.resistance = float(
-                                    conductor["resistance"]) * 1.609344
+                                api_wire.resistance = float(resistance) * 1.609344
                             else:
                                 api_wire.resistance = float(conductor["resistance"])
                         except AttributeError:
@@ -1180,10 +1179,9 @@ class Reader(AbstractReader):
                         # set resistance to be the conductor resistance for underground cables
                         try:
                             if conductor["conductor_resistance"].find('Ohm/km') != -1:
-                                conductor["conductor_resistance"] = remove_nonnum.sub(
+                                resistance = remove_nonnum.sub(
                                     '', conductor["conductor_resistance"])
-                                api_wire.resistance = float(
-                                    conductor["conductor_resistance"]) * 1.609344
+                                api_wire.resistance = float(resistance) * 1.609344
                             else:
                                 # NOTE: There doesn't seem to be inclusion of taped shielding GMR or resistance here
                                 # They seem to be assumed to be zero
-- 
2.43.0


From 59145cf8c73b0acf9d39c06ef375100297de4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:17 +0000
Subject: [PATCH 28/29] fix: default the control and the rated voltage of
 capacitors

---
 src/logic/network/parsers/threephase/threephaseparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index e451c43..9655618 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -192,13 +192,14 @@ class ThreePhaseParser:
             if not phase_capacitor.phase in model.connected_phases:
                 continue
 
-            mode = CapacitorMode[gld_cap._control]
+            #Gridlabd defaults to manual control.
+            mode = CapacitorMode[getattr(gld_cap, "_control", "MANUAL")]
             if mode == CapacitorMode.VOLT and (model.high == None or model.low == None):
                 #https://github.com/gridlab-d/gridlab-d/blob/9f0a09853280bb3515f8236b8af3192304759650/powerflow/capacitor.cpp#L320-L325
                 mode = CapacitorMode.MANUAL
 
             parent_bus = network_model.bus_name_map[gld_cap._parent + '_' + phase_capacitor.phase]
-            nominal_voltage = float(gld_cap._cap_nominal_voltage) #Or could use model.nominal_voltage?
+            nominal_voltage = float(getattr(gld_cap, "_cap_nominal_voltage", None) or model.nominal_voltage)
             voltage_angle = self._phase_to_angle[phase_capacitor.phase]
             v_r_nom = abs(nominal_voltage)*math.cos(voltage_angle)
             v_i_nom = abs(nominal_voltage)*math.sin(voltage_angle)
-- 
2.43.0


From 4b3beddf3acfb7ba2fcbfa64b330ff4a04d57c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:24 +0000
Subject: [PATCH 29/29] fix: a line of fewer phases than its configuration has
 only its own conductors

---
 src/ditto/readers/gridlabd/read.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 0a6e9bb..8e3bec1 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -931,7 +931,8 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                # The line itself may have fewer phases than its configuration
+                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
 
                 impedance_matrix = try_load_direct_line_impedance(config)
 
@@ -1231,7 +1232,8 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
-                wire_list = list(conductors.keys())
+                # The line itself may have fewer phases than its configuration
+                wire_list = [wire for wire in conductors if wire.phase in phases or wire.phase == "N"]
 
                 impedance_matrix = try_load_direct_line_impedance(config)
 
-- 
2.43.0

