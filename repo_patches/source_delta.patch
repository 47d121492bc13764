From 8c7af6cfe3d2a1bc6c7cd6a7fef82693f761407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 01/23] fix: RAW branch records with line shunts crashed the
 loader

---
 src/logic/network/parsers/raw/data_classes.py | 4 ++--
 src/logic/network/parsers/raw/parser.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index 121bec8..d498faf 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -320,10 +320,10 @@ class Branch_data:
         shunt_i = None
         shunt_j = None
         if self.gi != 0 or self.bi != 0:
-            shunt_i = Shunt(self.i, self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_i = Shunt(all_bus_key[self.i], self.gi * global_vars.MVAbase, self.bi * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
         if self.gj != 0 or self.bj != 0:
-            shunt_j = Shunt(self.j, self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
+            shunt_j = Shunt(all_bus_key[self.j], self.gj * global_vars.MVAbase, self.bj * global_vars.MVAbase, 1, 0, 0, 0, 0, 0, 0,
                              0)
 
         return new_branch, shunt_i, shunt_j
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 76dd358..65baa48 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -368,10 +368,10 @@ def parse_raw(rawfile):
             (new_branch, shunt_i, shunt_j) = br.integrate(all_bus_key)
             integrated_data['branches'].append(new_branch)
             if shunt_i != None:
-                non_empty_bus_set.add(shunt_i.Bus)
+                non_empty_bus_set.add(br.i)
                 integrated_data['shunts'].append(shunt_i)
             if shunt_j != None:
-                non_empty_bus_set.add(shunt_j.Bus)
+                non_empty_bus_set.add(br.j)
                 integrated_data['shunts'].append(shunt_j)
 
     # ---------- transformer data ----------
-- 
2.43.0


From 48c9f5bb16e867ae7432a8cec3102d490538f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 02/23] fix: several machines regulating one RAW bus crashed
 the loader

---
 src/logic/network/parsers/raw/parser.py | 14 +++++++-------
 src/models/components/generator.py      |  5 +++++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 65baa48..312d592 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -199,12 +199,12 @@ def parse_raw(rawfile):
                     if g.i in voltage_controlling_bus:
                         # print('Due to another generator on %i generator location, parameters are appended' % g.i)
                         idx = gen_dic[g.i]
-                        integrated_data['generators'][idx].P += gen.pg / global_vars.MVAbase
+                        integrated_data['generators'][idx].P -= gen.pg / global_vars.MVAbase
                         integrated_data['generators'][idx].Pmax += gen.pt / global_vars.MVAbase
                         integrated_data['generators'][idx].Pmin += gen.pb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmax += gen.qt / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qmin += gen.qb / global_vars.MVAbase
-                        integrated_data['generators'][idx].Qinit += gen.qg / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmax -= gen.qt / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qmin -= gen.qb / global_vars.MVAbase
+                        integrated_data['generators'][idx].Qinit -= gen.qg / global_vars.MVAbase
                         integrated_data['generators'][idx].RMPCT += gen.rmpct
                         # check for discrepencies
                         if integrated_data['generators'][idx].RemoteBus != gen.ireg:
@@ -273,9 +273,9 @@ def parse_raw(rawfile):
                     # print('Due to a generator on %i SVC location, parameters are appended' % sshunt.i)
                     gen_id = gen_dic[sshunt.i]
                     # print(gen_id)
-                    integrated_data['generators'][gen_id].Qmax += Qmax / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qmin += Qmin / global_vars.MVAbase
-                    integrated_data['generators'][gen_id].Qinit += Qinit / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmax -= Qmax / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qmin -= Qmin / global_vars.MVAbase
+                    integrated_data['generators'][gen_id].Qinit -= Qinit / global_vars.MVAbase
                     integrated_data['generators'][gen_id].RMPCT += rmpct
                     if integrated_data['generators'][gen_id].RemoteBus != ss.swrem:
                         print("Discrepency between control buses in shunts for bus ", ss.i)
diff --git a/src/models/components/generator.py b/src/models/components/generator.py
index b44bc29..14f5936 100644
--- a/src/models/components/generator.py
+++ b/src/models/components/generator.py
@@ -61,6 +61,11 @@ class Generator:
         self.Qmax = -Qmax
         self.Qmin = -Qmin
 
+        self.Pmax = Pmax
+        self.Pmin = Pmin
+        self.RemoteBus = RemoteBus
+        self.RMPCT = RMPCT
+
     def assign_nodes(self, node_index, optimization_enabled):
         self.stamper = build_two_terminal_stamp_details(lh, self.bus, GROUND, node_index, optimization_enabled)
 
-- 
2.43.0


From cba96ee53bd574ebfa334e3e46302f46e5877624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 03/23] fix: bus shunts of revision 30 RAW files were dropped

---
 src/logic/network/parsers/raw/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 312d592..f17d47d 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -333,6 +333,14 @@ def parse_raw(rawfile):
             non_empty_bus_set.add(fs.i)
             integrated_data['shunts'].append(fs.integrate(all_bus_key))
 
+    # revision 30 has no fixed shunt section, its bus records carry the shunt admittance
+    if version == 30:
+        for bus in data.raw.get_buses():
+            if (bus.i not in offline_bus) and (bus.gl != 0 or bus.bl != 0):
+                fs = data_classes.Fixed_shunt_data(bus.i, '1', 1, bus.gl, bus.bl)
+                non_empty_bus_set.add(fs.i)
+                integrated_data['shunts'].append(fs.integrate(all_bus_key))
+
     # ---------- loads ----------
     for load in data.raw.get_loads():
 
-- 
2.43.0


From 5b9c3dc9b08a551ab768c530d3a19b68c2ca0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 04/23] fix: three-winding transformers crashed the RAW loader

---
 src/logic/network/parsers/raw/data_classes.py |  2 +-
 src/logic/network/parsers/raw/parser.py       | 27 ++++++++++---------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d498faf..d36a96b 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -484,5 +484,5 @@ class Three_xfmr_data:
 
 def integrate_3xfmrs(xfmr_data, sbase, busData, starNode, all_bus_key: typing.Dict[int, Bus]):
     # send in system sbase
-    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, -1, busData)
+    new_3xfmr = ThreeWindingXfmrs(xfmr_data, sbase, starNode, busData)
     return (new_3xfmr.createXfmrObject(all_bus_key))
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index f17d47d..8262d24 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -10,6 +10,7 @@
 
 """
 
+import math
 import time
 from logic.network.parsers.raw.global_vars import global_vars
 
@@ -457,20 +458,20 @@ def parse_raw(rawfile):
         all_case_data['all_three_xfmrs'].append(x3)
         search_case_data['three_xfmrs'][(x3.i, x3.j, x3.k, x3.ckt)] = x3
         if x3.stat != 0:
-            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], -1, all_bus_key)
+            'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
+            area = search_case_data['buses'][x3.i].area
+            if int(x.stat) == 4:
+                area = search_case_data['buses'][x3.j].area
+
+            # The windings meet at a star bus that has to exist before they can be connected to it.
+            busType = 1
+            star_bus = Bus(startNodeThreeWinding, busType,
+                           x.vmstar, x.anstar * math.pi / 180, area, NodePhase="PosSeq")
+            all_bus_key[star_bus.Bus] = star_bus
+
+            new_xfmr3 = data_classes.integrate_3xfmrs(x3, sbase, search_case_data['buses'], star_bus.Bus, all_bus_key)
             if new_xfmr3 != []:
-                busType = 1
-                vmInit = x.vmstar
-                vaInit = x.anstar
-                'Stat 2-Winding 2 out of service 3 - Winding 3 out of service 4 - winding 1 out of service'
-                area = search_case_data['buses'][x3.i].area
-                if int(x.stat) == 4:
-                    area = search_case_data['buses'][x3.j].area
-
-                integrated_data['buses'].append(Bus(startNodeThreeWinding, busType,
-                                                      vmInit, vaInit, area))
-                for ele in new_xfmr3:
-                    ele.to_bus = startNodeThreeWinding
+                integrated_data['buses'].append(star_bus)
                 startNodeThreeWinding += 1
                 integrated_data['xfmrs'] += new_xfmr3
 
-- 
2.43.0


From a98237977aa30de5756817e1e30bf52a17391eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 05/23] fix: the reported residuals were those of the previous
 Newton iterate

---
 src/logic/homotopycontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index f8b7478..4bd1bf4 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -21,7 +21,7 @@ class HomotopyController:
         #optimistically try to solve without homotopy first.
         is_success, v_final, iteration_num = self.nrsolver.run_powerflow(matrix_stamper, v_init, 0)
         if is_success or not self.settings.tx_stepping:
-            return (is_success, v_final, iteration_num, 0, matrix_stamper.calc_residuals(0, v_final, iteration_num))
+            return (is_success, v_final, iteration_num, 0, matrix_stamper.calc_residuals(0, v_final, iteration_num + 1))
 
         tx_factor = TX_ITERATIONS
         iterations = 0
@@ -41,4 +41,4 @@ class HomotopyController:
 
             tx_factor -= 1
 
-        return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num))
+        return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num + 1))
-- 
2.43.0


From cceba808dedcef5c6ffd7d026c84a59dd670a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 06/23] fix: a completed homotopy reported a factor of -0.01
 instead of 0

---
 src/logic/homotopycontroller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logic/homotopycontroller.py b/src/logic/homotopycontroller.py
index 4bd1bf4..3197d3d 100644
--- a/src/logic/homotopycontroller.py
+++ b/src/logic/homotopycontroller.py
@@ -41,4 +41,4 @@ class HomotopyController:
 
             tx_factor -= 1
 
-        return (is_success, v_next, iterations, tx_factor * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num + 1))
+        return (is_success, v_next, iterations, max(tx_factor, 0) * TX_SCALE, matrix_stamper.calc_residuals(0, v_final, iteration_num + 1))
-- 
2.43.0


From b5994da6ecc377a1e5b2a881aaf65ac4ba0682dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 07/23] fix: verbose display of results crashed on the
 residuals

---
 src/logic/powerflowresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index bc266ef..14d61a5 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -202,8 +202,8 @@ class PowerFlowResults:
         print(f'Max Residual: {self.residuals.max_residual:.3g} [Index: {self.residuals.max_residual_idx}]')
 
         if verbose:
-            for idx in range(len(self.residuals)):
-                print(f'Residual {idx}: {self.residuals[idx]:.3g}')
+            for idx in range(len(self.residuals.residuals)):
+                print(f'Residual {idx}: {self.residuals.residuals[idx]:.3g}')
 
         try:
             results = self.report_infeasible()
-- 
2.43.0


From d6fffdedf35a865271faaa6644d0206a971d35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 08/23] fix: slack and transformer results were not the complex
 power V times conj(I)

---
 src/logic/powerflowresults.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/logic/powerflowresults.py b/src/logic/powerflowresults.py
index 14d61a5..e5f1225 100644
--- a/src/logic/powerflowresults.py
+++ b/src/logic/powerflowresults.py
@@ -152,8 +152,8 @@ class PowerFlowResults:
             Vi = v_final[slack.bus.node_Vi]
             slack_Ir = v_final[slack.get_slack_Ir_index()]
             slack_Ii = v_final[slack.get_slack_Ii_index()]
-            P = Vr * slack_Ir
-            Q = Vi * slack_Ii
+            P = Vr * slack_Ir + Vi * slack_Ii
+            Q = Vi * slack_Ir - Vr * slack_Ii
             self.generator_results.append(GeneratorResult(slack, P, Q, GENTYPE.Slack)) 
 
         self.max_residual = self.residuals.max_residual
@@ -312,11 +312,13 @@ class TransformerResult:
 
     def get_P(self):
         Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
-        return Vr_pri * self.Ir_prim
+        Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
+        return Vr_pri * self.Ir_prim + Vi_pri * self.Ii_prim
 
     def get_Q(self):
+        Vr_pri = self.Vr_pri_pos - self.Vr_pri_neg
         Vi_pri = self.Vi_pri_pos - self.Vi_pri_neg
-        return Vi_pri * self.Ii_prim
+        return Vi_pri * self.Ir_prim - Vr_pri * self.Ii_prim
 
     def __str__(self) -> str:
         return f'Transformer from bus {self.transformer.from_bus_pos.Bus} and {self.transformer.from_bus_neg.Bus} to {self.transformer.to_bus_pos.Bus} and {self.transformer.to_bus_neg.Bus} P (MW): {"{:.2f}".format(self.get_P())}, Q (MVar): {"{:.2f}".format(self.get_Q())}'
-- 
2.43.0


From 911e9f8f66c5b7c98409912b5ffd54f2cceafe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 09/23] fix: the command line negated every load unless
 --load_factor was given

---
 src/run_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_solver.py b/src/run_solver.py
index 8a26348..505fc0f 100644
--- a/src/run_solver.py
+++ b/src/run_solver.py
@@ -27,7 +27,7 @@ def main():
     parser.add_argument("--debug", required=False, action='store_true')
     parser.add_argument("--verbose", required=False, action='store_true')
     parser.add_argument("--infeasibility", required=False, default=False, action='store_true')
-    parser.add_argument("--load_factor", required=False, default=-1)
+    parser.add_argument("--load_factor", required=False, default=1)
     parser.add_argument("--tx_stepping", required=False, default=False, action='store_true')
     parser.add_argument("--select_island", required=False, default=False)
     args = parser.parse_args()
-- 
2.43.0


From d429278cf294c005350912a7a0613458d73febce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 10/23] fix: derivative cache files could be read half-written
 and failed writes stopped the run

---
 src/logic/stamping/lagrangepickler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/logic/stamping/lagrangepickler.py b/src/logic/stamping/lagrangepickler.py
index 67d32c9..83978f0 100644
--- a/src/logic/stamping/lagrangepickler.py
+++ b/src/logic/stamping/lagrangepickler.py
@@ -8,8 +8,7 @@ class LagrangePickler:
         dill.settings['recurse'] = True
 
         self.pickle_dir = os.path.join(tempfile.gettempdir(), "combined-txds-lagrange-pickler")
-        if not os.path.exists(self.pickle_dir):
-            os.makedirs(self.pickle_dir)
+        os.makedirs(self.pickle_dir, exist_ok=True)
 
     def _get_pickle_file(self, lagrange_key):
         sha1 = hashlib.sha1()
@@ -28,10 +27,23 @@ class LagrangePickler:
         
         pickle_filepath = self._get_pickle_file(lagrange_key)
 
-        derivatives = dill.load(open(pickle_filepath, "rb"))
+        with open(pickle_filepath, "rb") as f:
+            derivatives = dill.load(f)
 
         return derivatives
 
     def try_pickle(self, lagrange_key, derivatives):
         pickle_file = self._get_pickle_file(lagrange_key)
-        dill.dump(derivatives, open(pickle_file, "wb" ) )
\ No newline at end of file
+
+        #The cache is shared between processes, so a reader must never find a partially written file.
+        #It is also only an optimization: a run can continue if it can't be written.
+        temp_file = f"{pickle_file}.{os.getpid()}.tmp"
+        try:
+            with open(temp_file, "wb") as f:
+                dill.dump(derivatives, f)
+            os.replace(temp_file, pickle_file)
+        except OSError:
+            try:
+                os.remove(temp_file)
+            except OSError:
+                pass
-- 
2.43.0


From 8637abe772d515d1810420492e69f02db214af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 11/23] fix: a zero or negative load file value lost the load's
 power factor for later hours

---
 src/logic/network/timeseriesprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index c07c545..e3cb883 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -20,6 +20,8 @@ class TimeSeriesProcessor:
     def __init__(self, settings: TimeSeriesSettings, powerflow: PowerFlow):
         self.settings = settings
         self.powerflow = powerflow
+        # The power factor angle each load had before any load file value was applied to it
+        self.load_angles = {}
         if self.settings.loadfile_name is not None:
             self.load_data = read_csv(self.settings.loadfile_name)
         if self.settings.select_island and self.settings.artificialswingbus is not None:
@@ -151,7 +153,7 @@ class TimeSeriesProcessor:
                 magnitude = self.load_data[load_name][hour]
             except:
                 continue
-            angle = math.atan2(load_obj.Q,load_obj.P)
+            angle = self.load_angles.setdefault(load_name, math.atan2(load_obj.Q,load_obj.P))
             load_obj.P = magnitude * math.cos(angle)
             load_obj.Q = magnitude * math.sin(angle)
     
-- 
2.43.0


From 52b5cf2c475bb3cb8f8a0b58553530bf78fc9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 12/23] fix: convergence was judged on the iterate before the
 one returned

The input cache was keyed by iteration number only, so the residuals computed
after a linear solve were those of the previous iterate; a solve near (or just
beyond) the loadability limit was reported successful with a residual well
above the tolerance.
---
 src/logic/stamping/matrixstamper.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/logic/stamping/matrixstamper.py b/src/logic/stamping/matrixstamper.py
index ce818f0..0a09742 100644
--- a/src/logic/stamping/matrixstamper.py
+++ b/src/logic/stamping/matrixstamper.py
@@ -262,9 +262,6 @@ class InputBuilder():
 
         self.input_indexes = []
 
-        # We utilize this to know if we actually need to update our previous iteration information.
-        self.iteration_num = -1
-    
     def add_input(self, input: StampInput):
         if input.key not in self.inputs:
             self.input_indexes.append(input.key)
@@ -306,14 +303,9 @@ class InputBuilder():
                 
             instance_idx += 1
 
-    def update_vprev(self, v_prev, iteration_num):
-        if iteration_num == self.iteration_num:
-            return
-        
+    def update_vprev(self, v_prev):
         for arg_index, instance_idx, v_idx in self.input_fills:
             self.args[arg_index][instance_idx] = v_prev[v_idx]
-            
-        self.iteration_num = iteration_num
         
     def update_txfactor(self, tx_factor):
         if self.tx_factor_index != SKIP:
@@ -443,14 +435,14 @@ class MatrixStamper():
 
     def stamp_nonlinear(self, Y: MatrixBuilder, J, v_prev, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_prev, iteration_num)
+            input_builder.update_vprev(v_prev)
         
         for stamp_set in self.nonlinear_sets:
             stamp_set.stamp(Y, J)
 
     def __calc_residuals_iter(self, tx_factor, v_result, iteration_num):
         for input_builder in self.input_builders:
-            input_builder.update_vprev(v_result, iteration_num)
+            input_builder.update_vprev(v_result)
         
         for input_builder in self.input_builders:
             input_builder.update_txfactor(tx_factor)
-- 
2.43.0


From 3c6fc66979a1e77bd2be8f70efd4538298af78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 13/23] fix: switches and fuses without per-phase states
 connected only their first phase

---
 src/ditto/readers/gridlabd/read.py | 42 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1ac80fc..426021b 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -737,18 +737,19 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
+                #phases without a state of their own follow the object's overall status
                 try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
+                    status = obj["status"]
                 except AttributeError:
-                    pass
+                    status = "CLOSED"
+                stated_phases = [api_wire.phase for api_wire in wires]
+                for p in phases:
+                    if p in stated_phases or p not in ("A", "B", "C"):
+                        continue
+                    api_wire = Wire(model)
+                    api_wire.phase = p
+                    api_wire.is_open = status == "OPEN"
+                    wires.append(api_wire)
 
                 api_line.wires = wires
 
@@ -807,18 +808,19 @@ class Reader(AbstractReader):
                 except AttributeError:
                     pass
 
+                #phases without a state of their own follow the object's overall status
                 try:
-                    if len(wires) == 0:
-                        for p in phases:
-                            api_wire = Wire(model)
-                            api_wire.phase = p
-                            wires.append(api_wire)
-                            if obj["status"] == "OPEN":
-                                wires[-1].is_open = True
-                            else:
-                                wires[-1].is_open = False
+                    status = obj["status"]
                 except AttributeError:
-                    pass
+                    status = "CLOSED"
+                stated_phases = [api_wire.phase for api_wire in wires]
+                for p in phases:
+                    if p in stated_phases or p not in ("A", "B", "C"):
+                        continue
+                    api_wire = Wire(model)
+                    api_wire.phase = p
+                    api_wire.is_open = status == "OPEN"
+                    wires.append(api_wire)
 
                 api_line.wires = wires
 
-- 
2.43.0


From f362d3b332f17b9338380bf7302fd8d3380785ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 14/23] fix: a fuse the file declares blown was treated as good

---
 src/logic/network/parsers/threephase/threephaseparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/parsers/threephase/threephaseparser.py b/src/logic/network/parsers/threephase/threephaseparser.py
index 9e4c06c..3cfc575 100644
--- a/src/logic/network/parsers/threephase/threephaseparser.py
+++ b/src/logic/network/parsers/threephase/threephaseparser.py
@@ -288,8 +288,8 @@ class ThreePhaseParser:
                 current_limit = float(model.current_limit)
 
                 fuse_status = FuseStatus.GOOD
-                if hasattr(model, "phase_" + wire.phase + "_status"):
-                    fuse_status = FuseStatus[getattr(model, "phase_" + wire.phase + "_status")]
+                if hasattr(wire, "is_open") and wire.is_open:
+                    fuse_status = FuseStatus.BLOWN
 
                 fuse_bus = self.create_bus(network_model, 0.1, 0.1, f"{from_bus.NodeName}-Fuse", wire.phase, True)
 
-- 
2.43.0


From 6ee745c49dab11d2875e48a1a519a38b75c1f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 15/23] fix: matrix entries of the previous iteration survived
 when a coefficient became exactly zero

---
 src/logic/stamping/matrixbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/logic/stamping/matrixbuilder.py b/src/logic/stamping/matrixbuilder.py
index 12fc79d..706e3b2 100644
--- a/src/logic/stamping/matrixbuilder.py
+++ b/src/logic/stamping/matrixbuilder.py
@@ -39,7 +39,12 @@ class MatrixBuilder:
         self._index += 1
         
     def clear(self, retain_idx = 0):
+        #Entries past the retained ones have to go: the next pass stamps fewer values whenever one of them is exactly zero.
+        del self._row[retain_idx:]
+        del self._col[retain_idx:]
+        del self._val[retain_idx:]
         self._index = retain_idx
+        self._max_index = retain_idx
 
     def to_matrix(self) -> csc_matrix:
         if self.settings.debug and self._max_index != self._index:
-- 
2.43.0


From e397b57bd0d4af78757bb54aa2abfa467349e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:25 +0000
Subject: [PATCH 16/23] fix: adjusting the generation at an artificial swing
 bus never ended when it does not converge

---
 src/logic/network/timeseriesprocessor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index e3cb883..d60a270 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -14,6 +14,7 @@ from models.components.switch import Switch
 from models.components.transformer import Transformer
 
 VOLTAGE_DEVIATION_THRESHOLD = 0.05
+MAX_GENERATOR_ADJUSTMENTS = 100
 
 class TimeSeriesProcessor:
     THRESHOLD = 1e-1
@@ -228,7 +229,14 @@ class TimeSeriesProcessor:
     def execute_powerflow(self) -> PowerFlowResults:
         snapshot_results = self.powerflow.execute()
         # If requested, adjust a specific negative load until the specified swing bus is within a threshold of zero power in/out
-        while self.adjust_generator_output(snapshot_results):
+        # (the adjustment need not converge, e.g. if a transformer shifts the phases in between)
+        adjustments = 0
+        while snapshot_results.is_success and self.adjust_generator_output(snapshot_results):
+            if adjustments == MAX_GENERATOR_ADJUSTMENTS:
+                print("Could not find a generator output where the artificial swing bus is not required.")
+                snapshot_results.is_success = False
+                break
+            adjustments += 1
             snapshot_results = self.powerflow.execute()
         if snapshot_results.is_success and self.violates_equipment_ratings(snapshot_results):
             snapshot_results.violates_equipment_ratings = True
-- 
2.43.0


From e176b28178bc2126154236569a58f0758d216720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 17/23] fix: selecting an island dropped every grounded load
 and capacitor of that island

---
 src/logic/network/timeseriesprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logic/network/timeseriesprocessor.py b/src/logic/network/timeseriesprocessor.py
index d60a270..2c78754 100644
--- a/src/logic/network/timeseriesprocessor.py
+++ b/src/logic/network/timeseriesprocessor.py
@@ -9,6 +9,7 @@ import networkx as nx
 from logic.network.timeseriessettings import TimeSeriesSettings
 from logic.powerflow import PowerFlow
 from logic.powerflowresults import CenterTapTransformerResult, LineResult, PowerFlowResults, QuasiTimeSeriesResults, TransformerResult
+from models.components.bus import GROUND
 from models.components.center_tap_transformer import CenterTapTransformer
 from models.components.switch import Switch
 from models.components.transformer import Transformer
@@ -91,7 +92,7 @@ class TimeSeriesProcessor:
 
         load_to_remove = []
         for idx, load in enumerate(self.powerflow.network.loads):
-            if load.from_bus not in self.powerflow.network.buses or load.to_bus not in self.powerflow.network.buses:
+            if load.from_bus not in self.powerflow.network.buses or (load.to_bus != GROUND and load.to_bus not in self.powerflow.network.buses):
                 load_to_remove.insert(0, idx)
         for idx in load_to_remove:
             del self.powerflow.network.loads[idx]
@@ -120,7 +121,7 @@ class TimeSeriesProcessor:
 
         capacitor_to_remove = []
         for idx, capacitor in enumerate(self.powerflow.network.capacitors):
-            if capacitor.from_bus not in self.powerflow.network.buses or capacitor.to_bus not in self.powerflow.network.buses:
+            if capacitor.from_bus not in self.powerflow.network.buses or (capacitor.to_bus != GROUND and capacitor.to_bus not in self.powerflow.network.buses):
                 capacitor_to_remove.insert(0, idx)
         for idx in capacitor_to_remove:
             del self.powerflow.network.capacitors[idx]
-- 
2.43.0


From 8f13caeb2adfc2fec3ff87e1b4751bafbc814dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:59 +0000
Subject: [PATCH 18/23] fix: a conductor given in metric units was read as
 imperial by every line after the first

---
 src/ditto/readers/gridlabd/read.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 426021b..23591f7 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -893,8 +893,8 @@ class Reader(AbstractReader):
 
                         try:
                             if conductor["geometric_mean_radius"].find('cm') != -1:
-                                conductor["geometric_mean_radius"] = remove_nonnum.sub('', conductor["geometric_mean_radius"])
-                                api_wire.gmr = float(conductor["geometric_mean_radius"]) / 30.48 # convert cm to feet
+                                gmr = remove_nonnum.sub('', conductor["geometric_mean_radius"])
+                                api_wire.gmr = float(gmr) / 30.48 # convert cm to feet
                             else:
                                 api_wire.gmr = float(conductor["geometric_mean_radius"])
                         except AttributeError:
@@ -902,10 +902,8 @@ class Reader(AbstractReader):
                         try:
                             if conductor["resistance"].find('Ohm/km') != -1:
                                 # Convert Ohm/km into Ohm/mi
-                                conductor["resistance"] = remove_nonnum.sub(
-                                    '', conductor["resistance"])
-                                api_wire.resistance = float(
-                                    conductor["resistance"]) * 1.609344
+                                resistance = remove_nonnum.sub('', conductor["resistance"])
+                                api_wire.resistance = float(resistance) * 1.609344
                             else:
                                 api_wire.resistance = float(conductor["resistance"])
                         except AttributeError:
@@ -1181,10 +1179,8 @@ class Reader(AbstractReader):
                         # set resistance to be the conductor resistance for underground cables
                         try:
                             if conductor["conductor_resistance"].find('Ohm/km') != -1:
-                                conductor["conductor_resistance"] = remove_nonnum.sub(
-                                    '', conductor["conductor_resistance"])
-                                api_wire.resistance = float(
-                                    conductor["conductor_resistance"]) * 1.609344
+                                resistance = remove_nonnum.sub('', conductor["conductor_resistance"])
+                                api_wire.resistance = float(resistance) * 1.609344
                             else:
                                 # NOTE: There doesn't seem to be inclusion of taped shielding GMR or resistance here
                                 # They seem to be assumed to be zero
-- 
2.43.0


From e7458ea439bae77edf8c76c6b92bf6b264db7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 19/23] fix: units after a blank were dropped and the length,
 voltage or resistance taken in the default unit

---
 src/ditto/readers/gridlabd/read.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 23591f7..1859ce0 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -65,6 +65,18 @@ shared_config_objects = [
     'overhead_line_conductor'
 ]
 
+#Units next to a value that are converted when the property is used: they stay with the value.
+converted_units = {
+    ("overhead_line", "length"): "km",
+    ("underground_line", "length"): "km",
+    ("triplex_line", "length"): "km",
+    ("transformer_configuration", "primary_voltage"): "kV",
+    ("transformer_configuration", "secondary_voltage"): "kV",
+    ("overhead_line_conductor", "geometric_mean_radius"): "cm",
+    ("overhead_line_conductor", "resistance"): "Ohm/km",
+    ("underground_line_conductor", "conductor_resistance"): "Ohm/km"
+}
+
 def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00PM"):
     all_gld_objects = {}
 
@@ -138,6 +150,10 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                             value = str(float(value) / 12)
                         if obj_class == "capacitor" and units == "MVAr":
                             value = str(float(value) * 1e6)
+                        if element == "length" and units in ("mile", "mi"):
+                            value = str(float(value) * 5280)
+                        if converted_units.get((obj_class, element)) == units:
+                            value += units
                         # print element,value,units
                         # if units[0] =='k':
                         #    value = value/1000.0
@@ -459,7 +475,7 @@ class Reader(AbstractReader):
                                     winding2.nominal_voltage = float(
                                         low_voltage)
                                 if num_windings == 3:
-                                    winding3.nominal_voltage = -float(low_voltage) # To indicate the 180 degree phase shift
+                                    winding3.nominal_voltage = -winding2.nominal_voltage # To indicate the 180 degree phase shift
                             except AttributeError:
                                 pass
 
-- 
2.43.0


From 489b3d358c38af689edd6b7b556094a14297921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:33 +0000
Subject: [PATCH 20/23] fix: RAW cases on a system base other than 100 MVA were
 solved with impedances per unit of the wrong base

---
 src/logic/network/parsers/raw/parse_transformers.py | 11 +++++++----
 src/logic/network/parsers/raw/parser.py             | 12 ++++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/logic/network/parsers/raw/parse_transformers.py b/src/logic/network/parsers/raw/parse_transformers.py
index be1be22..d328aa7 100644
--- a/src/logic/network/parsers/raw/parse_transformers.py
+++ b/src/logic/network/parsers/raw/parse_transformers.py
@@ -10,6 +10,7 @@
 import math
 import copy
 import typing
+from logic.network.parsers.raw.global_vars import global_vars
 from models.components.bus import GROUND, Bus
 
 from models.components.transformer import Transformer
@@ -151,8 +152,9 @@ class TwoWindingXfmrs:
             baseImpedance = sbase / self.mSBASE12 * tj2
             self.mXLossInit = math.sqrt(Zpu * Zpu - Rpu * Rpu) * baseImpedance
             self.mRLossInit = Rpu * baseImpedance
-        self.mRLoss = self.mRLossInit
-        self.mXLoss = self.mXLossInit
+        # The solver's base is not necessarily that of the file.
+        self.mRLoss = self.mRLossInit * global_vars.MVAbase / sbase
+        self.mXLoss = self.mXLossInit * global_vars.MVAbase / sbase
 
         # Magnitizing impedance calculation
         if (xfmr_data.cm == 1):
@@ -343,8 +345,9 @@ class ThreeWindingXfmrs(object):
                 baseImpedance = sbase / self.mSBASE[idx] * tj2
                 self.mXLossInit = math.sqrt(Zpu * Zpu - Rpu * Rpu) * baseImpedance
                 self.mRLossInit = Rpu * baseImpedance
-            self.mRLossDelta[idx] = self.mRLossInit
-            self.mXLossDelta[idx] = self.mXLossInit
+            # The solver's base is not necessarily that of the file.
+            self.mRLossDelta[idx] = self.mRLossInit * global_vars.MVAbase / sbase
+            self.mXLossDelta[idx] = self.mXLossInit * global_vars.MVAbase / sbase
         # Star formation impedance are calculated as follows:
         self.mR1 = 0.5 * (self.mRLossDelta[0] + self.mRLossDelta[2] - self.mRLossDelta[1])
         self.mX1 = 0.5 * (self.mXLossDelta[0] + self.mXLossDelta[2] - self.mXLossDelta[1])
diff --git a/src/logic/network/parsers/raw/parser.py b/src/logic/network/parsers/raw/parser.py
index 8262d24..3bb4b6f 100644
--- a/src/logic/network/parsers/raw/parser.py
+++ b/src/logic/network/parsers/raw/parser.py
@@ -93,7 +93,11 @@ def parse_raw(rawfile):
     search_case_data['case_id'] = case_id
 
     version = case_id.rev
-    sbase = case_id.sbase
+
+    sbase = case_id.sbase if case_id.sbase else global_vars.MVAbase
+
+    # The solver works on one base for all cases: impedances in per unit of the base of the file are converted to it.
+    rebase = global_vars.MVAbase / sbase
 
     #  ----------buses ----------
     PV_list = []
@@ -366,9 +370,9 @@ def parse_raw(rawfile):
 
     integrated_data['branches'] = []
     for branch in data.raw.get_nontransformer_branches():
-        br = data_classes.Branch_data(branch.i, branch.j, branch.ckt, branch.r, branch.x,
-                                      branch.b, branch.ratea, branch.rateb, branch.ratec,
-                                      branch.gi, branch.bi, branch.gj, branch.bj, branch.st,
+        br = data_classes.Branch_data(branch.i, branch.j, branch.ckt, branch.r * rebase, branch.x * rebase,
+                                      branch.b / rebase, branch.ratea, branch.rateb, branch.ratec,
+                                      branch.gi / rebase, branch.bi / rebase, branch.gj / rebase, branch.bj / rebase, branch.st,
                                       branch.met, branch.len, branch.o1, branch.o2, branch.o3,
                                       branch.o4, branch.f1, branch.f2, branch.f3, branch.f4)
         all_case_data['all_non_xfmr_branches'].append(br)
-- 
2.43.0


From 77832c013e567ef552006983c1564e7e8d31c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:33 +0000
Subject: [PATCH 21/23] fix: the constant-admittance part of RAW loads was
 ignored

---
 src/logic/network/parsers/raw/data_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logic/network/parsers/raw/data_classes.py b/src/logic/network/parsers/raw/data_classes.py
index d36a96b..e9dc30d 100644
--- a/src/logic/network/parsers/raw/data_classes.py
+++ b/src/logic/network/parsers/raw/data_classes.py
@@ -91,7 +91,9 @@ class Load_data:
         self.scale = scale
 
     def integrate(self, all_bus_key: typing.Dict[int, Bus]):
-        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, complex(0, 0), self.ip, self.iq)
+        Y = complex(self.yp, self.yq) / 100
+        Z = 1 / Y if Y != 0 else complex(0, 0)
+        new_load = Load(all_bus_key[self.i], GROUND, self.pl / 100, self.ql / 100, Z, self.ip, self.iq)
         return (new_load)
 
 
-- 
2.43.0


From 5803fca5bfc7d3cf40185910e34483c51efc3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:33 +0000
Subject: [PATCH 22/23] fix: line charging of overhead lines took diameters in
 inches for feet, wrong image distances, and missing heights for -1 ft

---
 src/ditto/readers/gridlabd/line_impedance.py | 31 +++++++-------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 6fdffed..3b24033 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -480,7 +480,6 @@ def compute_underground_spacing(outer_diameters, spacing_config, conductors):
     return np.array(distances)
 
 def compute_overhead_capacitance(wire_list, distances, freq = 60):
-    neutral_index = rev_lookup["N"]
     earth_index = rev_lookup["E"]
 
     #See definitions below eqn 5.5
@@ -497,31 +496,23 @@ def compute_overhead_capacitance(wire_list, distances, freq = 60):
             has_neutral = True
 
         i = rev_lookup[i_wire.phase]
+
+        #The capacitance to ground is not defined without the height of the conductors.
+        if distances[i][earth_index] <= 0:
+            return None
+
         indexes.append(i)
-        S[i, i] = 2 * distances[i][i]
-        RD[i] = i_wire.diameter / 2
+
+        #Conductor diameters are given in inches, distances in feet.
+        RD[i] = i_wire.diameter / 2 / 12
 
         for j_wire in wire_list:
             j = rev_lookup[j_wire.phase]
 
-            phase_phase_dist = distances[i][j]
-            phase_neutral_dist = distances[i][neutral_index]
-            phase_earth_dist = distances[i][earth_index]
-            neutral_earth_dist = distances[neutral_index][earth_index]
-
-            phasepair = i_wire.phase + j_wire.phase 
+            conductor_dist = 0 if i == j else distances[i][j]
 
-            if i == j:
-                _horizDist = 0
-                _vertDist = 2 * phase_earth_dist
-            if phasepair in ["AB", "BA", "AC", "CA", "BC", "CB"]:
-                _horizDist = phase_phase_dist
-                _vertDist = 2 * phase_earth_dist
-            elif phasepair in ["AN", "NA", "BN", "NB", "CN", "NC"]:
-                _horizDist = (phase_neutral_dist ** 2 - (phase_earth_dist - neutral_earth_dist) ** 2) ** 0.5
-                _vertDist = phase_earth_dist + neutral_earth_dist
-
-            S[i, j] = (_horizDist ** 2 + _vertDist ** 2) ** 0.5
+            #Distance to the image of the other conductor
+            S[i, j] = (conductor_dist ** 2 + 4 * distances[i][earth_index] * distances[j][earth_index]) ** 0.5
 
     #See eqn's 5.9 and 5.10.
     reduced_distances = distances[:, indexes][indexes, :]
-- 
2.43.0


From ebf693e32b1a4261636a806de640698d782e032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:33 +0000
Subject: [PATCH 23/23] fix: line configurations that state their impedance or
 capacitance matrix crashed the GridLAB-D reader

---
 src/ditto/formats/gridlabd/schema.json       | 54 ++++++++++++++++++++
 src/ditto/readers/gridlabd/line_impedance.py | 49 ++++++++----------
 src/ditto/readers/gridlabd/read.py           | 42 +++++++++++----
 3 files changed, 106 insertions(+), 39 deletions(-)

diff --git a/src/ditto/formats/gridlabd/schema.json b/src/ditto/formats/gridlabd/schema.json
index fc3ccd8..4853509 100644
--- a/src/ditto/formats/gridlabd/schema.json
+++ b/src/ditto/formats/gridlabd/schema.json
@@ -409,6 +409,60 @@
                     "name": "z33",
                     "type": "complex",
                     "unit": "Ohm/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c11",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c12",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c13",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c21",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c22",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c23",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c31",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c32",
+                    "type": "double",
+                    "unit": "nF/mile"
+                },
+                {
+                    "description": "describes the c-matrix directly for either underground or overhead lines instead of using the geometric configurations (This will over-write geometric configurations).",
+                    "name": "c33",
+                    "type": "double",
+                    "unit": "nF/mile"
                 }
             ]
         },
diff --git a/src/ditto/readers/gridlabd/line_impedance.py b/src/ditto/readers/gridlabd/line_impedance.py
index 3b24033..3e1ff89 100644
--- a/src/ditto/readers/gridlabd/line_impedance.py
+++ b/src/ditto/readers/gridlabd/line_impedance.py
@@ -757,43 +757,34 @@ def compute_triplex_impedance(wire_list, freq=60, resistivity=100, kron_reduce=T
 
     return matrix
 
-def try_load_direct_line_impedance(line_config):
-    #It is possible to specify the line impedance directly in Z matrix form:
-    #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
+def try_load_direct_matrix(line_config, prefix, phases):
+    indexes = [rev_lookup[phase] if phase in rev_lookup else int(phase) - 1 for phase in sorted(phases)]
 
-    impedance_matrix = None
-    for property_number in line_direct_lookup.keys():
-        prop_name = f"z{property_number}"
-        if not hasattr(line_config, prop_name):
+    matrix = None
+    for property_number, (i, j) in line_direct_lookup.items():
+        try:
+            value = line_config[f"{prefix}{property_number}"]
+        except AttributeError:
             continue
 
-        if impedance_matrix == None:
-            impedance_matrix = np.zeros((3,3)).astype(complex)
-        
-        i, j = line_direct_lookup[property_number]
+        if matrix is None:
+            matrix = np.zeros((3,3)).astype(complex)
 
-        impedance_matrix[i][j] = complex(line_config[prop_name])
-    
-    return impedance_matrix
+        matrix[i][j] = complex(value.replace("i", "j"))
 
-def try_load_direct_line_capacitance(line_config):
-    #It is possible to specify the line capacitance directly in Z matrix form:
-    #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
+    return None if matrix is None else matrix[:, indexes][indexes, :]
 
-    capacitance_matrix = None
-    for property_number in line_direct_lookup.keys():
-        prop_name = f"c{property_number}"
-        if not hasattr(line_config, prop_name):
-            continue
+def try_load_direct_line_impedance(line_config, phases):
+    #It is possible to specify the line impedance directly in Z matrix form, in Ohm/mile:
+    #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
+    return try_load_direct_matrix(line_config, "z", phases)
 
-        if capacitance_matrix == None:
-            capacitance_matrix = np.zeros((3,3)).astype(complex)
-        
-        i, j = line_direct_lookup[property_number]
+def try_load_direct_line_capacitance(line_config, phases, freq = 60):
+    #It is possible to specify the line capacitance directly in matrix form, in nF/mile:
+    #http://gridlab-d.shoutwiki.com/wiki/Power_Flow_User_Guide#Line_configuration_properties
+    capacitance_matrix = try_load_direct_matrix(line_config, "c", phases)
 
-        capacitance_matrix[i][j] = complex(line_config[prop_name])
-    
-    return capacitance_matrix
+    return None if capacitance_matrix is None else 2 * math.pi * freq * 1e-9 * 1j * capacitance_matrix
 
 def calc_Zii(r_i, GMRi, is_underground, resistivity = 100, freq = 60):
     #Eqn 4.41
diff --git a/src/ditto/readers/gridlabd/read.py b/src/ditto/readers/gridlabd/read.py
index 1859ce0..3a7b319 100644
--- a/src/ditto/readers/gridlabd/read.py
+++ b/src/ditto/readers/gridlabd/read.py
@@ -152,6 +152,8 @@ def read_gld_objects_and_schedules(input_file, origin_datetime="2017 Jun 1 2:00P
                             value = str(float(value) * 1e6)
                         if element == "length" and units in ("mile", "mi"):
                             value = str(float(value) * 5280)
+                        if obj_class in ("line_configuration", "triplex_line_configuration") and units in ("Ohm/km", "nF/km"):
+                            value = str(complex(value.replace("i", "j")) * 1.609344)
                         if converted_units.get((obj_class, element)) == units:
                             value += units
                         # print element,value,units
@@ -231,6 +233,15 @@ def convert_Z_matrix_per_mile_to_per_meter(z_matrix):
 
     return z_matrix.tolist()
 
+def create_wires(model, phases):
+    wires = []
+    for phase in sorted(phases):
+        api_wire = Wire(model)
+        api_wire.phase = phase
+        wires.append(api_wire)
+
+    return wires
+
 class Reader(AbstractReader):
     """
     The schema is read in gridlabd.py which is imported as a module here.
@@ -950,17 +961,21 @@ class Reader(AbstractReader):
 
                 wire_list = list(conductors.keys())
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, phases)
 
-                if impedance_matrix == None:
+                is_direct = impedance_matrix is not None
+
+                if not is_direct:
                     striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
                     impedance_matrix = compute_overhead_impedance(wire_list, striped_distances, phases, has_neutral)
+                elif not conductors:
+                    wire_list = create_wires(model, phases)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-                capacitance_matrix = try_load_direct_line_capacitance(config)
+                capacitance_matrix = try_load_direct_line_capacitance(config, phases)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and not is_direct:
                     capacitance_matrix = compute_overhead_capacitance(wire_list, distances)
                 
                 if capacitance_matrix is not None:
@@ -1094,10 +1109,12 @@ class Reader(AbstractReader):
 
                 wire_list = list(conductors.keys())
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, triplex_phases)
 
                 if impedance_matrix is None:
                     impedance_matrix = compute_triplex_impedance(wire_list)
+                elif not conductors:
+                    wire_list = create_wires(model, triplex_phases)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
@@ -1248,20 +1265,25 @@ class Reader(AbstractReader):
 
                 wire_list = list(conductors.keys())
 
-                impedance_matrix = try_load_direct_line_impedance(config)
+                impedance_matrix = try_load_direct_line_impedance(config, phases)
 
-                if impedance_matrix is None:
+                is_direct = impedance_matrix is not None
+
+                if not is_direct:
                     striped_distances = distances[:,~np.all(distances, axis=0, where=[-1])][~np.all(distances, axis=1, where=[-1]),:]
                     impedance_matrix = compute_underground_impedance(wire_list, striped_distances)
+                elif not conductors:
+                    wire_list = create_wires(model, phases)
 
                 api_line.impedance_matrix = convert_Z_matrix_per_mile_to_per_meter(impedance_matrix)
 
-                capacitance_matrix = try_load_direct_line_capacitance(config)
+                capacitance_matrix = try_load_direct_line_capacitance(config, phases)
 
-                if capacitance_matrix is None:
+                if capacitance_matrix is None and not is_direct:
                     capacitance_matrix = compute_underground_capacitance(wire_list)
                 
-                api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
+                if capacitance_matrix is not None:
+                    api_line.capacitance_matrix = convert_Z_matrix_per_mile_to_per_meter(capacitance_matrix)
 
                 api_line.wires = wire_list
 
-- 
2.43.0

