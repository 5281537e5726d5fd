From 7a151d3b55129a9d950820512647223a67aa81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 01/24] fix: give every lattice its own params, so qubits built
 from one params dict keep separate counters

---
 qtcodes/circuits/base.py       | 3 ++-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..2372767 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        # copy, as the generated params and counters belong to this lattice only
+        self.params: Dict[str, Any] = dict(params)
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..4384b39 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From 9b1dfdee629ea075994582b0768330381c3f0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 02/24] fix: logical readout of XZZX lattices of height or
 width 1

---
 qtcodes/circuits/xzzx.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..0f90bee 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -145,17 +145,19 @@ class _XZZXLattice(_RotatedLattice):
 
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
-        self.circ.h(self.qregisters["ancilla"])
+        if x_readout_indxs:
+            self.circ.h(self.qregisters["ancilla"])
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
+            self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -185,17 +187,19 @@ class _XZZXLattice(_RotatedLattice):
 
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
-        self.circ.h(self.qregisters["ancilla"])
+        if x_readout_indxs:
+            self.circ.h(self.qregisters["ancilla"])
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
+            self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From 1c85e706ee641f45e2d237952aab1f71ea649f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 03/24] fix: decoding no longer appends virtual nodes to the
 caller's syndrome list

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..e0bd6dd 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]  # leave the caller's list alone
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 0e15c72305946eb6e216a05e916a1b0a2eff0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 04/24] fix: path degeneracy to the boundary for the syndrome
 node with index 0

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index e0bd6dd..03156a2 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From 719b830e91419deb90240a00194ae4c62e08b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 05/24] fix: a topological qubit that cannot be built leaves no
 empty sub-register behind

---
 qtcodes/circuits/circ.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..ce9f41a 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,12 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
-        if sub_register not in self.tqubits:
-            self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
+        tqubit = str2qtype[ctype](
             params, name=self.name + "_" + str(self.n), circ=self.circ
         )
+        if sub_register not in self.tqubits:
+            self.tqubits[sub_register] = {}
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From bd3ba0693fb5d3b09c39e2aec11e42801d73cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/24] fix: reject lattice dimensions that are not a pair of
 positive odd numbers

---
 qtcodes/circuits/rotated_surface.py | 6 +++++-
 qtcodes/fitters/rotated_surface.py  | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..a721f53 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -72,9 +72,13 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         self.params["d"] = tuple(map(int, self.params["d"]))
 
         # validation
+        if len(self.params["d"]) != 2:
+            raise LatticeError(
+                "Please provide a code height and width in parameter d: e.g. (3,7)."
+            )
         dh = self.params["d"][self.H]
         dw = self.params["d"][self.W]
-        if dh % 2 != 1 or dw % 2 != 1:
+        if dh < 1 or dw < 1 or dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
 
         # calculated params
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..0b4a1f1 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -42,9 +42,9 @@ class RotatedDecoder(LatticeDecoder):
         dh = self.params["d"][constants.DH]
         dw = self.params["d"][constants.DW]
 
-        if dh % 2 != 1:
+        if dh < 1 or dh % 2 != 1:
             raise LatticeError("Surface code height must be odd!")
-        if dw % 2 != 1:
+        if dw < 1 or dw % 2 != 1:
             raise LatticeError("Surface code width must be odd!")
 
     def _make_syndrome_graph(self) -> None:
-- 
2.43.0


From 8d4298b41af758865f293c8a1e3d5cef0226285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 07/24] fix: logical CX onto a target keeps superpositions of
 the controlling topological qubit

---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..ddcedb9 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, without going through the ancilla: that would
+            # stay entangled with the lattice and so measure its logical Z
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 0f90bee..2b005af 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,16 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, without going through the ancilla: that would
+            # stay entangled with the lattice and so measure its logical Z
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(self.qregisters["data"][i])
+                    self.circ.cx(self.qregisters["data"][i], target)
+                    self.circ.h(self.qregisters["data"][i])
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 2bd286c79badd7883baa5f4ac70d7b61f086938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 08/24] fix: sweep_mp runs, and saves every point

---
 qtcodes/tools/benchmarking.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..b5bf79b 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -12,6 +12,7 @@ import matplotlib.pyplot as plt
 from qiskit import execute, Aer, QuantumCircuit
 from tqdm import tqdm
 
+from functools import partial
 from typing import Dict, Optional, List
 
 
@@ -151,11 +152,17 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # a lambda cannot be sent to the workers, and only this process saves
+        # data, as concurrent workers would overwrite each other's points
+        single = partial(self.single, save_data=False, shots=shots)
+        logical_error_rates = []
+        with Pool(4) as p:  # TODO change on HPC
+            for physical_error_rate, logical_error_rate_value in zip(
+                physical_error_rates, p.imap(single, physical_error_rates)
+            ):
+                logical_error_rates.append(logical_error_rate_value)
+                if save_data:
+                    self.append_data(physical_error_rate, logical_error_rate_value)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From 668214f6f4f71ddc21484f32f986768fc4037766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 09/24] fix: an interrupted save of benchmark data loses no
 earlier points

---
 qtcodes/tools/benchmarking.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index b5bf79b..85a625b 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+import os
 
 
 import numpy as np
@@ -208,7 +209,7 @@ class TopologicalBenchmark:
             data = np.load(self.filename)
             physical_error_rates = data["physical_error_rates"]
             logical_error_rates = data["logical_error_rates"]
-        except:
+        except FileNotFoundError:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
@@ -216,13 +217,16 @@ class TopologicalBenchmark:
         logical_error_rates = np.append(logical_error_rates, logical_error_rate)
 
         indxs = np.argsort(physical_error_rates)
-        np.savez(
-            self.filename,
-            d=self.decoder.params["d"],
-            T=self.decoder.params["T"],
-            physical_error_rates=physical_error_rates[indxs],
-            logical_error_rates=logical_error_rates[indxs],
-        )
+        # replace the file in one step: an interrupted save must not lose old points
+        with open(self.filename + ".tmp", "wb") as tmp_file:
+            np.savez(
+                tmp_file,
+                d=self.decoder.params["d"],
+                T=self.decoder.params["T"],
+                physical_error_rates=physical_error_rates[indxs],
+                logical_error_rates=logical_error_rates[indxs],
+            )
+        os.replace(self.filename + ".tmp", self.filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From f17fd6649022b0eacb1f1b4abeb2e88c23e766dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 10/24] fix: a repetition code refuses d tuples that are not a
 height and a width with LatticeError

---
 qtcodes/circuits/repetition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 4384b39..4036eda 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -47,6 +47,10 @@ class RepetitionQubit(XXZZQubit):
             else:
                 params["d"] = (d, 1)
         elif isinstance(params["d"], Tuple):
+            if len(params["d"]) != 2:
+                raise LatticeError(
+                    "Please provide a code height and width in parameter d: e.g. (3,1)."
+                )
             if not params["phase-flip-protected"] and params["d"][constants.DW] != 1:
                 raise LatticeError(
                     "Bit-flip protected repetition qubits can only have width 1 in parameter d: e.g. (3,1). If you "
-- 
2.43.0


From cbc4c97afb899f91c29f1d25746e601b924d10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 11/24] fix: lattice readouts of type X can be parsed

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index a721f53..1e46cd3 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -280,7 +280,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From a995a3f03010d44cf4d8596f51bd2e5cb82b83c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 12/24] fix: a look-up table keeps the counts it was given when
 the caller reuses the dictionary

---
 qtcodes/fitters/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..acbf905 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,7 +151,7 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = results
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
-- 
2.43.0


From a295dd6182c246c2500ec1d904f8824f74a6b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 13/24] fix: an analysis plots on the axes it is given

---
 qtcodes/tools/benchmarking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 85a625b..08239cc 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -248,7 +248,7 @@ class TopologicalAnalysis:
         if ax is None:
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -256,8 +256,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From d87d0468e7fbb859b578e7af4b348a0072f67de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 14/24] fix: sweep_mp does not hang after an earlier simulation
 in the same process

---
 qtcodes/tools/benchmarking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 08239cc..f09a835 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -13,6 +13,7 @@ import matplotlib.pyplot as plt
 from qiskit import execute, Aer, QuantumCircuit
 from tqdm import tqdm
 
+from concurrent.futures import ThreadPoolExecutor
 from functools import partial
 from typing import Dict, Optional, List
 
@@ -185,10 +186,13 @@ class TopologicalBenchmark:
                 Shots in the circuit simulation.
 
         """
+        # Aer's default executor hangs in a forked worker if it was used before the fork
+        backend = Aer.get_backend("aer_simulator")
+        backend.set_options(executor=ThreadPoolExecutor(max_workers=1))
         results = (
             execute(
                 self.circ,
-                Aer.get_backend("aer_simulator"),
+                backend,
                 noise_model=self.noise_model_func(physical_error_rate),
                 optimization_level=0,
                 shots=shots,
-- 
2.43.0


From 1d5fe5cb9c95906a27302f43a7d97bfaaa2482ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:55 +0000
Subject: [PATCH 15/24] fix: entangle_x/entangle_z of lattices without X or
 without Z plaquettes

---
 qtcodes/circuits/base.py            | 5 +++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 2372767..934c622 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -146,8 +146,9 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        # `is None` is necessary, as an empty list means no plaquettes at all
+        qubit_indices = self.qubit_indices if qubit_indices is None else qubit_indices
+        stabilizers = self.stabilizers if stabilizers is None else stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 1e46cd3..fcfd51d 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -217,14 +217,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 3c4441aa28efff8fc5a2f5829b92f5cde068edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 16/24] fix: logical CNOT when the circuit has registers of the
 same names already

---
 qtcodes/circuits/circ.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index ce9f41a..8915edc 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -126,17 +126,28 @@ class TopologicalCircuit:
         self.creg: Dict[str, ClassicalRegister] = {}
         self.circ = treg.circ
 
+    def _free_name(self, name: Optional[str]) -> Optional[str]:
+        """
+        Returns name, or name with a suffix if a register of the (possibly shared)
+        circuit is called like that already.
+        """
+        taken = {reg.name for reg in self.circ.qregs + self.circ.cregs}
+        free = name
+        while free in taken:
+            free = "{}_".format(free)
+        return free
+
     def add_creg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.creg and not override:
             return
-        creg = ClassicalRegister(size=size, name=name, bits=bits)
+        creg = ClassicalRegister(size=size, name=self._free_name(name), bits=bits)
         self.creg[name] = creg
         self.circ.add_register(creg)
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
-        qreg = QuantumRegister(size=size, name=name, bits=bits)
+        qreg = QuantumRegister(size=size, name=self._free_name(name), bits=bits)
         self.qreg[name] = qreg
         self.circ.add_register(qreg)
 
-- 
2.43.0


From d6f8f210976289a02a0cecfdf08c965801e34fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:55 +0000
Subject: [PATCH 17/24] fix: reset_x and lattice_readout_x of an XZZX lattice
 of one data qubit

---
 qtcodes/circuits/xzzx.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 2b005af..97cc3ae 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -54,7 +54,8 @@ class _XZZXLattice(_RotatedLattice):
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-        self.circ.h(self.qregisters["data"][1::2])  # H|0> = |+>
+        for qubit in self.qregisters["data"][1::2]:  # none if there is one data qubit
+            self.circ.h(qubit)  # H|0> = |+>
 
     def reset_z(self):
         self.circ.reset(self.qregisters["data"])
@@ -235,8 +236,9 @@ class _XZZXLattice(_RotatedLattice):
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
-        # add H to measure along X for odd data qubits
-        self.circ.h(self.qregisters["data"][1::2])
+        # add H to measure along X for odd data qubits, none if there is one data qubit
+        for qubit in self.qregisters["data"][1::2]:
+            self.circ.h(qubit)
 
         self.circ.measure(self.qregisters["data"], self.cregisters[creg_name])
         self.circ.barrier()
-- 
2.43.0


From 90cd0363113015bdd4d099c967df4f1c89ce7714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:51 +0000
Subject: [PATCH 18/24] fix: no syndrome node in the decoding graph of a type
 without plaquettes

---
 qtcodes/fitters/rotated_surface.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 0b4a1f1..f5b02ff 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -61,11 +61,15 @@ class RotatedDecoder(LatticeDecoder):
             for t in range(0, self.params["T"]):
                 start_node = start_nodes[syndrome_graph_key]
                 node_label = (t,) + start_node
-                self.node_map[syndrome_graph_key][node_label] = self.S[
-                    syndrome_graph_key
-                ].add_node(node_label)
+                if not self._valid_syndrome(start_node, syndrome_graph_key):
+                    # without plaquettes of this type there are boundary sites only
+                    node_label = self.virtual[syndrome_graph_key][0]
+                if node_label not in self.node_map[syndrome_graph_key]:
+                    self.node_map[syndrome_graph_key][node_label] = self.S[
+                        syndrome_graph_key
+                    ].add_node(node_label)
                 self._populate_syndrome_graph(
-                    (t,) + start_node, t, [], syndrome_graph_key, 1
+                    node_label, t, [], syndrome_graph_key, 1
                 )
 
             # connect physical qubits in same location across subgraphs of adjacent times
-- 
2.43.0


From b411afb07681be33df2f232d5eeb7f0d801b5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 19/24] fix: decoders of large lattices no longer exceed the
 recursion limit

---
 qtcodes/fitters/rotated_surface.py | 43 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index f5b02ff..3f88cbd 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -93,7 +93,7 @@ class RotatedDecoder(LatticeDecoder):
         syndrome_graph_key: str,
         edge_weight: int = 1,
     ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+        """Function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
         The current_node is connected to neighboring nodes without revisiting a node.
 
         Args:
@@ -107,6 +107,30 @@ class RotatedDecoder(LatticeDecoder):
         Returns:
             None: function is to traverse the syndrome nodes and connect neighbors
         """
+        # explicit stack, as large lattices would exceed the recursion limit
+        stack = [current_node]
+        while stack:
+            node = stack.pop()
+            if node not in visited_nodes:
+                targets = self._connect_neighbors(
+                    node, t, visited_nodes, syndrome_graph_key, edge_weight
+                )
+                stack.extend(reversed(targets))
+
+    def _connect_neighbors(
+        self,
+        current_node: TQubit,
+        t: int,
+        visited_nodes: List[TQubit],
+        syndrome_graph_key: str,
+        edge_weight: int = 1,
+    ) -> List[TQubit]:
+        """Connects current_node to its neighbors that were not visited yet,
+        see _populate_syndrome_graph.
+
+        Returns:
+            targets ([(t, x, y),]): these neighbors, in the order in which to visit them
+        """
         visited_nodes.append(current_node)
         neighbors = []
         i = current_node[1]  # syndrome node x coordinate
@@ -131,7 +155,7 @@ class RotatedDecoder(LatticeDecoder):
 
         # no neighbors to add edges
         if not normal_neighbors and not virtual_neighbors:
-            return
+            return []
 
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
@@ -168,17 +192,10 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        # traverse normal neighbors first, then virtual neighbors
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0


From 9d11b9e0777fa1e3a879b77ee3d15e90c97b7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 20/24] fix: parse result strings of a lattice of one data
 qubit

---
 qtcodes/circuits/rotated_surface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index fcfd51d..3ac7ae6 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -454,15 +454,18 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
             logical_readout = int(chunks[0])
             chunks = chunks[1:]
 
-        int_syndromes = [int(x, base=2) for x in chunks[::-1]]
+        # a lattice of one data qubit has no syndromes, i.e. empty chunks
+        int_syndromes = [int(x, base=2) if x else 0 for x in chunks[::-1]]
         xor_syndromes = [a ^ b for (a, b) in zip(int_syndromes, int_syndromes[1:])]
 
         num_syn = self.params["num_syn"]
         mask_z = "1" * num_syn[self.SYNZ]
         mask_x = "1" * num_syn[self.SYNX] + "0" * num_syn[self.SYNZ]
-        x_syndromes = [
-            (x & int(mask_x, base=2)) >> num_syn[self.SYNZ] for x in xor_syndromes
-        ]
+        x_syndromes = []
+        if mask_x != "":
+            x_syndromes = [
+                (x & int(mask_x, base=2)) >> num_syn[self.SYNZ] for x in xor_syndromes
+            ]
         z_syndromes = []
         if mask_z != "":
             z_syndromes = [x & int(mask_z, base=2) for x in xor_syndromes]
-- 
2.43.0


From 15992ff83eab61a4f3c43f087b2b908bf58461d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 21/24] fix: parse a lattice readout without preceding
 stabilizer rounds

---
 qtcodes/circuits/rotated_surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 3ac7ae6..11ace82 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -443,11 +443,13 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
 
         if len(chunks[0]) > 1:  # this is true when all data qubits are readout
             assert readout_type is not None
+            # there might not have been any round of syndrome measurements
+            previous_syndrome = chunks[1] if len(chunks) > 1 else ""
             (
                 logical_readout,
                 final_stabilizer,
             ) = self.extract_final_stabilizer_and_logical_readout(
-                chunks[0], chunks[1], readout_type
+                chunks[0], previous_syndrome, readout_type
             )
             chunks = [final_stabilizer,] + chunks[1:]
         else:
-- 
2.43.0


From d43b1b2b5f8dfe80e7a117e1da13fe2eef7961cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:32 +0000
Subject: [PATCH 22/24] fix: a decoder keeps its own copy of its parameters

Decoders kept the caller's dictionary: changing it later, e.g. to build the
next decoder of a series from it, changed the code of those built earlier
(the lazily built encoder, the readout crossing, T in saved benchmark data).
---
 qtcodes/fitters/lattice_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 03156a2..65fc08f 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -35,6 +35,8 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         super().__init__(params)
         self._params_validation()
+        # copy, as later changes of the caller's dictionary do not concern this decoder
+        self.params = dict(self.params)
 
         for syndrome_graph_key in self.syndrome_graph_keys:
             self.S[syndrome_graph_key] = rx.PyGraph(multigraph=False)
-- 
2.43.0


From ba2a33e6a2d6ab92226bb36d77ae96fb01dd2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:15 +0000
Subject: [PATCH 23/24] fix: a decoder turns d into a tuple of integers as the
 encoders do

---
 qtcodes/fitters/rotated_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 3f88cbd..97509a3 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -34,6 +34,9 @@ class RotatedDecoder(LatticeDecoder):
             d = int(self.params["d"])
             self.params["d"] = (d, d)
 
+        # Convert to int tuple if it wasn't already
+        self.params["d"] = tuple(map(int, self.params["d"]))
+
         if len(self.params["d"]) != 2:
             raise LatticeError(
                 "Please provide a code height and width in parameter d: e.g. (3,7)."
-- 
2.43.0


From 69c3fd5e5d8b958e78b77975e08c1e4ee15789fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:26 +0000
Subject: [PATCH 24/24] fix: a logical CX never uses its control or target as
 the ancilla

---
 qtcodes/circuits/circ.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 8915edc..f296b0d 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -282,9 +282,16 @@ class TopologicalCircuit:
         # get qubits
         control = self._get_index(control)
         target = self._get_index(target)
-        if "ancilla" not in self.treg.tqubits:
+        # an ancilla is reset, so it is neither the control nor the target
+        ancillas = [
+            tqubit
+            for tqubit in self.treg.tqubits.get("ancilla", {}).values()
+            if tqubit is not control and tqubit is not target
+        ]
+        if not ancillas:
             self.treg.add_tqubit("ancilla", ancilla_ctype, ancilla_params)
-        ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
+            ancillas = list(self.treg["ancilla"].values())
+        ancilla = cast(TopologicalQubit, ancillas[-1])
 
         # prepare bits
         self.add_creg(1, "m1")
-- 
2.43.0

