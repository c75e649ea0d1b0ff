From 51777c71e643007c964a8f5a93e4bb881b6f1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:36 +0000
Subject: [PATCH 01/45] fix: use collections.abc.Iterable so a Workspace can be
 created on Python 3.10+

---
 spins/invdes/problem_graph/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..ad1fe2c 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,7 +56,7 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        if isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
         elif nodes:
-- 
2.43.0


From f8896e22484f286529baed056b6be82c3b049c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:36 +0000
Subject: [PATCH 02/45] fix: never run a heavy node in the same parallel block
 as a heavy node it depends on

---
 spins/goos/graph_executor.py           | 12 ++++++++++--
 spins/invdes/problem/graph_executor.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..209623a 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -193,7 +193,11 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that depends on a node in the block must wait for the
+                # next block.
+                while (_is_heavy_fun(fun_map[node]) and node not in fun_vals and
+                       not any(in_node in heavy_node_block
+                               for in_node in graph[node])):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -336,7 +340,11 @@ def eval_grad(
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that a node in the block depends on must wait for the
+                # next block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[block_node]
+                        for block_node in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..ba359ca 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -158,7 +158,11 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that depends on a node in the block must wait for the
+                # next block.
+                while (_is_heavy_fun(fun_map[node]) and node not in fun_vals and
+                       not any(in_node in heavy_node_block
+                               for in_node in graph[node])):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -287,7 +291,11 @@ def eval_grad(fun: "OptimizationFunction",
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A node that a node in the block depends on must wait for the
+                # next block.
+                while _is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[block_node]
+                        for block_node in heavy_node_block):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From b74692dfcf5512eee5abeb0943de240e93c4bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:36 +0000
Subject: [PATCH 03/45] fix: build empty gradients from the node's own inputs
 when a gradient is None

---
 spins/goos/graph_executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 209623a..2338db5 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -304,9 +304,10 @@ def eval_grad(
     def _update_grad_vals(node, node_grad_vals):
         # If the gradient is `None`, we automatically create an
         # empty gradient structure.
-        for i in range(len(node_grad_vals)):
-            if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
+        node_grad_vals = [
+            type(fun_vals[in_node]).Grad() if grad is None else grad
+            for in_node, grad in zip(graph[node], node_grad_vals)
+        ]
 
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
-- 
2.43.0


From deb284eff078fd6a1bee2238894967288801ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:55 +0000
Subject: [PATCH 04/45] fix: do not accumulate gradients in-place into an array
 shared with another node

---
 spins/goos/graph_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 2338db5..04641c5 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -24,6 +24,7 @@ from typing import Dict, List, Set, Tuple, Union
 
 import collections
 import concurrent.futures
+import copy
 import inspect
 
 import numpy as np
@@ -314,7 +315,9 @@ def eval_grad(
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
-                grad_vals[next_node] = next_fun_grad
+                # Gradients are accumulated in-place so do not share the value
+                # with other nodes.
+                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
 
     try:
         node_iter = iter(top_sorted_nodes)
-- 
2.43.0


From c9f2176aae8709bccdefc919eac751bce2f21b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:55 +0000
Subject: [PATCH 05/45] fix: let an empty gradient broadcast when a gradient is
 added to it

---
 spins/goos/flows.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..0428478 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -199,7 +199,9 @@ class NumericFlow(Flow):
         array_grad: np.ndarray = np_zero_field(1)
 
         def __iadd__(self, value):
-            self.array_grad += value.array_grad
+            # Not in-place because the default zero gradient has a single element
+            # and must broadcast against the gradient added to it.
+            self.array_grad = self.array_grad + value.array_grad
             return super().__iadd__(value)
 
         def __eq__(self, value) -> bool:
-- 
2.43.0


From 9487d85a2a73d749668fee5c523b4c1588f8f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:38 +0000
Subject: [PATCH 06/45] fix: sum and multiply scalar and array flows without
 building a ragged array

---
 spins/goos/math.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..c7bae8f 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -1,6 +1,7 @@
 from typing import List, Iterable, Union
 
 import copy
+import functools
 import numbers
 
 import numpy as np
@@ -251,7 +252,7 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.add, [x.array for x in inputs], 0)
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -289,7 +290,8 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.multiply, [x.array for x in inputs],
+                                      1)
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -298,8 +300,9 @@ class Product(Function):
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
+            prod_before = functools.reduce(np.multiply, input_val_arr[:i], 1.0)
+            prod_after = functools.reduce(np.multiply, input_val_arr[i + 1:],
+                                          1.0)
             grads.append(prod_before * prod_after * grad_val.array_grad)
 
         grad_flows = []
-- 
2.43.0


From 68a3ebd26ce91d13137ef9b82ba40f8f0cf3bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 07/45] fix: lock the cache of a simulation that parallel
 constraints share

---
 spins/invdes/problem_graph/creator_em.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..25518a3 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -1,3 +1,4 @@
+import threading
 from typing import Callable, List, Optional, Tuple, Union
 
 import numpy as np
@@ -258,8 +259,9 @@ class FdfdSimulation(problem.OptimizationFunction):
     """Represents a FDFD simulation.
 
     Simulations are cached so that repeated calls with the same permittivity
-    distribution does not incur multiple simulations. However, this cache is not
-    thread-safe.
+    distribution does not incur multiple simulations. The caches are guarded by
+    locks because objectives and constraints that share a simulation are
+    evaluated in parallel threads.
     """
 
     def __init__(
@@ -295,6 +297,8 @@ class FdfdSimulation(problem.OptimizationFunction):
         # For caching uses.
         self._cache = [None] * cache_size
         self._cache_adjoint = [None] * cache_size
+        self._cache_lock = threading.Lock()
+        self._cache_adjoint_lock = threading.Lock()
 
     def eval(self, input_val: List[np.ndarray]) -> np.ndarray:
         """Runs the simulation.
@@ -306,7 +310,8 @@ class FdfdSimulation(problem.OptimizationFunction):
         Returns:
             Simulated fields.
         """
-        return self._simulate(input_val[0])
+        with self._cache_lock:
+            return self._simulate(input_val[0])
 
     def grad(self, input_vals: List[np.ndarray],
              grad_val: np.ndarray) -> List[np.ndarray]:
@@ -320,10 +325,12 @@ class FdfdSimulation(problem.OptimizationFunction):
             Gradient.
         """
         omega = 2 * np.pi / self._wlen
-        efields = self._simulate(input_vals[0])
+        with self._cache_lock:
+            efields = self._simulate(input_vals[0])
         B = omega**2 * scipy.sparse.diags(efields, 0)
-        d = self._simulate_adjoint(input_vals[0],
-                                   np.conj(grad_val) / (-1j * omega))
+        with self._cache_adjoint_lock:
+            d = self._simulate_adjoint(input_vals[0],
+                                       np.conj(grad_val) / (-1j * omega))
         total_df_dz = np.conj(np.transpose(d)) @ B
         # If this is a function that maps from real to complex, we have to
         # to take the real part to make gradient real.
-- 
2.43.0


From 9bf1232e0ba17b4806a5a2cd063544098ba2dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 08/45] fix: cache simulation results under a copy of the
 structure

---
 spins/invdes/problem/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..9619e8f 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -106,8 +106,9 @@ class FdfdSimulation:
                 electric_fields = self._run_solver(z)
                 # Remove the last used element.
                 del self.cache[0]
-            # Insert data into cache.
-            self.cache.append((z, electric_fields))
+            # Insert data into cache. The key is copied so that the caller is free
+            # to modify the structure in-place afterwards.
+            self.cache.append((np.array(z), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
@@ -181,8 +182,9 @@ class AdjointFdfdSimulation:
                 electric_fields = self._run_solver(z, J)
                 # Remove the last used element.
                 del self.cache[0]
-            # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
+            # Insert data into cache. The keys are copied so that the caller is
+            # free to modify the arrays in-place afterwards.
+            self.cache.append((np.array(z), np.array(J), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d536c9d003194aa72be8c64a0295ee1bd0453ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 09/45] fix: do not return None from an interrupted solve

---
 spins/fdfd_solvers/local_matrix_solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index 7186b06..e2fd85c 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -116,6 +116,7 @@ class MultiprocessingSolver(LocalMatrixSolver):
         except KeyboardInterrupt:
             self.pool.terminate()
             self.pool.join()
+            raise
 
 
 class DirectSolver(LocalMatrixSolver):
-- 
2.43.0


From 3ec15af8440b4caf252a63ce94da203f94bc9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 10/45] fix: upload the whole file again when an upload is
 retried

---
 spins/fdfd_solvers/maxwell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 567787d..32b8741 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -24,6 +24,8 @@ def upload_files(server_url: str, directory: str, filenames: List[str]):
             succeeded = False
             while not succeeded:
                 try:
+                    # A failed attempt has already consumed the file.
+                    f.seek(0)
                     requests.post(server_url,
                                   data={'key': filename},
                                   files={'file': f})
-- 
2.43.0


From aea8472d23c1e091b3d9ceefbad0aeaa5a208260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 11/45] fix: raise when the Maxwell server rejects an upload or
 download

---
 spins/fdfd_solvers/maxwell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 32b8741..61a734a 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -26,9 +26,10 @@ def upload_files(server_url: str, directory: str, filenames: List[str]):
                 try:
                     # A failed attempt has already consumed the file.
                     f.seek(0)
-                    requests.post(server_url,
-                                  data={'key': filename},
-                                  files={'file': f})
+                    r = requests.post(server_url,
+                                      data={'key': filename},
+                                      files={'file': f})
+                    r.raise_for_status()
                     succeeded = True
                 except requests.exceptions.ConnectionError:
                     logger.exception('ConnectionError during upload: ' +
@@ -47,6 +48,7 @@ def download_files(server_url: str, directory: str, filenames: List[str]):
             while not succeeded:
                 try:
                     r = requests.get(server_url + filename)
+                    r.raise_for_status()
                     f.write(r.content)
                     succeeded = True
                 except requests.exceptions.ConnectionError:
-- 
2.43.0


From b45340c5c1617c9387f22cf22feb2c8a70efb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 12/45] fix: retry when the connection is lost halfway through
 a response

---
 spins/fdfd_solvers/maxwell.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 61a734a..8d48da6 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -15,6 +15,10 @@ import spins.fdfd_tools as fdfd_tools
 
 logger = logging.getLogger(__name__)
 
+# Errors raised when the connection fails, including halfway through a response.
+NETWORK_ERRORS = (requests.exceptions.ConnectionError,
+                  requests.exceptions.ChunkedEncodingError)
+
 
 def upload_files(server_url: str, directory: str, filenames: List[str]):
     """ Uploads a list of files to the given server. """
@@ -31,7 +35,7 @@ def upload_files(server_url: str, directory: str, filenames: List[str]):
                                       files={'file': f})
                     r.raise_for_status()
                     succeeded = True
-                except requests.exceptions.ConnectionError:
+                except NETWORK_ERRORS:
                     logger.exception('ConnectionError during upload: ' +
                                      filename)
                     # Random retry time to prevent DoS on any machine.
@@ -51,7 +55,7 @@ def download_files(server_url: str, directory: str, filenames: List[str]):
                     r.raise_for_status()
                     f.write(r.content)
                     succeeded = True
-                except requests.exceptions.ConnectionError:
+                except NETWORK_ERRORS:
                     logger.exception('ConnectionError during download: ' +
                                      filename)
                     # Random retry time to prevent DoS on any machine.
@@ -292,7 +296,7 @@ class MaxwellSolver:
                     time.sleep(5)
                 elif check_existence('finished'):
                     break
-            except requests.exceptions.ConnectionError:
+            except NETWORK_ERRORS:
                 logger.exception(
                     'ConnectionError while waiting for results. Retrying...')
                 # Random retry time to prevent DoS on any machine.
-- 
2.43.0


From 713435f677beceef9177a480462553af1c5d5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 13/45] fix: never leave a partially written log or checkpoint
 file behind

A process that died (or ran out of disk) while writing stepN.pkl or a
checkpoint left a truncated file under the final name: resuming and the log
loaders then failed on it.
---
 spins/invdes/problem_graph/workspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index ad1fe2c..0fc619a 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -321,8 +321,9 @@ class Logger:
 
         # Save the data.
         file_path = os.path.join(self._path, checkpoint_file)
-        with open(file_path, "wb") as handle:
+        with open(file_path + ".tmp", "wb") as handle:
             pickle.dump(data, handle)
+        os.replace(file_path + ".tmp", file_path)
 
     def write(self,
               event: Dict,
@@ -371,8 +372,9 @@ class Logger:
         # Save the data.
         file_path = os.path.join(
             self._path, os.path.join("step{}.pkl".format(self._log_counter)))
-        with open(file_path, "wb") as handle:
+        with open(file_path + ".tmp", "wb") as handle:
             pickle.dump(data, handle)
+        os.replace(file_path + ".tmp", file_path)
 
 
 def get_latest_log_step(folder: str) -> int:
-- 
2.43.0


From 92f23ecfa9188645b25b3e2142ae108be7a3929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 14/45] fix: restore every parameter when resuming a plan

Resuming looked up parameters by name that were never added to the workspace
(those used by an objective without being set by a parameter list), which
raised KeyError, and resuming in the middle of a transformation kept the
parameter values from before its parameter list was applied.
---
 spins/invdes/problem_graph/solver.py | 29 +++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..5d4f301 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -143,9 +143,7 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
                 chkpt_data["parametrizations"][transform.parametrization.name])
 
             # Add any parameter descriptions. Actual values restored below.
-            if transform.parameter_list:
-                for set_param in transform.parameter_list:
-                    work._add_node(set_param.parameter)
+            _add_parameters(work, transform)
 
         # Now restore all parameter values.
         for param, param_value in chkpt_data["parameters"].items():
@@ -177,12 +175,37 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
                 log_data["parametrization"])
         event_data = log_data["event"]
 
+        # The parameters were already set when this log file was written, and
+        # they are not set again when a transformation resumes.
+        _add_parameters(work, plan.transformations[transform_index])
+        for param, param_value in log_data["parameters"].items():
+            work.get_object(param).set_parameter_value(param_value)
+
     # TODO(logansu): Remove hack.
     work.logger._log_counter = log_data["log_counter"]
 
     return transform_index, event_data
 
 
+def _add_parameters(work: workspace.Workspace,
+                    transform: optplan.Transformation) -> None:
+    """Adds every parameter that a transformation refers to.
+
+    Args:
+        work: Workspace to add the parameter nodes to.
+        transform: Transformation to search.
+    """
+    # TODO(logansu): Deal with this private import.
+    from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
+
+    def process_field(unused_parent: optplan.ProblemGraphNode,
+                      child: optplan.ProblemGraphNode) -> None:
+        if isinstance(child, optplan.Parameter):
+            work._add_node(child)
+
+    _iter_optplan_fields(transform, set(), process_field)
+
+
 def setup_logging(save_folder: str) -> None:
     """Setup logging.
 
-- 
2.43.0


From 7f27a756f53158fd5250345dedd9dcc73e86edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 15/45] fix: do not iterate further when resuming an
 optimization that used its budget

With no iterations left the remaining budget became 0, with which L-BFGS-B
still performs an iteration.
---
 spins/invdes/problem_graph/creator_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..1ed3969 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -144,6 +144,8 @@ class ScipyOptimizer:
         # number of iterations already performed.
         if "maxiter" in opt_options:
             opt_options["maxiter"] -= iteration
+            if iteration and opt_options["maxiter"] <= 0:
+                return
 
         scipy_optimizer = optim.ScipyOptimizer(
             method=self.optimizer, options=opt_options)
-- 
2.43.0


From bddb49f30040ba354d83580d96cfec2c8cfd41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 16/45] fix: never leave a partially written plan, log or
 checkpoint file behind

A crash or a full disk while saving left a truncated file under the final
name, and saving a plan destroyed the previously saved one even if the new
plan could not be serialized.
---
 spins/goos/optplan/optplan.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..7e4e790 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -295,8 +295,10 @@ class OptimizationPlan:
         nodes = [item._goos_schema for item in self._node_map.values()]
         actions = [item._goos_schema for item in self._actions]
         plan = optplan.OptimizationPlanSchema(nodes=nodes, actions=actions)
-        with open(os.path.join(save_folder, "optplan.json"), "w") as fp:
+        file_path = os.path.join(save_folder, "optplan.json")
+        with open(file_path + ".tmp", "w") as fp:
             fp.write(optplan.schema.dumps(plan))
+        os.replace(file_path + ".tmp", file_path)
 
     def load(self, save_folder: Optional[str] = None) -> None:
         """Loads the optimization plan.
@@ -425,8 +427,9 @@ class OptimizationPlan:
             file_path = os.path.join(
                 self._save_path,
                 os.path.join("step{}.pkl".format(self._log_counter)))
-            with open(file_path, "wb") as handle:
+            with open(file_path + ".tmp", "wb") as handle:
                 pickle.dump(data, handle)
+            os.replace(file_path + ".tmp", file_path)
             self._logger.info("Data saved to %s", file_path)
 
     def write_checkpoint(self, filename: str) -> None:
@@ -441,12 +444,13 @@ class OptimizationPlan:
         """
         data = self.get_state_dict()
 
-        checkpoint_file = filename
+        checkpoint_file = os.fspath(filename)
         self._logger.info("Saving checkpoint file: %s", checkpoint_file)
 
         # Save the data.
-        with open(checkpoint_file, "wb") as handle:
+        with open(checkpoint_file + ".tmp", "wb") as handle:
             pickle.dump(data, handle)
+        os.replace(checkpoint_file + ".tmp", checkpoint_file)
 
     def read_checkpoint(self, filename: str) -> None:
         """Reads a chekcpoint file.
-- 
2.43.0


From f160db7ce858b125c6ce1ea97f8c1aee2b6f1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 17/45] fix: continue numbering log files after reading a
 checkpoint

A resumed plan started again at step1.pkl and overwrote the log files of the
run that it continues.
---
 spins/goos/optplan/optplan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 7e4e790..d5c986d 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -359,6 +359,7 @@ class OptimizationPlan:
             "action": self._actions[self._action_ptr]._goos_name,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
+            "log_counter": self._log_counter,
         }
         # TODO(logansu): Remove "transformation" and "parametrization".
         # For backwards capatibility, keep the name "transformation" and
@@ -466,6 +467,7 @@ class OptimizationPlan:
 
         self._action_ptr = data["action_ptr"]
         self._action_data = data.get("event", None)
+        self._log_counter = data.get("log_counter", self._log_counter)
 
         # Unpack variables.
         for var_name, var_data in data["variable_data"].items():
-- 
2.43.0


From 6901f544fe52c8f98398fb5d46d9467e2fa4e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:43 +0000
Subject: [PATCH 18/45] fix: resume after, not at, the action whose completion
 was checkpointed

The checkpoint written once an action finished pointed at that same action,
so that resuming from it ran the action a second time. Also let a plan whose
actions are all done be checkpointed and resumed (both raised IndexError), and
pass `auto_checkpoint` on to the remaining actions.
---
 spins/goos/optplan/optplan.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index d5c986d..f610017 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -356,7 +356,8 @@ class OptimizationPlan:
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": (self._actions[self._action_ptr]._goos_name
+                       if self._action_ptr < len(self._actions) else None),
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
             "log_counter": self._log_counter,
@@ -568,13 +569,13 @@ class OptimizationPlan:
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
 
+            self._action_ptr += 1
+            self._action_data = None
+
             if auto_checkpoint and self._save_path:
                 self.write_checkpoint(
                     os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
-            self._action_ptr += 1
-            self._action_data = None
+                                 "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
     def resume(self,
@@ -602,6 +603,9 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
+        if self._action_ptr >= len(self._actions):
+            return
+
         self._modifiable = True
 
         # Attempt to resume if there is event data to resume from.
@@ -621,16 +625,16 @@ class OptimizationPlan:
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
 
+        self._action_ptr += 1
+        self._action_data = None
+
         if auto_checkpoint and self._save_path:
             self.write_checkpoint(
                 os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
-
-        self._action_ptr += 1
-        self._action_data = None
+                             "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
-        self.run()
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
-- 
2.43.0


From 4f7424e48aaa9ae36159fe7a5fe253338d7628fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 19/45] fix: close the plan for modification again when an
 action fails

After an action raised, the plan could be modified outside of any action.
---
 spins/goos/optplan/optplan.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index f610017..ec64a97 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, Iterable, List, NamedTuple, Optional, Union
 import copy
 import dataclasses
 import datetime
+import functools
 import inspect
 import json
 import logging
@@ -235,6 +236,19 @@ def _requires_action(method):
     return decorator
 
 
+# Decorator to mark methods in `OptimizationPlan` that run actions.
+def _runs_actions(method):
+
+    @functools.wraps(method)
+    def decorator(self, *args, **kwargs):
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._modifiable = False
+
+    return decorator
+
+
 class OptimizationPlan:
 
     def __init__(self,
@@ -555,6 +569,7 @@ class OptimizationPlan:
             if not self._var_frozen[var_name]
         ]
 
+    @_runs_actions
     def run(self, auto_checkpoint: bool = True) -> None:
         """Runs the optimization plan.
 
@@ -578,6 +593,7 @@ class OptimizationPlan:
                                  "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
+    @_runs_actions
     def resume(self,
                checkpoint: str = None,
                auto_checkpoint: bool = True) -> None:
-- 
2.43.0


From 55169e5e8302c1cf02961d146de2bf716abfde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 20/45] fix: count the iterations done before a resume against
 `max_iters`

The option was looked up one level too high, so that every resume started
with the full number of iterations.
---
 spins/goos/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..d4bd9df 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -238,8 +238,10 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
+            if start_iter and options["options"]["maxiter"] <= 0:
+                return
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
-- 
2.43.0


From af01e5294311c59231a946dfb9eb8ae7675e56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:38 +0000
Subject: [PATCH 21/45] fix: do not reuse the name of a loaded node for a new
 one

Names are generated from counters that start over in a new process, so a node
created after loading a plan could get the name of a loaded one: it was then
silently replaced by it.
---
 spins/goos/optplan/optplan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index ec64a97..d515947 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -125,6 +125,10 @@ class ProblemGraphNodeMeta(type):
             obj._goos_name = node_name
         else:
             obj._goos_name = optplan.schema.generate_name(cls.node_type)
+            # The plan may hold such a name already if it was loaded.
+            plan = get_default_plan()
+            while plan and obj._goos_name in plan._node_map:
+                obj._goos_name = optplan.schema.generate_name(cls.node_type)
 
         # Allow the node to custom override the way the schema is set.
         if not hasattr(obj, "_goos_schema") or not obj._goos_schema:
-- 
2.43.0


From 1122190afc8fb249809134c24491073cb92ccd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:27 +0000
Subject: [PATCH 22/45] fix: do not hand out the arrays that hold the state of
 a plan

Changing the array that `get` or `get_var_bounds` returned, or one that
was passed in as a bound, silently changed the variable outside of any action.
---
 spins/goos/optplan/optplan.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index d515947..d8cb348 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -527,7 +527,9 @@ class OptimizationPlan:
             if np.isscalar(upper_bounds):
                 upper_bounds = np.ones_like(node._value) * upper_bounds
 
-            self._var_bounds[node._goos_name] = [lower_bounds, upper_bounds]
+            self._var_bounds[node._goos_name] = [
+                np.array(lower_bounds), np.array(upper_bounds)
+            ]
 
         for dep_node in node._goos_inputs:
             self.add_node(dep_node)
@@ -549,13 +551,13 @@ class OptimizationPlan:
     @_requires_action
     def set_var_bounds(self, node: "goos.Variable",
                        bounds: List[np.ndarray]) -> List[np.ndarray]:
-        self._var_bounds[node._goos_name] = copy.copy(bounds)
+        self._var_bounds[node._goos_name] = copy.deepcopy(bounds)
 
     def get_var_value(self, node: "goos.Variable") -> np.ndarray:
         return self._var_value[node._goos_name].copy()
 
     def get_var_bounds(self, node: "goos.Variable") -> List[np.ndarray]:
-        return self._var_bounds[node._goos_name].copy()
+        return copy.deepcopy(self._var_bounds[node._goos_name])
 
     @_requires_action
     def freeze_var(self, node: "goos.Variable") -> None:
@@ -684,7 +686,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), context)
+                flows.NumericFlow(var_value.copy()), context)
         return graph_executor.eval_fun(nodes, override_map)
 
     def eval_node(self, node: ProblemGraphNode) -> flows.Flow:
-- 
2.43.0


From a6ba623cdd65ef06fe915971654d7a6394e4b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 23/45] fix: make a plan with a node that was renamed twice
 loadable

The second rename stored the cast itself as the target type, which cannot be
constructed from the schema, so `load` raised.
---
 spins/goos/generic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9021dad..9a1f033 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -105,7 +105,11 @@ def rename(node: goos.ProblemGraphNode, name: str) -> goos.ProblemGraphNode:
     Returns:
         Node with the same type but with name `name`.
     """
-    return cast(node, type(node), name=name)
+    cls_type = type(node)
+    if cls_type.node_type == "goos.cast":
+        # Use the type that the node was cast into.
+        cls_type = cls_type.__bases__[0]
+    return cast(node, cls_type, name=name)
 
 
 class LogPrint(goos.Action):
-- 
2.43.0


From 1fb5776b39245c8ddd5742904d84af7b17cae9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 24/45] fix: let a renamed variable follow the variable

A renamed variable was a variable of its own in the plan: it kept its initial
value when the original was set and broke the gradient of the original.
---
 spins/goos/generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9a1f033..9b725b6 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -109,6 +109,9 @@ def rename(node: goos.ProblemGraphNode, name: str) -> goos.ProblemGraphNode:
     if cls_type.node_type == "goos.cast":
         # Use the type that the node was cast into.
         cls_type = cls_type.__bases__[0]
+    if issubclass(cls_type, goos.Variable):
+        # The plan would treat another variable as independent of `node`.
+        cls_type = goos.Function
     return cast(node, cls_type, name=name)
 
 
-- 
2.43.0


From c79c47363167f4a299e8b68477410a39c7cb6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 25/45] fix: do not let a node created during a load take the
 name of another

Shapes create default nodes in their constructor. While loading, these could
get the automatic name of a node that was loaded later and replace it.
---
 spins/goos/optplan/optplan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index d8cb348..a205c23 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -127,7 +127,8 @@ class ProblemGraphNodeMeta(type):
             obj._goos_name = optplan.schema.generate_name(cls.node_type)
             # The plan may hold such a name already if it was loaded.
             plan = get_default_plan()
-            while plan and obj._goos_name in plan._node_map:
+            while plan and (obj._goos_name in plan._node_map or
+                            obj._goos_name in plan._loaded_names):
                 obj._goos_name = optplan.schema.generate_name(cls.node_type)
 
         # Allow the node to custom override the way the schema is set.
@@ -284,6 +285,8 @@ class OptimizationPlan:
         self._logger = logging.getLogger(__name__)
 
         self._node_map = {}
+        # Names in the plan that was loaded.
+        self._loaded_names = set()
         self._actions = []
         # Index of next action to take.
         self._action_ptr = 0
@@ -331,6 +334,9 @@ class OptimizationPlan:
         with open(os.path.join(save_folder, "optplan.json"), "r") as fp:
             plan = optplan.schema.loads(fp.read())
 
+        # Nodes that other nodes create while loading must not take these names.
+        self._loaded_names.update(node.name for node in plan.nodes)
+
         from schematics import models
 
         def process_field(model: models.Model,
-- 
2.43.0


From d4ac5d02eede3d6a38df2936474f08793edda276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:19 +0000
Subject: [PATCH 26/45] fix: state dictionaries of a goos plan do not share its
 arrays

---
 spins/goos/optplan/optplan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index a205c23..b731da4 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -372,9 +372,9 @@ class OptimizationPlan:
         var_data = {}
         for var_name, var_val in self._var_value.items():
             var_data[var_name] = {
-                "value": var_val,
+                "value": var_val.copy(),
                 "frozen": self._var_frozen[var_name],
-                "bounds": self._var_bounds[var_name],
+                "bounds": copy.deepcopy(self._var_bounds[var_name]),
             }
 
         data = {
-- 
2.43.0


From a903fcaed8512295feb311f1fc0f7bb9a02010bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:19 +0000
Subject: [PATCH 27/45] fix: saved goos nodes hold the arrays they were created
 with

---
 spins/goos/optplan/optplan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index b731da4..fed97f1 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -159,6 +159,9 @@ def _replace_node_with_schema(value: Any) -> Any:
         }
     elif isinstance(value, ProblemGraphNode):
         return value._goos_schema
+    elif isinstance(value, np.ndarray):
+        # The caller may change the array after the node is created.
+        return value.copy()
     return value
 
 
-- 
2.43.0


From b3c3900a5a560edee43024eb6dcce08cdcf0101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:19 +0000
Subject: [PATCH 28/45] fix: evaluating a goos constant does not hand out its
 array

---
 spins/goos/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index c7bae8f..4dbdac6 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -83,7 +83,7 @@ class Constant(Function):
 
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
-        return flows.NumericFlow(self._value)
+        return flows.NumericFlow(self._value.copy())
 
     def grad(self, inputs: List[flows.NumericFlow],
              grad_val: flows.NumericFlow.Grad,
-- 
2.43.0


From 93b46f697ad0569a8850024dffd9e78bd581227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 29/45] fix: a node that raises StopIteration fails its
 evaluation

---
 spins/goos/graph_executor.py           | 20 +++++++++++++++++
 spins/invdes/problem/graph_executor.py | 31 +++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 04641c5..956024e 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -25,6 +25,7 @@ from typing import Dict, List, Set, Tuple, Union
 import collections
 import concurrent.futures
 import copy
+import functools
 import inspect
 
 import numpy as np
@@ -41,6 +42,23 @@ FunctionMap = Dict[NodeId, "goos.Function"]
 Graph = Dict[NodeId, List[NodeId]]
 
 
+def _stop_iteration_is_error(method):
+    """Turns a `StopIteration` raised by a node into a `RuntimeError`.
+
+    `StopIteration` marks the end of the computation in this module, so one
+    that is raised by a node would be silently ignored.
+    """
+
+    @functools.wraps(method)
+    def wrapper(*args):
+        try:
+            return method(*args)
+        except StopIteration as err:
+            raise RuntimeError("Function raised StopIteration") from err
+
+    return wrapper
+
+
 def eval_fun(
     fun_list: Union[List["goos.Function"], "goos.Function"],
     override_map: Dict["goos.Function", Tuple["flows.Flow",
@@ -153,6 +171,7 @@ def _eval_fun_vals(
         return goos.NodeFlags(const_flags=const_flags,
                               frozen_flags=frozen_flags)
 
+    @_stop_iteration_is_error
     def _eval_fun_and_flags(node, input_vals, input_flags):
         fun = _eval_fun(fun_map[node], input_vals,
                         goos.EvalContext(input_flags))
@@ -292,6 +311,7 @@ def eval_grad(
             known_grads[id(fun)] = [flow[1]]
     grad_vals[out_node] = flows.NumericFlow.Grad(np.array([1.0]))
 
+    @_stop_iteration_is_error
     def _eval_grad(node, input_vals, grad_val, context):
         context = goos.EvalContext(context)
         if node in known_grads:
diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index ba359ca..4400e32 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -22,6 +22,7 @@ executed in parallel rather than processed serially.
 """
 import collections
 import concurrent.futures
+import functools
 from typing import Dict, List, Set, Tuple, Union
 
 import numpy as np
@@ -38,6 +39,23 @@ FunctionMap = Dict[NodeId, "OptimizationFunction"]
 Graph = Dict[NodeId, List[NodeId]]
 
 
+def _stop_iteration_is_error(method):
+    """Turns a `StopIteration` raised by a node into a `RuntimeError`.
+
+    `StopIteration` marks the end of the computation in this module, so one
+    that is raised by a node would be silently ignored.
+    """
+
+    @functools.wraps(method)
+    def wrapper(*args):
+        try:
+            return method(*args)
+        except StopIteration as err:
+            raise RuntimeError("Function raised StopIteration") from err
+
+    return wrapper
+
+
 def eval_fun(
         fun_list: Union[List["OptimizationFunction"], "OptimizationFunction"],
         param: Parametrization) -> Union[List[np.ndarray], np.ndarray]:
@@ -116,6 +134,7 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
         param: Parametrization. This is only used for any old-style functions.
     """
 
+    @_stop_iteration_is_error
     def _eval_fun(node, input_vals):
         if _is_old_fun(fun_map[node]):
             return fun_map[node].calculate_objective_function(param)
@@ -142,11 +161,10 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
 
                 # Compute the function value.
                 if _is_old_fun(fun_map[node]):
-                    fun_vals[node] = fun_map[node].calculate_objective_function(
-                        param)
+                    fun_vals[node] = _eval_fun(node, None)
                 else:
                     input_vals = [fun_vals[in_node] for in_node in graph[node]]
-                    fun_vals[node] = fun_map[node].eval(input_vals)
+                    fun_vals[node] = _eval_fun(node, input_vals)
 
                 node = next(node_iter)
 
@@ -245,6 +263,7 @@ def eval_grad(fun: "OptimizationFunction",
     grad_vals = {node: 0.0 for node in fun_map.keys()}
     grad_vals[out_node] = 1
 
+    @_stop_iteration_is_error
     def _eval_grad(node, input_vals, grad_val):
         if _is_old_fun(fun_map[node]):
             return fun_map[node].calculate_gradient(param)
@@ -266,7 +285,7 @@ def eval_grad(fun: "OptimizationFunction",
                     break
 
                 if _is_old_fun(fun_map[node]):
-                    old_grad = fun_map[node].calculate_gradient(param)
+                    old_grad = _eval_grad(node, None, None)
                     # Use `np.dot` since either operand could be a scalar
                     # and matrix multiplication(@) disallows scalars.
                     old_node_grads.append(np.dot(grad_vals[node], old_grad))
@@ -276,8 +295,8 @@ def eval_grad(fun: "OptimizationFunction",
                     input_vals = [
                         fun_vals[next_node] for next_node in graph[node]
                     ]
-                    node_grad_vals = fun_map[node].grad(input_vals,
-                                                        grad_vals[node])
+                    node_grad_vals = _eval_grad(node, input_vals,
+                                                grad_vals[node])
 
                     # Update the gradient values.
                     for next_node, next_fun_grad in zip(graph[node],
-- 
2.43.0


From 33761d4826147eb5ea6bf9e8e6693a2e61784856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:45 +0000
Subject: [PATCH 30/45] fix: optimizers apply every constraint, not only the
 last one

---
 spins/goos/optimize.py                       | 8 ++++----
 spins/invdes/optimization/scipy_optimizer.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index d4bd9df..352d262 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -150,13 +150,13 @@ class ScipyOptimizer(goos.Action):
             constraints = []
             for eq in self._cons_eq:
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +182,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..3689b80 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -87,11 +87,11 @@ class ScipyOptimizer:
             constraints = []
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +103,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From 63f824bd6193f64abc53830f2dc83afda88c66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 31/45] fix: differentiate simulations with overlaps that are
 not used

---
 spins/goos_sim/maxwell/simulate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..89fa83d 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -338,7 +338,10 @@ class WaveguideModeOverlapImpl(SimOutputImpl):
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.NumericFlow.Grad) -> None:
-        adjoint_sim.source += np.conj(grad_val.array_grad * self._wg_overlap)
+        # The gradient is `None` if the overlap does not affect the objective.
+        if grad_val:
+            adjoint_sim.source += np.conj(grad_val.array_grad *
+                                          self._wg_overlap)
 
 
 class Solver(goos.Model):
-- 
2.43.0


From 9dd0c1f4cbfa80bae186c134fa64c597bd805251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:00 +0000
Subject: [PATCH 32/45] fix: download the solver information that a remote
 solve returns

---
 spins/fdfd_solvers/maxwell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 8d48da6..98e2e58 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -317,6 +317,11 @@ class MaxwellSolver:
                 for quad in 'ri'
             ]
 
+        if solver_info:
+            filenames += [
+                sim_name_prefix + name for name in ('time_info', 'status')
+            ]
+
         download_files(server_url, download_dir, filenames)
 
         # define apply_symmetry
-- 
2.43.0


From d5e750c38a1488a9458edb240940b5f4a4435e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 33/45] fix: adjoint remote solves are exact inside absorbing
 layers

---
 spins/fdfd_solvers/maxwell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 98e2e58..4e13235 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -210,7 +210,7 @@ class MaxwellSolver:
             ]
             new_J = fdfd_tools.unvec(J, shape)
             for k in range(3):
-                new_J[k] /= np.conj(s[k])
+                new_J[k] /= s[k]
             J = fdfd_tools.vec(new_J)
 
         # Generate ID based on date, time, and UUID.
@@ -403,7 +403,7 @@ class MaxwellSolver:
         # Undo right preconditioner for adjoint calculations.
         if adjoint:
             for i in range(3):
-                E[i] = np.multiply(E[i], np.conj(s[i]))
+                E[i] = np.multiply(E[i], s[i])
 
         # Remove downloaded files.
         if solver_info:
-- 
2.43.0


From e596ecff849a1b6f2926d68a9b72a27a6f69701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 34/45] fix: adjoint remote solves can use symmetries

---
 spins/fdfd_solvers/maxwell.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index 4e13235..f762888 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -398,12 +398,12 @@ class MaxwellSolver:
                 with h5py.File(file_prefix + 'i') as f:
                     field_comp += 1j * f['data'][:].astype(np.complex128)
                 E.append(field_comp)
-            E = apply_symmetry(E, symmetry)
 
-        # Undo right preconditioner for adjoint calculations.
-        if adjoint:
-            for i in range(3):
-                E[i] = np.multiply(E[i], s[i])
+            # Undo right preconditioner for adjoint calculations.
+            if adjoint:
+                for i in range(3):
+                    E[i] = np.multiply(E[i], s[i])
+            E = apply_symmetry(E, symmetry)
 
         # Remove downloaded files.
         if solver_info:
-- 
2.43.0


From ec9d63214758916ec2adcdba5792a6abe471d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 35/45] fix: a remote solve with symmetries leaves the caller's
 pemc alone

---
 spins/fdfd_solvers/maxwell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/maxwell.py b/spins/fdfd_solvers/maxwell.py
index f762888..19978a4 100644
--- a/spins/fdfd_solvers/maxwell.py
+++ b/spins/fdfd_solvers/maxwell.py
@@ -133,6 +133,8 @@ class MaxwellSolver:
             symmetry = np.zeros(3)
         if pemc is None:
             pemc = np.zeros(6)
+        # The array is modified below, and the caller keeps using theirs.
+        pemc = np.array(pemc)
 
         server_url = 'http://' + self.server + '/'
 
-- 
2.43.0


From 9a5508ca04f6747aac75ebb03b3df282553dab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 36/45] fix: iteration records hold the point that the
 optimizer accepted

---
 spins/invdes/problem_graph/creator_opt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index 1ed3969..b159760 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -121,9 +121,12 @@ class ScipyOptimizer:
 
         # Make a callback function for the optimization that logs the data.
 
-        def _callback(_) -> None:
+        def _callback(x) -> None:
             nonlocal iter_num
 
+            # The optimizer may have tried other points since.
+            param.from_vector(x)
+
             # Increase iteration count.
             iter_num += 1
 
-- 
2.43.0


From 8794ca443fafab2e099c21ea3f5f742dc3533ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:18 +0000
Subject: [PATCH 37/45] fix: a cast forwards the flags of the node it forwards

---
 spins/goos/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9b725b6..1a519de 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -50,6 +50,10 @@ def cast(node: goos.ProblemGraphNode,
         def eval(self, inputs):
             return inputs[0]
 
+        def eval_const_flags(self, inputs):
+            # The flow is forwarded, whatever its type.
+            return inputs[0]
+
         def grad(self, inputs, grad_val):
             return [grad_val]
 
-- 
2.43.0


From aca95a2056dd49ed545ccd3570c9a69cfe1ade8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:33 +0000
Subject: [PATCH 38/45] fix: nodes keep their own copies of the arrays they are
 created with

---
 spins/goos/optplan/optplan.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index fed97f1..eea5213 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -118,6 +118,9 @@ class ProblemGraphNodeMeta(type):
             else:
                 schema_data[param.name] = param.default
 
+        # The caller may change its arrays after the node is created.
+        args = [_copy_if_array(arg) for arg in args]
+        kwargs = {key: _copy_if_array(arg) for key, arg in kwargs.items()}
         obj = super(ProblemGraphNodeMeta, cls).__call__(*args, **kwargs)
 
         # Name the node and set the schema.
@@ -146,6 +149,10 @@ class ProblemGraphNodeMeta(type):
         return obj
 
 
+def _copy_if_array(value: Any) -> Any:
+    return value.copy() if isinstance(value, np.ndarray) else value
+
+
 def _replace_node_with_schema(value: Any) -> Any:
     if isinstance(value, list):
         return [_replace_node_with_schema(item) for item in value]
-- 
2.43.0


From abef9b81ccffd03906953ebd3c341a32ceb6f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:58 +0000
Subject: [PATCH 39/45] fix: an omitted gradient is a zero of the shape of the
 value

eval_grad() took the gradient that a node omits (None) for a zero with a
single element. A variable that only affects the objective through such
nodes got a gradient that is shorter than the variable, and the gradient
vector of ScipyOptimizer did not have one element per optimized value.
---
 spins/goos/graph_executor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 956024e..8b9783b 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -322,11 +322,18 @@ def eval_grad(
         else:
             return fun_map[node].grad(input_vals, grad_val, context)
 
+    def _zero_grad(flow):
+        grad = type(flow).Grad()
+        if isinstance(flow, flows.NumericFlow):
+            # The gradient has the shape of the value.
+            grad.array_grad = np.zeros_like(flow.array, dtype=float)
+        return grad
+
     def _update_grad_vals(node, node_grad_vals):
         # If the gradient is `None`, we automatically create an
         # empty gradient structure.
         node_grad_vals = [
-            type(fun_vals[in_node]).Grad() if grad is None else grad
+            _zero_grad(fun_vals[in_node]) if grad is None else grad
             for in_node, grad in zip(graph[node], node_grad_vals)
         ]
 
-- 
2.43.0


From 2b2b23907cd83a763848284f5337002aeaa280a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:16 +0000
Subject: [PATCH 40/45] fix: callers may modify the results of evaluations

---
 spins/goos/graph_executor.py           | 3 ++-
 spins/invdes/problem/graph_executor.py | 4 +++-
 spins/invdes/problem/simulation.py     | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 8b9783b..aa15d86 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -113,7 +113,8 @@ def eval_fun(
 
     _eval_fun_vals(fun_vals, fun_flags, fun_map, graph, top_sorted_nodes)
 
-    ret_vals = [fun_vals[out_node] for out_node in out_nodes]
+    # The caller may modify the results, which nodes and variables still hold.
+    ret_vals = [copy.deepcopy(fun_vals[out_node]) for out_node in out_nodes]
     if single_output:
         return ret_vals[0]
     return ret_vals
diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index 4400e32..7530a18 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -22,6 +22,7 @@ executed in parallel rather than processed serially.
 """
 import collections
 import concurrent.futures
+import copy
 import functools
 from typing import Dict, List, Set, Tuple, Union
 
@@ -104,7 +105,8 @@ def eval_fun(
 
     _eval_fun_vals(fun_vals, fun_map, graph, top_sorted_nodes, param)
 
-    ret_vals = [fun_vals[out_node] for out_node in out_nodes]
+    # The caller may modify the results, which nodes and variables still hold.
+    ret_vals = [copy.deepcopy(fun_vals[out_node]) for out_node in out_nodes]
     if single_output:
         return ret_vals[0]
     return ret_vals
diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index 9619e8f..9f710f0 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -109,7 +109,8 @@ class FdfdSimulation:
             # Insert data into cache. The key is copied so that the caller is free
             # to modify the structure in-place afterwards.
             self.cache.append((np.array(z), electric_fields))
-        return electric_fields
+        # The caller is also free to modify the fields.
+        return np.array(electric_fields)
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
         """ Runs the solver to compute electric fields.
@@ -185,7 +186,8 @@ class AdjointFdfdSimulation:
             # Insert data into cache. The keys are copied so that the caller is
             # free to modify the arrays in-place afterwards.
             self.cache.append((np.array(z), np.array(J), electric_fields))
-        return electric_fields
+        # The caller is also free to modify the fields.
+        return np.array(electric_fields)
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
         """ Runs the solver to compute electric fields.
-- 
2.43.0


From bed4d246e46c0c3ce64256ecc8fa6c48a23d8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:16 +0000
Subject: [PATCH 41/45] fix: a function times an array is a product

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..17513bd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -147,7 +147,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
-- 
2.43.0


From 09d553408defa2f3b7c36c498cadc811b63f02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 42/45] fix: plans that print nodes can be saved, loaded and
 run

---
 spins/goos/generic.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 1a519de..3750a41 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -119,34 +119,51 @@ def rename(node: goos.ProblemGraphNode, name: str) -> goos.ProblemGraphNode:
     return cast(node, cls_type, name=name)
 
 
+class LogPrintSchema(optplan.ActionNodeSchema):
+    """Schema for `LogPrint`."""
+    type = goos.ModelNameType("goos.log_print")
+    obj = goos.types.StringType()
+    nodes = goos.types.ListType(
+        goos.ReferenceType(optplan.ProblemGraphNodeSchema))
+
+
 class LogPrint(goos.Action):
     """Prints text out to the log.
 
     This is useful for debugging purposes.
     """
     node_type = "goos.log_print"
+    Schema = LogPrintSchema
 
     def __init__(
         self,
         obj: Union[str, goos.ProblemGraphNode,
-                   List[goos.ProblemGraphNode]] = None
+                   List[goos.ProblemGraphNode]] = None,
+        nodes: List[goos.ProblemGraphNode] = None,
     ) -> None:
         super().__init__()
 
+        if obj is None:
+            obj = nodes
+        elif isinstance(obj, goos.ProblemGraphNode):
+            obj = [obj]
         self._obj = obj
 
+        # Text and names of nodes must be told apart when the plan is loaded.
+        if isinstance(obj, str):
+            self._goos_schema = LogPrintSchema(name=self.node_type, obj=obj)
+        elif obj:
+            self._goos_schema = LogPrintSchema(
+                name=self.node_type,
+                nodes=[node._goos_schema for node in obj])
+
     def run(self, plan: goos.OptimizationPlan) -> None:
         if isinstance(self._obj, str):
             plan.logger.info(self._obj)
             return
 
-        if isinstance(self._obj, goos.Function):
-            nodes = [self._obj]
-        else:
-            nodes = self._obj
-
-        values = plan.eval_nodes(nodes)
-        for node, val in zip(nodes, values):
+        values = plan.eval_nodes(self._obj)
+        for node, val in zip(self._obj, values):
             plan.logger.info("{}: {}".format(node._goos_name, val))
 
 
-- 
2.43.0


From 0218707be763a5b6afe252bb5d686bae014fcf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 43/45] fix: the Maxwell solver that was chosen is used

---
 spins/goos_sim/maxwell/simulate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 89fa83d..4e4f366 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -431,8 +431,13 @@ class MaxwellSolverImpl:
         server = solver.server
         if server is None:
             server = os.getenv("MAXWELL_SERVER", "localhost:9041")
+        solver_names = {
+            "maxwell_cg": "CG",
+            "maxwell_bicgstab": "biCGSTAB",
+            "maxwell_eig": "Jacobi-Davidson",
+        }
         self._solver = MaxwellSolver(dims,
-                                     solver=solver.solver,
+                                     solver=solver_names[solver.solver],
                                      server=server,
                                      err_thresh=solver.err_thresh,
                                      max_iters=solver.max_iters)
-- 
2.43.0


From d79b0e2cf6ac21c50edb2b1171f629845508c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:48 +0000
Subject: [PATCH 44/45] fix: the gradient of a broadcast scalar is a scalar

Sum and Product accept one array and scalars which are broadcast over it,
but passed gradients of the array's shape on to the scalars: the gradient
of their inputs was wrong or an error. Sum them over the array.
---
 spins/goos/math.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 4dbdac6..c56102f 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -242,6 +242,13 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _reduce_grad(grad: np.ndarray, value: np.ndarray) -> np.ndarray:
+    """Sums a gradient over the array that a scalar was broadcast to."""
+    if np.size(value) == 1 and np.size(grad) > 1:
+        return np.reshape(np.sum(grad), np.shape(value))
+    return grad
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -264,7 +271,9 @@ class Sum(Function):
             if ind == i:
                 grads.append(copy.deepcopy(grad_val))
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                grads.append(
+                    goos.NumericFlow.Grad(
+                        _reduce_grad(grad_val.array_grad, inputs[i].array)))
         return grads
 
     def __add__(self, obj):
@@ -313,7 +322,9 @@ class Product(Function):
                 flow.array_grad = grad
                 grad_flows.append(flow)
             else:
-                grad_flows.append(goos.NumericFlow.Grad(grad))
+                grad_flows.append(
+                    goos.NumericFlow.Grad(
+                        _reduce_grad(grad, input_vals[i].array)))
         return grad_flows
 
     def __mul__(self, obj):
-- 
2.43.0


From 16e5691d92a8e6ed39fcba173867cc2fcef3ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:07 +0000
Subject: [PATCH 45/45] fix: sums and products of several arrays and scalars

The operators join the terms of sums and of products, so that v + s + w
is one sum of two arrays and a scalar, which was an error although v + s
and the sum of it and w are fine. Only arrays of different shapes are.
---
 spins/goos/math.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index c56102f..a13d45c 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -223,14 +223,15 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
             ind = 0
 
     if not dom_flow:
-        # Check whether all flows but one is a scalar.
+        # Check whether all flows that are not scalars have one shape.
         for i, flow in enumerate(flow_list):
             if np.size(flow.array) > 1:
                 if not dom_flow:
                     dom_flow = flow
                     ind = i
-                else:
-                    raise ValueError("Only one non-scalar is permitted.")
+                elif np.shape(flow.array) != np.shape(dom_flow.array):
+                    raise ValueError(
+                        "Non-scalars must all have the same shape.")
 
     if not dom_flow:
         dom_flow = flow_list[0]
-- 
2.43.0

