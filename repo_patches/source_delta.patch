From 8b6f0876846837db51ded26e63b94d70c6d56043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 01/52] fix: recompute terminal coefficients when a line is run

set_time_step() changes dt after the terminal coefficients were computed in
the constructor, so the terminations were solved with the old time step.
---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..f6e5268 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -591,6 +591,7 @@ class MTL():
 
     def run_until(self, finalTime):
         t = self.get_time_range(finalTime)
+        self.compute_terminal_terms()
         self.update_lr_terms()
         self.update_cg_terms()
 
-- 
2.43.0


From 0f4fccffde845daddb682d53e6eca84883e07602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/52] fix: accept probes anywhere on the line and only there

MTL.add_probe compared the position with the first and last node componentwise,
which rejects every probe on a line that runs towards smaller coordinates;
MTLD.add_probe accepted positions up to one cell beyond the end and could reject
grid nodes by rounding. Both now use one test against the line's cells.
---
 python/src/mtl.py   | 20 +++-----------------
 python/src/utils.py |  7 +++++--
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index f6e5268..8d891e2 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -20,7 +20,7 @@ from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
 from .utils import add_t_functions as add, multiply
-from .utils import point_in_line
+from .utils import point_in_polyline
 
 class Field:
     def __init__(self, incident_x: sp.Function, incident_y: sp.Function, incident_z: sp.Function):
@@ -510,7 +510,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
@@ -781,21 +781,7 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
-        probe_in_segment = False
-        for du in self.du:
-            end = start + du
-            if point_in_line(position, start, end):
-                probe_in_segment = True
-            start += du
-
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
-        
-        # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-        if not probe_in_segment:
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
diff --git a/python/src/utils.py b/python/src/utils.py
index 687a9fe..a3ae5c4 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -33,8 +33,11 @@ def point_in_line(point, start, end):
         v1 = start-end
         v2 = start-point
         line_norm = np.linalg.norm(start-end)
+        max_distance = line_norm*(1 + 1e-9)
         cross = np.cross(v1,v2)
-        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
+        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= max_distance and np.linalg.norm(end-point) <= max_distance):
                 return True
         return False
-        
\ No newline at end of file
+
+def point_in_polyline(point, nodes):
+        return any(point_in_line(point, start, end) for start, end in zip(nodes[:-1], nodes[1:]))
-- 
2.43.0


From 8bbb99f064c6c2d3810426b3460ee2d2616ee59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 03/52] fix: place the cells of a polyline with unequal
 divisions per segment

The offset of a segment was i*divisions instead of the number of cells of the
preceding segments, leaving rows of u, du and du_norm uninitialised.
---
 python/src/mtl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 8d891e2..0b03bba 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -111,10 +111,11 @@ class MTL():
         
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
+            first = np.sum(ndiv[:i], dtype=int)
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From 5573e53e20982b3be4f5fc65c9c6308a04138d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 04/52] fix: include the line's conductance in the end half
 cells of networks

Network nodes took only the capacitance of the adjacent half cells, while a
stand-alone line includes C and G.
---
 python/src/networks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..6ec5f7c 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -19,6 +19,7 @@ class Network:
         self.number_of_state_vars = 0
         self.connections : Dict[int, Dict[str, int, int, int, str]] = {}
         self.c : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
+        self.g : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
         self.nw_v = np.zeros([0])
         self.nw_i = np.zeros([0])
         self.dx : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
@@ -101,6 +102,7 @@ class Network:
             side_idx = -1
 
         self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
+        self.g = linalg.block_diag(self.g, nw_conn[0].g[side_idx])
         
         def order_by_conductor(conn):
             return conn[1]
@@ -252,11 +254,11 @@ class Network:
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c / dt + self.g / 2) - self.P1 - self.Q1 / dt     ,  -self.O                            ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
-            [self.dx.dot(self.c) / dt - self.Q1 / dt   ,   np.zeros(self.O.shape)],
+            [self.dx.dot(self.c / dt - self.g / 2) - self.Q1 / dt   ,   np.zeros(self.O.shape)],
             [np.zeros(self.N1.shape)                   ,   np.eye(self.M.shape[0])]
         ])
         self.B2 = np.block([
-- 
2.43.0


From 2aa6a4b18a5eed5a86447b67dca866bb752dc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 05/52] fix: signs of the state equations of the LCpRs
 termination

The voltage over the parallel LC obeys dx/dt = (v - vs - x)/(RC) - iL/C; the
three 1/(RC) terms had the opposite sign, which makes the branch active and
unstable unless the LC is practically a short.
---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 6ec5f7c..d3c403a 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -158,15 +158,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] = -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From 9a9eabbef87ebc01ca61c039069a54d48297316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 06/52] fix: let several branches and sources meet at a network
 node

Branch conductances to ground overwrote what was already attached to the node,
and the sources of all branches of a node were added up and scaled with the sum
of their conductances. Conductances now accumulate and every source has its own
column.
---
 python/src/networks.py | 56 ++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index d3c403a..1415095 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -36,18 +35,17 @@ class Network:
         self.nw_v_prev = self.nw_v
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
         self.N1 = np.zeros([self.number_of_state_vars, self.number_of_nodes])
-        self.Ns = np.zeros([self.number_of_state_vars, self.number_of_nodes])
+        self.Ns = np.zeros([self.number_of_state_vars, 0])
         self.O = np.zeros([self.number_of_nodes, self.number_of_state_vars])
 
         self.Q1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Qs = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Qs = np.zeros([self.number_of_nodes, 0])
 
-        self.v_sources = np.empty(shape=(self.number_of_nodes), dtype=object)
-        self.v_sources.fill(lambda t: 0)
+        self.v_sources = np.empty(shape=(0), dtype=object)
 
         
     def _get_number_of_state_vars_in_connector(self, connection):
@@ -135,23 +133,25 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        """ Adds the source of one branch. Returns its column in Ps, Qs and Ns """
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.hstack([self.Ps, np.zeros([self.Ps.shape[0], 1])])
+        self.Qs = np.hstack([self.Qs, np.zeros([self.Qs.shape[0], 1])])
+        self.Ns = np.hstack([self.Ns, np.zeros([self.Ns.shape[0], 1])])
+        return self.v_sources.shape[0] - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
-        assert(node in self.connections.keys())
-        index = self.connections[node]["index"]
-        if (R != 0):
-            self.P1[index, index] = -1/R
-        if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+        self.connect_to_ground(node, R, Vt)
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -161,26 +161,26 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -193,11 +193,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] +=  1/R 
+                self.Ps[index2, source] += -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0


From 5bfe24bb6596b60bab19454b51ff11182982c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 07/52] fix: number network nodes after all preceding lines of
 their level

Only the conductors of the levels above were counted, so the second and later
lines of a level were driven and read on the first line's conductors.
---
 python/src/networks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/networks.py b/python/src/networks.py
index 1415095..1d5216a 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -125,6 +125,7 @@ class Network:
         self.e_T = np.append(self.e_T, line.e_T[connection[1]][side_idx])
 
         self.connections[connection[0]] = {
+            "line" : line,
             "line_name" : line.name, 
             "line_index" : connection[1], 
             "side" : side_idx, 
@@ -277,6 +278,10 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
+                for line in bundle.levels[level]:
+                    if line is node["line"]:
+                        break
+                    conductors_above += line.number_of_conductors
                 node["line_index"] += conductors_above
 
     def update_sources(self, time, dt):
-- 
2.43.0


From 3c36f9e84c868169195478ba31c82a33706d70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 08/52] fix: accept dispersive connectors anywhere on the line

The position was compared componentwise with the first and last node, which
rejects lines running towards smaller coordinates, and the end node has no cell
of its own: it belongs to the last one.
---
 python/src/dispersive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..a515007 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from .utils import point_in_polyline
+
 
 class Dispersive():
     def __init__(self, number_of_conductors, nx, u, dt):
@@ -98,10 +100,12 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        if (index == self.nx):
+            index -= 1
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
-- 
2.43.0


From 6ec6073d91918e4d7ad5f4a0f6bf0202021818f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 09/52] fix: keep the previous current for the convolution
 update

i_prev was another name for the array that is overwritten in place, so the
recursive convolution used the new current twice.
---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0b03bba..dec7e6e 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -424,7 +424,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -905,7 +905,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From 0df6960a538f1bfeec231bbf25818b33d1f90dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 10/52] fix: couple both ways when a transfer impedance asks
 for it

("in" or "both") is just "in", so direction "both" coupled nothing.
---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index a515007..c0c1d6b 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -195,7 +195,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -208,7 +208,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -267,7 +267,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -280,7 +280,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From da078989d19acc564399f2c092606200431d3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 11/52] fix: convolve every pole of a dispersive element with
 its own current

The per-cell sums mixed the residues of different poles and conductors, and
the recursion of transfer impedances changed sign every step. Keep the
poles as a flat list of (cell, row, column) entries instead.
---
 python/src/dispersive.py | 162 ++++++++++++++++-----------------------
 python/src/mtl.py        |  15 +---
 2 files changed, 70 insertions(+), 107 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index c0c1d6b..038d66a 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -9,35 +9,16 @@ class Dispersive():
         self.u = u
         self.dt = dt
         
-        self.phi = np.zeros(
-            shape=(
-                nx,
-                number_of_conductors
-            ), dtype = np.ndarray
-        )
-        
-        self.q1 = np.zeros(
-            shape=(
-                nx,
-                number_of_conductors,
-                number_of_conductors
-            ), dtype = np.ndarray
-        )
-        
-        self.q2 = np.zeros(
-            shape=(
-                nx,
-                number_of_conductors,
-                number_of_conductors
-            ), dtype = np.ndarray
-        )
-        self.q3 = np.zeros(
-            shape=(
-                nx,
-                number_of_conductors,
-                number_of_conductors
-            ), dtype = np.ndarray
-        )
+        # Pole-residue terms. Entry k is the pole poles[k] (rad/s) with residue 
+        # residues[k] in the voltage drop of conductor row[k] in cell index[k] 
+        # due to the current of conductor col[k] in that cell.
+        self.index = np.zeros(0, dtype = int)
+        self.row = np.zeros(0, dtype = int)
+        self.col = np.zeros(0, dtype = int)
+        self.poles = np.zeros(0, dtype = complex)
+        self.residues = np.zeros(0, dtype = complex)
+        self.phi = np.zeros(0, dtype = complex)
+
         self.q3_phi_term = np.zeros(
             shape=(
                 nx,
@@ -73,20 +54,57 @@ class Dispersive():
             )
         )
     
-    def v_sum(self,arr:np.ndarray):
-        return np.vectorize(np.sum, otypes=[float])(arr)
+        self.update_coefficients(dt)
+
+    def add_poles(self, index, row, col, poles, residues):
+        """ Adds the same poles in all the cells of index, which can be a single one """
+        cells = np.repeat(index, len(poles))
+        n_cells = np.size(index)
+        self.index = np.append(self.index, cells)
+        self.row = np.append(self.row, np.full(cells.size, row))
+        self.col = np.append(self.col, np.full(cells.size, col))
+        self.poles = np.append(self.poles, np.tile(poles, n_cells))
+        self.residues = np.append(self.residues, np.tile(residues, n_cells))
+        self.phi = np.append(self.phi, np.zeros(cells.size))
+        self.update_coefficients(self.dt)
+
+    def add_connectors(self, connectors, first_conductor):
+        """ Takes over the poles of the connectors of a line whose conductors start at first_conductor """
+        for k in range(len(connectors.poles)):
+            self.add_poles(connectors.index[k], connectors.row[k] + first_conductor, connectors.col[k] + first_conductor, 
+                           connectors.poles[k:k+1], connectors.residues[k:k+1])
+
+    def remove_poles(self, index, row, col):
+        kept = np.logical_not((self.index == index) & (self.row == row) & (self.col == col))
+        self.index = self.index[kept]
+        self.row = self.row[kept]
+        self.col = self.col[kept]
+        self.poles = self.poles[kept]
+        self.residues = self.residues[kept]
+        self.phi = self.phi[kept]
+        self.update_coefficients(self.dt)
+
+    def update_coefficients(self, dt):
+        """ Computes the recursive convolution coefficients for time step dt """
+        self.dt = dt
+        p_dt = self.poles * dt
+        self.q1 = -(self.residues / self.poles) * (1 - (np.exp(p_dt) - 1) / p_dt)
+        self.q2 = (self.residues / self.poles) * (1 / p_dt + np.exp(p_dt) * (1 - 1 / p_dt))
+        self.q3 = np.exp(p_dt)
+
+        self.q1sum.fill(0.0)
+        self.q2sum.fill(0.0)
+        np.add.at(self.q1sum, (self.index, self.row, self.col), np.real(self.q1))
+        np.add.at(self.q2sum, (self.index, self.row, self.col), np.real(self.q2))
 
     def update_q3_phi_term(self):
-        for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+        self.q3_phi_term.fill(0.0)
+        np.add.at(self.q3_phi_term, (self.index, self.row), np.real(self.q3*self.phi))
         
     def update_phi(self, i_prev, i_now):
-        for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
-            )
+        self.phi = self.q1*i_now[self.col, self.index] +\
+                   self.q2*i_prev[self.col, self.index] +\
+                   self.q3*self.phi
 
         
 
@@ -126,26 +144,13 @@ class DispersiveConnector(Dispersive):
 
         assert self.d[index, conductor, conductor]  == 0.0, f"Dispersive connector already in conductor {conductor} at position {index}"
         assert self.e[index, conductor, conductor]  == 0.0, f"Dispersive connector already in conductor {conductor} at position {index}"
-        assert self.q1[index, conductor, conductor] == 0.0, f"Dispersive connector already in conductor {conductor} at position {index}"
-        assert self.q2[index, conductor, conductor] == 0.0, f"Dispersive connector already in conductor {conductor} at position {index}"
-        assert self.q3[index, conductor, conductor] == 0.0, f"Dispersive connector already in conductor {conductor} at position {index}"
+        assert not np.any((self.index == index) & (self.row == conductor)), f"Dispersive connector already in conductor {conductor} at position {index}"
 
 
         self.d[index, conductor, conductor] += d
         self.e[index, conductor, conductor] += e
 
-
-        self.q1[index, conductor, conductor] -= (residues / poles) * (
-            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-        )
-        self.q2[index, conductor, conductor] += (residues / poles) * (
-            1 / (poles * self.dt)
-            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-        )
-        self.q3[index, conductor, conductor] += np.exp(poles * self.dt)
-
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.add_poles(index, conductor, conductor, poles, residues)
 
 
 class TransferImpedance(Dispersive):
@@ -198,31 +203,12 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                    self.add_poles(range(self.nx), j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
-
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+                    self.add_poles(range(self.nx), i, j, poles, -residues)
 
     def set_transfer_impedance_at_index(
         self, 
@@ -233,6 +219,7 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        index = index % self.nx
         
         factor = 1
         if "factor" in transfer_impedance.keys():
@@ -270,28 +257,11 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, j, i] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, j, i] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                    self.remove_poles(index, j, i)
+                    self.add_poles(index, j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, i, j] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, i, j] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
-
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+                    self.remove_poles(index, i, j)
+                    self.add_poles(index, i, j, poles, -residues)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index dec7e6e..1b39f7a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -628,9 +628,6 @@ class MTLD:
         
 
         
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         
@@ -658,9 +655,6 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
                     d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
                     e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
                     
@@ -684,14 +678,13 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
         self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
         self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
 
-        self.transfer_impedance.q1sum = self.transfer_impedance.v_sum(self.transfer_impedance.q1)
-        self.transfer_impedance.q2sum = self.transfer_impedance.v_sum(self.transfer_impedance.q2)
+        first = 0
+        for line in [line for mtls in levels.values() for line in mtls]:
+            self.transfer_impedance.add_connectors(line.connectors, first)
+            first += line.number_of_conductors
 
         self.v = np.zeros([self.number_of_conductors, self.ndiv])
         self.i = np.zeros([self.number_of_conductors, self.ndiv-1])
-- 
2.43.0


From 5e57de8256e11595780b793e090765d5c08e52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 12/52] fix: step every bundle, probe and dispersive term with
 the time step of the run

MTLN kept the bundles' own time steps unless one was requested, and the
convolution coefficients and current probes kept the one they were built with.
---
 python/src/mtl.py  | 3 +++
 python/src/mtln.py | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 1b39f7a..38765b6 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -348,6 +348,7 @@ class MTL():
 
     def update_lr_terms(self):
         
+        self.connectors.update_coefficients(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -597,6 +598,7 @@ class MTL():
         self.update_cg_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
@@ -785,6 +787,7 @@ class MTLD:
 
     def update_lr_terms(self):
         
+        self.transfer_impedance.update_coefficients(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..91b5baa 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,8 +65,8 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
         
         self.compute_nw_v_terms()
         
@@ -75,6 +75,7 @@ class MTLN:
             bundle.update_lr_terms()
             bundle.update_cg_terms()
             for p in bundle.probes:
+                p.dt = self.dt
                 p.resize_frames(len(t), bundle.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From 6c7132cddcdcfb4b2225770530201b2bdafa894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 13/52] fix: bind the nodes of networks added with add_networks
 to the bundles

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 91b5baa..622dcdc 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 60a1ff3d68c2e36519452b58a2ef6c5443a37125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 14/52] fix: apply localized field drives over exactly their
 extent

The range check rejected lines not running along increasing coordinates and
the fractions of the first and last cells were wrong for drives inside one
cell, starting at the first node's cell or across bends.
---
 python/src/mtl.py   | 69 +++++++++------------------------------------
 python/src/utils.py |  9 ++++++
 2 files changed, 23 insertions(+), 55 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 38765b6..e497b45 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -20,7 +20,7 @@ from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
 from .utils import add_t_functions as add, multiply
-from .utils import point_in_polyline
+from .utils import point_in_polyline, position_in_polyline
 
 class Field:
     def __init__(self, incident_x: sp.Function, incident_y: sp.Function, incident_z: sp.Function):
@@ -712,64 +712,23 @@ class MTLD:
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-                raise ValueError("Probe position is out of MTL length.")
+        start_length = position_in_polyline(start, self.u)
+        end_length   = position_in_polyline(end, self.u)
+        if start_length is None or end_length is None:
+            raise ValueError("Source position is out of MTL length.")
+
+        lengths = np.linalg.norm(self.du, axis=1)
+        node_lengths = np.append(0.0, np.cumsum(lengths))
 
-        start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
         source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
-        
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
-               
+        for index in range(len(lengths)):
+            covered = min(end_length, node_lengths[index+1]) - max(start_length, node_lengths[index])
+            if covered > 1e-9*lengths[index]:
+                source_factor[index] = covered/lengths[index]
+
         for index, factor in source_factor.items():
             if (source_type == "Planewave"):
-                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
+                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/len(source_factor)))
             else :
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor))
 
diff --git a/python/src/utils.py b/python/src/utils.py
index a3ae5c4..10a61ac 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -41,3 +41,12 @@ def point_in_line(point, start, end):
 
 def point_in_polyline(point, nodes):
         return any(point_in_line(point, start, end) for start, end in zip(nodes[:-1], nodes[1:]))
+
+def position_in_polyline(point, nodes):
+        """ Distance along the polyline from its first node to point, None if point is not in it """
+        length = 0.0
+        for start, end in zip(nodes[:-1], nodes[1:]):
+                if point_in_line(point, start, end):
+                        return length + np.linalg.norm(point-start)
+                length += np.linalg.norm(end-start)
+        return None
-- 
2.43.0


From 38a45e8f87e84ae9fa5e038985cf8ea814c7b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 15/52] fix: let a connector without transfer impedance replace
 that of its line

---
 python/src/dispersive.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 038d66a..41bdfad 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -240,9 +240,6 @@ class TransferImpedance(Dispersive):
             poles[i] = transfer_impedance["poles"]["real"][i] + 1j*transfer_impedance["poles"]["imag"][i]
             residues[i] = (transfer_impedance["residues"]["real"][i] + 1j*transfer_impedance["residues"]["imag"][i])/factor
        
-        if d == 0 and e == 0 and len(poles) == 0 and len(residues) == 0:
-            return
-
         n_before_out = sum(levels[0:out_level])
         n_before_in = sum(levels[0:in_level])
         
-- 
2.43.0


From d99f16618a2a23b80f8d2c3bbcf998ce3d3830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 16/52] fix: do not count the breakpoints of trapezoidal and
 ramp waveforms twice

---
 python/src/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..0df31e1 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -62,12 +62,12 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
-    return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
+    return A*(mod_time/rise_time)*(mod_time < t1) + \
+           A*(mod_time >= t1 )*(mod_time < t2) + \
            (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x < x0)*(x >= 0) + A*(x >= x0)
 
 
 def ramp_pulse_sp(A, x0):
-- 
2.43.0


From 2663c57c650f80f938263761280f394279c90e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 17/52] fix: symbolic ramps are zero before they start and
 travel with the given speed

---
 python/src/waveforms.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 0df31e1..f990b62 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -72,22 +72,25 @@ def ramp_pulse(x, A, x0):
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
+    f1 = sp.Piecewise((0, t < 0), (A*(t/x0), t <= x0), (A, True))
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    w = t + x/v
+    f1 = sp.Piecewise((0, w < 0), (A*(w/x0), w <= x0), (A, True))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    w = t + y/v
+    f1 = sp.Piecewise((0, w < 0), (A*(w/x0), w <= x0), (A, True))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    x,y,z,t = sp.symbols('x y z t')
+    w = t + z/v
+    f1 = sp.Piecewise((0, w < 0), (A*(w/x0), w <= x0), (A, True))
     return f1
 
 
-- 
2.43.0


From 2191e983c53f0165f092973cdf4bf9a505a6f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 18/52] fix: set the resistance of a region on its conductor
 and cells only

---
 python/src/mtl.py | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index e497b45..531a38a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -79,6 +79,23 @@ class PlaneWave(Field):
         
 
 
+def get_region_indices(u, start, end):
+    """ Indices, in increasing order, of the nodes closest to the ends of a region """
+    if not point_in_polyline(start, u) or not point_in_polyline(end, u):
+        raise ValueError("Region is out of MTL length.")
+
+    return sorted(int(np.argmin(np.linalg.norm(u - position, axis=1))) for position in (start, end))
+
+def set_resistance_in_cells(r, u, du, start, end, conductor, resistance):
+    """ Sets the series resistance of a conductor in a region. A single point takes the cell next to it """
+    index1, index2 = get_region_indices(u, start, end)
+    if (index1 == index2):
+        index1 = min(index1, du.shape[0] - 1)
+        index2 = index1 + 1
+
+    r[index1:index2, conductor, conductor] = resistance/np.sum(np.linalg.norm(du[index1:index2], axis=1))
+
+
 class MTL():
     """
     Multiconductor Transmission Line
@@ -375,25 +392,12 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 == self.r.shape[0]):
-            index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
-        
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
-            
+        set_resistance_in_cells(self.r, self.u, self.du, start, end, conductor, resistance)
         self.update_lr_terms()
 
     def add_conductance_at_point(self, position, conductor, conductance):
@@ -905,20 +909,12 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
-            
+        set_resistance_in_cells(self.r, self.u, self.du, start, end, conductor, resistance)
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-- 
2.43.0


From 78e277f2010ca022a89aebdfe098ef70b03e6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 19/52] fix: add conductances to their conductor and nodes
 only, also at the ends held by networks

---
 python/src/mtl.py      | 30 ++++++++++--------------------
 python/src/mtln.py     |  1 +
 python/src/networks.py | 11 +++++++++++
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 531a38a..df8f2e2 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -95,6 +95,14 @@ def set_resistance_in_cells(r, u, du, start, end, conductor, resistance):
 
     r[index1:index2, conductor, conductor] = resistance/np.sum(np.linalg.norm(du[index1:index2], axis=1))
 
+def add_conductance_in_nodes(g, u, du, start, end, conductor, conductance):
+    """ Adds a shunt conductance to a conductor, distributed over the nodes of a region """
+    index1, index2 = get_region_indices(u, start, end)
+    lengths = np.linalg.norm(du, axis=1)
+    node_lengths = 0.5*(np.append(lengths, 0.0) + np.append(0.0, lengths))
+
+    g[index1:index2+1, conductor, conductor] += conductance/np.sum(node_lengths[index1:index2+1])
+
 
 class MTL():
     """
@@ -404,20 +412,12 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        assert(end >= begin)
-
         if (type(begin) == float):
             begin = np.array([0.0,0.0,begin])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
-            
+        add_conductance_in_nodes(self.g, self.u, self.du, begin, end, conductor, conductance)
         self.update_cg_terms()
 
 
@@ -918,20 +918,10 @@ class MTLD:
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        assert(end >= start)
-
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
-            
+        add_conductance_in_nodes(self.g, self.u, self.du, start, end, conductor, conductance)
         self.update_cg_terms()
-
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 622dcdc..04f11ba 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -42,6 +42,7 @@ class MTLN:
 
     def compute_nw_v_terms(self):
         for nw in self.networks:
+            nw.update_conductances(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index 1d5216a..de3f279 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -241,6 +241,13 @@ class Network:
         for node in self.connections.values():
             lines[node["bundle_name"]].v[node["line_index"],node["side"]] = self.nw_v[node["index"]]
 
+    def update_conductances(self, lines):
+        for n1 in self.connections.values():
+            for n2 in self.connections.values():
+                if (n1["line"] is n2["line"]):
+                    g = lines[n1["bundle_name"]].g[n1["side"]]
+                    self.g[n1["index"], n2["index"]] = g[n1["line_index"], n2["line_index"]]
+
     def i_factor(self,node):
         if (node["side"] == 0):
             return 1.0
@@ -300,6 +307,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_currents(bundles)
 
+    def update_conductances(self, bundles):
+        for nw in self.levels.values():
+            nw.update_conductances(bundles)
+
     def compute_v_terms(self, dt):
         for nw in self.levels.values():
             nw.compute_v_terms(dt)
-- 
2.43.0


From 5f1aa3af9a77bb25b58ba80429b55d73fd0f9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 20/52] fix: clear the state of dispersive connectors in clean
 copies

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index df8f2e2..4448377 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -549,6 +549,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.phi.fill(0.0)
         r.time = 0.0
         return r
 
-- 
2.43.0


From 1d33e9425166808ea57b4268cdf22e8742282f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 21/52] fix: do not count both branches of the surface
 impedance at its transition frequency

---
 python/src/VF/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/VF/utils.py b/python/src/VF/utils.py
index 08141e1..0989179 100644
--- a/python/src/VF/utils.py
+++ b/python/src/VF/utils.py
@@ -57,7 +57,7 @@ def vfi(f,p,r,i):
 
 def z(f,f0, rdc):
     f0 = np.ones(np.size(f))*f0
-    return rdc*(1+1j*f/f0)*(f<=f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>=f0)
+    return rdc*(1+1j*f/f0)*(f<f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>=f0)
 
 def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
                     a: np.ndarray, b: np.ndarray, p: np.ndarray, r:np.ndarray):
-- 
2.43.0


From 1b9f53b96c19686064882dfeb78145ac79937e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 22/52] fix: serialize the diagonal response of every port with
 all of its poles

---
 python/src/VF/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/src/VF/utils.py b/python/src/VF/utils.py
index 0989179..3acc3bd 100644
--- a/python/src/VF/utils.py
+++ b/python/src/VF/utils.py
@@ -72,7 +72,7 @@ def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
     
     zDict = {}
     
-    nPoles = nReal + nCmplx*2
+    nPoles = nReal + nCmplx
     dim = int(np.sqrt(np.shape(r)[0]))
     
     with open( "info.json" , "w" ) as x:
@@ -88,16 +88,21 @@ def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
                 "residuesI" : []
                 }
 
+            diagonal = i*(dim+1)
             if (constant):
-                zDict[i]["constant"] = a[i*nPoles]
+                zDict[i]["constant"] = a[diagonal]
             if (proportional):
-                zDict[i]["proportional"] = b[i*nPoles]
+                zDict[i]["proportional"] = b[diagonal]
             
             poles = []
             res = []
             for j in range(nPoles):
                 poles.append(p[j])
-                res.append(r[i*nPoles][j])
+                res.append(r[diagonal][j])
+                # fits give only one pole of each complex conjugate pair
+                if (np.imag(p[j]) != 0.0):
+                    poles.append(np.conj(p[j]))
+                    res.append(np.conj(r[diagonal][j]))
                 
             zDict[i]["polesR"] = [np.real(v) for v in poles]
             zDict[i]["polesI"] = [np.imag(v) for v in poles]
-- 
2.43.0


From 6c52da551836f24bcab8d7481e8ab5ad3bd977f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 23/52] fix: extract networks from lines placed anywhere

---
 python/src/mtl.py               | 16 ++++++++--------
 python/src/networkExtraction.py |  4 ++--
 python/src/probes.py            |  8 +++-----
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4448377..4c79be9 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -525,19 +525,19 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
             z0 = self.zl
 
-        v0 = self.add_probe(position=x0,          probe_type='voltage')
-        v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        v0 = self.add_probe(position=x0, probe_type='voltage')
+        v1 = self.add_probe(position=x1, probe_type='voltage')
+        i0 = self.add_probe(position=x0, probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, "S" if terminal == 0 else "L")
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/networkExtraction.py b/python/src/networkExtraction.py
index ae73d4b..cfe526f 100644
--- a/python/src/networkExtraction.py
+++ b/python/src/networkExtraction.py
@@ -32,10 +32,10 @@ def getSolvedProbesFromLine(line, p1, p2, magnitude, finalTime):
     line1 = line.create_clean_copy()
     if p1_term == "S":
         line1.add_voltage_source(
-            position=line1.x[0], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[0], conductor=p1_cond, magnitude=magnitude)
     else:
         line1.add_voltage_source(
-            position=line1.x[-1], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[-1], conductor=p1_cond, magnitude=magnitude)
     pS_probe, pL_probe = line1.add_port_probes()
     if p1_term == "S":
         p1_probe = pS_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..ef77eaa 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,11 +48,12 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, terminal):
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
         self.z0 = np.diag(z0)
+        self.terminal = terminal
 
     def __get_v_i_fft(self, n):
         dt = self.v1.t[1] - self.v0.t[0]
@@ -67,10 +68,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
-            return "S"  
-        else:
-            return "L"
+        return self.terminal
 
     def get_incident_and_reflected_power_wave(self, conductor):
         z0 = self.z0[conductor]
-- 
2.43.0


From d2b88a7da7f51d9b0b634aed633370f48e1d4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 24/52] fix: sample the longitudinal field in the middle of its
 cell

---
 python/src/mtl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4c79be9..c88fe0b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -496,8 +496,8 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
@@ -811,8 +811,8 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-- 
2.43.0


From 891e94b52ad936c246e17214c86e5f37307ff535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 25/52] fix: integrate the transverse field along the
 separation of each node

---
 python/src/mtl.py | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c88fe0b..a364bb3 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -33,6 +33,14 @@ class Field:
         assert (np.isclose(np.linalg.norm(du), 1, rtol = 0.01))
         return self.e_x*du[0] + self.e_y*du[1] + self.e_z*du[2]
 
+    def compute_eT_at_node(self, node: npt.NDArray[np.float64], distance: npt.NDArray[np.float64]):
+        """ Integral of the field along the straight path from a node to the conductor at a given distance """
+        x, y, z = sp.symbols('x y z')
+        s = sp.Dummy('s')
+        e = self.e_x*distance[0] + self.e_y*distance[1] + self.e_z*distance[2]
+        e = e.subs(x, node[0] + s*distance[0]).subs(y, node[1] + s*distance[1]).subs(z, node[2] + s*distance[2])
+        return sp.Integral(e, (s, 0, 1))
+
 class PlaneWave(Field):
     def __init__(self, field :  FunctionType, polar, azimuth, polarization):
         
@@ -494,22 +502,11 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
+            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_at_node(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -809,22 +806,11 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
+            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_at_node(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From efd8aeb12575a5407db7034bc9090d225c37d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 26/52] fix: apply localized external fields to their extent
 only

---
 python/src/mtl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index a364bb3..d489798 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -489,10 +489,12 @@ class MTL():
         x, y, z, t, v = sp.symbols('x y z t v')
          
         indices = range(self.u.shape[0] - 1)
+        last_node = self.u.shape[0] - 1
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
             indices = range(start_index, end_index)
+            last_node = end_index
          
          
         vu = self.get_phase_velocities()
@@ -506,7 +508,7 @@ class MTL():
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
-            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_at_node(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
+            self.e_T[n,last_node] = sp.lambdify(t, field.compute_eT_at_node(self.u[last_node], distances[n, last_node]).subs(v, np.max(vu[-1])))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -794,10 +796,12 @@ class MTLD:
         x, y, z, t, v = sp.symbols('x y z t v')
 
         indices = range(self.u.shape[0] - 1)
+        last_node = self.u.shape[0] - 1
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
+            last_node = end_index
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -810,7 +814,7 @@ class MTLD:
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[nz])))
-            self.e_T[n,-1] = sp.lambdify(t, field.compute_eT_at_node(self.u[-1], distances[n, -1]).subs(v, np.max(vu[-1])))
+            self.e_T[n,last_node] = sp.lambdify(t, field.compute_eT_at_node(self.u[last_node], distances[n, last_node]).subs(v, np.max(vu[-1])))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From 30b2571f98f30c3ce912303fb94062e6f1e46482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 27/52] fix: apply the transverse field at the ends held by
 networks

---
 python/src/mtln.py     | 1 +
 python/src/networks.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 04f11ba..d22bb59 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -43,6 +43,7 @@ class MTLN:
     def compute_nw_v_terms(self):
         for nw in self.networks:
             nw.update_conductances(self.bundles)
+            nw.update_external_fields(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index de3f279..7e8b62f 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -248,6 +248,10 @@ class Network:
                     g = lines[n1["bundle_name"]].g[n1["side"]]
                     self.g[n1["index"], n2["index"]] = g[n1["line_index"], n2["line_index"]]
 
+    def update_external_fields(self, lines):
+        for node in self.connections.values():
+            self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"], node["side"]]
+
     def i_factor(self,node):
         if (node["side"] == 0):
             return 1.0
@@ -311,6 +315,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_conductances(bundles)
 
+    def update_external_fields(self, bundles):
+        for nw in self.levels.values():
+            nw.update_external_fields(bundles)
+
     def compute_v_terms(self, dt):
         for nw in self.levels.values():
             nw.compute_v_terms(dt)
-- 
2.43.0


From 82d0da94cd5e92255b9173bc13ac4c36979b6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 28/52] fix: account for the conductance in the response to
 transverse fields

---
 python/src/mtl.py      | 12 ++++++++----
 python/src/networks.py |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index d489798..fa17bdb 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -430,9 +430,9 @@ class MTL():
 
 
     def advance_voltage(self):
-        self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
+        self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],(self.v + self.e_T_prev).T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          self.e_T_now[:, 1:-1]
       
         
     def advance_current(self):
@@ -569,6 +569,8 @@ class MTL():
             + (self.v_sources_now[:, 0] + self.v_sources_prev[:, 0])
             - (self.du_norm[0,0,0] / self.dt)
             * (self.zs.dot(self.c[0])).dot(self.e_T_now[:, 0] - self.e_T_prev[:, 0])
+            - (self.du_norm[0,0,0] / 2)
+            * (self.zs.dot(self.g[0])).dot(self.e_T_now[:, 0] + self.e_T_prev[:, 0])
         )
 
 
@@ -580,6 +582,8 @@ class MTL():
             + (self.v_sources_now[:, -1] + self.v_sources_prev[:, -1])
             - (self.du_norm[-1,0,0] / self.dt)
             * (self.zl.dot(self.c[-1])).dot(self.e_T_now[:, -1] - self.e_T_prev[:, -1])
+            - (self.du_norm[-1,0,0] / 2)
+            * (self.zl.dot(self.g[-1])).dot(self.e_T_now[:, -1] + self.e_T_prev[:, -1])
         )
 
 
@@ -848,9 +852,9 @@ class MTLD:
         )
 
     def advance_voltage(self):
-        self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],self.v.T[1:-1,:]).T-\
+        self.v[:, 1:-1] = np.einsum('...ij,...j->...i',self.v_term[1:-1,:,:],(self.v + self.e_T_prev).T[1:-1,:]).T-\
                           np.einsum('...ij,...j->...i',self.i_diff[1:-1,:,:],(self.i[:,1:]-self.i[:,:-1]).T).T-\
-                          (self.e_T_now[:, 1:-1] - self.e_T_prev[:, 1:-1])
+                          self.e_T_now[:, 1:-1]
       
         
     def advance_current(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index 7e8b62f..0a06ee3 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -224,7 +224,7 @@ class Network:
             
         try:
             self.B3 = np.block([
-                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt],
+                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt - self.dx.dot(self.g).dot(self.e_T_now + self.e_T_prev)[:,np.newaxis]/2],
                 [ np.zeros([self.number_of_state_vars,1])]
             ])
         except:
-- 
2.43.0


From 5d90514c913a3727d677c11de94a45e8ca208462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 29/52] fix: let networks be illuminated by plane waves

---
 python/src/mtl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index fa17bdb..4e7f7f7 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -793,6 +793,15 @@ class MTLD:
         ])
 
 
+    def add_planewave(self, pw: PlaneWave, distances : np.ndarray):
+        pw.compute_velocities(np.max(self.get_phase_velocities()))
+        x, y, z, t = sp.symbols('x y z t')
+        e_0 = pw.field(t - x/pw.vx- y/pw.vy- z/pw.vz)
+        pw.e_x = e_0 * pw.ex
+        pw.e_y = e_0 * pw.ey
+        pw.e_z = e_0 * pw.ez
+        self.add_external_field(pw, distances)
+
     # def add_external_field(self, field : Field, distances: np.array):
     def add_external_field(self, field : Field, distances: npt.NDArray[np.float64], field_localization: list[npt.NDArray[np.float64]] = []):
 
-- 
2.43.0


From 8d5a1930b4f00621219930a81892bd9754a0eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 30/52] fix: keep all the terminations and junctions of a level
 at one position

---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..672731b 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -522,6 +522,9 @@ class Parser:
                                 # else:
                                 #     network.short_to_ground(node)
 
+                if bundle_level in networkd.keys():
+                    terminations.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
@@ -652,6 +655,9 @@ class Parser:
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
+                if bundle_level in networkd.keys():
+                    junctions.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             junctions.append(nw.NetworkD(networkd))            
         return junctions
-- 
2.43.0


From 297c9dd82e3e3878fda194635103d262130e25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 31/52] fix: attach every conductor of a termination or
 junction to its own connector

---
 python/src/jsonParser.py | 100 +++++++++++++++------------------------
 1 file changed, 39 insertions(+), 61 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 672731b..b9b0a4c 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -443,6 +443,22 @@ class Parser:
         raise Exception(cable_name + " is not part of any bundle")
     
     
+    def _getConnectorOfConductor(self, connector, conductor):
+        """ Type, resistance, inductance and capacitance of a connector at one of the conductors of its cable """
+        values = {"resistance" : 0, "inductance" : 0, "capacitance" : 1e22}
+        if connector["connectorType"] == "MultiwireConnector":
+            for k in values.keys():
+                if k + "Vector" in connector.keys():
+                    values[k] = connector[k + "Vector"][conductor]
+            kind = connector["connections"][conductor]
+        else:
+            for k in values.keys():
+                if k in connector.keys():
+                    values[k] = connector[k]
+            kind = connector["connectorType"]
+
+        return kind, values["resistance"], values["inductance"], values["capacitance"]
+
     def _buildTerminations(self):
         
         terminations = []
@@ -473,54 +489,18 @@ class Parser:
                 network = nw.Network(description)
                 
                 for c in connections:
-                    if len(c["nodes"]) == 1:
-                        if (c["connectors"][0]["connectorType"] == "Conn_short"):
-                            network.short_to_ground(c["nodes"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(c["nodes"][0], 
-                                                      c["connectors"][0]["resistance"], 
-                                                      c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_C"):
-                            network.connect_to_ground_C(c["nodes"][0], 
-                                                        c["connectors"][0]["capacitance"], 
-                                                        c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_LCpRs"):
-                            network.connect_to_ground_LCpRs(c["nodes"][0], 
-                                                            c["connectors"][0]["resistance"], 
-                                                            c["connectors"][0]["inductance"], 
-                                                            c["connectors"][0]["capacitance"], 
-                                                            c["sources"][0])
-                    
-                    elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
-                                
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
-                                else:
-                                    R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
-                                else:
-                                    C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
-                                else:
-                                    L = 0
-
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
-                                    network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
-                                # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
-                                # else:
-                                #     network.short_to_ground(node)
+                    for node, connector, conductor, source in zip(c["nodes"], c["connectors"], c["conductors"], c["sources"]):
+                        kind, R, L, C = self._getConnectorOfConductor(connector, conductor)
+                        if kind == "Conn_short":
+                            network.short_to_ground(node)
+                        elif kind == "Conn_R" or kind == "Conn_sRLC":
+                            network.connect_to_ground_R(node, R, source)
+                        elif kind == "Conn_LCpRs":
+                            network.connect_to_ground_LCpRs(node, R, L, C, source)
+                        elif kind == "Conn_C":
+                            network.connect_to_ground_C(node, C, source)
+                        else:
+                            raise Exception("Connector of type " + kind + " is not valid in a termination")
 
                 if bundle_level in networkd.keys():
                     terminations.append(nw.NetworkD(networkd))
@@ -637,19 +617,17 @@ class Parser:
                     conn0, conn1 = conn["connectors"]
                     cond0, cond1 = conn["conductors"]
                     s0, s1 = conn["sources"]
-                    R0, R1 = 0.0, 0.0
-                    if (conn0["connectorType"] == "Conn_sRLC" or conn0["connectorType"] == "Conn_R"):
-                        R0 += conn0["resistance"]
-                    elif conn0["connectorType"] == "MultiwireConnector":
-                        if (conn0["connections"][cond0] == "Conn_R" or conn0["connections"][cond0] == "Conn_sRLC"):
-                            R0 += conn0["resistanceVector"][cond0]
-
-                    if (conn1["connectorType"] == "Conn_sRLC" or conn1["connectorType"] == "Conn_R"):
-                        R1 += conn1["resistance"]
-                    elif conn1["connectorType"] == "MultiwireConnector":
-                        if (conn1["connections"][cond1] == "Conn_R" or conn1["connections"][cond1] == "Conn_sRLC"):
-                            R1 += conn1["resistanceVector"][cond1]
-                    
+                    kind0, R0, _, _ = self._getConnectorOfConductor(conn0, cond0)
+                    kind1, R1, _, _ = self._getConnectorOfConductor(conn1, cond1)
+                    for kind in (kind0, kind1):
+                        if kind not in ("Conn_short", "Conn_R", "Conn_sRLC"):
+                            raise Exception("Connector of type " + kind + " is not valid in a junction")
+
+                    if kind0 == "Conn_short":
+                        R0 = 0.0
+                    if kind1 == "Conn_short":
+                        R1 = 0.0
+
                     if (R1+R0 == 0.0):
                         network.short_nodes(n0, n1)
                     else:
-- 
2.43.0


From c86bd532f9136684e217d3390a163188cfe12cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 32/52] fix: stamp series RLC terminations

A Conn_sRLC termination was connected as its resistance alone: its inductance and capacitance were ignored.
---
 python/src/jsonParser.py |  4 +++-
 python/src/networks.py   | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index b9b0a4c..0af365a 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -493,8 +493,10 @@ class Parser:
                         kind, R, L, C = self._getConnectorOfConductor(connector, conductor)
                         if kind == "Conn_short":
                             network.short_to_ground(node)
-                        elif kind == "Conn_R" or kind == "Conn_sRLC":
+                        elif kind == "Conn_R":
                             network.connect_to_ground_R(node, R, source)
+                        elif kind == "Conn_sRLC":
+                            network.connect_to_ground_sRLC(node, R, L, C, source)
                         elif kind == "Conn_LCpRs":
                             network.connect_to_ground_LCpRs(node, R, L, C, source)
                         elif kind == "Conn_C":
diff --git a/python/src/networks.py b/python/src/networks.py
index 0a06ee3..46eb974 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -63,7 +63,12 @@ class Network:
             n_state += 2
         
         if (connector["connectorType"] == "MultiwireConnector"):
-            if (connector["connections"][connection[1]] == "Conn_C"):
+            if (connector["connections"][connection[1]] == "Conn_sRLC"):
+                if ("inductanceVector" in connector.keys() and connector["inductanceVector"][connection[1]] != 0.0):
+                    n_state += 1
+                if ("capacitanceVector" in connector.keys() and connector["capacitanceVector"][connection[1]] < 1e22):
+                    n_state += 1
+            elif (connector["connections"][connection[1]] == "Conn_C"):
                 n_state += 1
             elif (connector["connections"][connection[1]] == "Conn_LCpRs"):
                 n_state += 2
@@ -169,6 +174,39 @@ class Network:
             self.Ps[index, source] = 1/R
             self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
+    def connect_to_ground_sRLC(self, node: int, R = 0, L = 0, C = 1e22, Vt = 0):
+        """ R, L and C in series. L = 0 is no inductor, C >= 1e22 no capacitor """
+        assert(node in self.connections.keys())
+        assert (R >= 0 and L >= 0 and C > 0)
+        if (L == 0 and C >= 1e22):
+            self.connect_to_ground(node, R, Vt)
+            return
+
+        index = self.connections[node]["index"]
+        x = self.connections[node]["state_index"]
+        if (L != 0):
+            # states: current through the branch and, if there is a capacitor, its voltage
+            assert(len(x) == (1 if C >= 1e22 else 2))
+            self.M[x[0], x[0]] = -R/L
+            self.N1[x[0], index] = 1/L
+            self.O[index, x[0]] = -1
+            if (C < 1e22):
+                self.M[x[0], x[1]] = -1/L
+                self.M[x[1], x[0]] = 1/C
+        else:
+            # state: voltage of the capacitor
+            assert(len(x) == 1 and R != 0)
+            self.M[x[0], x[0]] = -1/(R*C)
+            self.N1[x[0], index] = 1/(R*C)
+            self.O[index, x[0]] = 1/R
+            self.P1[index, index] += -1/R
+
+        if (Vt != 0):
+            source = self._add_source(Vt)
+            self.Ns[x[0], source] = -self.N1[x[0], index]
+            if (L == 0):
+                self.Ps[index, source] = 1/R
+
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-- 
2.43.0


From 22e02fc05671e719bb4b4b5e5f746fa54e7a92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 33/52] fix: keep inductance and capacitance of series RLC
 junctions

A junction between Conn_sRLC connectors was built with their resistance alone.
---
 python/src/jsonParser.py | 16 ++++++++++----
 python/src/networks.py   | 45 ++++++++++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 0af365a..11dfee0 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -619,8 +619,8 @@ class Parser:
                     conn0, conn1 = conn["connectors"]
                     cond0, cond1 = conn["conductors"]
                     s0, s1 = conn["sources"]
-                    kind0, R0, _, _ = self._getConnectorOfConductor(conn0, cond0)
-                    kind1, R1, _, _ = self._getConnectorOfConductor(conn1, cond1)
+                    kind0, R0, L0, C0 = self._getConnectorOfConductor(conn0, cond0)
+                    kind1, R1, L1, C1 = self._getConnectorOfConductor(conn1, cond1)
                     for kind in (kind0, kind1):
                         if kind not in ("Conn_short", "Conn_R", "Conn_sRLC"):
                             raise Exception("Connector of type " + kind + " is not valid in a junction")
@@ -629,8 +629,16 @@ class Parser:
                         R0 = 0.0
                     if kind1 == "Conn_short":
                         R1 = 0.0
-
-                    if (R1+R0 == 0.0):
+                    if kind0 != "Conn_sRLC":
+                        L0, C0 = 0.0, 1e22
+                    if kind1 != "Conn_sRLC":
+                        L1, C1 = 0.0, 1e22
+
+                    capacitances = [C for C in (C0, C1) if C < 1e22]
+                    if (L0+L1 != 0.0 or len(capacitances) != 0):
+                        C = 1/sum([1/C for C in capacitances]) if capacitances else 1e22
+                        network.connect_nodes_sRLC(n0, n1, R0 + R1, L0 + L1, C, Vt = add(s0,s1))
+                    elif (R1+R0 == 0.0):
                         network.short_nodes(n0, n1)
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
diff --git a/python/src/networks.py b/python/src/networks.py
index 46eb974..3b6b296 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -177,35 +177,54 @@ class Network:
     def connect_to_ground_sRLC(self, node: int, R = 0, L = 0, C = 1e22, Vt = 0):
         """ R, L and C in series. L = 0 is no inductor, C >= 1e22 no capacitor """
         assert(node in self.connections.keys())
-        assert (R >= 0 and L >= 0 and C > 0)
         if (L == 0 and C >= 1e22):
             self.connect_to_ground(node, R, Vt)
             return
 
-        index = self.connections[node]["index"]
-        x = self.connections[node]["state_index"]
+        self._add_sRLC({self.connections[node]["index"] : 1}, self.connections[node]["state_index"], R, L, C, Vt)
+
+    def connect_nodes_sRLC(self, node1: int, node2: int, R = 0, L = 0, C = 1e22, Vt = 0):
+        """ R, L and C in series. L = 0 is no inductor, C >= 1e22 no capacitor """
+        assert(node1 in self.connections.keys() and node2 in self.connections.keys())
+        if (L == 0 and C >= 1e22):
+            self.connect_nodes(node1, node2, R, Vt)
+            return
+
+        n1, n2 = self.connections[node1], self.connections[node2]
+        self._add_sRLC({n1["index"] : 1, n2["index"] : -1}, n1["state_index"] + n2["state_index"], R, L, C, Vt)
+
+    def _add_sRLC(self, signs, x, R, L, C, Vt):
+        """ Adds a branch whose voltage is the sum, with the given signs, of the voltages of its nodes """
+        assert (R >= 0 and L >= 0 and C > 0)
         if (L != 0):
             # states: current through the branch and, if there is a capacitor, its voltage
-            assert(len(x) == (1 if C >= 1e22 else 2))
+            assert(len(x) >= (1 if C >= 1e22 else 2))
             self.M[x[0], x[0]] = -R/L
-            self.N1[x[0], index] = 1/L
-            self.O[index, x[0]] = -1
+            from_v = 1/L
             if (C < 1e22):
                 self.M[x[0], x[1]] = -1/L
                 self.M[x[1], x[0]] = 1/C
         else:
             # state: voltage of the capacitor
-            assert(len(x) == 1 and R != 0)
+            assert(len(x) >= 1 and R != 0)
             self.M[x[0], x[0]] = -1/(R*C)
-            self.N1[x[0], index] = 1/(R*C)
-            self.O[index, x[0]] = 1/R
-            self.P1[index, index] += -1/R
+            from_v = 1/(R*C)
 
+        source = None
         if (Vt != 0):
             source = self._add_source(Vt)
-            self.Ns[x[0], source] = -self.N1[x[0], index]
-            if (L == 0):
-                self.Ps[index, source] = 1/R
+            self.Ns[x[0], source] = -from_v
+
+        for n, sign in signs.items():
+            self.N1[x[0], n] = sign*from_v
+            if (L != 0):
+                self.O[n, x[0]] = -sign
+                continue
+            self.O[n, x[0]] = sign/R
+            for m, other in signs.items():
+                self.P1[n, m] += -sign*other/R
+            if source is not None:
+                self.Ps[n, source] = sign/R
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From 8a425971ce09c023eaf2f1785d216bf8f2031404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 34/52] fix: place every lumped element of a cable

Only the first lumped element of each cable was placed, and a cable without any raised an error as soon as the model had one.
---
 python/src/jsonParser.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 11dfee0..7d5ef35 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -261,21 +261,16 @@ class Parser:
     
     
     def _addLumpedElement(self, line):
-        if len(self._lumped) == 0:
-            return
-        
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+
+            if 'model' not in conn.keys():
+                raise Exception('No model has been defined for lumped impedance')
+
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From 02d7f343e89a502bdf9dbdcf857cd9befc1455e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 35/52] fix: keep cables of a level in the order of the file

Their order, and with it that of the columns of the probes, changed with the hash seed.
---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 7d5ef35..cfd94d4 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -324,7 +324,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)]):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From ea72c5900e84c9c555f1d004af6659bfeb833ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 36/52] fix: accept nested cables without transfer impedance

---
 python/src/jsonParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index cfd94d4..e4ee472 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -286,6 +286,9 @@ class Parser:
     
     def _setBundleTransferImpedance(self, bundle, graph):
         for edge in graph.es:
+            if edge['Zt'] == 0:
+                continue
+
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
-- 
2.43.0


From b2729bf853d15c54995b66b17388643629070671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 37/52] fix: reject sources of unknown magnitude type

They were taken as no source.
---
 python/src/jsonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index e4ee472..401fc3d 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -557,8 +557,8 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
-            
+            raise Exception("Unknown type of magnitude: " + source["magnitude"]["type"])
+
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
-- 
2.43.0


From d5e58b174cfa217ed2c92de5ab0714a838e88c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 38/52] fix: accept integer per unit length parameters

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4e7f7f7..cb052a8 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -204,7 +204,7 @@ class MTL():
         self.compute_terminal_terms()
 
     def init_LC(self, l, c):
-        types = [float, np.float64]
+        types = [int, float, np.int64, np.float64]
         if type(l) in types and type(c) in types:
             self.l = np.empty(shape=(self.u.shape[0] - 1, 1, 1))
             self.c = np.empty(shape=(self.u.shape[0], 1, 1))
@@ -222,7 +222,7 @@ class MTL():
             raise ValueError("Invalid input L and/or C")
 
     def init_RG(self, r, g):
-        types = [float, np.float64]
+        types = [int, float, np.int64, np.float64]
         if type(g) in types:
             if (g != 0.0):
                 assert(self.number_of_conductors == 1)
-- 
2.43.0


From dc7d2ecc2a446e537e6caf775903d3c06b0407e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 39/52] fix: apply distributed sources to the conductors of
 their own cable

Their conductor was taken as a conductor of the whole bundle: a source on an inner cable drove the outermost shield.
---
 python/src/jsonParser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 401fc3d..9219d64 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -365,6 +365,7 @@ class Parser:
             conductor = 0
             if "conductor" in source.keys():
                 conductor = source["conductor"]
+            conductor += self._getFirstConductorInBundle(cable, bundle)
                 
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
@@ -375,6 +376,13 @@ class Parser:
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
     
+    def _getFirstConductorInBundle(self, cable, bundle):
+        first = 0
+        for line in [line for mtls in bundle.levels.values() for line in mtls]:
+            if line.name == cable["name"]:
+                return first
+            first += line.number_of_conductors
+
     def _getCableFromLineName(self, name):
         for cable in self._cables:
             if cable["name"] == name:
-- 
2.43.0


From 415e2a91799866e28cdda7335113b504480867f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 40/52] fix: let a network hold both ends of a line

A junction closing a cable on itself was built as if all its nodes were on the same end.
---
 python/src/jsonParser.py | 16 +++++++++-------
 python/src/networks.py   | 11 +++++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 9219d64..98e3d52 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -482,10 +482,11 @@ class Parser:
 
                         bundle_level = self._getLevelOfCable(cable_name)
 
-                        if not self._name_to_mtl[cable_name] in description.keys():
-                            description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
+                        line_end = (cable_name, side)
+                        if not line_end in description.keys():
+                            description[line_end] = {"line":self._name_to_mtl[cable_name], "side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
             
-                        description[self._name_to_mtl[cable_name]]["connections"].append([c, conductor, conn])
+                        description[line_end]["connections"].append([c, conductor, conn])
                         d["nodes"].append(c)
                         d["connectors"].append(conn)
                         d["conductors"].append(conductor)
@@ -605,11 +606,12 @@ class Parser:
                         
                         bundle_level = self._getLevelOfCable(cable_name)
                         
-                        if not self._name_to_mtl[cable_name] in description.keys():
-                            description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
+                        line_end = (cable_name, side)
+                        if not line_end in description.keys():
+                            description[line_end] = {"line":self._name_to_mtl[cable_name], "side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
 
-                        if not [p,conductor, conn] in description[self._name_to_mtl[cable_name]]["connections"]:
-                            description[self._name_to_mtl[cable_name]]["connections"].append([p, conductor, conn])
+                        if not [p,conductor, conn] in description[line_end]["connections"]:
+                            description[line_end]["connections"].append([p, conductor, conn])
 
                         d["nodes"].append(p)
                         d["connectors"].append(conn)
diff --git a/python/src/networks.py b/python/src/networks.py
index 3b6b296..e1aa44d 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -104,14 +104,17 @@ class Network:
         elif (nw_conn[1]["side"] == "L"):
             side_idx = -1
 
-        self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
-        self.g = linalg.block_diag(self.g, nw_conn[0].g[side_idx])
+        # described either by line or, if both ends of a line are in the network, by line end
+        line = nw_conn[1]["line"] if "line" in nw_conn[1].keys() else nw_conn[0]
+
+        self.c = linalg.block_diag(self.c, line.c[side_idx])
+        self.g = linalg.block_diag(self.g, line.g[side_idx])
         
         def order_by_conductor(conn):
             return conn[1]
         
         for connection in sorted(nw_conn[1]["connections"], key=order_by_conductor):
-            self._add_node(connection, side_idx, nw_conn[0], nw_conn[1]["bundle"].name)
+            self._add_node(connection, side_idx, line, nw_conn[1]["bundle"].name)
         
     def _add_node(self, connection: list, side_idx: int, line, bundle_name: str):
         assert (connection[0] >= 0)
@@ -301,7 +304,7 @@ class Network:
     def update_conductances(self, lines):
         for n1 in self.connections.values():
             for n2 in self.connections.values():
-                if (n1["line"] is n2["line"]):
+                if (n1["line"] is n2["line"] and n1["side"] == n2["side"]):
                     g = lines[n1["bundle_name"]].g[n1["side"]]
                     self.g[n1["index"], n2["index"]] = g[n1["line_index"], n2["line_index"]]
 
-- 
2.43.0


From 11755e6654e16763ac44d62a0e409698233e0437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 41/52] fix: give every series RLC branch its own state
 variables

Branches sharing a node shared them.
---
 python/src/networks.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index e1aa44d..b72197a 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -51,24 +51,13 @@ class Network:
     def _get_number_of_state_vars_in_connector(self, connection):
         n_state = 0
         connector = connection[2]
-        if (connector["connectorType"] == "Conn_sRLC"):
-            if (connector["inductance"] != 0.0):
-                n_state += 1
-            if (connector["capacitance"] < 1e22):
-                n_state += 1
-        
         if (connector["connectorType"] == "Conn_C"):
             n_state += 1
         elif (connector["connectorType"] == "Conn_LCpRs"):
             n_state += 2
         
         if (connector["connectorType"] == "MultiwireConnector"):
-            if (connector["connections"][connection[1]] == "Conn_sRLC"):
-                if ("inductanceVector" in connector.keys() and connector["inductanceVector"][connection[1]] != 0.0):
-                    n_state += 1
-                if ("capacitanceVector" in connector.keys() and connector["capacitanceVector"][connection[1]] < 1e22):
-                    n_state += 1
-            elif (connector["connections"][connection[1]] == "Conn_C"):
+            if (connector["connections"][connection[1]] == "Conn_C"):
                 n_state += 1
             elif (connector["connections"][connection[1]] == "Conn_LCpRs"):
                 n_state += 2
@@ -184,7 +173,7 @@ class Network:
             self.connect_to_ground(node, R, Vt)
             return
 
-        self._add_sRLC({self.connections[node]["index"] : 1}, self.connections[node]["state_index"], R, L, C, Vt)
+        self._add_sRLC({self.connections[node]["index"] : 1}, R, L, C, Vt)
 
     def connect_nodes_sRLC(self, node1: int, node2: int, R = 0, L = 0, C = 1e22, Vt = 0):
         """ R, L and C in series. L = 0 is no inductor, C >= 1e22 no capacitor """
@@ -193,15 +182,26 @@ class Network:
             self.connect_nodes(node1, node2, R, Vt)
             return
 
-        n1, n2 = self.connections[node1], self.connections[node2]
-        self._add_sRLC({n1["index"] : 1, n2["index"] : -1}, n1["state_index"] + n2["state_index"], R, L, C, Vt)
+        self._add_sRLC({self.connections[node1]["index"] : 1, self.connections[node2]["index"] : -1}, R, L, C, Vt)
+
+    def _add_state_vars(self, n):
+        """ Adds the state variables of one branch. Returns their indices """
+        first = self.number_of_state_vars
+        self.number_of_state_vars += n
+        self.X = np.append(self.X, np.zeros([n]))
+        self.H = np.zeros([self.number_of_nodes + self.number_of_state_vars])
+        self.M = linalg.block_diag(self.M, np.zeros([n, n]))
+        self.N1 = np.vstack([self.N1, np.zeros([n, self.number_of_nodes])])
+        self.Ns = np.vstack([self.Ns, np.zeros([n, self.Ns.shape[1]])])
+        self.O = np.hstack([self.O, np.zeros([self.number_of_nodes, n])])
+        return list(range(first, self.number_of_state_vars))
 
-    def _add_sRLC(self, signs, x, R, L, C, Vt):
+    def _add_sRLC(self, signs, R, L, C, Vt):
         """ Adds a branch whose voltage is the sum, with the given signs, of the voltages of its nodes """
         assert (R >= 0 and L >= 0 and C > 0)
         if (L != 0):
             # states: current through the branch and, if there is a capacitor, its voltage
-            assert(len(x) >= (1 if C >= 1e22 else 2))
+            x = self._add_state_vars(1 if C >= 1e22 else 2)
             self.M[x[0], x[0]] = -R/L
             from_v = 1/L
             if (C < 1e22):
@@ -209,7 +209,8 @@ class Network:
                 self.M[x[1], x[0]] = 1/C
         else:
             # state: voltage of the capacitor
-            assert(len(x) >= 1 and R != 0)
+            assert(R != 0)
+            x = self._add_state_vars(1)
             self.M[x[0], x[0]] = -1/(R*C)
             from_v = 1/(R*C)
 
-- 
2.43.0


From 1cf08e76d4f4fa3c4bfd328ccc2bd83c937daa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 42/52] fix: convolve poles much slower than the time step

The closed forms cancel for them: poles under 1e5 rad/s were mostly noise, and a pole at zero (a series capacitor) gave NaN.
---
 python/src/dispersive.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 41bdfad..c20fc7a 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -88,8 +88,24 @@ class Dispersive():
         """ Computes the recursive convolution coefficients for time step dt """
         self.dt = dt
         p_dt = self.poles * dt
-        self.q1 = -(self.residues / self.poles) * (1 - (np.exp(p_dt) - 1) / p_dt)
-        self.q2 = (self.residues / self.poles) * (1 / p_dt + np.exp(p_dt) * (1 - 1 / p_dt))
+        self.q1 = np.zeros_like(p_dt)
+        self.q2 = np.zeros_like(p_dt)
+
+        # series for the poles much slower than the time step, where the closed forms cancel
+        slow = np.abs(p_dt) < 1e-2
+        term = np.ones_like(p_dt[slow])
+        for n in range(8):
+            term = term/(n + 2)
+            self.q1[slow] += term
+            self.q2[slow] += (n + 1)*term
+            term = term*p_dt[slow]
+        self.q1[slow] *= self.residues[slow]*dt
+        self.q2[slow] *= self.residues[slow]*dt
+
+        fast = np.logical_not(slow)
+        x, r_p = p_dt[fast], self.residues[fast]/self.poles[fast]
+        self.q1[fast] = -r_p * (1 - (np.exp(x) - 1) / x)
+        self.q2[fast] = r_p * (1 / x + np.exp(x) * (1 - 1 / x))
         self.q3 = np.exp(p_dt)
 
         self.q1sum.fill(0.0)
-- 
2.43.0


From 2ba51f29ffd45eacda8b21676b9fe16420d46659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 43/52] fix: reject probes of unknown type

---
 python/src/probes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/probes.py b/python/src/probes.py
index ef77eaa..9bb57be 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -4,6 +4,9 @@ from numpy.fft import fft, fftfreq, fftshift
 
 class Probe:
     def __init__(self, position: np.ndarray, type, dt, u):
+        if type not in ("voltage", "current"):
+            raise ValueError("undefined probe")
+
         self.type = type
 
         self.t   : npt.NDArray[np.float64] = np.array([])
-- 
2.43.0


From 4885f3204a25a9e1e65ab3edf58498dcfe2a97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 44/52] fix: reject voltage sources out of the line

---
 python/src/mtl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index cb052a8..c3c93f5 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -451,6 +451,9 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
 
+        if not point_in_polyline(position, self.u):
+            raise ValueError("Source position is out of MTL length.")
+
         distances = np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position))
         index = np.argmin(distances)
     
-- 
2.43.0


From b9009f9c7410f149e228f1ce6e49d29ab3a78988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 45/52] fix: reject couplings of missing levels, conductors or
 directions

---
 python/src/dispersive.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index c20fc7a..55b33da 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -173,6 +173,17 @@ class TransferImpedance(Dispersive):
     def __init__(self, number_of_conductors, nx, u, dt):
         super().__init__(number_of_conductors, nx, u, dt)
 
+    def check_coupling(self, levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance):
+        for level, conductors in ((out_level, out_level_conductors), (in_level, in_level_conductors)):
+            if level not in range(len(levels)):
+                raise ValueError(f"There is no level {level} in the bundle")
+            for conductor in conductors:
+                if conductor not in range(levels[level]):
+                    raise ValueError(f"There is no conductor {conductor} in level {level}")
+
+        if transfer_impedance["direction"] not in ("in", "out", "both"):
+            raise ValueError("direction must be 'in', 'out' or 'both'")
+
     def add_transfer_impedance(
         self, 
         levels,
@@ -181,6 +192,7 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        self.check_coupling(levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance)
         
         factor = 1
         if "factor" in transfer_impedance.keys():
@@ -235,6 +247,7 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        self.check_coupling(levels, out_level, out_level_conductors, in_level, in_level_conductors, transfer_impedance)
         index = index % self.nx
         
         factor = 1
-- 
2.43.0


From e6b91b91ddcf12c52e7a2a44eede1d21cdb5f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 46/52] fix: reject networks of foreign lines or of ends
 already taken

---
 python/src/mtln.py     | 9 ++++++++-
 python/src/networks.py | 9 +++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index d22bb59..cb2efde 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -30,8 +30,15 @@ class MTLN:
             self.dt = bundle.dt
         
     def add_network(self, nw):
-        self.networks.append(nw)
+        nw.check_nodes(self.bundles)
+        lines = [(node["line"], node["side"]) for n in nw.levels.values() for node in n.connections.values()]
+        for other in self.networks:
+            for node in [node for n in other.levels.values() for node in n.connections.values()]:
+                if any(line is node["line"] and side == node["side"] for line, side in lines):
+                    raise ValueError("An end of line " + node["line_name"] + " is in two networks")
+
         nw.update_index_numbers(self.bundles)
+        self.networks.append(nw)
 
     def add_networks(self, nw: list):
         for n in nw:
diff --git a/python/src/networks.py b/python/src/networks.py
index b72197a..20f0d94 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -345,6 +345,15 @@ class NetworkD:
     def __init__(self, levels : Dict[int, Network]):
         self.levels = levels
 
+    def check_nodes(self, bundles):
+        for level, nw in self.levels.items():
+            for node in nw.connections.values():
+                if node["bundle_name"] not in bundles.keys():
+                    raise ValueError("There is no bundle " + node["bundle_name"])
+                lines = bundles[node["bundle_name"]].levels.get(level, [])
+                if not any(line is node["line"] for line in lines):
+                    raise ValueError("Line " + node["line_name"] + " is not in level " + str(level) + " of bundle " + node["bundle_name"])
+
     def update_index_numbers(self, bundles):
         for level, nw in self.levels.items():
             for node in nw.connections.values():
-- 
2.43.0


From 0ad81d23edb5381df85e1cd0e4b0d30ae13607ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 47/52] fix: reject networks with part of the conductors of a
 line

---
 python/src/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/networks.py b/python/src/networks.py
index 20f0d94..3c71a5f 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -96,6 +96,9 @@ class Network:
         # described either by line or, if both ends of a line are in the network, by line end
         line = nw_conn[1]["line"] if "line" in nw_conn[1].keys() else nw_conn[0]
 
+        if (sorted([connection[1] for connection in nw_conn[1]["connections"]]) != list(range(line.number_of_conductors))):
+            raise ValueError("A network must hold once every conductor of line " + line.name)
+
         self.c = linalg.block_diag(self.c, line.c[side_idx])
         self.g = linalg.block_diag(self.g, line.g[side_idx])
         
-- 
2.43.0


From 7cd23f893d1577753f20fa457d18e1b2c1feda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 48/52] fix: check the distances of all bundles before adding a
 field

---
 python/src/mtl.py  | 5 ++++-
 python/src/mtln.py | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c3c93f5..ddf9b57 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -805,10 +805,13 @@ class MTLD:
         pw.e_z = e_0 * pw.ez
         self.add_external_field(pw, distances)
 
+    def check_distances(self, distances):
+        assert(distances.shape == (self.levels[0][0].number_of_conductors, self.u.shape[0], 3))
+
     # def add_external_field(self, field : Field, distances: np.array):
     def add_external_field(self, field : Field, distances: npt.NDArray[np.float64], field_localization: list[npt.NDArray[np.float64]] = []):
 
-        assert(distances.shape == (self.levels[0][0].number_of_conductors, self.u.shape[0], 3))
+        self.check_distances(distances)
         x, y, z, t, v = sp.symbols('x y z t v')
 
         indices = range(self.u.shape[0] - 1)
diff --git a/python/src/mtln.py b/python/src/mtln.py
index cb2efde..3099e2e 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -59,10 +59,14 @@ class MTLN:
                 p.update(self.time, bundle.v, bundle.i)
 
     def add_planewave(self, pw, distances):
+        for bundle in self.bundles.values():
+            bundle.check_distances(distances)
         for bundle in self.bundles.values():
             bundle.add_planewave(pw, distances)
 
     def add_external_field(self, field: mtl.Field, distances):
+        for bundle in self.bundles.values():
+            bundle.check_distances(distances)
         for bundle in self.bundles.values():
             bundle.add_external_field(field, distances)
 
-- 
2.43.0


From 067bbdd1501466f30c1219f83f875e9684c869a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 49/52] fix: reject segments without cells

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ddf9b57..da53289 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -141,6 +141,7 @@ class MTL():
 
 
         assert (node_positions.shape[0] == len(ndiv) + 1)
+        assert (np.min(ndiv) > 0)
         
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
-- 
2.43.0


From bdcc4470a90d9d7406103ea3ef178d3741181cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 50/52] fix: reject repeated and dangling references in model
 files

---
 python/src/jsonParser.py | 45 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 98e3d52..a5fb977 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -29,11 +29,46 @@ class Parser:
         self._lumped = self._getLumpedElements()
         
         
+        self._checkReferences()
         self._buildBundles()
         self._addSources()
         self._addProbes()
         self._buildNetworks()
 
+    def _checkUnique(self, kind, identifiers):
+        for identifier in identifiers:
+            if identifiers.count(identifier) != 1:
+                raise Exception(kind + " " + str(identifier) + " is defined more than once")
+
+    def _checkReferences(self):
+        """ Names what is repeated or missing in the file, when it would not be missed later """
+        self._checkUnique("Coordinate", [int(c.split()[0]) for c in self.parsed["model"]["coordinates"]])
+        self._checkUnique("Material", [m["materialId"] for m in self.parsed["model"]["materials"]])
+        self._checkUnique("Element", [int(e.split()[0]) for e in self._lines])
+        self._checkUnique("Element", [int(n.split()[0]) for n in self._nodes])
+        self._checkUnique("Cable", [c["name"] for c in self._cables])
+        self._checkUnique("Bundle", [b["name"] for b in self._bundles])
+        self._checkUnique("Probe", [p["name"] for p in self._probes])
+
+        for elemId in [elemId for cable in self._cables for elemId in cable["elemIds"]]:
+            if self._getListOfCoordinates(elemId) is None:
+                raise Exception("No element with elemId " + str(elemId))
+
+        for lumped in self._lumped:
+            self._getCableFromLineName(lumped["cable"])
+
+        for end in self._ends:
+            self._getElementOfNode(end["coordIds"][0])
+
+        connected = [c for t in self._terminations for coords in t["coordIds"] for c in coords] +\
+                    [c for j in self._junctions for pair in j["unitedCoordIds"] for c in pair]
+        for source in self._sources:
+            if source["sourceType"] == "TerminalSource":
+                if self._getNodeCoordId(source["elemIds"][0]) not in connected:
+                    raise Exception("Source at a coordinate without termination or junction")
+            elif source["sourceType"] != "DistributedSource":
+                raise Exception("Unknown type of source: " + source["sourceType"])
+
     def run(self, finalTime, dt=0):
         mtl_nw = mtln.MTLN()
         for b in self.bundles:
@@ -365,6 +400,8 @@ class Parser:
             conductor = 0
             if "conductor" in source.keys():
                 conductor = source["conductor"]
+            if conductor not in range(len(cable["elemIds"])):
+                raise Exception("No conductor " + str(conductor) + " in cable " + cable["name"])
             conductor += self._getFirstConductorInBundle(cable, bundle)
                 
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
@@ -375,6 +412,8 @@ class Parser:
                                                         conductor = conductor,
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
+            else:
+                raise Exception("Unknown type of source: " + source["type"])
     
     def _getFirstConductorInBundle(self, cable, bundle):
         first = 0
@@ -702,21 +741,21 @@ class Parser:
             if int(node.split()[0]) == elemId:
                 return int(node.split()[-1])
         
-        raise Exception("No node with elemId "+ elemId)
+        raise Exception("No node with elemId "+ str(elemId))
         
     def _getLineElemIdFromCoordId(self, coordId):
         for line in self._lines:
             if str(coordId) in line.split()[3:]:
                 return int(line.split()[0])
 
-        raise Exception("No line with coordId "+ coordId)
+        raise Exception("No line with coordId "+ str(coordId))
     
     def _getCableWithElemId(self, elemId):
         for cable in self._cables:
             if elemId in cable["elemIds"]:
                 return cable
         
-        raise Exception("No cable with elemId "+ elemId)
+        raise Exception("No cable with elemId "+ str(elemId))
     
     def _getBundleWithCable(self, cable):
         for bundle in self.bundles:
-- 
2.43.0


From 9386e0b95352e4a4b50c5cfc2c157fc463d64b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 51/52] fix: number network nodes anew for every manager that
 holds them

---
 python/src/networks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 3c71a5f..258ac7b 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -127,6 +127,7 @@ class Network:
         self.connections[connection[0]] = {
             "line" : line,
             "line_name" : line.name, 
+            "conductor" : connection[1],
             "line_index" : connection[1], 
             "side" : side_idx, 
             "index": index, 
@@ -366,7 +367,7 @@ class NetworkD:
                     if line is node["line"]:
                         break
                     conductors_above += line.number_of_conductors
-                node["line_index"] += conductors_above
+                node["line_index"] = conductors_above + node["conductor"]
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 64dbc1afc009beda359df96ff26b3d776b516165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 52/52] fix: keep the first row of a probe that was not
 prepared by a run as a row

---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 9bb57be..0fbb083 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -43,7 +43,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0

