From d23fc5f31f1ccaa9a0eec68d31ac30345072b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 01/35] fix: give every tensor network its own storage

The site tensors lived in a class-level dict shared by all networks, so a
copy(), a to() or a second Ipeps overwrote the tensors of the first.
---
 acetn/ipeps/tensor_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..d2e7891 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -20,6 +19,7 @@ class TensorNetwork:
             dtype (torch.dtype): The data type for the tensors (e.g., torch.float32).
             device (torch.device): The device on which the tensors will be allocated (e.g., 'cpu' or 'cuda').
         """
+        self._tensor_network = {}
         self.tn_config = config
         self.nx = config.nx
         self.ny = config.ny
-- 
2.43.0


From c21b976a111d3ca05faaadc6223a87b473d686e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 02/35] fix: give every Gate its own storage

The gates lived in a class-level dict shared by all Gate objects.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..7e0cc46 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +21,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From 8249555fee888542a78ccf6a27fae134f43a136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 03/35] fix: do not modify the model's two-site Hamiltonian
 while building gates

The one-site terms were added in place to the matrix the model returned, so
a model that caches its Hamiltonian accumulated them on every use.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 7e0cc46..918019e 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -103,7 +103,7 @@ class Gate:
                 if site_ham_1 is not None and site_ham_2 is not None:
                     site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
                     site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 29cf699baa11ded47775ccf383c18aff12d5f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 04/35] fix: keep the one-site term when only one site of a
 bond has one

A one-site Hamiltonian was dropped from the gates of every bond whose other
site has none.
---
 acetn/evolution/gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 918019e..ce2cf1d 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -100,10 +100,10 @@ class Gate:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From ef32ed3c06f051139739e446fd0720dded9b7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 05/35] fix: accept plain tensors as Hamiltonian terms when
 building gates

Model documents torch.Tensor Hamiltonians and measure() accepts them, but
evolve() failed on them because the gates required a PauliMatrix.
---
 acetn/evolution/gate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index ce2cf1d..c02a2f8 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -77,7 +77,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.to_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,17 +95,22 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.to_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2, pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
                 if site_ham_1 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(self.to_matrix(site_ham_1), id_mat)
                 if site_ham_2 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.to_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
+    @staticmethod
+    def to_matrix(ham):
+        """Returns the matrix of a Hamiltonian term given as a PauliMatrix or a tensor."""
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def calculate_gate(self, ham, dtau):
         """
         Calculates the gate from the Hamiltonian using the matrix exponential and time step.
-- 
2.43.0


From 8738cdffde06124cb49bf85f72820de0a042002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 06/35] fix: evolve from the network given to the Ipeps
 constructor

Ipeps(config, ipeps=other) copied the tensors, but the first evolve() then
replaced them with the model's initial product state.
---
 acetn/ipeps/ipeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..8220a44 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,8 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        # a supplied initial network must not be overwritten on evolve
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 5c857a1ffb36a250e035abbfe8e413f87dfc50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 07/35] fix: do not share dims and model params between
 networks

set_chi() and set_model_params() wrote into the dicts of the configuration the
user passed in, changing every other network built from it (and every copy).
---
 acetn/ipeps/ipeps.py          | 2 +-
 acetn/ipeps/ipeps_config.py   | 6 ++++++
 acetn/ipeps/tensor_network.py | 7 +++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 8220a44..1186614 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -78,7 +78,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = {} if params is None else dict(params)
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..4e42b4d 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -13,6 +13,9 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        self.dims = dict(self.dims)
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
@@ -44,6 +47,9 @@ class ModelConfig:
     name: str = None
     params: Dict[str, int] = None
 
+    def __post_init__(self):
+        self.params = {} if self.params is None else dict(self.params)
+
 @dataclass
 class IpepsConfig:
     """Configuration class for iPEPS setup."""
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index d2e7891..3171ed1 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -74,7 +75,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return self.to()
 
     def to(self, dtype=None, device=None):
         """
@@ -89,7 +90,9 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        config = copy.copy(self.tn_config)
+        config.dims = dict(self.dims)
+        return TensorNetwork(tensor_network=self, config=config, dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 12d30f86f9dfe24c5940503d08a777200155c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 08/35] fix: keep unnamed custom models of different networks
 apart

set_model() registered every unnamed model as "custom", so setting one on a
second Ipeps silently replaced the Hamiltonian of the first.
---
 acetn/ipeps/ipeps.py         |  2 +-
 acetn/model/model_factory.py | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 1186614..1217223 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -75,7 +75,7 @@ class Ipeps(TensorNetwork):
             params (dict): Parameters for the model.
             name (str, optional): Name for the custom model.
         """
-        name = "custom" if name is None else name.lower()
+        name = model_factory.custom_name(model_cls) if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
         self.config.model.params = {} if params is None else dict(params)
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index 1f6c703..7358a50 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -45,6 +45,24 @@ class ModelFactory:
             raise TypeError("Model class must inherit from Model base class")
         self._models[name] = cls
 
+    def custom_name(self, cls):
+        """
+        Returns the default name under which to register a custom model class.
+
+        The name is "custom", followed by a number if that name already refers to another class.
+
+        Args:
+            cls (type): The model class to be registered.
+
+        Returns:
+            str: A name that is unused or already refers to `cls`.
+        """
+        name, n = "custom", 1
+        while self._models.get(name, cls) is not cls:
+            n += 1
+            name = f"custom_{n}"
+        return name
+
     def create(self, config):
         """
         Creates an instance of a model based on the registered model name.
-- 
2.43.0


From 72873e449f2d43f0a74d9fdf0313ecf9e36b40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 09/35] fix: run distributed boundary moves on CPU

Gathered tensors were moved to the CUDA device numbered after the rank, which
fails for device="cpu" although CPU (gloo) runs are supported. all_gather
already leaves them on the device of the local tensors.
---
 acetn/renormalization/directional_mover.py | 16 ++++++++--------
 acetn/utils/distributed.py                 |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..aac272f 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -206,10 +206,10 @@ class DirectionalMover:
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+                proj1l[yi + y_shift//ws] = proj1_all[yi]
+                proj2l[yi + y_shift//ws] = proj2_all[yi]
+                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2]
+                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -251,10 +251,10 @@ class DirectionalMover:
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+                proj1u[xi + x_shift//ws] = proj1_all[xi]
+                proj2u[xi + x_shift//ws] = proj2_all[xi]
+                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2]
+                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..8665cfc 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -101,7 +101,7 @@ def all_gather_tensor(tensor, rank, ws):
     # gather tensors
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
         tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
         tensor_all.append(tensor_buf)
     dist.all_gather(tensor_all, tensor)
-- 
2.43.0


From deb175858736d87a28141450da8a323c3df4d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 10/35] fix: split distributed boundary moves for every number
 of ranks

The rows of a move were strided by one instead of by the number of rows
computed per gather, so more than two ranks left rows without projectors
(KeyError) or ranks without any row (UnboundLocalError, the others hanging).
---
 acetn/renormalization/directional_mover.py | 44 ++++++++++------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index aac272f..5dcf279 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,22 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
+        for y_shift in range(0, ipeps.ny, ws//2):
+            # a rank with no row of its own left repeats the last one, as all must join the gather
+            yi = min(y_shift + rank % (ws//2), ipeps.ny-1)
             if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi]
-                proj2l[yi + y_shift//ws] = proj2_all[yi]
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2]
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2]
+                proj1l[y_shift + yi] = proj1_all[yi]
+                proj2l[y_shift + yi] = proj2_all[yi]
+                proj1r[y_shift + yi] = proj1_all[yi + ws//2]
+                proj2r[y_shift + yi] = proj2_all[yi + ws//2]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +235,22 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
+        for x_shift in range(0, ipeps.nx, ws//2):
+            # a rank with no row of its own left repeats the last one, as all must join the gather
+            xi = min(x_shift + rank % (ws//2), ipeps.nx-1)
             if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi]
-                proj2u[xi + x_shift//ws] = proj2_all[xi]
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2]
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2]
+                proj1u[x_shift + xi] = proj1_all[xi]
+                proj2u[x_shift + xi] = proj2_all[xi]
+                proj1d[x_shift + xi] = proj1_all[xi + ws//2]
+                proj2d[x_shift + xi] = proj2_all[xi + ws//2]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
-- 
2.43.0


From 0507094d031f3cb5c236208f5233b5520f5845d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 11/35] fix: gather projectors of different sizes on the gloo
 backend

gloo requires all gathered tensors to have equal shapes, but the boundary
dimension kept by svd_cutoff differs between rows.
---
 acetn/utils/distributed.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8665cfc..57b8eff 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -1,5 +1,6 @@
 import torch
 import torch.distributed as dist
+import math
 import os
 import builtins
 from tqdm import tqdm
@@ -98,11 +99,11 @@ def all_gather_tensor(tensor, rank, ws):
     tensor_shape = torch.tensor(list(tensor.shape), dtype=int, device=tensor.device)
     tensor_all_shapes = [torch.empty(4, dtype=int, device=tensor.device) for _ in range(ws)]
     dist.all_gather(tensor_all_shapes, tensor_shape)
-    # gather tensors
-    tensor_all = []
-    for i in range(ws):
-        tensor_buf_shape = tensor_all_shapes[i].tolist()
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
-        tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    # gather tensors, padded to a common size because gloo requires equal sizes
+    shapes = [shape.tolist() for shape in tensor_all_shapes]
+    sizes = [math.prod(shape) for shape in shapes]
+    tensor_buf = torch.zeros(max(sizes), dtype=tensor.dtype, device=tensor.device)
+    tensor_buf[:tensor.numel()] = tensor.reshape(-1)
+    tensor_all = [torch.empty_like(tensor_buf) for _ in range(ws)]
+    dist.all_gather(tensor_all, tensor_buf)
+    return [buf[:size].view(shape) for buf,size,shape in zip(tensor_all, sizes, shapes)]
-- 
2.43.0


From 6de53fc225fc4f40fdea4dcbfbebd469f5f957c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 12/35] fix: keep the process group until the last Ipeps is
 deleted

Deleting one Ipeps destroyed the process group under the others; rebinding a
variable to a new Ipeps was enough. Deleting an Ipeps whose configuration was
rejected no longer raises in __del__ either.
---
 acetn/ipeps/ipeps.py       |  2 +-
 acetn/utils/distributed.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 1217223..0ef30d6 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -45,7 +45,7 @@ class Ipeps(TensorNetwork):
         """
         Finalize the distributed environment upon object deletion.
         """
-        if self.is_distributed:
+        if getattr(self, 'is_distributed', False):
             finalize_distributed()
 
     def setup_distributed(self):
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 57b8eff..fc6d873 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -6,6 +6,9 @@ import builtins
 from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
 
+# number of live objects using the process group
+_num_users = 0
+
 
 @record
 def setup_distributed(device):
@@ -15,6 +18,7 @@ def setup_distributed(device):
     Args:
         device (torch.device): The device to use (e.g. 'cpu' or 'cuda'). 
     """
+    global _num_users
     rank = 0
     world_size = 1
 
@@ -30,6 +34,7 @@ def setup_distributed(device):
             raise RuntimeError(
                 f"{world_size} devices requested but only {device_count} available")
         device = setup_process_group(rank, world_size, device)
+        _num_users += 1
 
     return rank, world_size, device, is_distributed
 
@@ -77,9 +82,12 @@ def setup_distributed_print(rank):
 
 def finalize_distributed():
     """
-    Finalizes the distributed environment and cleans up resources.
+    Finalizes the distributed environment and cleans up resources, once
+    nothing else uses it.
     """
-    if dist.is_initialized():
+    global _num_users
+    _num_users = max(_num_users - 1, 0)
+    if _num_users == 0 and dist.is_initialized():
         dist.destroy_process_group()
 
 
-- 
2.43.0


From b94d0905733f7ca73ecfb272dc14257aa2d01f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 13/35] fix: respect disable_progressbar in interactive SLURM
 jobs

---
 acetn/ipeps/ipeps_config.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 4e42b4d..317549e 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -76,15 +76,13 @@ class IpepsConfig:
 
     def disable_pbar_if_slurm(self):
         if 'SLURM_JOB_ID' in os.environ:
-            # enable if interactive job
+            # keep the configured setting in interactive jobs
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
             if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+                return
+            self.ctmrg.disable_progressbar = True
+            self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From 43561f1420057ff55d03955d053d3d8b7f426e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 14/35] fix: fall back to CPU for any CUDA device when CUDA is
 not available

Only device="cuda" fell back, device="cuda:0" failed later.
---
 acetn/ipeps/ipeps_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 317549e..1500c1f 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -99,7 +99,7 @@ class IpepsConfig:
         elif isinstance(device, torch.device):
             self.device = device
         # Use cpu if device=cuda is set in config but cuda is not available
-        if self.device == torch.device("cuda") and not torch.cuda.is_available():
+        if self.device.type == "cuda" and not torch.cuda.is_available():
             tqdm.write("Torch not compiled with CUDA enabled")
             tqdm.write("Using device='cpu'")
             self.device = torch.device("cpu")
-- 
2.43.0


From 27755a851a856f1878c0e80cbd176ccbfae8ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 15/35] fix: report CTM and update times under their own names

bond_update() returns (ctm_time, upd_time).
---
 acetn/evolution/evolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/evolve.py b/acetn/evolution/evolve.py
index 684f80f..7a3224f 100644
--- a/acetn/evolution/evolve.py
+++ b/acetn/evolution/evolve.py
@@ -39,8 +39,8 @@ def evolve(ipeps, dtau, steps, model, config):
     for i in tqdm(range(1,steps+1), desc=f"Updating tensors", disable=disable_pbar):
         for bond in ipeps.bond_list:
             runtimes = tensor_updater.bond_update(bond)
-            upd_time += runtimes[0]
-            ctm_time += runtimes[1]
+            ctm_time += runtimes[0]
+            upd_time += runtimes[1]
         ipeps.bond_list.reverse()
         if is_debug_mode and i % 10 == 0:
             iter_end = time.time()
-- 
2.43.0


From dfa534b0ee1f411a12844f6c8cb4bb5747bb6896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 16/35] fix: use the documented default J=1.0 of the Heisenberg
 model

---
 acetn/model/models/heisenberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From 5f31bc74ffe2e8bf960f8b375eef63103f884289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 17/35] fix: keep the sign of products of sums of Pauli
 matrices

In real arithmetic Y is stored without its factor i and a product of two
operators odd in Y flips sign. The parity was read off the concatenated key,
which for a sum counts the Ys of all its terms, so e.g. the sign of
(X*Y - Y*X)*(X*Y - Y*X) was lost.
---
 acetn/model/pauli_matrix.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..0b80089 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -16,7 +16,7 @@ class PauliMatrix:
         mat (torch.Tensor): The Pauli matrix or identity matrix represented as a tensor.
     """
     mat = None
-    def __init__(self, key, dtype, device, mat=None):
+    def __init__(self, key, dtype, device, mat=None, odd=None):
         """
         Initializes a Pauli matrix object.
 
@@ -29,8 +29,10 @@ class PauliMatrix:
             dtype (torch.dtype): The data type of the matrix (e.g., torch.float32).
             device (torch.device): The device on which the matrix should be placed (e.g., 'cpu' or 'cuda').
             mat (torch.Tensor, optional): A custom matrix to initialize the object. If None, a default Pauli matrix is created.
+            odd (bool, optional): Whether the terms contain an odd number of Y matrices. If None, it is determined from `key`.
         """
         self.key = key
+        self.odd = key.count('Y') % 2 != 0 if odd is None else odd
         self.dtype = dtype
         self.device = device
         if mat is not None:
@@ -66,10 +68,10 @@ class PauliMatrix:
             phase = 1.
             if not torch.is_complex(self.mat):
                 # flip sign for even product of real-valued pauli Y matrices
-                phase = -1. if (new_key.count('Y') % 2 == 0) and (self.key.count('Y') % 2 != 0) else 1.
-            return PauliMatrix(new_key, self.dtype, self.device, mat=phase*torch.kron(self.mat, other.mat))
+                phase = -1. if self.odd and other.odd else 1.
+            return PauliMatrix(new_key, self.dtype, self.device, mat=phase*torch.kron(self.mat, other.mat), odd=self.odd!=other.odd)
         else:
-            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, odd=self.odd)
 
     def __imul__(self, other):
         """
@@ -87,7 +89,7 @@ class PauliMatrix:
         if isinstance(other, (PauliMatrix)):
             return torch.kron(self.mat, other.mat)
         else:
-            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+            return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, odd=self.odd)
 
     def __rmul__(self, other):
         """
@@ -101,7 +103,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the scaled matrix.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, odd=self.odd)
 
     def __add__(self, other):
         """
@@ -116,7 +118,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat), odd=self.odd)
 
     def __sub__(self, other):
         """
@@ -131,7 +133,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat), odd=self.odd)
 
     def __neg__(self):
         """
@@ -142,7 +144,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the negated matrix.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=-self.mat)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=-self.mat, odd=self.odd)
 
     def __truediv__(self, scalar):
         """
@@ -156,7 +158,7 @@ class PauliMatrix:
         Returns:
             PauliMatrix: A new `PauliMatrix` object containing the result of the division.
         """
-        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar)
+        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar, odd=self.odd)
 
 
 def pauli_matrices(dtype, device):
-- 
2.43.0


From ff26db98050c3fa7421da60b6648bad748f3baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 18/35] fix: keep the sign of an in-place product of Pauli Y
 matrices

---
 acetn/model/pauli_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 0b80089..3aef722 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -87,7 +87,7 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self * other).mat
         else:
             return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat, odd=self.odd)
 
-- 
2.43.0


From 40de866c862ce7fd73626c4591feb9cd687227c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 19/35] fix: do not conjugate the full-system rsvd projector of
 complex states

proj1 is R1.T @ conj(U); the conjugate transpose only agrees for real dtypes.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 5f78a2b40bafd09600e0e18e11d21453188aab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 20/35] fix: start ALS from the truncated SVD for complex
 tensors

a12g = U S Vh, so the right factor is Vh.T, not its conjugate.
---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From 2f54f9c662ad8304cfbf8d52bc0608267000f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 21/35] fix: run the simple update with complex dtypes

clamp() is not defined for complex tensors, and the bond weights switched to a
real dtype after their first update.
---
 acetn/evolution/lambda_tensors.py | 2 +-
 acetn/evolution/simple_update.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..9996477 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,7 +42,7 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).clamp(min=self.CUTOFF) if d != exclude_dir
+            1.0 / self.get(site, d).real.clamp(min=self.CUTOFF).to(a.dtype) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..51036f0 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -50,7 +50,7 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
-        lambda_tensor = sqrt(S / S.norm())
+        lambda_tensor = sqrt(S / S.norm()).to(U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
         Vh = Vh[:bD, :].reshape(bD, nD, pD)
-- 
2.43.0


From d16f06f3b0a26e5deefce2563f7a75182007c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 22/35] fix: leave the network unchanged when saving it

save() read the file back into the network, which marked a fresh network as
initialized, so a later evolve() skipped the model's initial state. The reload
only restored tensors that were overwritten while they were shared.
---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 3171ed1..dadedc5 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -109,7 +109,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 8262197b3de8cddbd2a915dcbeefaf88bcfccca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 23/35] fix: start all ranks from the same initial site tensors

The initial noise was drawn on each rank separately. The random generators of
the ranks differ as soon as they have computed different projectors, so a later
Ipeps started from a different state on each rank.
---
 acetn/ipeps/ipeps.py       | 14 ++++++++++++++
 acetn/utils/distributed.py |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 0ef30d6..0357d48 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -56,6 +56,20 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the site tensors, with the random noise of rank 0 on every rank.
+
+        Args:
+            site_state_map (callable): Maps a site to its initial state.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                self[site]['A'] = broadcast_tensor(self[site]['A'])
+                self[site].initialize_corner_tensors()
+                self[site].initialize_edge_tensors()
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index fc6d873..87b26c3 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -91,6 +91,15 @@ def finalize_distributed():
         dist.destroy_process_group()
 
 
+def broadcast_tensor(tensor):
+    """
+    Returns the tensor held by rank 0 on every rank.
+    """
+    tensor = tensor.contiguous()
+    dist.broadcast(tensor, src=0)
+    return tensor
+
+
 def all_gather_tensor(tensor, rank, ws):
     """
     Gathers tensors from all workers in a distributed setting.
-- 
2.43.0


From 77568dc0a0e2abe07fecac41b74c44d163812eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/35] fix: apply complex operators and gates rather than
 their transposes

Expectation values and gates contracted the site tensors with the transposed
matrix. For complex states this measured the conjugate state, e.g. <Y> of an
initial state (1, i)/sqrt(2) came out as -1. Real Hamiltonians are symmetric and
unaffected.
---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..f0c9fc3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 51036f0..9ab8b9c 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From d01608ee352980efafa1d14cafc3eaebad1876b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 25/35] fix: do not amplify roundoff of zero bond weights in
 the simple update

---
 acetn/evolution/lambda_tensors.py | 8 +++++++-
 acetn/evolution/simple_update.py  | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index 9996477..b31aaef 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -39,10 +39,16 @@ class LambdaTensors:
         ]
         return einsum("l,u,r,d,lurdp->lurdp", *weights, a)
 
+    def inverse(self, site, direction):
+        """Get the inverse lambda vector, with zeros for vanishing weights."""
+        weights = self.get(site, direction)
+        keep = weights.real > self.CUTOFF
+        return torch.where(keep, 1.0 / weights.real.clamp(min=self.CUTOFF), 0.0).to(weights.dtype)
+
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).real.clamp(min=self.CUTOFF).to(a.dtype) if d != exclude_dir
+            self.inverse(site, d) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 9ab8b9c..f8f3037 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -1,5 +1,5 @@
 import time
-from torch import einsum, sqrt
+from torch import einsum, sqrt, finfo
 from torch.linalg import svd
 from ..evolution.tensor_update import TensorUpdater
 from ..evolution.lambda_tensors import LambdaTensors
@@ -50,6 +50,8 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
+        # stripping the lambda of numerically zero weights would amplify roundoff
+        S = S * (S > 100 * finfo(S.dtype).eps * S[0])
         lambda_tensor = sqrt(S / S.norm()).to(U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
-- 
2.43.0


From 3c22ae4d3bae7372379450ba7a9b5c8ba399e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 26/35] fix: avoid nan in randomized decompositions of low-rank
 complex matrices

---
 acetn/linalg/fused_3matmul_svd_lowrank.py |  7 ++++---
 acetn/linalg/fused_matmul_svd_lowrank.py  |  5 +++--
 acetn/linalg/orthonormalize.py            | 22 ++++++++++++++++++++++
 acetn/linalg/svd_lowrank.py               |  5 +++--
 4 files changed, 32 insertions(+), 7 deletions(-)
 create mode 100644 acetn/linalg/orthonormalize.py

diff --git a/acetn/linalg/fused_3matmul_svd_lowrank.py b/acetn/linalg/fused_3matmul_svd_lowrank.py
index 2c9b487..ea60274 100644
--- a/acetn/linalg/fused_3matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_3matmul_svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
@@ -37,14 +38,14 @@ def fused_3matmul_svd_lowrank(A, B, C, D, q=6, niter=2):
     Y = A @ (B @ (C @ (D @ Omega)))
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # (A @ B @ C @ D)^H @ Y = D^H @ (C^H @ (B^H @ (A^H @ Y)))
         Y = D.mH @ (C.mH @ (B.mH @ (A.mH @ Y)))
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # A @ B @ C @ D @ Y
         Y = A @ (B @ (C @ (D @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
 
     # B_proj = Q^H @ A @ B @ C @ D = ((Q^H @ A) @ B @ C) @ D
     B_proj = (((Q.mH @ A) @ B) @ C) @ D
diff --git a/acetn/linalg/fused_matmul_svd_lowrank.py b/acetn/linalg/fused_matmul_svd_lowrank.py
index e0dfe0f..fc952f3 100644
--- a/acetn/linalg/fused_matmul_svd_lowrank.py
+++ b/acetn/linalg/fused_matmul_svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
@@ -35,12 +36,12 @@ def fused_matmul_svd_lowrank(A, B, q=6, niter=2):
     Y = A @ (B @ Omega)
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         # (A @ B)^H @ Y = B^H @ (A^H @ Y)
         # (A @ B) @ ((A @ B)^H @ Y) = A @ (B @ (B^H @ (A^H @ Y)))
         Y = A @ (B @ (B.mH @ (A.mH @ Y)))
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
 
     # B_proj = Q^H @ (A @ B) = (Q^H @ A) @ B
     B = (Q.mH @ A) @ B
diff --git a/acetn/linalg/orthonormalize.py b/acetn/linalg/orthonormalize.py
new file mode 100644
index 0000000..c3fb85a
--- /dev/null
+++ b/acetn/linalg/orthonormalize.py
@@ -0,0 +1,22 @@
+import torch
+
+
+def orthonormalize(Y):
+    """
+    Compute an orthonormal basis containing the range of a matrix.
+
+    The columns are scaled to comparable size first: the QR decomposition of
+    complex matrices can give nan for columns close to the smallest
+    representable numbers, as they appear for matrices of lower rank.
+
+    Args:
+        Y (Tensor): Matrix of shape (m, q).
+
+    Returns:
+        Tensor: Matrix of shape (m, min(m, q)) with orthonormal columns.
+    """
+    scale = Y.abs().amax(dim=0, keepdim=True)
+    tiny = torch.finfo(Y.dtype).tiny
+    Y = torch.where(scale > tiny, Y / scale.clamp(min=tiny), 0)
+    Q, _ = torch.linalg.qr(Y)
+    return Q
diff --git a/acetn/linalg/svd_lowrank.py b/acetn/linalg/svd_lowrank.py
index f2c48a1..a4f102d 100644
--- a/acetn/linalg/svd_lowrank.py
+++ b/acetn/linalg/svd_lowrank.py
@@ -1,4 +1,5 @@
 import torch
+from .orthonormalize import orthonormalize
 
 
 def svd_lowrank(A, q=6, niter=2):
@@ -33,10 +34,10 @@ def svd_lowrank(A, q=6, niter=2):
     Y = A @ Omega
 
     for _ in range(niter):
-        Y, _ = torch.linalg.qr(Y)
+        Y = orthonormalize(Y)
         Y = A @ (A.mH @ Y)
 
-    Q, _ = torch.linalg.qr(Y)
+    Q = orthonormalize(Y)
     B = Q.mH @ A
     U_B, S, Vh = torch.linalg.svd(B, full_matrices=False)
     U = Q @ U_B
-- 
2.43.0


From c98eb2987275b9246f0a670aa32e5d3709c91a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 27/35] fix: use the documented defaults for omitted TN dims

Giving some of the dims, e.g. only the bond dimension, dropped the defaults of
the others, and a misspelled one was ignored.
---
 acetn/ipeps/ipeps_config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 1500c1f..25f4fce 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -14,7 +14,12 @@ class TNConfig:
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
     def __post_init__(self):
-        self.dims = dict(self.dims)
+        defaults = {'phys': 2, 'bond': 2, 'chi': 20}
+        unknown = set(self.dims) - set(defaults)
+        if unknown:
+            raise ValueError(f"Unknown dims: {sorted(unknown)} provided.")
+        # fill in the dims that were omitted
+        self.dims = {**defaults, **self.dims}
 
 @dataclass
 class CTMRGConfig:
-- 
2.43.0


From 8941b9da1b5a922d884a506fbb613ee3b3d286c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 28/35] fix: cut off the pseudo-inverse of the ALS solver at
 roundoff

The default als_epsilon of 1e-12 is below single precision, so that
eigenvalues that are pure roundoff were inverted and the result could be
much worse than the starting point.
---
 acetn/evolution/als_solver.py | 4 +++-
 csrc/evolution/als_solve.cpp  | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index 200b1ab..cd3e999 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -225,7 +225,9 @@ class ALSSolver:
                 except:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
-                R_inv = pinv(R, hermitian=True, rcond=self.epsilon)
+                # eigenvalues at the level of roundoff carry no information
+                rcond = max(self.epsilon, R.shape[0]*torch.finfo(R.dtype).eps)
+                R_inv = pinv(R, hermitian=True, rcond=rcond)
                 ar = R_inv @ S
         return ar.reshape(nD, bD, pD)
 
diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index d6259e2..9644522 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -1,7 +1,9 @@
 #include <torch/extension.h>
 #include "als_tensors.h"
 #include "linalg/cholesky_solve.h"
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <tuple>
 
@@ -45,7 +47,9 @@ Tensor solve_ar(Tensor R, Tensor S, SolverMethod method, scalar_t epsilon) {
             return cusolver_ext::cholesky_solve(R, S).reshape({nD, bD, pD});
         }
         case SolverMethod::Pinv: {
-            auto R_inv = torch::linalg_pinv(R, epsilon, true);
+            // eigenvalues at the level of roundoff carry no information
+            double rcond = std::max<double>(epsilon, R.size(0) * std::numeric_limits<scalar_t>::epsilon());
+            auto R_inv = torch::linalg_pinv(R, rcond, true);
             return (R_inv.matmul(S)).reshape({nD, bD, pD});
         }
     }
-- 
2.43.0


From af74a2c18bee65fa79a5f595325c0c4c4c7c7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 29/35] fix: let the positive approximation terminate in single
 precision

Shifts below the roundoff of the norm tensor left it unchanged, so that
the loop did not end for (nearly) rank-deficient norm tensors. Cutoffs
below roundoff kept eigenvalues that are pure noise.
---
 acetn/evolution/full_update.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index f0c9fc3..2c09076 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -285,14 +285,12 @@ def positive_approx(n12, cutoff=1e-12):
         nz,nw,_ = svd(N)
         nw = torch.flip(nw, dims=[-1])
         nz = torch.flip(nz, dims=[-1])
+    # eigenvalues below roundoff are not meaningful
+    cutoff = max(cutoff, torch.finfo(nw.dtype).eps*nw[-1])
+    # adding a multiple of the identity shifts the eigenvalues; shifting them directly
+    # takes effect also when the shift is below the roundoff of the norm tensor
     while nw[0] < cutoff:
-        N += 2*max(cutoff, abs(nw[0]))*torch.eye(nD**2, dtype=N.dtype, device=N.device)
-        try:
-            nw,nz = eigh(N)
-        except torch._C._LinAlgError:
-            nz,nw,_ = svd(N)
-            nw = torch.flip(nw, dims=[-1])
-            nz = torch.flip(nz, dims=[-1])
+        nw = nw + 2*max(cutoff, abs(nw[0]))
     nz = nz.reshape(nD, nD, nD**2)*torch.sqrt(nw)
     return nz
 
-- 
2.43.0


From 30dda6fc68ad6c036c7fdf8937820123da00b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 30/35] fix: regularize the ALS solver at roundoff in single
 precision

The default als_epsilon of 1e-12 has no effect there: rank-deficient
systems raised an error or gave results worse than the starting point.
---
 acetn/evolution/als_solver.py | 8 ++++----
 csrc/evolution/als_solve.cpp  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index cd3e999..b7cb752 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -215,19 +215,19 @@ class ALSSolver:
         S = S.reshape(nD * bD, pD)
         R = R.reshape(nD * bD, nD * bD)
         R = 0.5 * (R + R.mH)
+        # eigenvalues at the level of roundoff carry no information
+        epsilon = max(self.epsilon, R.shape[0]*torch.finfo(R.dtype).eps)
         match self.method:
             case "cholesky":
                 try:
-                    R += self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)
+                    R += epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)
                     L = cholesky(R)
                     Y = solve_triangular(L, S, upper=False)
                     ar = solve_triangular(L.mH, Y, upper=True)
                 except:
                     ar = torch.linalg.solve(R, S)
             case "pinv":
-                # eigenvalues at the level of roundoff carry no information
-                rcond = max(self.epsilon, R.shape[0]*torch.finfo(R.dtype).eps)
-                R_inv = pinv(R, hermitian=True, rcond=rcond)
+                R_inv = pinv(R, hermitian=True, rcond=epsilon)
                 ar = R_inv @ S
         return ar.reshape(nD, bD, pD)
 
diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index 9644522..fc03190 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -41,15 +41,15 @@ Tensor solve_ar(Tensor R, Tensor S, SolverMethod method, scalar_t epsilon) {
     S = S.reshape({nD * bD, pD});
     R = R.reshape({nD * bD, nD * bD});
     R = 0.5 * (R + R.mH());
+    // eigenvalues at the level of roundoff carry no information
+    epsilon = std::max<scalar_t>(epsilon, R.size(0) * std::numeric_limits<scalar_t>::epsilon());
     switch (method) {
         case SolverMethod::Cholesky: {
             R = regularize_tensor<scalar_t>(R, epsilon);
             return cusolver_ext::cholesky_solve(R, S).reshape({nD, bD, pD});
         }
         case SolverMethod::Pinv: {
-            // eigenvalues at the level of roundoff carry no information
-            double rcond = std::max<double>(epsilon, R.size(0) * std::numeric_limits<scalar_t>::epsilon());
-            auto R_inv = torch::linalg_pinv(R, rcond, true);
+            auto R_inv = torch::linalg_pinv(R, epsilon, true);
             return (R_inv.matmul(S)).reshape({nD, bD, pD});
         }
     }
-- 
2.43.0


From d1af7b8fe03134788513d26ae627503c7746c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 31/35] fix: fall back to LU in the compiled solver when
 Cholesky fails

Like the Python solver; the factor was used although the factorization
had failed.
---
 csrc/linalg/cholesky_solve.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index 8f2e78f..1c1e75d 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -104,6 +104,10 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     auto info_ptr = devInfo.data_ptr<int>();
 
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
+    if (devInfo.item<int>() != 0) {
+        // not positive definite
+        return at::linalg_solve(A, B).contiguous();
+    }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
     return B_.contiguous();
-- 
2.43.0


From e7c9943a33c0934c718fed9967bbc18b9558e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 32/35] fix: resolve lazy conjugation of the compiled solver's
 arguments

Their memory is read directly.
---
 csrc/evolution/als_solve.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index fc03190..6ff536a 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -119,12 +119,12 @@ std::tuple<Tensor, Tensor> als_solve(
     const std::string& method,
     double epsilon) {
 
-    // Ensure contiguous memory layout for cuTENSOR
-    a1r = a1r.contiguous();
-    a2r = a2r.contiguous();
-    n12g = n12g.contiguous();
-    n12 = n12.contiguous();
-    a12g = a12g.contiguous();
+    // Ensure contiguous memory layout for cuTENSOR, without lazy conjugation
+    a1r = a1r.resolve_conj().contiguous();
+    a2r = a2r.resolve_conj().contiguous();
+    n12g = n12g.resolve_conj().contiguous();
+    n12 = n12.resolve_conj().contiguous();
+    a12g = a12g.resolve_conj().contiguous();
 
     SolverMethod solver_method = parse_solver_method(method);
     auto real_dtype = a1r.is_complex() ? c10::toRealValueType(a1r.scalar_type()) : a1r.scalar_type();
-- 
2.43.0


From 4e70345242a2fbdd1cb0ee2841182869dc1d3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 33/35] fix: make the full update independent of the sign of
 the boundary

---
 acetn/evolution/full_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 2c09076..8c82483 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -113,6 +113,9 @@ class FullUpdater(TensorUpdater):
         n12, a12g : Tensor
             The updated tensors.
         """
+        # the boundary tensors determine the norm tensor only up to its sign
+        if einsum("yxyx->", n12).real < 0:
+            n12 = -n12
         nz = positive_approx(n12, cutoff=self.positive_approx_cutoff)
         if self.use_gauge_fix:
             n12, a12g, self.nzxr_inv, self.nzyr_inv = gauge_fix(nz, a12g, atol=self.gauge_fix_atol)
-- 
2.43.0


From e2547adcf4042d73394d90111d38d346d13b65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 34/35] fix: orthonormalize graded complex matrices, for which
 QR gives nan

---
 acetn/linalg/orthonormalize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acetn/linalg/orthonormalize.py b/acetn/linalg/orthonormalize.py
index c3fb85a..0840fd8 100644
--- a/acetn/linalg/orthonormalize.py
+++ b/acetn/linalg/orthonormalize.py
@@ -7,7 +7,8 @@ def orthonormalize(Y):
 
     The columns are scaled to comparable size first: the QR decomposition of
     complex matrices can give nan for columns close to the smallest
-    representable numbers, as they appear for matrices of lower rank.
+    representable numbers, as they appear for matrices of lower rank. When it
+    still does, the left singular vectors are used instead.
 
     Args:
         Y (Tensor): Matrix of shape (m, q).
@@ -19,4 +20,6 @@ def orthonormalize(Y):
     tiny = torch.finfo(Y.dtype).tiny
     Y = torch.where(scale > tiny, Y / scale.clamp(min=tiny), 0)
     Q, _ = torch.linalg.qr(Y)
+    if not torch.isfinite(Q).all():
+        Q, _, _ = torch.linalg.svd(Y, full_matrices=False)
     return Q
-- 
2.43.0


From 295f2073118917df268c565b0760ec8f6a08c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 35/35] fix: use the SVD when the eigensolver returns nan for
 the norm tensor

---
 acetn/evolution/full_update.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8c82483..62ebe2e 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -1,6 +1,6 @@
 import torch
 from math import ceil
-from torch import einsum, conj
+from torch import einsum, conj, isfinite
 from torch.linalg import qr,eigh,svd,pinv
 from ..evolution.tensor_update import TensorUpdater
 from ..evolution.als_solver import ALSSolver
@@ -284,7 +284,10 @@ def positive_approx(n12, cutoff=1e-12):
     N = n12.reshape(nD**2, nD**2)
     try:
         nw,nz = eigh(N)
+        converged = bool(isfinite(nw).all() and isfinite(nz).all())
     except torch._C._LinAlgError:
+        converged = False
+    if not converged:
         nz,nw,_ = svd(N)
         nw = torch.flip(nw, dims=[-1])
         nz = torch.flip(nz, dims=[-1])
-- 
2.43.0

