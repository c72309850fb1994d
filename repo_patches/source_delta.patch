From 69f3a7177a3ebbf9f9f710bed173dc0fcea8a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 01/24] fix: raise DeviceSpecError, not TypeError, for an
 invalid DEV_TYPE

---
 gym_anm/simulator/components/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..4208c41 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -85,7 +85,7 @@ class Device(object):
         self.type = dev_spec[DEV_H["DEV_TYPE"]]
         allowed = [-1, 0, 1, 2, 3]
         if self.type is None or self.type not in allowed:
-            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % allowed)
+            raise DeviceSpecError("The DEV_TYPE value for device %d should be in %s." % (self.dev_id, allowed))
 
         if self.type == 0:
             self.is_slack = True
-- 
2.43.0


From a1f5321b87ea0fcce77dcf1c2f60d93b464fca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 02/24] fix: convert PMAX of loads to per-unit

---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 4208c41..11aceaf 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From f66c9725127d88e7b5fa320db22a6dc62e9373eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 03/24] fix: reactive power range of loads with a zero or
 negative Q/P ratio

---
 gym_anm/simulator/components/devices.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 11aceaf..9955f61 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,13 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # The ratio Q/P may be 0 (no reactive power, even if P is unbounded) or
+        # negative (in which case Q is largest when P is smallest).
+        if self.qp_ratio == 0:
+            self.q_min, self.q_max = 0.0, 0.0
+        else:
+            q = (self.p_min * self.qp_ratio, self.p_max * self.qp_ratio)
+            self.q_min, self.q_max = min(q), max(q)
 
     def map_pq(self, p):
         """
-- 
2.43.0


From 485da09a45c487efe8bca5e1c21890f177fc21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 04/24] fix: upper bound in MW of gen_p_max is PMAX, not QMAX

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From 5feaf7e2eaf5d41673c03ad9b6f91b0251b1cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 05/24] fix: default unit of branch_i_magn

---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From c6214b7af4522e94bcd059c3390f037d985d2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 06/24] fix: branch current magnitude with numpy 2 (np.sign of
 a complex number changed)

---
 gym_anm/simulator/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..10f7858 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -610,7 +610,9 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from.real or branch.i_from.imag) * np.abs(
+                branch.i_from
+            )
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From 4ffb7764979272dbc90e56d1fb2a44173a1a7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 07/24] fix: default observation space of callable observations
 holds float64 observations

---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..dd5338e 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From 56f020a3cd792bddf82859242739120644e5ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 08/24] fix: raise EnvInitializationError when no initial state
 converges in 100 attempts

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index dd5338e..016ea2b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if not init_state_found and n_init_states == n_init_states_max:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From af7e39e8c46bfbcbd6ab4d11ac2229ffaf79f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 09/24] fix: reject storage units with zero efficiency
 (division by zero in map_pq)

---
 gym_anm/simulator/components/devices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 9955f61..6b3eec9 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -33,7 +33,7 @@ class Device(object):
         The minimum and maximum state of charge if the device is a storage
         unit :math:`[\\underline {SoC}_d, \\overline {SoC}_d]` (p.u. per hour); None otherwise.
     eff : float
-        The round-trip efficiency :math:`\\eta \\in [0, 1]` if the device is a storage unit;
+        The round-trip efficiency :math:`\\eta \\in (0, 1]` if the device is a storage unit;
         None otherwise.
     tau_1, tau_2, tau_3, tau_4 : float
         The slope of the constraints on Q when P is near its maximum (:math:`\\tau^{(1)}_d,
@@ -471,8 +471,8 @@ class StorageUnit(Device):
         if self.eff is None:
             logger.warning("Setting (dis)charging efficiency of device %d " "(storage unit) to 1." % self.dev_id)
             self.eff = 1.0
-        elif self.eff < 0.0 or self.eff > 1.0:
-            raise StorageSpecError("Device %d is a storage unit and has EFF " "outside of [0, 1]." % self.dev_id)
+        elif self.eff <= 0.0 or self.eff > 1.0:
+            raise StorageSpecError("Device %d is a storage unit and has EFF " "outside of (0, 1]." % self.dev_id)
 
         return
 
-- 
2.43.0


From 4556b0899761d89dbc8fb620d9cc2cd6bbb1b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 10/24] fix: keep the initial state of charge of storage units
 within their limits

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 10f7858..b7f6c4c 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -284,7 +284,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From 14bdab264640b1dce4d16fb69cfad74261a8e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 11/24] fix: fix the voltage angle of the slack bus (not of
 another bus) in the MPC policies

---
 gym_anm/agents/mpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..7dd0562 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -299,7 +299,8 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
         # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        slack_bus_id = self.dev_to_bus[self.slack_dev_id]
+        constraints.append(V_bus_ang[self.bus_id_mapping[slack_bus_id]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
-- 
2.43.0


From fdb0e46a9b9fa34ab23f32fc5415bb8c76ca321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 12/24] fix: susceptances used by the MPC policies when bus IDs
 are not contiguous

---
 gym_anm/agents/mpc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 7dd0562..ddb256c 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -107,8 +107,7 @@ class MPCAgent(object):
         self.init_soc = cp.Parameter(self.n_des, nonneg=True)
 
         # Define constants.
-        bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
-        self.B_bus = simulator.Y_bus.imag[bus_ids, :][:, bus_ids].toarray()
+        self.B_bus = simulator.Y_bus.imag[self.bus_ids, :][:, self.bus_ids].toarray()
         self.branch_rate = [br.rate for br in simulator.branches.values()]
         self.P_gen_min = [g.p_min for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
         self.P_gen_max = [g.p_max for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
-- 
2.43.0


From ebc9fe196dafdaa8db51076fce65cddb2931f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 13/24] fix: reward of a terminal state when gamma = 1
 (division by zero)

---
 gym_anm/envs/anm_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 016ea2b..5b41935 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -429,7 +429,7 @@ class ANMEnv(gym.Env):
             r = -(self.e_loss + self.penalty)
         else:
             # Very large reward if a terminal state has been reached.
-            r = -self.costs_clipping[1] / (1 - self.gamma)
+            r = -self.costs_clipping[1] / (1 - self.gamma) if self.gamma < 1 else -np.inf
             self.e_loss = self.costs_clipping[0]
             self.penalty = self.costs_clipping[1]
 
-- 
2.43.0


From 09f3065c5a8bdb4a69acbe421647e8b75a427efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 14/24] fix: do not modify previous state (and observation)
 vectors in step()

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 5b41935..acd2b37 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -435,6 +435,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = np.array(self.state)  # do not alter the previous state vector
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From b0f69da330b9a0cd0fbd76f7c5d92f3c04a840f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 15/24] fix: slack bus without VMIN (cost computation and
 rendering fail on None)

---
 gym_anm/simulator/components/bus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..56b41ba 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -49,6 +49,8 @@ class Bus(object):
         if self.type == 0:
             self.is_slack = True
             self._v_slack = self.v_max
+            if self.v_min is None:
+                self.v_min = self.v_max
         else:
             self.is_slack = False
 
-- 
2.43.0


From a84193cbf3e17137795ad3385a13375c0891f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 16/24] fix: load flow with the slack bus not listed first or
 with non-contiguous bus IDs

---
 gym_anm/simulator/solve_load_flow.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..b5c25da 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -27,23 +27,23 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
         otherwise.
     """
 
+    # Order the buses with the slack bus first. Bus IDs may skip some numbers
+    # and the slack bus may have any ID.
+    bus_ids = sorted(simulator.buses.keys(), key=lambda i: not simulator.buses[i].is_slack)
+    Y_bus = simulator.Y_bus[bus_ids, :][:, bus_ids]
+
     # Collect P and Q nodal power injections (except slack bus).
     p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    for i in bus_ids[1:]:
+        p.append(simulator.buses[i].p)
+        q.append(simulator.buses[i].q)
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
@@ -52,10 +52,11 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     V = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
-    I = np.dot(simulator.Y_bus.toarray(), V)
+    I = np.dot(Y_bus.toarray(), V)
 
     # Update simulator.
-    for i, bus in enumerate(simulator.buses.values()):
+    for i, bus_id in enumerate(bus_ids):
+        bus = simulator.buses[bus_id]
         bus.v = V[i]
         bus.i = I[i]
 
-- 
2.43.0


From dbf9278b559f2c45e1b894dbb3fc625691e45b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 17/24] fix: use the fixed voltage of the slack bus (VMAX) in
 the load flow instead of 1

---
 gym_anm/simulator/solve_load_flow.py | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index b5c25da..1b6ea9c 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -43,13 +43,16 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
+    v_slack = simulator.buses[bus_ids[0]].v_slack
+    v, n_iter, diff, converged = _newton_raphson_sparse(
+        v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol, v_slack=v_slack
+    )
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector.
-    V = _construct_v_from_guess(v)
+    V = _construct_v_from_guess(v, v_slack)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(Y_bus.toarray(), V)
@@ -82,7 +85,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return V, stable
 
 
-def _f(guess, p, q, Y):
+def _f(guess, p, q, Y, v_slack=1.0):
     """
     The function f(x) = 0 to be solved.
 
@@ -101,6 +104,8 @@ def _f(guess, p, q, Y):
         the slack bus.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -109,8 +114,8 @@ def _f(guess, p, q, Y):
         F[N-1,...,2(N-1)] the imaginary part of f(x).
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, fixing the slack bus voltage.
+    v = _construct_v_from_guess(guess, v_slack)
 
     # Compute the difference between V (YV)^* and the real power injections S.
     s = p + 1j * q
@@ -121,7 +126,7 @@ def _f(guess, p, q, Y):
     return F
 
 
-def _dfdx(guess, Y):
+def _dfdx(guess, Y, v_slack=1.0):
     """
     Compute the Jacobian matrix.
 
@@ -134,6 +139,8 @@ def _dfdx(guess, Y):
         excluded.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -141,8 +148,8 @@ def _dfdx(guess, Y):
         The Jacobian matrix as a sparse matrix.
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, fixing the slack bus voltage.
+    v = _construct_v_from_guess(guess, v_slack)
 
     index = np.array(range(len(v)))
 
@@ -165,16 +172,16 @@ def _dfdx(guess, Y):
     return J
 
 
-def _construct_v_from_guess(guess):
+def _construct_v_from_guess(guess, v_slack=1.0):
     assert len(guess) % 2 == 0
     n = int(len(guess) / 2)
     v_nonslack = guess[n:] * np.exp(1j * guess[:n])
-    v = np.concatenate((np.array([1 + 0j]), v_nonslack))
+    v = np.concatenate((np.array([v_slack + 0j]), v_nonslack))
 
     return v
 
 
-def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
+def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100, v_slack=1.0):
     """
     Solve f(x) = 0 with initial v_guess for x and dfdx(x).
 
@@ -200,6 +207,8 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
         The tolerance to achieve in the solution.
     lim_iter : int
         The maximum number of iterations.
+    v_slack : float, optional
+        The fixed voltage magnitude of the slack bus.
 
     Returns:
     v_guess : numpy.ndarray
@@ -213,13 +222,13 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
     """
 
     n_iter = 0
-    F = _f(v_guess, p, q, Y)
+    F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y), F)
-        F = _f(v_guess, p, q, Y)
+        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
     converged = False if np.isnan(diff) else True
-- 
2.43.0


From 1c41e0a5af531a981cbbfbc3156ffb557c447eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 18/24] fix: default costs range in the rendering (unspecified
 costs_clipping is stored as inf)

---
 gym_anm/envs/anm6_env/anm6.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..424b09b 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -178,8 +178,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
-- 
2.43.0


From 960540e2a17bd9c2f4b0bf9f55c1385fe37a1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 19/24] fix: well-formed JSON rendering messages when the
 network has collapsed

---
 .../envs/anm6_env/rendering/py/rendering.py   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 7c45bed..fe04982 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -1,5 +1,6 @@
 import webbrowser
 import json
+import math
 import os
 import requests
 from websocket import create_connection
@@ -147,13 +148,13 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
             "messageLabel": "update",
             "time": time_array,
             "yearCount": year_count,
-            "pInjections": p,
-            "qInjections": q,
-            "sFlows": s,
-            "socStorage": soc,
-            "pPotential": p_potential,
-            "vMagn": bus_v_magn,
-            "reward": costs,
+            "pInjections": _finite_or_null(p),
+            "qInjections": _finite_or_null(q),
+            "sFlows": _finite_or_null(s),
+            "socStorage": _finite_or_null(soc),
+            "pPotential": _finite_or_null(p_potential),
+            "vMagn": _finite_or_null(bus_v_magn),
+            "reward": _finite_or_null(costs),
             "networkCollapsed": network_collapsed,
         }
     )
@@ -165,6 +166,11 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
     return
 
 
+def _finite_or_null(values):
+    """Replace non-finite values (e.g., after a network collapse), which JSON does not support."""
+    return [v if math.isfinite(v) else None for v in values]
+
+
 def close(http_server, ws_server):
     """
     Terminate the parallel processes running the HTTP and WebSocket servers.
-- 
2.43.0


From 5e5689d05107e05e479815cfec880a3556db8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 20/24] fix: reject negative indices of auxiliary variables in
 the observation space

---
 gym_anm/envs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index e54872a..1e82290 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -99,7 +99,7 @@ def _check_observation_vars(observation, state_bounds, K):
             pass
         elif key == "aux":
             for n in nodes:
-                if n >= K:
+                if n < 0 or n >= K:
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
         elif isinstance(nodes, list):
             for n in nodes:
-- 
2.43.0


From 32c3157314f8f70e5e36dc43cd6c3ebcf886d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 21/24] fix: no NaN power injection when PMAX, PMIN, QMAX, or
 QMIN of a device is not specified

---
 gym_anm/simulator/components/devices.py | 34 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 6b3eec9..22f6a79 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -278,11 +278,11 @@ class Generator(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = _get_slope(self.q_plus, self.q_max, self.p_max - self.p_plus)
+            self.tau_2 = _get_slope(self.q_minus, self.q_min, self.p_max - self.p_plus)
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = _get_offset(self.q_max, self.tau_1, self.p_plus)
+        self.rho_2 = _get_offset(self.q_min, self.tau_2, self.p_plus)
 
     def map_pq(self, p, q):
         """
@@ -432,21 +432,21 @@ class StorageUnit(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            self.tau_1 = _get_slope(self.q_plus, self.q_max, self.p_max - self.p_plus)
+            self.tau_2 = _get_slope(self.q_minus, self.q_min, self.p_max - self.p_plus)
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        self.rho_1 = _get_offset(self.q_max, self.tau_1, self.p_plus)
+        self.rho_2 = _get_offset(self.q_min, self.tau_2, self.p_plus)
 
         if self.p_min == self.p_minus:
             self.tau_3 = 0.0
             self.tau_4 = 0.0
         else:
-            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min)
-            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min)
+            self.tau_3 = _get_slope(self.q_min, self.q_minus, self.p_minus - self.p_min)
+            self.tau_4 = _get_slope(self.q_max, self.q_plus, self.p_minus - self.p_min)
 
-        self.rho_3 = self.q_min - self.tau_3 * self.p_minus
-        self.rho_4 = self.q_max - self.tau_4 * self.p_minus
+        self.rho_3 = _get_offset(self.q_min, self.tau_3, self.p_minus)
+        self.rho_4 = _get_offset(self.q_max, self.tau_4, self.p_minus)
 
         self.soc_min = dev_spec[DEV_H["SOC_MIN"]]
         if self.soc_min is None:
@@ -550,3 +550,13 @@ class StorageUnit(Device):
 
         # Clip the new state of charge to be in [soc_min, soc_max].
         self.soc = np.clip(self.soc, self.soc_min, self.soc_max)
+
+
+def _get_slope(q_1, q_2, delta_p):
+    """Slope of a constraint on Q going from q_2 to q_1 (0 if both are equal, even if infinite)."""
+    return (q_1 - q_2) / delta_p if q_1 != q_2 else 0.0
+
+
+def _get_offset(q, tau, p):
+    """Offset of the constraint on Q of slope tau going through (p, q), where p may be infinite if tau is 0."""
+    return q - tau * p if tau != 0 else q
-- 
2.43.0


From f4d4109abb668c961fabad10cf886b72088608fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 22/24] fix: raise DeviceSpecError or BusSpecError for an
 unknown device type or an absent device type, bus type, or bus ID

---
 gym_anm/simulator/components/bus.py | 3 +++
 gym_anm/simulator/simulator.py      | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index 56b41ba..a709131 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -40,6 +40,9 @@ class Bus(object):
             The corresponding bus row in the network file describing the network.
         """
 
+        if bus_spec[BUS_H["BUS_ID"]] is None or bus_spec[BUS_H["BUS_TYPE"]] is None:
+            raise BusSpecError("The BUS_ID and BUS_TYPE values of a bus cannot be None.")
+
         self.id = int(bus_spec[BUS_H["BUS_ID"]])
         self.type = int(bus_spec[BUS_H["BUS_TYPE"]])
         self.baseKV = bus_spec[BUS_H["BASE_KV"]]
diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index b7f6c4c..306a0b6 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -6,6 +6,7 @@ from logging import getLogger
 
 from .components import Load, TransmissionLine, ClassicalGen, StorageUnit, RenewableGen, Bus, Generator
 from .components.constants import DEV_H
+from .components.errors import DeviceSpecError
 from . import check_network
 from . import solve_load_flow
 
@@ -133,7 +134,7 @@ class Simulator(object):
 
         Raises
         ------
-        NoImplementedError
+        DeviceSpecError
             When the feature DEV_TYPE of a device is not valid.
         """
 
@@ -156,7 +157,7 @@ class Simulator(object):
 
         devices = {}
         for dev_spec in network["device"]:
-            dev_type = int(dev_spec[DEV_H["DEV_TYPE"]])
+            dev_type = dev_spec[DEV_H["DEV_TYPE"]]
 
             if dev_type == -1:
                 dev = Load(dev_spec, bus_ids, baseMVA)
@@ -171,7 +172,7 @@ class Simulator(object):
                 dev = StorageUnit(dev_spec, bus_ids, baseMVA)
 
             else:
-                raise NotImplementedError
+                raise DeviceSpecError("Device {} has an invalid DEV_TYPE value {}.".format(dev_spec, dev_type))
 
             devices[dev.dev_id] = dev
 
-- 
2.43.0


From c98dcc531db081f09e00ed8b657ff7b0a4172a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 23/24] fix: report no convergence instead of crashing when the
 Jacobian cannot be factorized

---
 gym_anm/simulator/solve_load_flow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 1b6ea9c..1764ee8 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -227,7 +227,10 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100, v_slack=
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        try:
+            v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        except RuntimeError:  # the Jacobian cannot be factorized (e.g., it contains NaNs)
+            break
         F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
-- 
2.43.0


From 2d5c84a33ee5eccf74301a59188aaea22d83c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 24/24] fix: the calendar date advances by exactly one time
 step, also when it is not a whole number of minutes (ANM6)

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 424b09b..1cdc2fc 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=float(delta_t))
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0

